"""P22: serial and multi-threaded configurations run the same algorithm.
The conditional regions that depend on the threading macros are read from the sources; the entry
points and the use of thread numbers are read from the compiled form of both configurations."""
import os, re, glob
from lib import *

RULE = ('regions compiled only with (or only without) threading support contain includes, pragmas and thread queries only; every value '
        'queried has a serial stand-in with number 0 / count 1 under the same name; both configurations define the same entry points; '
        'per-thread slots are sized by the maximal thread count, and ranges cut by thread number tile the whole range')
ASSUME = ['the two configurations differ only in the macros ENABLE_OPENMP, __OPENMP__, _OPENMP and in the OpenMP pragmas']
MAC = ('ENABLE_OPENMP', '__OPENMP__', '_OPENMP')
NUM = {'omp_get_thread_num'}
CNT = {'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_num_procs', 'omp_get_thread_limit'}
OTHER = {'omp_get_wtime', 'omp_get_wtick', 'omp_set_num_threads', 'omp_set_dynamic', 'omp_set_nested', 'omp_set_max_active_levels', 'omp_get_level', 'omp_in_parallel'}

def strip(s):
    s = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), s, flags=re.S)
    return re.sub(r'//[^\n]*', '', s)

def dead_zero(lines):
    """blank out #if 0 regions and SPMP-only code (never part of either configuration)"""
    out = []; st = []
    for l in lines:
        m = re.match(r'\s*#\s*(ifdef|ifndef|if|elif|else|endif)\b(.*)', l)
        if m:
            d, a = m.group(1), m.group(2).strip()
            if d in ('if', 'ifdef', 'ifndef'):
                st.append(d == 'if' and a == '0' or d == 'ifdef' and a in ('SPMP', 'MKL', 'SYM_PROFILE'))
            elif d == 'endif' and st: st.pop()
            elif d in ('else', 'elif') and st: st[-1] = False if st[-1] else st[-1]
        out.append('' if any(st) and not m else l)
    return out

def regions(path):
    """(line, macro sense, text with threading, text without)"""
    lines = dead_zero(strip(open(path, errors='replace').read()).split('\n'))
    st = []; out = []
    for no, l in enumerate(lines, 1):
        m = re.match(r'\s*#\s*(ifdef|ifndef|if|elif|else|endif)\b(.*)', l)
        if m:
            d, a = m.group(1), m.group(2).strip()
            if d in ('if', 'ifdef', 'ifndef'):
                mac = any(re.search(r'\b%s\b' % x, a) for x in MAC)
                pos = d == 'ifdef' or d == 'if' and not re.search(r'!\s*(defined)?', a)
                st.append([no, mac, pos, [], [], 0])
                continue
            if d in ('else', 'elif') and st: st[-1][5] = 1; continue
            if d == 'endif' and st:
                x = st.pop()
                if x[1]:
                    a_, b_ = x[3], x[4]
                    if not x[2]: a_, b_ = b_, a_
                    out.append((x[0], a_, b_))
                continue
        for x in st:
            if x[1]: x[4 if x[5] else 3].append((no, l))
    return out

STMT = re.compile(r'^(?:(?P<decl>(?:const |static |inline |unsigned |auto |int |size_t |double |constexpr )*)(?P<name>\w+) ?(?P<eq>=|\+=) ?)?(?P<call>[\w:.\- ]+)(?P<par>\(.*\))?$')

def parse(text):
    """list of (line, kind, name, value) ; kind: query / const / plain / other"""
    out = []
    buf = ''; start = None
    stmts = []
    fn = None
    for no, l in text:
        s = l.strip()
        if not s: continue
        if s.startswith('#'):
            m = re.match(r'#\s*define\s+(\w+)(?:\s*\(\s*\))?\s+(.*)', s)
            if m: stmts.append((no, m.group(1) + ' = ' + m.group(2).strip('() ') + ('()' if m.group(2).strip().endswith('()') else '')))
            elif re.match(r'#\s*(include|pragma\s+omp)\b', s): pass
            elif re.match(r'#\s*(if|ifdef|ifndef|else|elif|endif|undef)\b', s): pass
            else: stmts.append((no, '?' + s))
            continue
        if not buf.strip(): start = no
        buf += ' ' + s
        while True:
            m = re.search(r'[;{}]', buf)
            if not m: break
            t = buf[:m.start()].strip(); c = m.group()
            buf = buf[m.end():]
            if c == '{':
                q = re.match(r'^(?:[\w:&\*<> ]+ )?(\w+) ?\( ?(?:void)? ?\)$', t)
                if q: fn = q.group(1)
                elif t: stmts.append((start, '?' + t))
            elif t:
                if t.startswith('return') and fn: t = fn + ' = ' + t[6:].strip()
                stmts.append((start, t))
            if c == '}': fn = None
    if buf.strip(): stmts.append((start, '?' + buf.strip()))
    for no, t in stmts:
        t = re.sub(r'\s+', ' ', t)
        m = re.match(r'^(?:[\w:&\*]+ )*?(\w+) ?= ?\(?(?:int|size_t|unsigned)?\)? ?([\w:]+) ?\( ?\)$', t)
        if m and m.group(2).split('::')[-1].startswith('omp_'): out.append((no, 'query', m.group(1), m.group(2))); continue
        m = re.match(r'^return (omp_\w+) ?\( ?\)$', t)
        if m: out.append((no, 'query', 'return', m.group(1))); continue
        m = re.match(r'^(?:[\w:&\*]+ )*?(\w+) ?(?:=|\{|\() ?(-?\d+)[uUlL]* ?[\})]?$', t)
        if m: out.append((no, 'const', m.group(1), int(m.group(2)))); continue
        m = re.match(r'^return (-?\d+)$', t)
        if m: out.append((no, 'const', 'return', int(m.group(1)))); continue
        m = re.match(r'^(omp_\w+) ?\(.*\)$', t)
        if m and m.group(1) in OTHER: out.append((no, 'plain', m.group(1), None)); continue
        if re.match(r'^(using namespace \w+|extern "C")$', t): continue
        if re.match(r'^(?:const |static |unsigned )*(?:int|size_t|auto|double|bool) (\w+)$', t): continue        # declaration only
        out.append((no, 'other', None, t.lstrip('?')))
    return out

def check(ctx, r):
    files = []
    for p in ('src/**/*.cpp', 'src/**/*.h', 'include/**/*.h', 'utils/**/*.cpp', 'utils/**/*.h', 'example/sptrsv_src/**/*.cpp', 'example/sptrsv_src/**/*.h'):
        files += sorted(glob.glob(os.path.join(ctx.root, p), recursive=True))
    for f in files:
        rel = os.path.relpath(f, ctx.root)
        src = strip(open(f, errors='replace').read()).split('\n')
        for line, a, b in regions(f): region(r, rel, line, a, b, enclosing(src, line))
        r.n('source files')
    S, O = ctx.prog('ser'), ctx.prog('omp')
    pub = lambda P: {f.dem for f in P.fns.values() if f.file and 'omp' not in f.name.split('.')[-1] and '.omp' not in f.name and not f.dem.startswith(('__', 'std::', 'void std::', '_GLOBAL'))
                     and f.j.get('linkage', 'external') not in ('internal',)}
    s, o = pub(S), pub(O)
    for d in sorted(s ^ o):
        if re.search(r'omp_|\.omp|__clang|_omp', d): continue
        r.v('entry:' + d.split('(')[0], 'library', 'the routine %s exists only in the %s configuration' % (d, 'serial' if d in s else 'multi-threaded'))
    r.n('entry points', len(s & o))
    threads(O, r)
    r.need('source files', 20); r.need('entry points', 60)

def enclosing(src, line):
    for k in range(line - 2, -1, -1):
        m = re.match(r'^\s*(?:static |inline |const |unsigned )*(?:void|int|double|bool|size_t|CSC \*|CSR \*|[A-Z]\w+\s*[\*&]?)\s*\*?(\w+)\s*\([^;]*$', src[k])
        if m: return m.group(1)
    return ''

def region(r, rel, line, a, b, fn=''):
    r.n('conditional regions')
    A, B = parse(a), parse(b)
    fnkey = '%s:%s' % (rel, fn)
    names = {}
    for no, k, n, v in A:
        if k == 'query': names[n] = v; r.n('thread queries')
        elif k == 'plain': pass
        elif k == 'const': r.v('%s:%s:only-threads' % (fnkey, n), '%s:%d' % (rel, no), '%s is set to a fixed value in the multi-threaded configuration only' % n)
        else: r.v('%s:%s:only-threads' % (fnkey, v[:40]), '%s:%d' % (rel, no), 'this runs only in the multi-threaded configuration: %s' % v[:100])
    std = {n: ('omp_get_thread_num' if n == 'omp_get_thread_num' else n) for n in NUM | CNT}
    got = {}
    for no, k, n, v in B:
        if k == 'const':
            q = names.get(n, std.get(n)); got[n] = v
            if q is None:
                r.v('%s:%s:only-serial' % (fnkey, n), '%s:%d' % (rel, no), '%s is set in the serial configuration only' % n); continue
            q = q.split('::')[-1]
            r.n('serial stand-ins')
            if q in NUM and v != 0: r.v('%s:%s=%d' % (fnkey, n, v), '%s:%d' % (rel, no), 'the serial stand-in for the thread number %s is %d; the only thread has number 0' % (n, v))
            if q in CNT and v != 1: r.v('%s:%s=%d' % (fnkey, n, v), '%s:%d' % (rel, no), 'the serial stand-in for the thread count %s is %d' % (n, v))
        elif k == 'plain': r.v('%s:%s:only-serial' % (fnkey, n), '%s:%d' % (rel, no), 'threading call in the serial configuration')
        elif k == 'query': r.v('%s:%s:only-serial' % (fnkey, n), '%s:%d' % (rel, no), 'thread query in the serial configuration')
        else: r.v('%s:%s:only-serial' % (fnkey, v[:40]), '%s:%d' % (rel, no), 'this runs only in the serial configuration: %s' % v[:100])

def calls(f, names):
    return [i for i in f.instrs() if i.op in ('call', 'invoke') and (i.callee or '') in names]

def has(e, x):
    return mentions(e, lambda t: t == x)

def subst(e, x, y):
    if e == x: return y
    if not isinstance(e, tuple): return e
    if e and e[0] == 'lin':
        out = C(e[1])
        for a, c in e[2]: out = add(out, scale(subst(a, x, y), c))
        return out
    if e and e[0] == 'mul': return mul(subst(e[1], x, y), subst(e[2], x, y))
    return tuple(subst(t, x, y) if isinstance(t, tuple) else t for t in e)

def threads(O, r):
    for f in O.fns.values():
        if not f.file: continue
        par = 'omp_outlined' in f.name
        for i in calls(f, {'omp_get_num_threads'}):
            if not par and f.users.get(i.id):
                r.v('%s:count-outside' % f.short, i.where(), 'the thread count is queried outside the parallel region, where it is always one')
        ts = calls(f, NUM)
        for t in ts:
            T = f.expr(t.id)
            # slots
            for i in f.instrs():
                if i.op in ('load', 'store'):
                    a = f.expr(i.ops[-1] if i.op == 'store' else i.ops[0])
                    b, idx = split_elem(a)
                    if a[0] == 'elem' and has(idx, T):
                        r.n('per-thread slots')
            # ranges cut by thread number: values multiplied with the thread number
            starts = set()
            for i in f.instrs():
                if i.op in ('mul', 'sdiv', 'udiv', 'shl', 'add'):
                    e = deep(f, f.expr(i.id))
                    if has(e, T) and mentions(e, lambda t: t[0] in ('mul', 'sdiv', 'udiv')): starts.add(e)
            if not starts: continue
            r.n('ranges cut by thread number')
            cnts = calls(f, CNT)
            if not any(has(e, f.expr(c.id)) and c.callee == 'omp_get_num_threads' for e in starts for c in cnts):
                r.v('%s:chunk-count' % f.short, t.where(), 'the range is cut by the thread number but not by the number of threads of the team')
                continue
            s0 = [e for e in starts if subst(e, T, C(0)) == C(0) or zero(subst(e, T, C(0)))]
            ok = False
            for s in s0:
                nxt = subst(s, T, add(T, C(1)))
                if nxt in starts: ok = True; break
            if not ok:
                r.v('%s:chunk-gap' % f.short, t.where(), 'the end of one thread\'s range is not the start of the next thread\'s range'); continue
            # the end reaches the end of the whole range
            if s[0] == 'mul' and any(x[0] in ('sdiv', 'udiv') for x in s[1:]):
                q = next(x for x in s[1:] if x[0] in ('sdiv', 'udiv'))
                total, cnt = q[1], q[2]
                fin = False
                for i in f.instrs():
                    if i.op in ('phi', 'select'):
                        vals = [deep(f, f.expr(o)) for o in (i.ops[-2:] if i.op == 'select' else i.ops)]
                        if nxt in vals and total in vals:
                            fin = last_thread(f, i, T, cnt, total)
                if not fin:
                    r.v('%s:chunk-last' % f.short, t.where(), 'the remainder of the range is not given to the last thread')

def zero(e):
    return e == C(0) or e[0] == 'mul' and C(0) in e or e[0] in ('sdiv', 'udiv') and zero(e[1])

def last_thread(f, i, T, cnt, total):
    """total is taken exactly when T == cnt-1"""
    def good(c):
        c = deep(f, c)
        return c[0] == 'cmp' and c[1] == 'eq' and sub(c[2], c[3]) in (sub(T, sub(cnt, C(1))), sub(sub(cnt, C(1)), T))
    if i.op == 'select':
        c = f.expr(i.ops[0])
        return good(c) and deep(f, f.expr(i.ops[1])) == total or good(neg(c)) and deep(f, f.expr(i.ops[2])) == total
    for o, b in zip(i.ops, i.inc):
        if deep(f, f.expr(o)) == total:
            for a, k in f.cdeps(b):
                t = f.blocks[a].term
                if t.op == 'br' and t.ops:
                    c = f.expr(t.ops[0])
                    if k == 1: c = neg(c)
                    if good(c): return True
            # the edge itself
            t = f.blocks[b].term
            if t.op == 'br' and t.ops:
                c = f.expr(t.ops[0])
                if f.blocks[b].succ[1] == i.blk: c = neg(c)
                if good(c): return True
    return False
