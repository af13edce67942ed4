"""Failures reach the caller."""
from ir import *
from lib import *
from checks import p06, p07
LEVEL = 'other'
RULE = ("Result-code dataflow. Fallible operations are fopen, the stream constructors, the METIS calls, every repository routine one of whose returns is a failure code, and every catch handler. For each "
        "call to one, all control-flow paths that follow it are explored with its result fixed to each failure value in turn (branch conditions over the result, also through flags, selects and "
        "merged values, are decided; others go both ways): no such path may come to a normal return of the caller, nor use the missing file. Handing the code on - as the return value, through a "
        "result argument - or throwing is reporting. No library routine calls exit, abort or the like, and none throws out of an OpenMP region. Routines whose contract is to report failure still have a failure return.")
ASSUME = ["memory allocation does not fail silently (operator new throws; malloc results are not examined)",
          "a null result for an argument outside a routine's documented domain is not a failure code",
          "assertions are compiled out: a result looked at only by an assertion counts as ignored"]
FATAL = {'exit', '_exit', 'abort', 'quick_exit', '_Exit', 'raise', 'kill', 'system', '_ZSt9terminatev', 'execv', 'execl'}
EXT = {'fopen': ['null'], 'fopen64': ['null'], 'freopen': ['null'], 'METIS_NodeND': [-4, -3, -2], 'METIS_PartGraphKway': [-4, -3, -2], 'METIS_PartGraphRecursive': [-4, -3, -2],
       'METIS_MeshToDual': [-4, -3, -2], 'METIS_MeshToNodal': [-4, -3, -2], 'amd_order': [-1, -2], 'fgets': ['null'], 'fscanf': [-1, 0], '__isoc99_fscanf': [-1, 0], '__isoc23_fscanf': [-1, 0], 'std::rename': [-1]}
CAP = 60000

def is_call(i): return i.op in ('call', 'invoke')

# ------------------------------------------------------------- what can fail, and with which values
def pure(P, f, seen=()):
    """no store except to its own locals, no call that could do anything"""
    for i in f.instrs():
        if i.op == 'store' and (root_of(f.expr(i.ops[1])) or [None])[0] not in ('alloca', 'heap'): return False
        if is_call(i):
            c = i.callee or ''
            if c.startswith('llvm.') or c in ('tolower', 'toupper', 'strcmp', 'strncmp', '_Znam', '_Znwm', '_ZdaPv', '_ZdlPv', '_ZdlPvm'): continue
            if not c.startswith(('_ZSt', '_ZNSt', '_ZNKSt', '_Znw', '_Zna', '_Zd', 'llvm.', 'fabs', 'sqrt')) and c not in P.fns: return False
            g = P.fns.get(c)
            if g is None: continue
            if False or g.name in seen or not pure(P, g, seen + (f.name,)): return False
    return True

def leaves(f, v, d=0, seen=()):
    """the single values a returned expression can be"""
    if v is None or d > 6: return [v]
    if v[0] == 'sel': return leaves(f, v[2], d + 1, seen) + leaves(f, v[3], d + 1, seen)
    if v[0] in ('phi', 'bphi') and v[1] in f.vals and v[1] not in seen and f.vals[v[1]].blk not in f.hdr:
        i = f.vals[v[1]]
        return [x for o, p in zip(i.ops, i.inc) if p in f.reach for x in leaves(f, f.expr(o), d + 1, seen + (v[1],))]
    return [v]

def null_args_only(f, b):
    """this block is only reached because an argument is null"""
    cs = [(f.blocks[a].term, k) for a, k in f.cdeps(b)]
    def t(c): return c[0] == 'cmp' and c[1] in ('eq', 'ne') and ('null',) in c[2:] and any(x[0] == 'arg' for x in c[2:])
    def tests(c):
        if c[0] == 'not': return tests(c[1])
        if c[0] == 'sel': return all(tests(x) for x in c[1:] if x[0] != 'c')
        if c[0] in ('or', 'and'): return all(tests(x) for x in c[1:] if x[0] != 'c')
        if c[0] in ('phi', 'bphi'): return all(tests(x) for x in leaves(f, c) if x != c and x[0] != 'c') 
        return t(c)
    return bool(cs) and all(T.ops and tests(f.expr(T.ops[0])) for T, k in cs)

def fails(P):
    """routine -> values it returns on failure"""
    F = {}
    for n in range(4):
        for f in P.fns.values():
            if not p07.repo(f) or f.short == 'main' or f.ret not in ('i1', 'i8', 'i32', 'i64'): continue
            rs = [(p, b, w) for p, b, v in p06.returns(f) for w in leaves(f, v)]; vals = set()
            for p, b, v in rs:
                if v is None or v[0] == 'null': continue
                up = v[0] == 'call' and (F.get(callee_of(f, v)) or EXT.get(callee_of(f, v) or ''))
                if up: vals |= set(up); continue
                if null_args_only(f, p or b): continue
                if p06.failure(f, rs, v, p): vals.add(v[1] if v[0] == 'c' else -1)
            consts = {x for _, _, x in rs}
            if all(x is not None and x[0] == 'c' for x in consts) and pure(P, f): continue     # a predicate or lookup
            if vals: F[f.name] = vals
    return F

def callee_of(f, v):
    i = f.vals.get(v[2]) if len(v) == 3 else None
    return i.callee if i is not None and is_call(i) else None

# ------------------------------------------------------------- exploring what follows a failed call
class Run:
    def __init__(s, P, F, f, site, val, ok=lambda: False):
        s.P = P; s.F = F; s.f = f; s.site = site; s.val = val; s.bad = None; s.gave_up = False
        s.rs = p06.returns(f); s.taint = s.tainted()
    def tainted(s):
        t = {s.site.id}; st = [s.site.id]
        while st:
            for u in s.f.users.get(st.pop(), []):
                if u.op in ('icmp', 'phi', 'select', 'zext', 'sext', 'trunc', 'freeze', 'xor', 'and', 'or', 'add', 'sub', 'mul') and u.id not in t: t.add(u.id); st.append(u.id)
                if u.op == 'store' and u.ops[0] in t and isinstance(u.ops[1], str) and u.ops[1] in s.f.vals and s.f.vals[u.ops[1]].op == 'alloca':
                    for w in s.f.users.get(u.ops[1], []):
                        if w.op == 'load' and w.id not in t: t.add(w.id); st.append(w.id)
        return t
    def ev(s, r, env):
        if not isinstance(r, str):
            if r[0] == 'c': return r[1]
            if r[0] == 'null': return 'null'
            return None
        if r in env: return env[r]
        i = s.f.vals.get(r)
        if i is None: return None
        if i.op in ('zext', 'sext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr'):
            v = s.ev(i.ops[0], env)
            if i.op == 'zext' and v is not None and v != 'null' and v < 0: v = 1 if s.src1(i) else v
            if i.op == 'sext' and s.src1(i) and v == 1: v = -1
            return v
        if i.op == 'icmp':
            a, b = s.ev(i.ops[0], env), s.ev(i.ops[1], env)
            if a is None or b is None: return None
            if 'null' in (a, b):
                if a == b: return 1 if i.pred in ('eq', 'uge', 'ule') else 0
                return None
            if i.pred[0] == 'u' and (a < 0 or b < 0): a %= 1 << 64; b %= 1 << 64
            return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[i.pred])
        if i.op == 'select':
            c = s.ev(i.ops[0], env)
            if c is None: return None
            return s.ev(i.ops[1 if c else 2], env)
        if i.op in ('xor', 'and', 'or', 'add', 'sub', 'mul'):
            a, b = s.ev(i.ops[0], env), s.ev(i.ops[1], env)
            if i.ty == 'i1':
                a = None if a is None else a & 1; b = None if b is None else b & 1
                if i.op == 'and' and 0 in (a, b): return 0
                if i.op == 'or' and 1 in (a, b): return 1
            if a is None or b is None or 'null' in (a, b): return None
            v = {'xor': a ^ b, 'and': a & b, 'or': a | b, 'add': a + b, 'sub': a - b, 'mul': a * b}[i.op]
            return v & 1 if i.ty == 'i1' else v
        return None
    def src1(s, i):
        o = i.ops[0]
        return isinstance(o, str) and o in s.f.vals and s.f.vals[o].ty == 'i1'
    def run(s, start, pos, env):
        f = s.f; n = 0; seen = set(); st = [(start, pos, env)]
        while st and not s.bad:
            b, pos, env = st.pop(); n += 1
            if n > CAP: s.gave_up = True; return
            B = f.blocks[b]; env = dict(env); end = False
            for i in B.ins[pos:]:
                if i.op == 'store':
                    p = i.ops[1]
                    v = s.ev(i.ops[0], env)
                    if isinstance(p, str) and p in f.vals and f.vals[p].op == 'alloca': env['*' + p] = v
                    elif (isinstance(i.ops[0], str) and i.ops[0] in s.taint or v is not None and v != 'null' and v < 0) and reaches_arg(f, f.expr(p)): end = True; break
                elif i.op == 'load':
                    p = i.ops[0]
                    if isinstance(p, str) and env.get('*' + p) is not None: env[i.id] = env['*' + p]
                elif is_call(i):
                    c = i.callee or ''
                    if p06.ends(c) or c in FATAL: end = True; break
                    if s.val == 'null':
                        if any(isinstance(o, str) and s.ev(o, env) == 'null' and o in s.taint for o in i.ops) and not c.startswith('llvm.') and c not in ('free', '_ZdlPv', '_ZdaPv'):
                            s.bad = (i.where(), 'is used although opening it may have failed'); return
                    g = s.P.fns.get(i.callee or '')
                    if g is not None and any(o in s.taint for o in i.ops if isinstance(o, str)) and handles(s, g, [k for k, o in enumerate(i.ops) if isinstance(o, str) and o in s.taint]): end = True; break
                    for o in i.ops:
                        if isinstance(o, str) and '*' + o in env: env.pop('*' + o)
                    if i is s.site: end = True; break       # tried again
            if end: continue
            T = B.term
            if T.op == 'unreachable': continue
            if T.op == 'resume': continue
            if T.op == 'ret':
                known = [t for t in s.rs if t[1] == b and (t[0] is None or t[0] == env.get('@'))]
                if not known: known = [(None, b, None)]      # a return only a handler leads to
                for p, bb, v in known:
                    o = T.ops[0] if T.ops else None
                    k = s.ev(o, env) if o is not None else None
                    if s.reports(o, v, k, p): continue
                    s.bad = (T.where() if p is None else f.blocks[p].term.where(), 'goes on to a normal return'); return
                continue
            succ = list(B.succ)
            if T.op == 'invoke': succ = succ[:1]
            elif T.op == 'br' and len(succ) == 2 and T.ops:
                c = s.ev(T.ops[0], env)
                if c is not None: succ = [succ[0 if c & 1 else 1]]
            elif T.op == 'switch' and T.ops and isinstance(T.ops[0], str):
                c = s.ev(T.ops[0], env)
                cs = T.j.get('cases')
                if c is not None and cs is not None:
                    hit = [t for k, t in cs if k == c]
                    succ = hit or succ[:1]
            for t in succ:
                e2 = {k: v for k, v in env.items()}
                for i in f.blocks[t].ins:
                    if i.op != 'phi': break
                    e2.pop(i.id, None)
                for i in f.blocks[t].ins:
                    if i.op != 'phi': break
                    for o, p in zip(i.ops, i.inc):
                        if p == b and (i.id in s.taint or t not in f.hdr):
                            v = s.ev(o, env)
                            if v is not None: e2[i.id] = v
                e2['@'] = b
                key = (t, frozenset((k, v) for k, v in e2.items() if (k != '@' or f.blocks[t].term.op == 'ret') and keep(s, k)))
                if key in seen: continue
                seen.add(key); st.append((t, 0, e2))
    def reports(s, o, v, k, p):
        """this return value tells the caller about the failure"""
        if o is None: return False
        f = s.f
        if v is None and isinstance(o, str) and o in f.vals and f.vals[o].op == 'phi':
            v = None
            if k is None: return False
            return k in s.F.get(f.name, ()) or p06.failure(f, s.rs, C(k), None)
        if v is not None and v[0] == 'null': return True
        if k == 'null': return True
        if isinstance(o, str) and o in s.taint and k is not None:
            if s.f.ret == 'i1' and k == 1 : return False
            return p06.failure(f, s.rs, C(k), None) or k in s.F.get(f.name, ()) or k == s.val
        if k is not None and (k in s.F.get(f.name, ())): return True
        if v is not None and v[0] == 'call' and s.F.get(callee_of(f, v)): return False
        return p06.failure(f, s.rs, v, p)

def keep(s, k):
    if k == '@': return True
    if k in s.taint: return True
    return k[0] == '*' or any(u.op in ('br', 'icmp', 'xor', 'and', 'or', 'select', 'ret', 'phi') for u in s.f.users.get(k, []))

def reaches_arg(f, e):
    r = root_of(e)
    while r and r[0] == 'ld': r = root_of(r[1])
    return r and r[0] == 'arg'

def handles(s, g, ks, d=0):
    """a helper given the code throws or ends on it (a require(status) helper)"""
    for k in ks:
        if k >= len(g.args): continue
        q = Run.__new__(Run); q.P = s.P; q.F = s.F; q.f = g; q.val = s.val; q.bad = None; q.gave_up = False; q.rs = p06.returns(g)
        class S: pass
        q.site = S(); q.site.id = g.args[k]['id']
        q.taint = q.tainted()
        q.run(g.entry, 0, {g.args[k]['id']: s.val})
        if not q.bad and not q.gave_up: return True
    return False

def same_args(g, i):
    """g can be what this call through a function object runs: its parameter types are the ones of the call"""
    a = i.cdem or ''
    if 'std::function<' not in a: return len(g.args) == len(i.ops)
    return a.rsplit('operator()(', 1)[-1].rsplit(')', 1)[0] == g.dem.split('(', 1)[-1].rsplit(')', 1)[0]

def after(i):
    """where execution continues once the call has returned"""
    f = i.fn
    if i.op == 'invoke': return f.blocks[i.blk].succ[0], 0
    return i.blk, i.pos + 1

# ------------------------------------------------------------- files written
def written(P, F, r, f, i, n):
    """an unlooked-at print to a file this routine opened: its error indicator must be consulted before a normal return"""
    if i.id and f.users.get(i.id): return
    o = i.ops[1 if n in ('fputs', 'fputc') else 3 if n == 'fwrite' else 0]
    if not any(x[0] == 'call' and x[1] in ('fopen', 'fopen64') for x in leaves(f, f.expr(o))): return
    r.n('prints to files')
    q = Run(P, F, f, i, 'print')
    tests = {u.id: 1 for u in f.instrs() if is_call(u) and u.callee == 'ferror'}
    q.taint = set()
    for t in tests:
        q.site = f.vals[t]; q.taint |= q.tainted()
    q.site = i
    b, p = after(i); q.run(b, p, dict(tests))
    if q.bad and not q.gave_up: r.v('%s:%s' % (f.dem.split('(')[0], n), i.where(), 'when this print fails the routine %s (%s)' % (q.bad[1], q.bad[0]))
    for u in f.instrs():
        if is_call(u) and u.callee == 'fclose' and (u.id, 'c') not in r.__dict__.setdefault('_closed', set()):
            r._closed.add((u.id, 'c'))
            q = Run(P, F, f, u, -1); b, p = after(u); q.run(b, p, {u.id: -1})
            if q.bad and not q.gave_up: r.v('%s:fclose' % f.dem.split('(')[0], u.where(), 'when closing the written file fails the routine %s (%s)' % (q.bad[1], q.bad[0]))

# ------------------------------------------------------------- streams
OPENS = ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream')
def open_site(i):
    d = i.cdem or ''
    return is_call(i) and any(o in d for o in OPENS) and ('::basic_ifstream(' in d or '::basic_ofstream(' in d or '::basic_fstream(' in d or '::open(' in d) and ('char const' in d or 'basic_string' in d) and 'allocator' not in d.split('(')[0]

GOOD = ('is_open', 'good', 'operator bool')
BADT = ('fail', 'bad', 'operator!')
def stream_tests(f, i):
    """calls that look at the state of the same stream: {id: value when the stream did not open}"""
    base = root_of(f.expr(i.ops[0])) if i.ops else None
    out = {}; reads = False
    for u in f.instrs():
        if not is_call(u) or not u.ops: continue
        n = short_of(u.cdem or '')
        d = u.cdem or ''
        if n in GOOD + BADT or d.endswith('operator bool() const'):
            if touches(f, u.ops[0], base): out[u.id] = 1 if n in BADT else 0
        elif 'operator>>' in d or 'getline' in d or 'operator<<' in d or n in ('write', 'read', 'put'):
            if any(isinstance(o, str) and touches(f, o, base) for o in u.ops[:1]): reads = True
        elif u.callee in f.prog.fns and any(isinstance(o, str) and touches(f, o, base) for o in u.ops): reads = True
    return out, reads

def touches(f, o, base):
    e = f.expr(o)
    for _ in range(8):
        if e == base or root_of(e) == base: return True
        if e[0] == 'lin':
            e = e[2][0][0] if isinstance(e[2], tuple) and e[2] and isinstance(e[2][0], tuple) else e
        elif e[0] == 'elem': e = e[1]
        else: break
    return mentions(f.expr(o), lambda x: x == base)

def streams(P, F, r, f):
    for i in f.instrs():
        if not open_site(i): continue
        tests, used = stream_tests(f, i)
        if not used: continue
        r.n('fallible calls')
        q = Run(P, F, f, i, 'stream')
        q.taint = set(tests)
        b, p = after(i)
        q.run(b, p, dict(tests))
        if q.gave_up: continue
        if q.bad: r.v('%s:stream:%s' % (f.dem.split('(')[0], short_of(i.cdem or '')), i.where(), 'the file this stream was opened on may not exist, yet the routine %s (%s)' % (q.bad[1], q.bad[0]))

# ------------------------------------------------------------- handlers
def handlers(P, F, r, f):
    for i in (i for B in f.blocks.values() for i in B.ins):
        if not is_call(i) or i.callee != '__cxa_begin_catch': continue
        r.n('catch handlers')
        q = Run(P, F, f, i, 'caught')
        b, p = after(i); q.run(b, p, {})
        if q.bad: r.v('%s:catch' % f.dem.split('(')[0], i.where(), 'an exception caught here is swallowed: the routine %s (%s)' % (q.bad[1], q.bad[0]))

# ------------------------------------------------------------- contracts and threads
def contracts(P, F, r):
    """routines known to report failure (fallible.txt) still can"""
    import os
    names = {l.strip() for l in open(os.path.join(os.path.dirname(__file__), '..', 'fallible.txt')) if l.strip()}
    for f in P.fns.values():
        if not p07.repo(f) or f.dem.split('(')[0] not in names: continue
        r.n('failure contracts')
        if f.name in F or any(is_call(i) and i.callee == '__cxa_throw' for i in f.instrs()): continue
        r.v('%s:contract' % f.dem.split('(')[0], '%s:%s' % (P.relfile(f), f.fline), 'this routine reports failure through its result, but no return of it is a failure value any more')

def threads(ctx, r):
    """an exception leaving a parallel region ends the process"""
    P = ctx.prog('omp')
    def throws(f, seen):
        if f.name in seen: return None
        seen.add(f.name)
        if any(is_call(i) and i.callee == '__cxa_begin_catch' for i in f.instrs()): return None
        for i in f.instrs():
            if not is_call(i): continue
            if i.callee == '__cxa_throw': return i
            g = P.fns.get(i.callee or '')
            if g is not None and p07.repo(g):
                t = throws(g, seen)
                if t is not None: return t
        return None
    for f in P.outlined():
        r.n('parallel regions')
        t = throws(f, set())
        if t is not None: r.v('%s:throw' % f.short, t.where(), 'an exception thrown here leaves a parallel region, which ends the process')

def check(ctx, r):
    P = ctx.prog('ser')
    F = fails(P)
    contracts(P, F, r); threads(ctx, r)
    for f in P.fns.values():
        if not p07.repo(f) or f.short == 'main': continue
        lib = not P.relfile(f).startswith('example/')
        for i in f.instrs():
            if not is_call(i): continue
            c = i.callee or ''
            n = c if c in EXT else short_of(i.cdem or '') if (i.cdem or '') else c
            if lib and (c in FATAL or n in FATAL and c not in P.fns):
                r.v('%s:%s' % (f.dem.split('(')[0], n), i.where(), 'ends the process instead of reporting the failure')
            if n in ('fprintf', 'fputs', 'fputc', 'fwrite'): written(P, F, r, f, i, n)
            if 'std::function<' in (i.cdem or '') and '::operator()(' in i.cdem or i.callee is None:
                tg = {o[1] for u in f.instrs() for o in u.ops if not isinstance(o, str) and o[0] in ('f', 'g') and o[1] in F and True}
                tg = {t for t in tg if same_args(P.fns[t], i)}
                if tg: c = sorted(tg)[0]; n = P.fns[c].short
            vals = EXT.get(c) or EXT.get(n) or sorted(F.get(c, ()))
            if not vals or (c in P.fns and not p07.repo(P.fns[c])): continue
            r.n('fallible calls')
            for v in vals:
                r.n('failure values explored')
                q = Run(P, F, f, i, v)
                b, p = after(i)
                q.run(b, p, {i.id: v})
                if q.gave_up: r.n('explorations cut short'); continue
                if q.bad:
                    r.v('%s:%s' % (f.dem.split('(')[0], n), i.where(), 'when %s fails (%s) the routine %s (%s)' % (n, v, q.bad[1], q.bad[0]))
                    break
        streams(P, F, r, f)
        handlers(P, F, r, f)
        r.n('routines')
