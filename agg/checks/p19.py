"""Numbers read from files are validated before they are used."""
import re
from ir import *
from lib import *
from checks import p06, p07, p20
LEVEL = 'other'
RULE = ("Every number read from a file (scanf family, stream extraction) is followed along all control-flow paths after the read. (1) With the read reporting fewer items than it was asked for, or with the stream "
        "failed, no path may come to a normal return. (2) With a size set to a negative or an unrepresentably large number, and with an entry's row or column set to boundary values just outside "
        "its range (the row and column counts being known to be the ones read for this matrix), no path may accept it; the extreme valid values must be accepted. (3) With the type code set to a "
        "kind of matrix whose entries have another layout than the one read, no path may reach the read. (4) Text conversions are narrower than their buffers.")
ASSUME = ["a routine that reads entries without being told the dimensions hands out raw numbers, which its caller must check",
          "the row count precedes the column count, and an entry's row its column, as the Matrix Market format has it",
          "lengths of strings and getline are the standard library's affair"]
BIG = 1 << 40
IMAX = 2147483647
NUMT = {'int&': 'i', 'unsigned int&': 'i', 'long&': 'i', 'unsigned long&': 'i', 'short&': 'i', 'unsigned short&': 'i', 'long long&': 'i', 'unsigned long long&': 'i', 'double&': 'd', 'float&': 'd', 'long double&': 'd'}
is_call = p20.is_call
LIMIT = re.compile(r'^std::numeric_limits<((?:unsigned )?(?:int|long|long long|short|char))>::(max|min|lowest)\(\)$')
def limit(t, what):
    n = 31 if t.endswith('int') else 15 if 'short' in t else 7 if 'char' in t else 63
    if t[0] == 'u': return 0 if what != 'max' else (2 << n) - 1
    return (1 << n) - 1 if what == 'max' else -(1 << n)

# ------------------------------------------------------------- reads
class Read:
    def __init__(s, f, i, kind, items, src): s.f = f; s.i = i; s.kind = kind; s.items = items; s.src = src    # items: [(ref, letter, width)]

def scan_items(fmt):
    out = []
    for m in re.finditer(r'%(\*?)(\d*)(hh|h|ll|l|L|z|j|t)?([diouxXeEfgGaAcs\[n%p])', fmt):
        if m[4] == '%' or m[1]: continue
        out.append(('i' if m[4] in 'diouxX' else 'd' if m[4] in 'eEfgGaA' else m[4], int(m[2]) if m[2] else None))
    return out

def stream_root(f, o, d=0):
    e = f.expr(o) if isinstance(o, str) else None
    while e is not None and e[0] in ('elem', 'fld', 'arr'): e = e[1]
    if e is not None and e[0] == 'lin':
        for a, _ in e[2]:
            if a[0] in ('alloca', 'arg', 'call', 'heap'): e = a; break
    if e is not None and e[0] == 'call' and len(e) == 3 and d < 20:
        i = f.vals.get(e[2])
        if i is not None and is_call(i) and i.ops and 'operator>>' in (i.cdem or ''): return stream_root(f, i.ops[0], d + 1)
    return e

def reads(P, f):
    out = []
    for i in f.instrs():
        if not is_call(i): continue
        c = i.callee or ''
        m = re.match(r'^(?:__isoc99_|__isoc23_)?(f|s|)scanf$', c)
        if m:
            k = 1 if m[1] else 0
            fmt = i.ops[k]
            g = P.globals.get(fmt[1]) if not isinstance(fmt, str) and fmt[0] == 'g' else None
            if g is None or g.get('str') is None: continue
            it = scan_items(g['str'])
            tg = i.ops[k + 1:]
            if len(it) != len(tg): continue
            out.append(Read(f, i, 'sscanf' if m[1] == 's' else 'fscanf', [(t, a, w) for t, (a, w) in zip(tg, it)], None))
        elif 'operator>>' in (i.cdem or '') and len(i.ops) == 2:
            m = re.search(r'operator>>\((.*)\)$', i.cdem or '')
            t = NUMT.get(m[1]) if m else None
            if t: out.append(Read(f, i, 'stream', [(i.ops[1], t, None)], stream_root(f, i.ops[0])))
    return out

# ------------------------------------------------------------- walking the paths after a read
class Walk(p20.Run):
    def __init__(s, P, F, f, site, mem, env=None, stop=(), huge=False, depth=0, targets=(), site_ends=True):
        super().__init__(P, F, f, site, 0)
        s.mem = dict(mem); s.env0 = dict(env or {}); s.stop = set(stop); s.huge = huge; s.depth = depth; s.accepted = []; s.refused = 0; s.reached = []
        s.targets = set(targets); s.want = None; s.site_ends = site_ends
        s.home = f.loop(site.blk) if isinstance(getattr(site, 'blk', None), str) else None
    def ev(s, r, env):
        i = s.f.vals.get(r) if isinstance(r, str) and r not in env else None
        if i is not None and i.op == 'icmp':
            a, b = s.ev(i.ops[0], env), s.ev(i.ops[1], env)
            if (a is None) != (b is None) and 'null' not in (a, b):
                k = a if a is not None else b
                p = i.pred if a is not None else {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(i.pred, i.pred)
                other = i.ops[1] if a is not None else i.ops[0]
                if isinstance(other, str) and (s.huge and k >= 1 << 30 or k < 0 and p[0] == 'u'):
                    if p in ('sgt', 'sge', 'ugt', 'uge', 'ne'): return 1
                    return 0
                return None
        if i is not None and i.op in ('mul', 'add', 'sub', 'shl') and i.ty == 'i32':
            a, b = s.ev(i.ops[0], env), s.ev(i.ops[1], env)
            if a is None or b is None or 'null' in (a, b): return None
            v = {'mul': a * b, 'add': a + b, 'sub': a - b, 'shl': a << (b & 31)}[i.op] & 0xffffffff
            return v - (1 << 32) if v >> 31 else v
        if i is not None and i.op == 'trunc' and i.ty == 'i32':
            a = s.ev(i.ops[0], env)
            if a is None or a == 'null': return a
            a &= 0xffffffff
            return a - (1 << 32) if a >> 31 else a
        if i is not None and is_call(i): return None
        return super().ev(r, env)
    def go(s, start, pos):
        f = s.f; n = 0; seen = set()
        st = [(start, pos, dict(s.env0), dict(s.mem), None)]
        while st:
            b, pos, env, mem, prev = st.pop(); n += 1
            if n > p20.CAP: s.gave_up = True; return
            B = f.blocks[b]; end = False
            for i in B.ins[pos:]:
                if i.op == 'load':
                    e = f.expr(i.ops[0])
                    if e in mem: env[i.id] = mem[e]
                    else: env.pop(i.id, None)
                elif i.op == 'store':
                    e = f.expr(i.ops[1])
                    v = s.ev(i.ops[0], env)
                    if e in mem or root_of(e)[0] == 'alloca': mem[e] = v
                    if mem.get(e) is None: mem.pop(e, None)
                elif is_call(i):
                    c = i.callee or ''
                    if i.id in s.reach_want(): s.reached.append(i); end = True; break
                    if p20.p06.ends(c) or c in p20.FATAL: s.refused += 1; end = True; break
                    if i is s.site and s.site_ends: s.accepted.append((i, mem)); end = True; break
                    if i.id in s.stop: end = True; break
                    m = LIMIT.match(i.cdem or '')
                    if m and i.id:
                        env[i.id] = limit(m[1], m[2]); continue
                    g = s.P.fns.get(c)
                    if g is not None and s.depth < 3 and (p07.repo(g) or len(g.blocks) < 6):
                        k = s.call(g, i, env, mem)
                        if k == 'ends': s.refused += 1; end = True; break
                        if k is not None and i.id: env[i.id] = k
                    if i.op == 'invoke': pass
            if end: continue
            T = B.term
            if T.op in ('unreachable', 'resume'): continue
            if T.op == 'ret':
                known = [t for t in s.rs if t[1] == b and (t[0] is None or t[0] == prev)]
                k = s.ev(T.ops[0], env) if T.ops else None
                for p, bb, v in known:
                    if s.depth == 0:
                        if T.ops and (v is not None and v[0] == 'null' or k is not None and (k in s.F.get(f.name, ()) or p06.failure(f, s.rs, C(k), None) and f.ret != 'i1') or p06.failure(f, s.rs, v, p)): s.refused += 1
                        else: s.accepted.append((f.blocks[p].term if p else T, mem))
                    else: s.accepted.append((k, mem))
                continue
            succ = list(B.succ)
            if T.op == 'invoke': succ = succ[:1]
            elif T.op == 'br' and len(succ) == 2 and T.ops:
                c = s.ev(T.ops[0], env)
                if c is not None: succ = [succ[0 if c & 1 else 1]]
            for t in succ:
                e2 = dict(env); m2 = mem
                if t in f.hdr and s.home and s.depth == 0 and f.hdr[t] in s.chain() and b in f.loops[f.hdr[t]].blocks:
                    s.accepted.append((T, mem)); continue          # accepted: on to the next entry
                for i in f.blocks[t].ins:
                    if i.op != 'phi': break
                    e2.pop(i.id, None)
                for i in f.blocks[t].ins:
                    if i.op != 'phi': break
                    for o, p in zip(i.ops, i.inc):
                        if p == b and t not in f.hdr:
                            v = s.ev(o, env)
                            if v is not None: e2[i.id] = v
                key = (t, prevkey(f, t, b), frozenset((k, v) for k, v in e2.items() if s.live(k, t)), frozenset((k, v) for k, v in mem.items() if v is not None))
                if key in seen: continue
                seen.add(key); st.append((t, 0, e2, dict(m2), b))
    def reach_want(s): return s.want or ()
    def chain(s):
        if not hasattr(s, '_ch'): s._ch = set(L if isinstance(L, str) else L.id for L in [x for x in s.f.loop_chain(s.site.blk)])
        return s._ch
    def live(s, k, t):
        if not hasattr(s, '_lv'): s._lv = {}
        if k not in s._lv: s._lv[k] = {u.blk for u in s.f.users.get(k, [])} - ({s.f.vals[k].blk} if k in s.f.vals and s.f.vals[k].op != 'phi' else set())
        return bool(s._lv[k])
    def call(s, g, i, env, mem):
        """what a helper returns for these arguments: a value, 'ends' when it never returns, None when unknown"""
        args = {}; m2 = {}
        for a, o in zip(g.args, i.ops):
            v = s.ev(o, env)
            if v is not None: args[a['id']] = v
            e = s.f.expr(o) if isinstance(o, str) else None
            for x, v in mem.items():
                if x == e: m2[('arg', g.args.index(a))] = v
                elif e is not None and mentions(x, lambda y: y == e): m2[subst(x, e, ('arg', g.args.index(a)))] = v
        if not args and not m2 and g.args: return None
        class S: pass
        site = S(); site.id = '@'; site.blk = None
        q = Walk.__new__(Walk); q.P = s.P; q.F = s.F; q.f = g; q.site = site; q.val = 0; q.bad = None; q.gave_up = False; q.rs = p06.returns(g); q.taint = set()
        q.mem = m2; q.env0 = args; q.stop = set(); q.huge = s.huge; q.depth = s.depth + 1; q.accepted = []; q.refused = 0; q.reached = []; q.targets = set(); q.want = None; q.home = None; q.site_ends = False
        q.go(g.entry, 0)
        if q.gave_up: return None
        if not q.accepted: return 'ends' if q.refused else None
        vs = {k for k, _ in q.accepted}
        return vs.pop() if len(vs) == 1 else None

def subst(x, a, b):
    if x == a: return b
    return tuple(subst(y, a, b) if isinstance(y, tuple) else y for y in x)

def prevkey(f, t, b): return b if f.blocks[t].term.op == 'ret' else None

# ------------------------------------------------------------- (1) the read succeeded
def state_tests(f, root):
    out = {}
    for u in f.instrs():
        if not is_call(u) or not u.ops or u.id is None: continue
        n = short_of(u.cdem or ''); d = u.cdem or ''
        if not ('basic_ios' in d or 'ios_base' in d or 'std::ios' in d): continue
        good = 'operator bool' in d or n == 'good'
        bad = 'operator!' in d or n in ('fail', 'bad')
        if (good or bad) and stream_root(f, u.ops[0]) == root: out[u.id] = 1 if bad else 0
    return out

def success(P, F, r, f, R, RS):
    num = [x for x in R.items if x[1] in 'id']
    if not num and R.kind == 'stream': return
    r.n('reads of numbers')
    bad = None
    if R.kind == 'stream':
        later = set().union(*[forward(f, x) for x in f.blocks[R.i.blk].succ] or [set()]); pos = {u.id: n for n, u in enumerate(f.blocks[R.i.blk].ins) if u.id}
        ts = {}
        for u, v in state_tests(f, R.src).items():
            ub = f.vals[u].blk
            # a test made before this read says nothing about it
            if ub in later or ub == R.i.blk and pos[u] > pos.get(R.i.id, f.blocks[ub].ins.index(R.i)): ts[u] = v
            elif f.dom(f.vals[u], R.i): ts[u] = 1 - v
        w = Walk(P, F, f, R.i, {}, ts, site_ends=False); w.home = None
        b, p = p20.after(R.i); w.go(b, p)
        if w.accepted and not w.gave_up: bad = 'the stream has failed'
    else:
        stop = {o.i.id for o in RS if o.i is not R.i and [f.expr(t) for t, _, _ in o.items] == [f.expr(t) for t, _, _ in R.items]}
        for k in range(-1, len(R.items)):
            q = p20.Run(P, F, f, R.i, k); q.stop = stop
            w = Walk(P, F, f, R.i, {}, {R.i.id: k}, stop)
            w.home = None
            b, p = p20.after(R.i); w.go(b, p)
            acc = [a for a in w.accepted if a[0] is not R.i]
            if acc and not w.gave_up: bad = 'only %d of %d items could be read' % (max(k, 0), len(R.items)); break
    if bad: r.v('%s:%s:success' % (f.dem.split('(')[0], role_text(f, R)), R.i.where(), 'the numbers read here are relied on even when %s' % bad)

def role_text(f, R):
    return ','.join(a for _, a, _ in R.items)

# ------------------------------------------------------------- (2) the numbers are in range
def floating(RS): return any(a == 'd' for R in RS for _, a, _ in R.items)

def size_outs(P, ALL):
    """{(function name, parameter index): position} of sizes a routine reads into its reference parameters"""
    out = {}
    for f in P.fns.values():
        RS = ALL.get(f.name, [])
        if RS and not floating(RS):
            seq = []
            for R in RS:
                for t, a, _ in R.items:
                    e = f.expr(t)
                    if a == 'i' and e[0] == 'arg' and e not in seq: seq.append(e)
            for k, e in enumerate(seq): out[(f.name, e[1])] = k
    for _ in range(4):
        for f in P.fns.values():
            for i in f.instrs():
                if is_call(i):
                    for k, o in enumerate(i.ops):
                        if (i.callee, k) in out and isinstance(o, str):
                            e = f.expr(o)
                            if e[0] == 'arg': out.setdefault((f.name, e[1]), out[(i.callee, k)])
    return out

def size_values(P, f, OUT, d=0):
    """({expression of memory: position}, {argument id: position}) known to hold the sizes of the matrix being read"""
    mem = {}; arg = {}
    for i in f.instrs():
        if is_call(i):
            for k, o in enumerate(i.ops):
                if (i.callee, k) in OUT and isinstance(o, str): mem[f.expr(o)] = OUT[(i.callee, k)]
    for i in f.instrs():
        if is_call(i) and re.search(r'::(CSC|CSR|BCSC)::(CSC|CSR|BCSC)\(', i.cdem or '') and len(i.ops) >= 3:
            for k, fl in ((1, 'm'), (2, 'n')):
                e = f.expr(i.ops[k])
                if e[0] == 'ld' and e[1] in mem: mem[('fld', f.expr(i.ops[0]), re.search(r'::(CSC|CSR|BCSC)::', i.cdem)[1], fl)] = mem[e[1]]
    if d < 2:
        for g in P.fns.values():
            for i in g.instrs():
                if is_call(i) and i.callee == f.name:
                    m2, a2 = size_values(P, g, OUT, d + 1)
                    for k, o in enumerate(i.ops):
                        e = g.expr(o) if isinstance(o, str) else None
                        p = m2.get(e[1]) if e and e[0] == 'ld' else a2.get(o) if isinstance(o, str) else None
                        if p is not None and k < len(f.args): arg[f.args[k]['id']] = p
    return mem, arg

DIM = (7, 11, 23)
def ranges(P, F, r, f, RS, OUT):
    ints = [(R, t, f.expr(t)) for R in RS for t, a, _ in R.items if a == 'i']
    if not ints: return
    if not floating(RS):
        for R, t, e in ints:
            r.n('sizes read')
            vals = [-5] + ([BIG] if 'long' in (R.i.cdem or '') else [])
            for v in vals:
                x = explore(P, F, f, R, {e: v}, RS)
                if x: r.v('%s:%s:size' % (f.dem.split('(')[0], name_of(f, e)), R.i.where(), 'a size of %s read here is accepted (%s)' % (v if v < 0 else 'more than the largest int', x)); break
        loads = lambda e: {i.id for i in f.instrs() if i.op == 'load' and f.expr(i.ops[0]) == e}
        for a in range(len(ints)):
            for b in range(a + 1, len(ints)):
                ea, eb = ints[a][2], ints[b][2]
                if ea == eb: continue
                la, lb = loads(ea), loads(eb)
                down = forward(f, ints[b][0].i.blk) & forward(f, ints[a][0].i.blk)
                if not any(i.op == 'mul' and i.blk in down and (rt(f, i.ops[0]) & la and rt(f, i.ops[1]) & lb or rt(f, i.ops[0]) & lb and rt(f, i.ops[1]) & la) for i in f.instrs()): continue
                if ints[b][0].kind == 'stream' and not p07.precedes(f, ints[a][0].i, ints[b][0].i.blk, ints[b][0].i.pos): continue
                r.n('products of sizes')
                x = explore(P, F, f, ints[b][0], {ea: IMAX, eb: IMAX}, RS, product=(la, lb))
                if x: r.v('%s:%s*%s' % (f.dem.split('(')[0], name_of(f, ea), name_of(f, eb)), ints[b][0].i.where(), 'sizes whose product no int holds are accepted (%s)' % x)
        return
    mem, arg = size_values(P, f, OUT)
    told = len([1 for a in f.args if a['ty'] in ('i32', 'i64')]) >= 2 or len(mem) >= 2
    if not told: return
    by = {}
    for R, t, e in ints: by.setdefault(R.i.id if R.kind != 'stream' else '@' + repr(R.src) + str(f.loop(R.i.blk) and R.i.blk), []).append((R, t, e))
    for grp in by.values():
        if len(grp) < 2: continue
        R = grp[-1][0]
        for pos, (_, t, e) in enumerate(grp[:2]):
            r.n('entry indices read')
            what = 'row' if pos == 0 else 'column'
            known = pos in mem.values() or pos in arg.values()
            dec = any(i.op == 'store' and f.expr(i.ops[1]) == e and is_dec(f, i.ops[0], e) for i in f.instrs())
            M = {x: DIM[k] for x, k in mem.items() if k < 3}; A = {a: DIM[k] for a, k in arg.items() if k < 3}
            A.update({i.id: M[f.expr(i.ops[0])] for i in f.instrs() if i.op == 'load' and f.expr(i.ops[0]) in M})
            for x in grp:
                if x[2] != e: M[x[2]] = 1
            D = DIM[pos]
            def bad_final(v): return v is None or v < 0 or v > D - 1 if dec else v is not None and v < 0 or v is not None and v > D
            tests = [(-5, False), (0, False), (IMAX - 1, True)] + ([(D + 1, False)] if known else [])
            for v, huge in tests:
                m = dict(M); m[e] = v
                if huge: m = {e: v, **{x[2]: 1 for x in grp if x[2] != e}}
                w = walk(P, F, f, R, m, {} if huge else A, RS, huge)
                if w.gave_up: continue
                if huge: hit = w.accepted
                elif dec: hit = [a for a in w.accepted if a[1].get(e) is not None and (a[1][e] < 0 or known and a[1][e] >= D) or v < 0]
                else: hit = w.accepted if v <= 0 or v > D else []
                if hit:
                    r.v('%s:%s:range' % (f.dem.split('(')[0], what), R.i.where(), 'a %s index %s read here is accepted' % (what, 'below the first %s' % what if v <= 0 else 'beyond the last %s' % what)); break
            if known:
                for v in (1, D):
                    m = dict(M); m[e] = v
                    w = walk(P, F, f, R, m, A, RS, False)
                    if not w.accepted and not w.gave_up:
                        r.v('%s:%s:valid' % (f.dem.split('(')[0], what), R.i.where(), 'the %s %s of the matrix is refused' % ('first' if v == 1 else 'last', what)); break

def forward(f, b):
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x not in seen: seen.add(x); st += f.blocks[x].succ
    return seen

def rt(f, o, d=0):
    """instructions a value comes from through casts"""
    if not isinstance(o, str) or d > 6: return set()
    i = f.vals.get(o)
    if i is None: return set()
    return {o} | (rt(f, i.ops[0], d + 1) if i.op in ('sext', 'zext', 'trunc', 'freeze') else set())

def is_dec(f, o, e):
    x = f.expr(o)
    return x[0] == 'lin' and x[1] == -1 and x[2] and x[2][0][0] == ('ld', e)

def walk(P, F, f, R, mem, env, RS, huge):
    env = dict(env)
    if R.kind == 'stream': env.update({k: 1 - v for k, v in state_tests(f, R.src).items()})
    else: env[R.i.id] = len(R.items)
    w = Walk(P, F, f, R.i, mem, env, huge=huge)
    b, p = p20.after(R.i); w.go(b, p)
    return w

def explore(P, F, f, R, mem, RS, product=None):
    w = walk(P, F, f, R, mem, {}, RS, False) if not (R.kind == 'stream') else None
    if w is None:
        env = {k: 1 - v for k, v in state_tests(f, R.src).items()}
        w = Walk(P, F, f, R.i, mem, env, site_ends=False)
        b, p = p20.after(R.i); w.go(b, p)
    if w.gave_up or not w.accepted: return None
    a = w.accepted[0][0]
    if a is R.i: return None
    return a.where() if hasattr(a, 'where') else 'normal return'

def name_of(f, e):
    if e[0] == 'arg': return f.args[e[1]]['n']
    return pretty(f, e)

# ------------------------------------------------------------- (3) the kind of matrix
def kinds(P, F, r, f, RS):
    for i in f.instrs():
        if not is_call(i) or short_of(i.cdem or '') != 'mm_read_banner' or len(i.ops) < 2: continue
        base = f.expr(i.ops[1])
        scans = [R for R in RS if R.kind != 'stream' and any(a == 'i' for _, a, _ in R.items) and any(a == 'd' for _, a, _ in R.items)]
        if not scans or base[0] != 'alloca': continue
        r.n('type codes')
        cells = {}
        for u in f.instrs():
            if u.op == 'load':
                e = f.expr(u.ops[0])
                k = byte_of(e, base)
                if k is not None: cells.setdefault(k, set()).add(e)
        for pos, ch, text, fits in ((1, 'A', 'a dense array', lambda R: False), (2, 'P', 'a pattern matrix', lambda R: False), (2, 'C', 'a complex matrix', lambda R: sum(a == 'd' for _, a, _ in R.items) != 1)):
            w = Walk(P, F, f, i, {e: ord(ch) for e in cells.get(pos, ())}, {i.id: 0}, site_ends=False)
            w.want = {R.i.id for R in scans if not fits(R)}
            w.home = None
            b, p = p20.after(i); w.go(b, p)
            if w.reached and not w.gave_up: r.v('%s:%s' % (f.dem.split('(')[0], ch), w.reached[0].where(), 'the entries of %s are read here with the layout of a real coordinate matrix' % text)

def byte_of(e, base):
    if e == base or e == ('arr', base): return 0
    if e[0] == 'elem' and e[1] in (base, ('arr', base)) and e[2][0] == 'c': return e[2][1]
    return None

def headers(P, F, r, f, OUT):
    """a routine that learns format and arithmetic from a header reader refuses some of each"""
    for i in f.instrs():
        g = P.fns.get(i.callee or '') if is_call(i) else None
        if g is None: continue
        for k, o in enumerate(i.ops):
            if not isinstance(o, str) or f.expr(o)[0] != 'alloca' or k >= len(g.args): continue
            vs = {g.expr(u.ops[0])[1] for u in g.instrs() if u.op == 'store' and g.expr(u.ops[1]) == ('arg', k) and g.expr(u.ops[0])[0] == 'c'}
            nam = (g.args[k].get('n') or '')
            if len(vs) < 2 or not any(x == g.short for x in ('read_header',)) or 'shape' in nam: continue
            r.n('header codes')
            ok = []
            for v in sorted(vs):
                w = Walk(P, F, f, i, {f.expr(o): v}, {}, site_ends=False); w.home = None
                b, p = p20.after(i); w.go(b, p)
                if w.accepted and not w.gave_up: ok.append(v)
            if len(ok) == len(vs): r.v('%s:%s' % (f.dem.split('(')[0], nam), i.where(), 'every %s is accepted, also the ones whose contents this routine does not read' % nam)

# ------------------------------------------------------------- (4) text
def text(P, r, f, RS):
    for R in RS_ALL(P, f):
        for t, a, w in R.items:
            if a not in ('s', '['): continue
            n = bufsize(f, t)
            if n is None: continue
            r.n('text conversions')
            if w is None or w >= n: r.v('%s:%s:width' % (f.dem.split('(')[0], pretty(f, f.expr(t))), R.i.where(), 'this conversion stores up to %s characters and a terminator in a buffer of %d' % (w if w else 'any number of', n))
    for i in f.instrs():
        if is_call(i) and i.callee == 'fgets':
            n = bufsize(f, i.ops[0])
            if n is None or isinstance(i.ops[1], str): continue
            r.n('text conversions')
            if i.ops[1][1] > n: r.v('%s:fgets' % f.dem.split('(')[0], i.where(), 'up to %d characters are read into a buffer of %d' % (i.ops[1][1], n))

def RS_ALL(P, f): return [R for R in reads(P, f) if R.kind != 'stream']

def bufsize(f, o):
    e = f.expr(o)
    while e[0] in ('arr',): e = e[1]
    if e[0] != 'alloca': return None
    i = f.vals[e[1]]
    m = re.match(r'^\[(\d+) x i8\]$', str(i.j.get('aty') or i.j.get('sty') or ''))
    return int(m[1]) if m else None

def check(ctx, r):
    P = ctx.prog('ser')
    F = p20.fails(P)
    ALL = {f.name: reads(P, f) for f in P.fns.values() if p07.repo(f) and f.short != 'main'}
    OUT = size_outs(P, ALL)
    for f in P.fns.values():
        RS = ALL.get(f.name)
        if RS is None: continue
        r.n('routines')
        headers(P, F, r, f, OUT)
        kinds(P, F, r, f, RS)
        if not RS: 
            text(P, r, f, RS); continue
        for R in RS: success(P, F, r, f, R, RS)
        ranges(P, F, r, f, RS, OUT)
        text(P, r, f, RS)
