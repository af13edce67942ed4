"""P18 shape, size and symmetry of matrix results"""
from ir import *
from lib import *
from cursors import *
from arrays import *
from itertools import product
import os
import counts
RULE = ('Every index value and every position in a routine that builds a matrix object is given a sort by dataflow: compressed dimension of a source matrix (variables that index its pointer array) or index dimension (values read from its index array). '
        'The sorts of the index values stored into the result and of the positions used determine its orientation: rows and columns passed to the constructor must then be those of the source, kept or exchanged accordingly; '
        'the symmetry type must be the source\'s for copies and format changes, its negation for transpositions, 0 for expanded matrices, and the extracted triangle\'s for extractions (checked for both values of the selecting flag); '
        'the entry count must be the result\'s own closing pointer, the emission counter, an identically guarded count, or the source\'s count when every entry is stored exactly once. Raw-array wrappers take count P[n] of the arrays they wrap; call sites that pass a matrix\'s arrays must pass the dimensions the callee iterates them with; '
        'readers must use the file\'s first number as rows and second as columns and map "symmetric" to the lower type.')
ASSUME = ['Two source matrices combined entrywise have equal dimensions.', 'A source with a non-zero symmetry type stores only that triangle.', 'MatrixMarket symmetric files store the lower triangle.']
CT = re.compile(r'(?:^|::)(CSC|CSR)::(?:CSC|CSR)\((.*)\)$')
def fname(f): return f.dem.split('(')[0].split(' ')[-1]

def arg_kinds(f):
    """arg number -> CSC / CSR for pointer-to-matrix parameters"""
    out = {}
    d = f.dem
    if '(' not in d: return out
    ps = split_params(d[d.index('(') + 1: d.rindex(')')])
    off = len(f.args) - len(ps)
    for k, p in enumerate(ps):
        m = re.search(r'\b(CSC|CSR)( const)?\s*[*&]', p)
        if m and not re.search(r'\*\s*[*&]', p): out[k + off] = m.group(1)
    return out

def split_params(s):
    out = []; d = 0; cur = ''
    for c in s:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def F(X, n): return ('ld', ('fld', X, 'CSC', n))
ALIAS = {}
def normF(e):
    """all matrix structs share one field naming"""
    if not isinstance(e, tuple): return e
    if e in ALIAS: return ALIAS[e]
    if e and e[0] == 'fld' and e[2] == 'CSR': return ('fld', normF(e[1]), 'CSC', e[3])
    return tuple(normF(x) for x in e)

class Src:
    """a source: matrix object X or raw (pointer array, index array) parameters"""
    def __init__(s, p, i, kind, X=None): s.p = p; s.i = i; s.kind = kind; s.X = X
    def __repr__(s): return repr((s.p, s.kind))

class An:
    def __init__(s, P, f):
        s.P = P; s.f = f; s.memo = {}
        s.objs = {}            # object expr -> (kind, ctor instr)
        for i in f.instrs():
            if i.op in ('call', 'invoke') and i.cdem:
                m = CT.search(i.cdem)
                if m: s.objs[f.expr(i.ops[0])] = (m.group(1), i, m.group(2))
        ALIAS.clear()
        for st in f.stores():
            a = f.expr(st.ops[1])
            if a[0] == 'arg' and f.expr(st.ops[0]) in s.objs: ALIAS[('ld', a)] = f.expr(st.ops[0])
        s.srcs = []
        for k, kd in arg_kinds(f).items():
            ALIAS[('ld', ('arg', k))] = F(('arg', k), 'm')      # first field without an explicit field step
            X = ('arg', k); s.srcs.append(Src(F(X, 'p'), F(X, 'i'), kd, X))
        s.outer = {}           # value id / expr atom -> set of sources (as outer index)
        s.find_raw()
        s.find_outer()
    def loads(s):
        for i in s.f.instrs():
            if i.op == 'load':
                a = normF(s.f.expr(i.ops[0]))
                if a[0] == 'elem': yield i, a[1], a[2]
    def find_raw(s):
        """pairs of integer array parameters (p, i): i is read at a loop variable bounded by p[..]"""
        f = s.f
        for L in f.loops.values():
            for t in L.blocks:
                T = f.blocks[t].term
                if T.op != 'br' or not T.ops: continue
                c = f.expr(T.ops[0])
                if c[0] != 'cmp' or c[2][0] != 'iv' or c[3][0] != 'ld' or c[3][1][0] != 'elem' or c[3][1][1][0] != 'arg': continue
                p = c[3][1][1]
                for i, b, x in s.loads():
                    if b[0] == 'arg' and x == c[2] and i.ty == 'i32' and b != p and not any(q.p == p and q.i == b for q in s.srcs):
                        s.srcs.append(Src(p, b, None))
    def find_outer(s):
        for i, b, x in s.loads():
            for q in s.srcs:
                if b == q.p:
                    c, ts = lin_parts(x)
                    if len(ts) == 1 and list(ts.values())[0] == 1 and c in (0, 1):
                        t = list(ts)[0]
                        s.outer.setdefault(t, set()).add(q)
                        # p[perm[j]]: j is an outer index under a permutation
                        for y in s.index_atoms(t): s.outer.setdefault(y, set()).add((q, 'perm'))
    def index_atoms(s, t):
        if t[0] == 'ld' and t[1][0] == 'elem':
            c, ts = lin_parts(t[1][2])
            if len(ts) == 1: return list(ts)
        if t[0] == 'sel': return s.index_atoms(t[2]) + s.index_atoms(t[3]) + [x for x in t[2:] if x[0] == 'iv']
        if t[0] == 'phi' and s.f.vals[t[1]].blk not in s.f.hdr:
            out = []
            for o in s.f.vals[t[1]].ops:
                e = normF(s.f.expr(o))
                out += [e] if e[0] == 'iv' else s.index_atoms(e)
            return out
        return []
    def sorts(s, e, d=0):
        """set of (dir, source, permuted)"""
        e = normF(e)
        if d > 8 or not isinstance(e, tuple): return set()
        k = e
        if k in s.memo: return s.memo[k]
        s.memo[k] = set()
        out = set()
        for q in s.outer.get(e, ()):
            out.add(('out', q[0], True) if isinstance(q, tuple) else ('out', q, False))
        if e[0] == 'ld' and e[1][0] == 'elem':
            b, x = e[1][1], e[1][2]
            hit = False
            for q in s.srcs:
                if b == q.i: out.add(('in', q, False)); hit = True
            if not hit and not any(b == q.p for q in s.srcs):
                for dr, q, p in s.sorts(x, d + 1): out.add((dr, q, True))
        elif e[0] in ('phi', 'bphi') and not out:
            i = s.f.vals[e[1]]
            if i.blk not in s.f.hdr:
                for o in i.ops: out |= s.sorts(s.f.expr(o), d + 1)
        elif e[0] == 'sel': out |= s.sorts(e[2], d + 1) | s.sorts(e[3], d + 1)
        elif e[0] == 'lin':
            for t, k in e[2]:
                if k == 1: out |= s.sorts(t, d + 1)
            if len(e[2]) > 1: out = {(a, q, True) for a, q, p in out}
        if any(not p for _, _, p in out): out = {(a, q, p) for a, q, p in out if not p}
        s.memo[k] = out
        return out

def subterms(e):
    yield e
    if isinstance(e, tuple):
        for x in e:
            if isinstance(x, tuple): yield from subterms(x)

# ---- evaluation under an assignment of boolean arguments
def cdeps_expr(f, blk): return [(f.expr(f.blocks[b].term.ops[0]), k) for b, k in f.cdeps(blk) if f.blocks[b].term.ops and f.blocks[b].term.op == 'br']

def ev(f, e, env, d=0):
    if d > 6 or not isinstance(e, tuple): return e
    if e in env: return env[e]
    if e[0] == 'not':
        x = ev(f, e[1], env, d + 1)
        return ('c', 0 if x[1] else 1) if x[0] == 'c' else neg(x)
    if e[0] == 'cmp':
        a = ev(f, e[2], env, d + 1)
        if a[0] == 'c' and e[3][0] == 'c' and e[1] in ('eq', 'ne'): return ('c', int((a[1] == e[3][1]) == (e[1] == 'eq')))
        return e
    if e[0] == 'sel':
        c = ev(f, e[1], env, d + 1)
        if c[0] == 'c': return ev(f, e[2] if c[1] else e[3], env, d + 1)
        return ('sel', c, ev(f, e[2], env, d + 1), ev(f, e[3], env, d + 1))
    if e[0] in ('phi', 'bphi'):
        i = f.vals[e[1]]
        if i.blk in f.hdr: return e
        vs = set()
        for o, b in zip(i.ops, i.inc):
            if feasible(f, b, env, d + 1): vs.add(ev(f, f.expr(o), env, d + 1))
        return vs.pop() if len(vs) == 1 else e
    return e

def feasible(f, blk, env, d=0):
    for c, k in cdeps_expr(f, blk):
        v = ev(f, c, env, d + 1)
        if v[0] == 'c' and bool(v[1]) != (k == 0): return False
    return True

def flags_of(f):
    return [('arg', k) for k, a in enumerate(f.args) if a['ty'] in ('i1', 'i8')]

def guards(f, blk):
    """conditions (expr, edge) a block depends on, loop exit tests excluded"""
    out = []
    for b, k in f.cdeps(blk):
        T = f.blocks[b].term
        if T.op != 'br' or not T.ops: continue
        L = f.loop(b)
        if L is None or blk not in L.blocks: continue
        exits = L is not None and any(x not in L.blocks for x in f.blocks[b].succ)
        if exits: continue
        out.append((f.expr(T.ops[0]), k, b))
    return out

def pattern_cond(c):
    return mentions(c, lambda e: e[0] == 'null' or e[0] == 'fld' and 'pattern' in str(e[3]))

def tri_dir(an, c, k):
    """guard comparing an inner index with the outer index: +1 = only index <= outer (upper), -1 = lower"""
    if k == 1: c = neg(c)
    if c[0] != 'cmp' or c[1] not in ('slt', 'sle', 'ult', 'ule'): return 0
    a = {x[0] for x in an.sorts(c[2])}; b = {x[0] for x in an.sorts(c[3])}
    if a == {'in'} and b == {'out'}: return 1
    if a == {'out'} and b == {'in'}: return -1
    return 0

def returns_of(f, B):
    """blocks at whose end B leaves the function"""
    out = set(); rets = [i for i in f.instrs() if i.op == 'ret']
    def go(o, b, d=0):
        if d > 6: out.add(b); return
        if isinstance(o, str) and o[0] != 'a' and f.vals[o].op == 'phi' and f.vals[o].blk not in f.hdr:
            for x, y in zip(f.vals[o].ops, f.vals[o].inc): go(x, y, d + 1)
        elif f.expr(o) == B: out.add(b)
    for i in rets:
        if i.ops: go(i.ops[0], i.blk)
    return out or {i.blk for i in rets}

def final_field(an, B, fld, init, env=None):
    """last value of a field where B leaves the function: constructor argument or later stores; 'unclear' when several differ"""
    f = an.f; ci = an.objs[B][1]; env = env or {}
    sts = {}
    for st in f.stores():
        if normF(f.expr(st.ops[1])) == ('fld', B, 'CSC', fld): sts.setdefault(st.blk, []).append(st)
    goal = returns_of(f, B)
    vals = []; seen = set()
    def flow(blk, cur, pos):
        st = [x for x in sorted(sts.get(blk, []), key=lambda x: x.pos) if x.pos > pos]
        for x in st:
            e = normF(f.expr(x.ops[0]))
            if cur[0] is not None: e = subst(e, F(B, fld), cur[0])
            cur = (e, x)
        return cur
    stk = [(ci.blk, (init, ci), ci.pos)]
    while stk:
        blk, cur, pos = stk.pop()
        cur = flow(blk, cur, pos)
        if (blk, cur[0], cur[1].id) in seen: continue
        seen.add((blk, cur[0], cur[1].id))
        if len(seen) > 4000: return 'unclear', cur[1]
        if blk in goal: vals.append(cur)
        T = f.blocks[blk].term; nx = list(f.blocks[blk].succ)
        if env and T.op == 'br' and T.ops and len(nx) == 2:
            v = ev(f, f.expr(T.ops[0]), env)
            if v[0] == 'c': nx = [T.tgt[0] if v[1] else T.tgt[1]]
        for t in nx: stk.append((t, cur, -1))
    vs = {v for v, _ in vals}
    if len(vs) == 1: return vals[0]
    return 'unclear', (vals[-1][1] if vals else ci)

def subst(e, a, b):
    if e == a: return b
    if not isinstance(e, tuple): return e
    if e and e[0] == 'lin':
        r = C(e[1])
        for t, k in e[2]: r = add(r, scale(subst(t, a, b), k))
        return r
    return tuple(subst(x, a, b) for x in e)

def shape_params(sig):
    return split_params(sig)

def odim(kind): return 'n' if kind == 'CSC' else 'm'
def idim(kind): return 'm' if kind == 'CSC' else 'n'

TRI = {}
def check_obj(an, B, r):
    f = an.f; kind, ci, sig = an.objs[B]
    ps = shape_params(sig)
    if len(ps) < 3: return
    A = [normF(f.expr(o)) for o in ci.ops[1:]]
    raw = any('int*' in p.replace(' ', '') for p in ps)
    nm = pretty(f, B).lstrip('*'); key = '%s:%s' % (fname(f), nm)
    r.n('matrix objects')
    M, mw = final_field(an, B, 'm', A[0]); N, nw = final_field(an, B, 'n', A[1]); Z, zw = final_field(an, B, 'nnz', A[2])
    st0 = A[-1] if ps[-1] == 'int' and len(ps) in (5, 6) else C(0)
    S, sw = final_field(an, B, 'stype', st0)
    Bp, Bi = F(B, 'p'), F(B, 'i')
    if raw:
        p, idx = A[3], A[4]
        if p[0] in ('c', 'null') : pass
        else:
            od = A[1] if kind == 'CSC' else A[0]
            r.n('wrapped arrays')
            want = ('ld', ('elem', p, od))
            if Z != want and Z != F(B, 'nnz') and not (Z[0] == 'ld' and Z[1][0] == 'elem' and Z[1][1] in (p, Bp) and Z[1][2] in (od, F(B, odim(kind)))):
                r.v(key + ':nnz', ci.where(), 'the wrapped arrays hold %s entries, the matrix says %s' % (pretty(f, want), pretty(f, Z)))
            if M != N: r.v(key + ':shape', ci.where(), 'a graph or factor matrix is described as %s by %s' % (pretty(f, M), pretty(f, N)))
        for k in range(2): pass
    # stores of indices
    sts = []
    for st in f.stores():
        b, idx = addr_parts(f, st.ops[1])
        if normF(b) == Bi:
            sts.append((st, an.sorts(f.expr(st.ops[0])), pos_sort(an, st, idx, B)))
    if not sts:
        return check_calls_into(an, B, r, M, N, Z, S, key)
    vs = set().union(*[x[1] for x in sts]); po = set().union(*[x[2] for x in sts])
    known = all(x[1] for x in sts)
    if not known or not po:
        r.n('objects with generated indices')
        for k, a in enumerate(f.args):
            if a['n'] == 'stype' and S != ('arg', k): r.v(key + ':stype', sw.where(), 'the symmetry type passed by the caller is not that of the result')
        judge_total(an, B, Z, zw, key, r)
        check_gen(an, B, r, sts, Z, zw, key); return
    perm = any(p for _, _, p in vs | po)
    dirs = {d for d, _, _ in vs}; pdirs = {d for d, _, _ in po}
    srcs = {q for _, q, _ in vs}
    tri = set()
    for st, _, _ in sts:
        for c, k, b in guards(f, st.blk):
            d = tri_dir(an, c, k)
            if d: tri.add((d, b))
    flagtri = None
    for fl in flags_of(f):
        res = []
        for val in (1, 0):
            env = {fl: ('c', val)}
            ds = set()
            for st, _, _ in sts:
                for c, k, b in guards(f, st.blk):
                    if not feasible(f, b, env): continue
                    d = tri_dir(an, ev(f, c, env), k)
                    if d: ds.add(d)
            res.append(ds)
        if all(len(x) == 1 for x in res) and res[0] != res[1]: flagtri = (fl, res[0].pop(), res[1].pop())
    # ---- dimensions
    okd = set()
    for q in srcs:
        if q.X is None: continue
        okd |= {'m', 'n'}
    def dim_ok(e, which):
        """e is dimension `which` (outer/inner) of some source"""
        for q in srcs:
            if q.X is None: return True
            if e == F(q.X, odim(q.kind) if which == 'out' else idim(q.kind)): return True
            for q2 in an.srcs:      # combined matrices share dimensions
                if q2.X is not None and len(srcs) > 1 and e == F(q2.X, odim(q2.kind) if which == 'out' else idim(q2.kind)): return True
        return False
    Bo, Bn = (N, M) if kind == 'CSC' else (M, N)
    both = dirs == {'in', 'out'}
    r.n('shape obligations', 2)
    if Bo == 'unclear' or Bn == 'unclear': r.v(key + ':shape', ci.where(), 'a dimension of the result depends on the path'); return
    if both:
        if not all(dim_ok(e, 'in') or dim_ok(e, 'out') for e in (Bo, Bn)):
            r.v(key + ':shape', ci.where(), 'the result is declared %s by %s' % (pretty(f, M), pretty(f, N)))
    else:
        pd = 'out' if dirs == {'in'} else 'in'
        if not all(q.X is None for q in srcs):
            if not dim_ok(Bn, list(dirs)[0]):
                r.v(key + ':shape', ci.where(), 'the indices stored into %s run over the %s of the source, but the corresponding dimension of the result is %s' % (nm, 'index dimension' if dirs == {'in'} else 'compressed dimension', pretty(f, Bn)))
            if not dim_ok(Bo, pd):
                r.v(key + ':shape', ci.where(), 'the pointer array of %s runs over the %s of the source, but the corresponding dimension of the result is %s' % (nm, 'index dimension' if pd == 'in' else 'compressed dimension', pretty(f, Bo)))
        if pdirs != {pd} and pd not in pdirs:
            r.v(key + ':orient', sts[0][0].where(), 'index values and positions both run over the same dimension of the source')
    if all(q.X is None for q in srcs) and M != N:
        r.v(key + ':shape', ci.where(), 'the extracted matrix is declared %s by %s' % (pretty(f, M), pretty(f, N)))
    for k, a in enumerate(f.args):
        if a['n'] == 'stype' and S != ('arg', k): r.v(key + ':stype', sw.where(), 'the symmetry type passed by the caller is not that of the result')
    r.ok('%s: %s is %s x %s, indices %s, positions %s' % (fname(f), nm, pretty(f, M), pretty(f, N), sorted(dirs), sorted(pdirs)))
    # ---- symmetry type
    want = None
    objs = [q for q in srcs if q.X is not None]
    stp = [F(q.X, 'stype') for q in objs]
    if flagtri:
        fl, d1, d0 = flagtri
        r.n('symmetry obligations', 2)
        for val, d in ((1, d1), (0, d0)):
            g, sw = final_field(an, B, 'stype', st0, {fl: ('c', val)})
            if g != 'unclear': g = ev(f, g, {fl: ('c', val)})
            if g != C(d): r.v(key + ':stype', sw.where(), 'with %s=%d the %s triangle is extracted, but the symmetry type of the result is %s' % (pretty(f, fl), val, 'upper' if d > 0 else 'lower', pretty(f, g) if g != 'unclear' else g))
    elif tri and not both and len({d for d, _ in tri}) == 1 and not stp:
        d = list(tri)[0][0]; r.n('symmetry obligations')
        if S != C(d): r.v(key + ':stype', sw.where(), 'the %s triangle is extracted, but the symmetry type is %s' % ('upper' if d > 0 else 'lower', pretty(f, S)))
    elif stp and not (perm and not tri):
        same = len({q.kind for q in objs} | {kind}) == 1
        if both: want = [scale(x, -1) for x in stp] if tri else [C(0)]
        else:
            transposed = same == (dirs == {'out'})
            want = [scale(x, -1) for x in stp] if transposed else stp
        r.n('symmetry obligations')
        if S == 'unclear' or S not in want:
            r.v(key + ':stype', sw.where(), 'the symmetry type of the result should be %s, it is %s' % (pretty(f, want[0]), pretty(f, S) if S != 'unclear' else 'set on some paths only'))
        else: r.ok('%s: symmetry type of %s = %s' % (fname(f), nm, pretty(f, S)))
    if flagtri: TRI[f.name] = flagtri
    # ---- entry count
    check_count(an, B, r, sts, Z, zw, key, srcs, both, tri, flagtri)

def own_count(an, B, Z):
    f = an.f; kind, ci, sig = an.objs[B]
    od = normF(f.expr(ci.ops[2 if kind == 'CSC' else 1]))
    for st in f.stores():
        a = normF(f.expr(st.ops[1]))
        if a[0] == 'elem' and a[1] == F(B, 'p') and a[2] in (F(B, odim(kind)), od) and normF(f.expr(st.ops[0])) == Z and not f.loop(st.blk): return True
    return Z[0] == 'ld' and Z[1][0] == 'elem' and Z[1][1] == F(B, 'p') and Z[1][2] in (F(B, odim(kind)), od)

def src_count(an, Z, srcs):
    for q in srcs:
        if q.X is not None and Z == F(q.X, 'nnz'): return True
        if Z[0] == 'ld' and Z[1][0] == 'elem' and Z[1][1] == q.p:
            return q.X is None or Z[1][2] == F(q.X, odim(q.kind))
    return False

def canon_guard(f, c, k, env=None):
    """guard with loop variables renamed by nesting depth"""
    if k == 1: c = neg(c)
    def rn(e, d=0):
        if not isinstance(e, tuple) or not e or d > 12: return e
        if e[0] in ('iv', 'phi', 'bphi'):
            i = f.vals[e[1]]
            if i.blk in f.hdr: return ('loopvar', len(f.loop_chain(i.blk)))
            here = set(f.cdeps(i.blk)); alts = []
            for o, b in zip(i.ops, i.inc):
                own = [(f.expr(f.blocks[x].term.ops[0]), k) for x, k in f.cdeps(b) if (x, k) not in here and f.blocks[x].term.ops]
                alts.append((repr(rn(f.expr(o), d + 1)), repr(sorted((repr(rn(x, d + 1)), k) for x, k in own))))
            return ('join', tuple(sorted(alts)))
        return tuple(rn(x, d + 1) for x in e)
    return repr(rn(normF(c)))

def counters(an, Z):
    """instructions that increment the count Z (a phi web member)"""
    f = an.f
    if Z[0] not in ('phi', 'iv'): return None
    for ms, desc in webs(f):
        if Z[1] in ms:
            out = []
            for m in ms:
                i = f.vals[m]
                for o, b in zip(i.ops, i.inc):
                    l = lin_of(f, o, ms)
                    if l is None:
                        continue
                    if l[1] != 0: out.append((f.vals[o] if isinstance(o, str) and o in f.vals else None, l[1], b))
            return ms, out
    return None

def check_count(an, B, r, sts, Z, zw, key, srcs, both, tri, flagtri):
    f = an.f; nm = pretty(f, B).lstrip('*')
    r.n('entry counts')
    bad = lambda m: r.v(key + ':nnz', zw.where(), m)
    if Z == 'unclear': return bad('the entry count of the result is set on some paths only')
    if judge_total(an, B, Z, zw, key, r): return
    if own_count(an, B, Z): return
    filt = any(not pattern_cond(c) and not (tri_dir(an, c, k) and any(q.X is not None and reads_stype(f, q.X) for q in srcs)) and varies_in(f, c) for st, _, _ in sts for c, k, b in guards(f, st.blk))
    if src_count(an, Z, srcs):
        if flagtri or filt: return bad('the source\'s entry count is used, but not every entry of the source is stored into %s' % nm)
        for a, b in product(sts, sts):
            if a[0] is not b[0] and f.dom(a[0], b[0]) and f.loop(a[0].blk) is f.loop(b[0].blk): return bad('the source\'s entry count is used, but an entry is stored more than once into %s' % nm)
        return
    cw = counters(an, Z)
    if cw is not None:
        ms, incs = cw
        # the emission cursor itself
        for st, _, _ in sts:
            _, idx = addr_parts(f, st.ops[1])
            for x in idx:
                c, d = chain(f, x)
                if isinstance(c, str) and c in ms: return
        g1 = {tuple(sorted(canon_guard(f, c, k) for c, k, b in guards(f, st.blk) if not pattern_cond(c))) for st, _, _ in sts}
        g2 = {tuple(sorted(canon_guard(f, c, k) for c, k, b in guards(f, (i.blk if i is not None else bb)))) for i, d, bb in incs}
        fls = [fl for fl in flags_of(f) if any(mentions_flag(f, c, fl) for st, _, _ in sts for c, k, b in guards(f, st.blk))]
        if fls:
            g1, g2 = set(), set()
            for vs in product((0, 1), repeat=len(fls)):
                env = {fl: ('c', v) for fl, v in zip(fls, vs)}
                def gset(blk):
                    out = []
                    for c, k, b in guards(f, blk):
                        if pattern_cond(c) or not feasible(f, b, env): continue
                        e = ev(f, c, env)
                        if e[0] == 'c': continue
                        out.append(canon_guard(f, e, k))
                    return (vs, tuple(sorted(out)))
                g1 |= {gset(st.blk) for st, _, _ in sts}; g2 |= {gset(i.blk if i is not None else bb) for i, d, bb in incs}
        if any(d != 1 for _, d, _ in incs): return bad('the entry count of the result does not grow by one per entry')
        if os.environ.get("DBG"): print("G1", g1, "\nG2", g2)
        if g1 != g2: return bad('the entry count is taken under another condition than the entries are stored under')
        return
    if Z[0] == 'arg': return
    bad('the entry count of %s is %s, which is not the number of entries stored' % (nm, pretty(f, Z)))

def mentions_flag(f, c, fl, d=0):
    if c == fl: return True
    if not isinstance(c, tuple) or d > 8: return False
    if c and c[0] in ('phi', 'bphi') and len(c) == 2 and c[1] in f.vals and f.vals[c[1]].blk not in f.hdr:
        i = f.vals[c[1]]
        return any(mentions_flag(f, f.expr(o), fl, d + 1) for o in i.ops) or any(x == fl for b in i.inc for x, k in cdeps_expr(f, b))
    return any(mentions_flag(f, x, fl, d + 1) for x in c)

def reads_stype(f, X):
    return any(normF(f.expr(i.ops[0])) == ('fld', X, 'CSC', 'stype') and any(True for _ in ()) or normF(f.expr(i.ops[0])) == ('fld', X, 'CSC', 'stype') for i in f.instrs() if i.op == 'load')

def varies_in(f, c):
    return mentions(c, lambda e: e[0] in ('iv', 'phi', 'bphi', 'alloca'))

def pos_sort(an, st, idx, B):
    f = an.f; out = set()
    for x in idx:
        e = normF(f.expr(x))
        for t in subterms(e):
            if t and t[0] == 'ld' and t[1][0] == 'elem':
                s = an.sorts(t[1][2])
                if s: out |= s
    if out: return out
    # a running position: the segment belongs to the outer variable of the enclosing loops; or entry for entry
    L = f.loop(st.blk)
    while L is not None:
        for q in an.outer:
            if q[0] in ('iv', 'phi') and f.vals[q[1]].blk == L.header:
                for z in an.outer[q]: out.add(('out', z[0], True) if isinstance(z, tuple) else ('out', z, False))
        if out: break
        L = f.loops[L.parent] if L.parent not in (None, -1) else None
    if not out:
        # flat copy
        for q in an.srcs:
            for x in idx:
                if F_at(f, st, q, x): out.add(('out', q, False))
    return out

def F_at(f, st, q, x):
    e = normF(f.expr(x))
    return any(t and t[0] == 'ld' and t[1] == ('elem', q.i, e) for t in subterms(normF(f.expr(st.ops[0]))))

def iv_bound(f, v):
    """n for a loop variable running 0..n-1"""
    if v[0] != 'iv': return None
    c = f.iv(v[1])
    if c is None or c[0] != C(0) or c[1] != 1: return None
    L = c[2]
    for t in [L.header] + list(L.latches):
        T = f.blocks[t].term
        if T.op == 'br' and T.ops:
            x = f.expr(T.ops[0])
            if x[0] == 'cmp' and x[1] in ('slt', 'ult') and x[2] == v: return normF(x[3])
    return None

def check_gen(an, B, r, sts, Z, zw, key):
    """indices not taken from a source matrix: only the own pointer array, the emission cursor or an argument give the count"""
    f = an.f; kind, ci, sig = an.objs[B]
    Bn = normF(f.expr(ci.ops[1 if kind == 'CSC' else 2])); Bo = normF(f.expr(ci.ops[2 if kind == 'CSC' else 1]))
    # stored loop variables and pointer positions run over the declared dimensions
    for st, _, _ in sts:
        v = f.expr(st.ops[0]); b = iv_bound(f, v)
        if b is not None and b[0] == 'arg':
            r.n('generated index ranges')
            if b != Bn and Bn[0] == 'arg': r.v(key + ':shape', ci.where(), 'stored indices run up to %s, the index dimension of the result is %s' % (pretty(f, b), pretty(f, Bn)))
    for st in f.stores():
        a = normF(f.expr(st.ops[1]))
        if a[0] == 'elem' and a[1] == F(B, 'p'):
            c, ts = lin_parts(a[2])
            if c == 1 and len(ts) == 1:
                b = iv_bound(f, list(ts)[0])
                if b is not None and b[0] == 'arg' and Bo[0] == 'arg':
                    r.n('generated pointer ranges')
                    if b != Bo: r.v(key + ':shape', ci.where(), 'the pointer array runs up to %s, the compressed dimension of the result is %s' % (pretty(f, b), pretty(f, Bo)))
    if Z == 'unclear' or own_count(an, B, Z): return
    if Z[0] == 'arg' and any(varies_in(f, c) and not pattern_cond(c) for st, _, _ in sts for c, k, b in guards(f, st.blk)):
        r.n('entry counts'); r.v(key + ':nnz', zw.where(), 'entries are stored under a condition, but the count of the result is the parameter %s' % pretty(f, Z)); return
    if Z[0] in ('phi', 'iv') and counters(an, Z) is not None:
        check_count(an, B, r, sts, Z, zw, key, set(), False, set(), None)

def check_calls_into(an, B, r, M, N, Z, S, key):
    """the arrays are written by a callee or through other names: dimensions, type and count must still be those of the arguments"""
    r.n('objects filled elsewhere')
    f = an.f; kind, ci, sig = an.objs[B]
    ks = [q for q in an.srcs if q.X is not None]
    if not ks: return
    passed = any(i.op in ('call', 'invoke') and i is not ci and any(normF(f.expr(o)) == B or is_field_addr(normF(f.expr(o)), B) for o in i.ops) for i in f.instrs())
    if not passed: return
    r.n('shape obligations', 2)
    if len({q.kind for q in ks} | {kind}) == 1:
        if M not in [F(q.X, 'm') for q in ks] or N not in [F(q.X, 'n') for q in ks]:
            r.v(key + ':shape', ci.where(), 'the result is declared %s by %s' % (pretty(f, M), pretty(f, N)))
        want = [F(q.X, 'stype') for q in ks]
        r.n('symmetry obligations')
        if S not in want: r.v(key + ':stype', ci.where(), 'the symmetry type of the result should be %s' % pretty(f, want[0]))
        r.n('entry counts')
        copied = any(i.op in ('call', 'invoke') and i is not ci and short_of(i.cdem or '') in ('copy', 'copy_n', 'memcpy', 'memmove', 'uninitialized_copy') or (i.callee or '').startswith('llvm.mem') for i in f.instrs() if i.op in ('call', 'invoke') and any(is_field_addr(normF(f.expr(o)), B) for o in i.ops))
        if Z == 'unclear' or not (own_count(an, B, Z) or copied and src_count(an, Z, ks)): r.v(key + ':nnz', ci.where(), 'the entry count of the result is %s, not the closing entry of its pointer array' % (Z if Z == 'unclear' else pretty(f, Z)))
    else:
        if M not in [F(q.X, 'm') for q in ks] or N not in [F(q.X, 'n') for q in ks]:
            r.v(key + ':shape', ci.where(), 'the result of the format change is declared %s by %s' % (pretty(f, M), pretty(f, N)))
        r.n('symmetry obligations')
        if S not in [F(q.X, 'stype') for q in ks]: r.v(key + ':stype', ci.where(), 'the symmetry type of the source is not kept')
        r.n('entry counts')
        if Z == 'unclear' or not (own_count(an, B, Z) or src_count(an, Z, ks)): r.v(key + ':nnz', ci.where(), 'the entry count of the result is %s' % (Z if Z == 'unclear' else pretty(f, Z)))

def is_field_addr(e, B):
    return e[0] == 'fld' and e[1] == B or e[0] == 'ld' and e[1][0] == 'fld' and e[1][1] == B

def check_tri_results(P, r):
    """a symmetry type assigned to the result of a triangle extraction must name the triangle that was extracted"""
    for f in P.fns.values():
        if not f.file: continue
        for st in f.stores():
            a = f.expr(st.ops[1])
            if a[0] == 'fld' and a[3] == 'stype' and a[1][0] == 'call':
                ci = f.vals[a[1][2]]
                if ci.callee not in TRI: continue
                fl, d1, d0 = TRI[ci.callee]; act = f.expr(ci.ops[fl[1]]); v = f.expr(st.ops[0]); r.n('symmetry obligations')
                for val, d in ((1, d1), (0, d0)):
                    if act[0] == 'c' and bool(act[1]) != bool(val): continue
                    env = {} if act[0] == 'c' else {act: ('c', val)}
                    g = ev(f, v, env)
                    if g != C(d): r.v('%s:%s:stype' % (fname(f), short_of(ci.cdem)), st.where(), 'the %s triangle was extracted, but the result is given symmetry type %s' % ('upper' if d > 0 else 'lower', pretty(f, g)))

def check_params(P, r):
    """call sites that pass a matrix's own arrays must pass the dimensions the callee iterates them with"""
    summ = {}
    for f in P.fns.values():
        if not f.file or 'sptrsv_src' in f.file or '/utils/' not in f.file: continue
        an = An(P, f)
        for q in an.srcs:
            if q.X is not None or q.p[0] != 'arg': continue
            od = set(); idm = set()
            for v, qs in an.outer.items():
                if q in qs and v[0] == 'iv':
                    L = f.loops[f.hdr[f.vals[v[1]].blk]] 
                    for t in L.blocks:
                        T = f.blocks[t].term
                        if T.op == 'br' and T.ops and any(s not in L.blocks for s in T.tgt if isinstance(s, str)):
                            c = f.expr(T.ops[0])
                            if c[0] == 'cmp' and c[2] == v and c[3][0] == 'arg': od.add(c[3][1])
            # arrays indexed by inner values: extent
            for i in f.instrs():
                if i.op in ('load', 'store'):
                    a = normF(f.expr(i.ops[0] if i.op == 'load' else i.ops[1]))
                    if a[0] == 'elem' and a[1][0] == 'heap':
                        so = an.sorts(a[2])
                        if any(d == 'in' and qq is q and not p for d, qq, p in so):
                            n = new_extent(f, a[1])
                            if n is not None and n[0] == 'arg': idm.add(n[1])
            if od or idm: summ[f.name] = summ.get(f.name, []) + [(q.p[1], q.i[1], od, idm)]
    for _ in range(3):
        for f in P.fns.values():
            if not f.file or f.name in summ: continue
            new = []
            for i in f.instrs():
                if i.op in ('call', 'invoke') and i.callee in summ and i.callee != f.name:
                    A = [f.expr(o) for o in i.ops]
                    for p, ix, od, idm in summ[i.callee]:
                        if A[p][0] == 'arg' and A[ix][0] == 'arg':
                            new.append((A[p][1], A[ix][1], {A[k][1] for k in od if A[k][0] == 'arg'}, {A[k][1] for k in idm if A[k][0] == 'arg'}))
            if new: summ[f.name] = new
    for f in P.fns.values():
        if not f.file: continue
        kinds = arg_kinds(f); objs = {}
        for i in f.instrs():
            if i.op in ('call', 'invoke') and i.callee in summ:
                A = [normF(f.expr(o)) for o in i.ops]
                for p, ix, od, idm in summ[i.callee]:
                    e = A[p]
                    if not (e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] == 'p' and e[1][1][0] == 'arg' and e[1][1][1] in kinds): continue
                    X = e[1][1]; kd = kinds[X[1]]
                    r.n('dimension arguments', len(od) + len(idm))
                    for k in od:
                        if A[k] != F(X, odim(kd)): r.v('%s:%s:dims' % (fname(f), short_of(i.cdem)), i.where(), '%s runs over the pointer array of %s with %s, its compressed dimension is %s' % (short_of(i.cdem), pretty(f, X), pretty(f, A[k]), pretty(f, F(X, odim(kd)))))
                    for k in idm:
                        if A[k] != F(X, idim(kd)): r.v('%s:%s:dims' % (fname(f), short_of(i.cdem)), i.where(), '%s sizes arrays by %s for indices of %s, whose index dimension is %s' % (short_of(i.cdem), pretty(f, A[k]), pretty(f, X), pretty(f, F(X, idim(kd)))))

def new_extent(f, h):
    """element count of a new[] heap expression when it is a plain value"""
    i = f.vals[h[1]]
    if not i.ops: return None
    return count_of(f, i.ops[0], 0)

def count_of(f, o, d):
    if d > 10: return None
    e = f.expr(o)
    if e[0] == 'lin':
        if e[1] == 0 and len(e[2]) == 1: return e[2][0][0]
        return None
    if e[0] == 'arg': return e
    if isinstance(o, str) and o[0] != 'a':
        i = f.vals[o]
        if i.op == 'select':
            for x in i.ops[1:]:
                y = count_of(f, x, d + 1)
                if y: return y
        if i.op in ('extractvalue', 'mul', 'shl', 'sext', 'zext'):
            for x in i.ops:
                if isinstance(x, str):
                    y = count_of(f, x, d + 1)
                    if y: return y
        if i.op in ('call', 'invoke') and 'umul' in (i.callee or ''):
            for x in i.ops:
                if isinstance(x, str):
                    y = count_of(f, x, d + 1)
                    if y: return y
    return None

def mini(f, args, steps=400):
    """constant propagation of a pure integer function along the single path its constant arguments select"""
    env = {'a%d' % k: v for k, v in enumerate(args)}
    def val(o):
        if isinstance(o, str): return env.get(o)
        return o[1] if o[0] == 'c' else None
    prev = None; cur = f.order[0]
    while steps > 0:
        nxt = None
        new = {}
        for i in f.blocks[cur].ins:
            steps -= 1
            if i.op == 'phi': new[i.id] = next((val(o) for o, b in zip(i.ops, i.inc) if b == prev), None); continue
            env.update(new); new = {}
            if i.op in ('sext', 'zext', 'trunc'): env[i.id] = val(i.ops[0])
            elif i.op == 'select':
                c = val(i.ops[0]); env[i.id] = None if c is None else val(i.ops[1] if c else i.ops[2])
            elif i.op == 'icmp':
                a, b = val(i.ops[0]), val(i.ops[1])
                env[i.id] = None if a is None or b is None else int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}.get(i.pred, 0))
            elif i.op == 'switch':
                c = val(i.ops[0])
                if c is None: return None
                nxt = i.tgt[1 + i.cases.index(c)] if c in i.cases else i.tgt[0]
            elif i.op == 'br':
                if i.ops:
                    c = val(i.ops[0])
                    if c is None: return None
                    nxt = i.tgt[0] if c else i.tgt[1]
                else: nxt = f.blocks[cur].succ[0]
            elif i.op == 'ret': return val(i.ops[0]) if i.ops else None
            elif i.op in ('add', 'sub', 'mul'):
                a, b = val(i.ops[0]), val(i.ops[1]); env[i.id] = None if a is None or b is None else a + b if i.op == 'add' else a - b if i.op == 'sub' else a * b
        env.update(new)
        if nxt is None: return None
        prev, cur = cur, nxt
    return None

def check_readers(P, r):
    hdrs = {}
    for f in P.fns.values():
        if not f.file: continue
        ex = [i for i in f.instrs() if i.op in ('call', 'invoke') and i.cdem and 'istream' in i.cdem and short_of(i.cdem) in ('operator>>', 'operator') and 'operator>>(' in i.cdem and len(i.ops) > 1 and f.expr(i.ops[1])[0] == 'arg']
        if len(ex) < 2: continue
        roles = {}
        # chains: consecutive extractions on the same stream
        starts = [i for i in ex if f.expr(i.ops[0])[0] != 'call']
        for st in starts:
            k = 0; cur = st
            while cur is not None:
                a = f.expr(cur.ops[1])[1]; r.n('header fields')
                if roles.setdefault(a, k) != k:
                    r.v('%s:header' % fname(f), cur.where(), 'header number %d is read into %s here, but number %d elsewhere' % (k + 1, pretty(f, ('arg', a)), roles[a] + 1))
                k += 1
                cur = next((i for i in ex if isinstance(i.ops[0], str) and i.ops[0] == cur.id), None)
        # text tags
        tags = {}
        for i in f.instrs():
            if i.op in ('call', 'invoke') and i.cdem and 'operator==' in i.cdem:
                for o in i.ops:
                    e = f.expr(o)
                    if e[0] == 'g' and P.globals.get(e[1], {}).get('str') in ('symmetric', 'general'):
                        for st in f.stores():
                            a = f.expr(st.ops[1]); v = f.expr(st.ops[0])
                            if a[0] == 'arg' and v[0] == 'c':
                                for b, k in f.cdeps(st.blk):
                                    T = f.blocks[b].term
                                    if k == 0 and T.ops and T.ops[0] == i.id: tags.setdefault(P.globals[e[1]]['str'], []).append((a[1], v[1]))
        hdrs[f.name] = (roles, tags)
    for f in P.fns.values():
        if not f.file: continue
        role = {}; tag = {}
        for i in f.instrs():
            if i.op not in ('call', 'invoke') or not i.cdem: continue
            if i.callee in hdrs:
                for k, o in enumerate(i.ops):
                    if k in hdrs[i.callee][0]: role[f.expr(o)] = hdrs[i.callee][0][k]
                for t, l in hdrs[i.callee][1].items():
                    for a, c in l: tag.setdefault(f.expr(i.ops[a]), {})[t] = c
            elif short_of(i.cdem) == 'mm_read_mtx_crd_size':
                for k in (1, 2, 3): role[f.expr(i.ops[k])] = k - 1
            elif short_of(i.cdem) == 'mm_read_mtx_array_size':
                for k in (1, 2): role[f.expr(i.ops[k])] = k - 1
        if not role: continue
        an = None
        ctors = [i for i in f.instrs() if i.op in ('call', 'invoke') and i.cdem and re.search(r'::(CSC|CSR|Dense)::(CSC|CSR|Dense)\(', i.cdem)]
        for c in ctors:
            r.n('reader results')
            B = f.expr(c.ops[0]); nm = '%s:%s' % (fname(f), pretty(f, B).lstrip('*'))
            for k in range(2):
                e = f.expr(c.ops[1 + k])
                got = role.get(e[1]) if e[0] == 'ld' else None
                if got != k: r.v(nm + ':shape', c.where(), 'the number of %s of the result is not the %s number of the file header' % (('rows', 'columns')[k], ('first', 'second')[k]))
            if 'Dense' not in c.cdem:
                an = an or An(P, f)
                e, _ = final_field(an, B, 'nnz', f.expr(c.ops[3]))
                if e == 'unclear' or not (own_count(an, B, e) or e[0] == 'ld' and role.get(e[1]) == 2): r.v(nm + ':nnz', c.where(), 'the entry count of the result is neither the third number of the file header nor the closing entry of its pointer array')
                # symmetry
                st = f.expr(c.ops[-1]) if c.cdem.rstrip(')').endswith('int') else None
                vals = [st] if st is not None else []
                vals += [f.expr(x.ops[0]) for x in f.stores() if normF(f.expr(x.ops[1])) == ('fld', B, 'CSC', 'stype')]
                r.n('symmetry obligations')
                ok = False
                for v in vals:
                    if v[0] == 'call':
                        ci = f.vals[v[2]]; g = P.fns.get(ci.callee)
                        for a, m in tag.items():
                            if g is not None and any(f.expr(o) == ('ld', a) for o in ci.ops):
                                k = [f.expr(o) == ('ld', a) for o in ci.ops].index(True)
                                ok = 'symmetric' in m and 'general' in m and mini(g, [m['symmetric'] if x == k else None for x in range(len(ci.ops))]) == -1 and mini(g, [m['general'] if x == k else None for x in range(len(ci.ops))]) == 0
                    elif sym_letter(f, v): ok = True
                if not ok: r.v(nm + ':stype', c.where(), 'a symmetric file must give symmetry type -1 (lower stored), a general one 0')

def sym_letter(f, v):
    """(code[3] == 'S') ? -1 : 0 in any form"""
    for val, want in ((1, -1), (0, 0)):
        conds = [e for e in conds_in(f, v) if e[0] == 'cmp' and e[1] in ('eq', 'ne') and ('c', ord('S')) in e[2:]]
        if not conds: return False
        env = {}
        for c in conds: env[c] = ('c', val if c[1] == 'eq' else 1 - val)
        if ev(f, v, env) != ('c', want): return False
    return True

def conds_in(f, v, d=0):
    out = []
    if d > 6 or not isinstance(v, tuple): return out
    if v[0] == 'sel': out += [v[1]] + conds_in(f, v[2], d + 1) + conds_in(f, v[3], d + 1)
    elif v[0] in ('phi', 'bphi'):
        i = f.vals[v[1]]
        for b in i.inc: out += [c for c, k in cdeps_expr(f, b)]
    elif v[0] == 'cmp': out.append(v)
    elif v[0] == 'lin':
        for t, k in v[2]: out += conds_in(f, t, d + 1)
    elif v[0] == 'not': out += conds_in(f, v[1], d + 1)
    return out

def filled_total(an, B):
    """the store and the closed form of the number of entries the loops store into B"""
    if not hasattr(an, 'tot'):
        an.tot = {}
        for b, st, v, T in counts.fills(an.f): an.tot.setdefault(normF(b), (st, v, T))
    return an.tot.get(F(B, 'i'))

def judge_total(an, B, Z, zw, key, r):
    """decides the entry count where both it and the number of entries stored have a closed form"""
    tot = filled_total(an, B)
    if tot is None or not isinstance(Z, tuple): return False
    try: d = counts.sign(sub(normF(tot[1]), counts.resolve(an.f, tot[2], Z)))
    except counts.NoForm: return False
    if d is None: return False
    r.n('entry totals compared')
    if d: r.v(key + ':nnz', zw.where(), 'the matrix is given an entry count that is %s than the number of entries the loops store into it' % ('smaller' if d == 1 else 'larger'))
    return True

def check(ctx, r):
    P = ctx.prog('ser')
    for f in P.fns.values():
        if not f.file or 'sptrsv_src' in f.file: continue
        an = An(P, f)
        for B in an.objs: check_obj(an, B, r)
    check_tri_results(P, r)
    check_params(P, r)
    check_readers(P, r)
    r.need('matrix objects', 15); r.need('shape obligations', 8); r.need('symmetry obligations', 4); r.need('entry counts', 6)
