"""Extents of arrays and the largest/smallest index loops use on them, as symbolic expressions."""
from ir import *
from lib import *
from arrays import *

SKIPCTX = object()

def ctor_fields(P):
    """constructor -> {field name: argument index stored in it}"""
    if hasattr(P, '_cf'): return P._cf
    out = {}
    for f in P.fns.values():
        q = f.dem.split('(')[0].split('::')
        if len(q) < 2 or q[-1] != q[-2]: continue
        m = {}
        for i in f.stores():
            a = f.expr(i.ops[1])
            if a[0] == 'fld' and a[1] == ('arg', 0):
                v = f.expr(i.ops[0])
                m[a[3]] = v if v[0] == 'arg' or v[0] == 'c' else None
            elif a == ('arg', 0): m['#0'] = f.expr(i.ops[0])
        out[f.name] = m
    P._cf = out
    return out

def facts():
    import os
    out = {}
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'facts.txt')
    for l in open(p) if os.path.exists(p) else ():
        w = l.rstrip('\n').split(' ', 2)
        if len(w) == 3 and w[0][0] != '#': out[(w[0], w[1] if w[1] == 'ret' else int(w[1]))] = eval(w[2])
    return out

class Ext:
    def __init__(s, P, cls=None):
        s.P = P; s._w = {}; s._obj = {}; s._st = {}; s.F = facts()
    # ---------------------------------------------------------------- documented value ranges
    def top(s, f, t):
        """largest value of an atom, from the documented ranges"""
        if t[0] == 'call':
            i = f.vals[t[2]]; e = s.F.get((i.callee, 'ret'))
            return s._carry(e, f, i) if e is not None else None
        if t[0] != 'ld': return None
        b, _ = split_elem(t[1])
        if b[0] == 'arg': return s._n(f, s.F.get((f.name, b[1])))
        if b[0] == 'data' and b[1][0] == 'arg': return s._n(f, s.F.get((f.name, b[1][1])))
        if b[0] == 'ld' and b[1][0] == 'arg': return s._n(f, s.F.get((f.name, b[1][1])))
        cand = []
        if b[0] == 'ld' and b[1][0] == 'alloca': cand = [b[1], b]
        elif b[0] in ('alloca', 'heap'): cand = [b]
        elif b[0] == 'data': cand = [b, b[1]]
        if b[0] == 'ld' and b[1][0] == 'alloca':
            h = heap_of(f, b)
            if h: cand.append(h)
        out = set()
        for i in f.instrs() if cand else ():
            if i.op not in ('call', 'invoke') or i.callee not in s.P.fns: continue
            for k, o in enumerate(i.ops):
                if (i.callee, k) in s.F and isinstance(o, str) and f.expr(o) in cand:
                    v = s._carry(s.F[(i.callee, k)], f, i)
                    if v is not None: out.add(v)
        return out.pop() if len(out) == 1 else None
    def _n(s, f, e): return s.norm(f, e) if e is not None else None
    def _carry(s, e, f, i):
        y = s.subst(e, s.P.fns[i.callee], f, i) if i.callee in s.P.fns else None
        return s.norm(f, y) if y is not None else None
    def bounded(s, f, e):
        """replace documented-range atoms by their largest value"""
        for _ in range(4):
            k, parts = lin_parts(e); ch = False
            for t, c in parts.items():
                if c > 0 and t[0] in ('call', 'ld'):
                    v = s.top(f, t)
                    if v is not None and v != t:
                        e = s.norm(f, add(sub(e, scale(t, c)), scale(v, c))); ch = True; break
            if not ch: break
        return e
    # ---------------------------------------------------------------- objects
    def built(s, f, o):
        """constructor call that built object o in f (one only)"""
        k = (f.name, o)
        if k in s._obj: return s._obj[k]
        cs = [i for i in f.instrs() if i.op in ('call', 'invoke') and i.callee in ctor_fields(s.P) and i.ops and f.expr(i.ops[0]) == o]
        s._obj[k] = cs[0] if len(cs) == 1 else None
        return s._obj[k]
    def stored(s, f):
        if f.name not in s._st:
            d = {}
            for i in f.stores(): d.setdefault(f.expr(i.ops[1]), []).append(f.expr(i.ops[0]))
            s._st[f.name] = d
        return s._st[f.name]
    def field_value(s, f, a):
        """value of a scalar field of an object built here and not changed since"""
        o = a[1]
        if o[0] == 'ld' and o[1][0] in ('alloca',):
            h = heap_of(f, o)
            if h: o = h
        if o[0] == 'call': return s.returned_field(f, o, a)
        if o[0] not in ('heap', 'alloca'): return None
        c = s.built(f, o)
        if not c or a in s.stored(f) or ('fld', o, a[2], a[3]) in s.stored(f): return None
        v = ctor_fields(s.P)[c.callee].get(a[3])
        if v is None: return None
        if v[0] == 'c': return v
        return s.norm(f, f.expr(c.ops[v[1]])) if v[1] < len(c.ops) else None
    def returned_field(s, f, o, a):
        """scalar field of an object another routine built and returned"""
        i = f.vals[o[2]]; g = s.P.fns.get(i.callee)
        if not g: return None
        out = set()
        for bb in g.reach:
            t = g.blocks[bb].term
            if t.op == 'ret' and t.ops:
                vs = [g.expr(t.ops[0])]
                if vs[0][0] == 'phi': vs = [g.expr(q) for q in g.vals[vs[0][1]].ops]
                for v in vs:
                    if v == ('null',): continue
                    if v[0] == 'ld' and v[1][0] == 'alloca': v = heap_of(g, v) or v
                    if v[0] not in ('heap',): return None
                    x = s.field_value(g, ('fld', v, a[2], a[3]))
                    y = s.subst(x, g, f, i) if x is not None else None
                    if y is None: return None
                    out.add(s.norm(f, y))
        return out.pop() if len(out) == 1 else None
    # ---------------------------------------------------------------- normal form
    def norm(s, f, e, d=0):
        if not isinstance(e, tuple) or not e or d > 25: return e
        if e[0] == 'ld':
            a = e[1]
            if a[0] == 'fld' and fieldname(s.P, a) in ('m', 'n', 'nnz', 'nodes', 'row', 'col'):
                v = s.field_value(f, a)
                if v is not None: return v
                return ('ld', ('fld', s.norm(f, a[1], d + 1), a[2], a[3]))
            x = single(f, e)
            if x != e: return s.norm(f, x, d + 1)
            b, k = split_elem(a)
            if b[0] == 'ld' and b[1][0] == 'fld' and fieldname(s.P, b[1]) == 'p':
                k = s.norm(f, k, d + 1)
                for q in ('m', 'n'):
                    g = s.norm(f, ('ld', field(s.P, b[1], q)), d + 1)
                    if g == k: return s.norm(f, ('ld', field(s.P, b[1], 'nnz')), d + 1)
            return ('ld', s.norm(f, a, d + 1))
        if e[0] == 'lin':
            out = C(e[1])
            for a, c in e[2]: out = add(out, scale(s.norm(f, a, d + 1), c))
            return out
        if e[0] == 'mul': return mul(s.norm(f, e[1], d + 1), s.norm(f, e[2], d + 1))
        if e[0] == 'elem': return elem(s.norm(f, e[1], d + 1), s.norm(f, e[2], d + 1))
        if e[0] in ('fld',): return ('fld', s.norm(f, e[1], d + 1)) + e[2:]
        if e[0] == 'size':
            x = s.vec_extent(f, e[1])
            return x if x is not None else e
        return e
    # ---------------------------------------------------------------- extents
    def of(s, f, b):
        """possible element counts of the array with base b (each an upper limit on its own terms)"""
        if b[0] == 'heap':
            return s._heap(f, b)
        if b[0] == 'data':
            x = s.vec_extent(f, b[1])
            return [x] if x is not None else []
        if b[0] == 'arr' and b[1][0] == 'alloca':
            t = f.vals[b[1][1]].aty or f.vals[b[1][1]].sty or ''
            m = re.match(r'\[(\d+) x', t)
            return [C(int(m.group(1)))] if m else []
        if b[0] == 'ld':
            a = b[1]
            if a[0] == 'fld':
                st = s.stored(f).get(a)
                if st:
                    hs = [v for v in st if v[0] == 'heap']
                    if len(st) == 1 and hs: return s._heap(f, hs[0])
                    if len(st) == 1 and st[0][0] == 'ld' and st[0][1][0] in ('alloca', 'fld') and st[0] != b: return s.of(f, st[0])
                    return []
                return s.class_extent(f, a)
            if a[0] in ('alloca', 'arg'):
                st = s.stored(f).get(a, [])
                hs = {v for v in st if v[0] == 'heap'}; rest = {v for v in st if v[0] not in ('heap', 'null')}
                if len(hs) == 1 and not rest and not s.passed_out(f, a): return s._heap(f, hs.pop())
                if not st: return s.given(f, a)
                if len(rest) == 1 and not hs: return s.of(f, rest.pop())
        if b[0] == 'call':
            return s.returned(f, b)
        return []
    def _heap(s, f, h, es=None):
        i = f.vals[h[1]]
        n = alloc_count(f, h, s.esz(f, h) or es)
        return [s.norm(f, n)] if n is not None else []
    def esz(s, f, h):
        for u in f.instrs():
            if u.op in ('store', 'load'):
                b, k = split_elem(f.expr(u.ops[1] if u.op == 'store' else u.ops[0]))
                if b == h or heap_of(f, b) == h:
                    v = u.ops[0] if u.op == 'store' else None
                    t = u.ty if u.op == 'load' else (f.vals[v].ty if isinstance(v, str) and v in f.vals else u.sty)
                    if t and esize(t): return esize(t)
        return None
    def passed_out(s, f, a):
        """the slot's address is given to another routine that may replace the array"""
        if a[0] != 'alloca': return False
        for u in f.users.get(a[1], []):
            if u.op in ('call', 'invoke') and not (u.callee or '').startswith('llvm.'): return True
        return False
    def class_extent(s, f, a):
        n = fieldname(s.P, a)
        if a[2] in ('CSC', 'CSR'):
            if n == 'p': return [add(s.norm(f, ('ld', field(s.P, a, q))), C(1)) for q in ('m', 'n')]
            if n in ('i', 'x'): return [s.norm(f, ('ld', field(s.P, a, 'nnz')))]
        if a[2] not in ('CSC', 'CSR', 'BCSC'):
            out = set(); cm = ctor_fields(s.P)
            for g in s.P.fns.values():
                if g.name not in cm or g.dem.split('(')[0].split('::')[-1] != a[2] or a[3] not in cm[g.name] : continue
                v = next((g.expr(i.ops[0]) for i in g.stores() if (lambda q: q[0] == 'fld' and q[1] == ('arg', 0) and q[3] == a[3])(g.expr(i.ops[1]))), None)
                if v is None or v[0] != 'heap': return []
                for n in s._heap(g, v, s.esz(f, ('ld', a))):
                    kf = {x: q for q, x in cm[g.name].items() if x and x[0] == 'arg'}
                    k, parts = lin_parts(n); e = C(k)
                    for t, c in parts.items():
                        if t[0] == 'ld' and t[1][0] == 'fld' and t[1][1] == ('arg', 0) and t[1][3] in cm[g.name]:
                            e = add(e, scale(('ld', ('fld', a[1], a[2], t[1][3])), c)); continue
                        if t not in kf: return []
                        e = add(e, scale(('ld', ('fld', a[1], a[2], kf[t])), c))
                    out.add(e)
            return list(out) if len(out) == 1 else []
        if a[2] == 'BCSC':
            if n in ('p', 'supernodes'): return [add(s.norm(f, ('ld', field(s.P, a, 'nodes'))), C(1))]
            if n == 'nrows': return [s.norm(f, ('ld', field(s.P, a, 'nodes')))]
        return []
    def given(s, f, a):
        """array put in a local slot by a routine that receives the slot by reference"""
        if a[0] != 'alloca': return []
        us = [u for u in f.users.get(a[1], []) if u.op in ('call', 'invoke') and u.callee in s.P.fns and a[1] in u.ops]
        if len(us) != 1: return []
        u = us[0]; g = s.P.fns[u.callee]; k = u.ops.index(a[1])
        st = s.stored(g).get(('arg', k), [])
        out = set()
        for v in st:
            if v[0] == 'null': continue
            if v[0] != 'heap': return []
            for x in s._heap(g, v):
                y = s.subst(x, g, f, u)
                if y is None: return []
                out.add(s.norm(f, y))
        return list(out) if len(out) == 1 else []
    def returned(s, f, b):
        i = f.vals[b[2]]; g = s.P.fns.get(i.callee)
        if not g: return []
        out = set()
        for bb in g.reach:
            t = g.blocks[bb].term
            if t.op == 'ret' and t.ops:
                v = g.expr(t.ops[0])
                if v[0] == 'ld' and v[1][0] == 'alloca':
                    h = heap_of(g, v)
                    if h: v = h
                if v[0] != 'heap' or (g.vals[v[1]].callee or '').startswith('_Znw'): return []
                for x in s._heap(g, v):
                    y = s.subst(x, g, f, i)
                    if y is None: return []
                    out.add(s.norm(f, y))
        return list(out) if len(out) == 1 else []
    def subst(s, e, g, f, call):
        """callee expression in the caller's terms, None if it speaks of callee-internal values"""
        bad = []
        def go(e):
            if not isinstance(e, tuple) or not e: return e
            k = e[0]
            if k == 'arg':
                if e[1] < len(call.ops): return f.expr(call.ops[e[1]])
                bad.append(e); return e
            if k == 'ld' and e[1][0] == 'arg':
                a = f.expr(call.ops[e[1][1]]) if e[1][1] < len(call.ops) else None
                if a is None or a[0] == 'alloca' and single(f, ('ld', a)) == ('ld', a): bad.append(e); return e
                return single(f, ('ld', a))
            if k in ('iv', 'phi', 'bphi', 'alloca', 'heap', 'call', 'rf', 'rec', 'undef', 'op', 'xv', 'rmw'): bad.append(e); return e
            if k == 'lin':
                out = C(e[1])
                for a, c in e[2]: out = add(out, scale(go(a), c))
                return out
            if k == 'mul': return mul(go(e[1]), go(e[2]))
            if k == 'elem': return elem(go(e[1]), go(e[2]))
            if k in ('data', 'size'):
                return (k, go(e[1]))
            return (k,) + tuple(go(x) if isinstance(x, tuple) else x for x in e[1:])
        r = go(e)
        return None if bad else r
    # ---------------------------------------------------------------- vectors
    MUTS = {'push_back', 'emplace_back', 'pop_back', 'insert', 'erase', 'clear', 'swap', 'operator=', 'shrink_to_fit'}
    def vec_extent(s, f, v):
        k = (f.name, v)
        if k in s._w: return s._w[k]
        s._w[k] = None
        sizes = set(); ok = v[0] in ('alloca', 'arg')
        for i in f.instrs() if ok else ():
            if i.op not in ('call', 'invoke') or not i.ops: continue
            pos = [k2 for k2, o in enumerate(i.ops) if f.expr(o) == v]
            if not pos: continue
            d = (i.cdem or '').split('(')[0]; n = short_of(i.cdem or '')
            if 'std::vector<' in d and pos[0] == 0:
                if n == 'vector':
                    a = (i.cdem or '').split('(', 1)[1]
                    if a.startswith('unsigned long'): sizes.add(s.norm(f, f.expr(i.ops[1])))
                    elif len(i.ops) > 1 and not a.startswith(('std::allocator', ')')): ok = False
                elif n == 'resize': sizes.add(s.norm(f, f.expr(i.ops[1])))
                elif n == 'assign' and (i.cdem or '').split('(', 1)[1].startswith('unsigned long'): sizes.add(s.norm(f, f.expr(i.ops[1])))
                elif n in s.MUTS or n == 'assign': ok = False
            elif i.callee in s.P.fns:
                g = s.P.fns[i.callee]
                for q in pos:
                    if s.resizes(g, q): ok = False
            elif not (i.callee or '').startswith('llvm.') and n not in ('back_inserter', 'operator==', 'operator[]', 'size', 'begin', 'end'): ok = ok and n.startswith('~')
        if ok and len(sizes) == 1: s._w[k] = sizes.pop()
        return s._w[k]
    def resizes(s, g, q, d=0):
        k = ('rs', g.name, q)
        if k in s._w: return s._w[k]
        s._w[k] = False; r = False
        for i in g.instrs():
            if i.op not in ('call', 'invoke') or not i.ops: continue
            for k2, o in enumerate(i.ops):
                if g.expr(o) != ('arg', q): continue
                n = short_of(i.cdem or '')
                if 'std::vector<' in (i.cdem or '').split('(')[0] and k2 == 0:
                    if n in s.MUTS or n in ('resize', 'assign', 'reserve'): r = r or n != 'reserve'
                elif i.callee in s.P.fns: r = r or (d < 4 and s.resizes(s.P.fns[i.callee], k2, d + 1))
        s._w[k] = r
        return r
    # ---------------------------------------------------------------- index ranges
    def reach(s, f, e, up=True, d=0, top=None):
        """largest (up) / smallest value the index expression takes over the counted loops around it, or None"""
        e = s.norm(f, e)
        if up: e = s.bounded(f, e)
        for _ in range(8):
            k, parts = lin_parts(e)
            ivs = [a for a in parts if a[0] in ('iv', 'rf')]
            if not ivs: break
            ivs.sort(key=lambda a: -len(f.loop_chain(f.vals[a[1]].blk)) if a[0] == 'iv' else 0)
            a = ivs[0]; c = parts[a]
            if top and a in top:
                e = s.norm(f, add(sub(e, scale(a, c)), scale(s.norm(f, top[a]), c))); top = {k: v for k, v in top.items() if k != a}
                if up: e = s.bounded(f, e)
                continue
            if a[0] == 'rf': return None
            r = f.range(a[1])
            if not r or abs(r[2]) != 1: return None
            st, hi, step, L = r
            if step == 1: lo, tp = st, (None if hi is None else add(hi, C(-1)))
            else: lo, tp = (None if hi is None else add(hi, C(1))), st
            v = tp if (c > 0) == up else lo
            if v is None: return None
            v = s.norm(f, v)
            # bound taken from a pointer array whose own index moves
            kk, pp = lin_parts(v)
            for t, tc in list(pp.items()):
                if t[0] == 'ld' and mentions(t, lambda x: x[0] == 'iv'):
                    b, ix = split_elem(t[1])
                    m = s.reach(f, ix, (tc > 0) == ((c > 0)) if up else (tc > 0) != (c > 0), d + 1, top) if d < 3 else None
                    seg = lo is not None and tp is not None
                    if m is None or not is_pointer_array(f, b): return None
                    v = add(sub(v, scale(t, tc)), scale(s.norm(f, ('ld', elem(b, m))), tc))
            e = add(sub(e, scale(a, c)), scale(v, c))
            e = s.norm(f, e)
            if up: e = s.bounded(f, e)
        if mentions(e, lambda x: x[0] in ('iv', 'phi', 'bphi', 'rf', 'rec', 'undef')): return None
        return e

def is_pointer_array(f, b):
    """some loop of the function runs from b[e] to b[e+1]"""
    c = f.__dict__.setdefault('_ptrarr', None)
    if c is None:
        c = set()
        for i in f.instrs():
            if i.op == 'phi' and f.iv(i):
                r = f.range(i.id)
                if not r or r[1] is None: continue
                for x, y in ((r[0], r[1]), (r[1], r[0])):
                    kx, px = lin_parts(x); ky, py = lin_parts(y)
                    for t in px:
                        for u in py:
                            if t[0] == 'ld' and u[0] == 'ld':
                                b1, k1 = split_elem(t[1]); b2, k2 = split_elem(u[1])
                                if b1 == b2 and sub(k2, k1) == C(1): c.add(b1)
        f._ptrarr = c
    return b in c

def fieldname(P, a):
    """member name of a field address (the dump may give a position)"""
    if a[3][0] == '#':
        t = next((t for n, t in P.structs.items() if n.split('::')[-1] == a[2]), None)
        k = int(a[3][1:])
        if t and k < len(t['members']): return t['members'][k][0]
    return a[3]

def field(P, a, name):
    """address of another member of the same object"""
    if a[3][0] == '#':
        t = next((t for n, t in P.structs.items() if n.split('::')[-1] == a[2]), None)
        if t:
            for k, m in enumerate(t['members']):
                if m[0] == name: return ('fld', a[1], a[2], '#%d' % k) if k else ('fld', a[1], a[2], '#0')
    return ('fld', a[1], a[2], name)

def field_now(P, f, o, cls, name):
    """value of a member of object o as this function last defines it"""
    for q in (name,) + tuple('#%d' % k for k, m in enumerate(next((t['members'] for n, t in P.structs.items() if n.split('::')[-1] == cls), [])) if m[0] == name):
        vs = {f.expr(i.ops[0]) for i in f.stores() if f.expr(i.ops[1]) == ('fld', o, cls, q)}
        if len(vs) == 1: return vs.pop()
    return ('ld', ('fld', o, cls, name))

CONTRACT = {('CSC', 'p'): ('n', 1), ('CSR', 'p'): ('m', 1), ('CSC', 'i'): ('nnz', 0), ('CSR', 'i'): ('nnz', 0), ('CSC', 'x'): ('nnz', 0), ('CSR', 'x'): ('nnz', 0),
            ('BCSC', 'p'): ('nodes', 1), ('BCSC', 'supernodes'): ('nodes', 1), ('BCSC', 'nrows'): ('nodes', 0)}

def slot(f, b):
    """what names the array: the slot it is kept in, or itself"""
    if b[0] == 'heap':
        for i in f.stores():
            if f.expr(i.ops[0]) == b:
                a = f.expr(i.ops[1])
                if a[0] in ('alloca', 'arg', 'fld'): return ('ld', a)
    return b

def boundary_bases(P, f, BP):
    """arrays this function treats as segment boundaries (read or written in neighbouring pairs, or handed to a routine that does)"""
    out = set()
    pairs = {}
    is_pointer_array(f, None); out |= f.__dict__['_ptrarr']
    for i in f.instrs():
        if i.op == 'load':
            b, k = split_elem(f.expr(i.ops[0])); pairs.setdefault(b, []).append((k, i))
        elif i.op == 'store':
            b, k = split_elem(f.expr(i.ops[1])); v = f.expr(i.ops[0])
            kk, pp = lin_parts(v)
            for t in pp:
                if t[0] == 'ld':
                    b2, k2 = split_elem(t[1])
                    if b2 == b and sub(k, k2) == C(1): out.add(b)
        elif i.op in ('call', 'invoke') and i.callee in P.fns:
            for k, o in enumerate(i.ops):
                if (i.callee, k) in BP and isinstance(o, str): out.add(f.expr(o))
    # differences of neighbours
    for i in f.instrs():
        if i.op == 'sub':
            x, y = f.expr(i.ops[0]), f.expr(i.ops[1])
            for t in lin_parts(x)[1]:
                for u in lin_parts(y)[1]:
                    if t[0] == 'ld' and u[0] == 'ld':
                        b1, k1 = split_elem(t[1]); b2, k2 = split_elem(u[1])
                        if b1 == b2 and sub(k1, k2) == C(1): out.add(b1)
    return out

def boundary_docs():
    import os
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'boundaries.txt')
    return {(w[0], int(w[1])) for w in (l.split() for l in open(p)) if len(w) == 2} if os.path.exists(p) else set()

def boundaries(P, fs):
    """function -> its boundary arrays; parameters carried through calls"""
    BP = boundary_docs(); res = {}
    for _ in range(5):
        n = len(BP)
        for f in fs:
            bs = res[f.name] = boundary_bases(P, f, BP)
            for b in list(bs):
                r = b
                if r[0] in ('ld', 'data'): r = r[1]
                if r[0] == 'ld': r = r[1]
                if r[0] == 'arg': BP.add((f.name, r[1]))
        if len(BP) == n: break
    return res, BP
