"""Coarsened graphs keep every dependence between different groups."""
import os, re
from ir import *
from lib import *
from arrays import *
from cursors import *
from checks import p06, p07, p13, p14, p16, p20
LEVEL = 'other'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ("In the routines agg/groups.txt lists, every place that adds an edge to the group graph is found (a value added to a list or an index array, made from an adjacency entry through a node-to-group map). Every branch that can skip it inside the loop over the neighbours is a test that the two groups are the same "
        "or that the edge is there already; every branch that can skip a node is a test for an empty row; the loop goes over the node's whole segment, but for the diagonal at the documented end; the nodes are all nodes of all groups (the last of the group in a chain grouping, whose groups are only extended along a single edge). "
        "Both ends go through the same map, the map is filled from the same groups, the lists are shortened only by removing duplicates, and copied out in full.")
ASSUME = ["the caller's group arrays are consistent with each other", "the diagonal is at the documented end of a row"]
is_call = p20.is_call
flat = p16.flat

class Em: pass

def spec():
    out = {'edges': {}, 'offsets': {}, 'links': {}}
    for l in open(os.path.join(HERE, 'groups.txt')):
        w = l.split('#')[0].split()
        if len(w) >= 3: out[w[0]][w[1]] = w[2:]
    return out

def depth(f, v):
    L = f.loops[v[1]] if v[0] == 'rf' else f.loop(f.vals[v[1]].blk)
    return (len(f.loop_chain(L.header)), L)

def entries(f, e):
    """(adjacency entry, its loop): the entry read at the position of the innermost loop"""
    best = None
    for x in flat(e):
        if not (isinstance(x, tuple) and len(x) == 2 and x[0] == 'ld' and x[1][0] == 'elem'): continue
        pos = x[1][2]
        vs = [a for a in (lin_parts(pos)[1] if pos[0] != 'rf' else {pos: 1}) if a[0] in ('iv', 'rf') or a[0] == 'phi' and a[1] in f.vals and f.vals[a[1]].blk in f.hdr]
        for v in vs:
            d, L = depth(f, v)
            if best is None or d > best[0]: best = (d, x, v, L)
    return best

def deref(f, o):
    e = f.expr(o) if isinstance(o, str) else tuple(o)
    out = [e]
    if isinstance(o, str) and (e[0] in ('alloca', 'elem', 'phi')): out.insert(0, p16.resolve(f, ('ld', e)))
    return out

def through_map(f, e):
    """(map, entry, offset) of an edge end: the entry itself, map[entry] or entry / k, with a multiple of the node count added"""
    k, parts = lin_parts(p16.resolve(f, e))
    cands = []
    for a, c in parts.items():
        a = p16.resolve(f, a)
        if a[0] in ('sdiv', 'udiv', 'div') and c != 1 and a[1][0] == 'ld' and a[1][1][0] == 'elem': cands.append((a, ('by', C(c)), a[1])); continue
        if c != 1: continue
        if a[0] == 'ld' and a[1][0] == 'elem':
            n = p16.resolve(f, a[1][2])
            if n[0] == 'ld' and n[1][0] == 'elem': cands.append((a, ('map', a[1][1]), n))
            cands.append((a, ('self',), a))
        elif a[0] in ('sdiv', 'udiv', 'div') and a[1][0] == 'ld' and a[1][1][0] == 'elem': cands.append((a, ('by', a[2]), a[1]))
    best = None
    for a, m, n in cands:
        t = entries(f, n)
        if t is None or t[1] != n: continue
        rest = {x: y for x, y in parts.items() if x != a}
        if best is None or t[0] > best[0] or t[0] == best[0] and m[0] != 'self': best = (t[0], m, n, t[2], t[3], a, mk_lin(k, rest))
    return best

def emissions(f):
    out = []
    def add_(i, tgt, own, val, kind):
        b = through_map(f, val)
        if b is None: return
        m = Em(); m.i = i; m.blk = i.blk; m.tgt = tgt; m.own = own; m.kind = kind; m.dir = None
        m.depth, m.map, m.entry, m.var, m.L, m.look, m.off = b
        m.look = p16.resolve(f, val) if False else m.look
        out.append(m)
    freed = freed_locals(f)
    for i in f.instrs():
        if not f.loop_chain(i.blk): continue
        if i.op == 'store' and i.ty != 'ptr':
            e = f.expr(i.ops[1])
            if e[0] == 'elem' and e[1] not in freed and f.vals.get(i.ops[0] if isinstance(i.ops[0], str) else '', None) is not None: add_(i, e[1], None, f.expr(i.ops[0]), 'store')
        elif is_call(i) and p16.ADD.search(re.sub(r'<[^()]*>', '', i.cdem or '')) and i.ops:
            tgt = f.expr(i.ops[0])
            for o in i.ops[1:]:
                vs = deref(f, o)
                n = len(out)
                for v in vs:
                    own = tgt[2] if tgt[0] == 'elem' else None
                    add_(i, tgt[1] if tgt[0] == 'elem' else tgt, own, v, 'list')
                    if len(out) > n: out[-1].dir = 'out' if own is not None else None
                    if len(out) > n: break
                if len(out) == n and tgt[0] == 'elem': add_(i, tgt[1], vs[0], tgt[2], 'list'); 
                if len(out) > n and out[-1].dir is None and tgt[0] == 'elem' and out[-1].own is not tgt[2]: out[-1].dir = 'in'
    # an edge leads out of a loop over the neighbours of a node that is itself visited by a loop
    return [m for m in out if segment(f, m) is not None]

def freed_locals(f):
    """local arrays and lists that only help the routine"""
    out = set()
    for i in f.instrs():
        if is_call(i) and (i.callee in ('free', '_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm')) and i.ops:
            e = f.expr(i.ops[0])
            if e[0] == 'heap': out.add(e)
    for i in f.instrs():
        if i.op == 'alloca': pass
    return out

def subst1(e, v, by):
    k, parts = lin_parts(e)
    c = parts.get(v, 0)
    if not c: return e
    out = mk_lin(k, {a: x for a, x in parts.items() if a != v})
    return add(out, scale(by, c))

def is_ptr(e): return e[0] == 'ld' and e[1][0] == 'elem'

def root(e):
    while e[0] in ('ld', 'fld', 'elem', 'data') and isinstance(e[1], tuple): e = e[1]
    return e

def segment(f, m):
    """(node, left off at the start, left off at the end) of the segment the neighbours are taken from"""
    if m.var[0] == 'rf':
        b = m.entry[1][1]
        if b[0] == 'data' and b[1][0] == 'elem': return b[1][2], 0, 0, b[1][1]
        return None
    r = f.range(m.var[1]) if m.var[0] == 'iv' else None
    if r is None or r[1] is None: return None
    lo, hi, st = r[0], r[1], r[2]
    if st == -1: lo, hi, st = add(hi, C(1)), add(lo, C(1)), 1
    if st != 1: return None
    pos = m.entry[1][2]
    s0, s1 = subst1(pos, m.var, lo), subst1(pos, m.var, hi)
    b = m.entry[1][1]
    if s0[0] == 'c' and b[0] == 'data' and b[1][0] == 'elem':      # list of lists
        k, parts = lin_parts(s1)
        if parts == {('size', b[1]): 1}: return b[1][2], s0[1], -k, b[1][1]
        return None
    k0, p0 = lin_parts(s0); k1, p1 = lin_parts(s1)
    ps = [a for a, c in p0.items() if is_ptr(a) and c == 1]
    for a in ps:
        rest0 = {x: y for x, y in p0.items() if x != a}
        if rest0: continue
        P_, x = a[1][1], a[1][2]
        e = ('ld', ('elem', P_, add(x, C(1))))
        if p1 == {e: 1}: return x, k0, -k1, P_
        w = dict(p1); w.pop(a, None)
        if len(w) == 1 and p1.get(a) == 1:
            q = next(iter(w))
            if is_ptr(q) and q[1][2] == x and w[q] == 1: return (x, k0, -k1, P_) if root(q) == root(a) else (x, k0, None, P_)
        # a segment of another row, or too far
        if len(p1) == 1 and is_ptr(next(iter(p1))) and next(iter(p1))[1][1] == P_ : return x, k0, None, P_
    return None

C = lambda k: ('c', k)

def group_iv(f, m, x):
    """the chain of the node the edges are those of: (group variable, list of problems)"""
    bad = []
    x = p16.resolve(f, x)
    def over_all(v, what):
        r = f.range(v[1]) if v[0] == 'iv' else None
        if r is None:
            return
        lo, hi, st = r[0], r[1], r[2]
        if st == -1: lo, hi = (add(hi, C(1)) if hi is not None else None), add(lo, C(1))
        if lo is not None and lo[0] == 'c' and lo[1] > 0: bad.append('the %s before %d are left out' % (what, lo[1]))
        if hi is not None:
            k, parts = lin_parts(hi)
            if parts and k < 0 and len(parts) == 1: bad.append('the last %d %s are left out' % (-k, what))
            if st not in (1, -1) and st: bad.append('only every %d of the %s is gone through' % (abs(st), what))
    if x[0] in ('iv',):
        r = f.range(x[1])
        # the nodes of one coarse node: a segment starting at an outer counter
        if r and r[1] is not None and lin_parts(r[0])[1]:
            g = p16.resolve(f, r[0])
            kk, gp = lin_parts(r[0])
            gv = [a for a in gp if a[0] in ('iv', 'phi')]
            if gv and kk > 0: bad.append('the first %d nodes of a group are left out' % kk)
            return (gv[0] if gv else None), bad, ('range', r[0], r[1])
        over_all(x, 'nodes'); return x, bad, None
    if x[0] == 'ld' and x[1][0] == 'elem':
        S, j = x[1][1], x[1][2]
        if j[0] == 'iv':
            r = f.range(j[1])
            lo, hi, st = r[0], r[1], r[2]
            if hi is not None and st == -1: lo, hi = add(hi, C(1)), add(lo, C(1))
            if hi is None: return None, bad, ('set', S)
            k0, p0 = lin_parts(lo); k1, p1 = lin_parts(hi)
            if len(p0) == 1 and len(p1) == 1 and is_ptr(next(iter(p0))) and is_ptr(next(iter(p1))):
                a, b = next(iter(p0)), next(iter(p1))
                if k0 > 0: bad.append('the first %d nodes of a group are left out' % k0)
                if k1 < 0: bad.append('the last %d nodes of a group are left out' % -k1)
                if a[1][1] == b[1][1] and b[1][2] == add(a[1][2], C(1)):
                    over_all(a[1][2], 'groups'); return a[1][2], bad, ('set', S)
                bad.append('the nodes are not those of one group'); return None, bad, ('set', S)
            if not p0:
                over_all(j, 'nodes'); return ('ld', ('elem', 'M', x)), bad, ('set', S)
        k, parts = lin_parts(j)
        if k == -1 and len(parts) == 1 and is_ptr(next(iter(parts))):
            k2, p2 = lin_parts(next(iter(parts))[1][2])
            if k2 == 1 and len(p2) == 1:
                g = next(iter(p2)); over_all(g, 'groups'); return g, bad, ('last', S)
        if k == 0 and len(parts) == 1 and is_ptr(next(iter(parts))): return next(iter(parts))[1][2], bad, ('first', S)
    return None, bad, None

def presence(f, c, m):
    """the test asks whether the edge is there already"""
    look = m.look
    for x in flat(c):
        if not isinstance(x, tuple) or not x: continue
        if x[0] == 'elem' and len(x) == 3 and p16.resolve(f, x[2]) == look or x[0] == 'vb' and len(x) == 3 and p16.resolve(f, x[2]) == look: return True
        if x[0] == 'call' and len(x) == 3 and re.match(r'find|count|contains|binary_search|insert|end|emplace|any_of', x[1]): return True
    if c[0] == 'call' and 'operator' in c[1]:
        t = f.blocks and [i for i in f.instrs() if is_call(i) and i.ops and f.expr(i.id) == c]
        if any(re.search(r'\b(find|count|binary_search)\b', call_name(f, o) or '') for i in t for o in i.ops if isinstance(o, str)): return True
    return False

def own_values(f, m, g, x, M):
    out = set()
    if g is not None: out.add(g)
    if m.own is not None: out.add(p16.resolve(f, m.own))
    if x is not None:
        x = p16.resolve(f, x); out.add(x) if m.map[0] == 'self' else None
        if m.map[0] == 'map': out.add(('ld', ('elem', m.map[1], x)))
        if m.map[0] == 'by': out.add(('sdiv', x, m.map[1])); out |= {('sdiv', g, m.map[1])} if g else set()
    return out

def loop_test(f, a, L, c):
    """the branch only ends the loop at its bound"""
    B = f.blocks[a]
    if not any(s not in L.blocks for s in B.succ): return False
    if a == L.header: return True
    if c[0] != 'cmp': return False
    for s, o in ((c[2], c[3]), (c[3], c[2])):
        k, parts = lin_parts(s)
        if len(parts) == 1 and next(iter(parts))[0] in ('iv', 'phi') and not any(v[0] in ('iv', 'phi', 'rf') and depth(f, v)[1].blocks <= L.blocks for v in p16.loopvars(o) if v[1] in f.vals or v[0] == 'rf'): return True
    return False

def leaves_out(f, c, k, P_, x):
    """the largest row (up to 8 entries) whose edges the test leaves out"""
    if c[0] != 'cmp': return None
    d = sub(c[2], c[3])
    kk, parts = lin_parts(d)
    row = [(a, y) for a, y in parts.items() if is_ptr(a) and a[1][1] == P_ or a[0] == 'size']
    if len(row) != len(parts) or not row: return None
    if row[0][0][0] == 'size':
        if len(row) > 1 or abs(row[0][1]) != 1: return None
        sg = row[0][1]
    else:
        if len(row) != 2 or sorted(y for a, y in row) != [-1, 1]: return None
        p = [a for a, y in row if y == 1][0][1][2]; q = [a for a, y in row if y == -1][0][1][2]
        if sub(p, q) == C(1): sg = 1
        elif sub(q, p) == C(1): sg = -1
        else: return None
    import operator
    op = {'slt': operator.lt, 'sgt': operator.gt, 'sle': operator.le, 'sge': operator.ge, 'eq': operator.eq, 'ne': operator.ne, 'ult': operator.lt, 'ugt': operator.gt, 'ule': operator.le, 'uge': operator.ge}.get(c[1])
    if op is None: return None
    worst = -1
    for n in range(9):
        val = op(sg * n + kk, 0)
        if val != (k == 0): worst = n
    return worst

def only_rows(f, c, P_, x):
    """the condition asks only whether the row is empty"""
    ok = True; n = 0
    for a in flat(c):
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'ld' and a[1][0] == 'elem':
            n += 1
            if a[1][1] != P_ and not (x is not None and a in flat(x)): ok = False
        if isinstance(a, tuple) and a and a[0] == 'call': ok = False
    return ok and n > 0 or c[0] == 'cmp' and any(isinstance(a, tuple) and a and a[0] == 'size' for a in flat(c))

def look_site(f, r, m, S, trim, chain, way=None, mapped=False):
    who = '%s:%s' % (f.short, p16.nm(f, m.tgt))
    def bad(kind, i, msg): r.v('%s:%s' % (who, kind), i.where(), '%s: %s' % (f.short, msg))
    x, a, b, P_ = segment(f, m)
    r.n('edge emissions')
    row = pretty(f, x)
    if b is None: bad('segment', m.i, 'the neighbours gone through are not those of one node (%s)' % row)
    else:
        if a > (trim == 'first') or trim is None and a > 1: bad('segment', m.i, 'the first %d neighbours of %s are left out' % (a, row))
        if b > (trim == 'last') or trim is None and b > 1 or trim is None and a and b: bad('segment', m.i, 'the last %d neighbours of %s are left out' % (b, row))
    g, probs, src = group_iv(f, m, x)
    for p in probs: bad('nodes', m.i, p)
    if src and src[0] in ('last', 'first') and not (chain and src[0] == 'last'): bad('nodes', m.i, 'only the %s node of a group has its edges kept' % src[0])
    if chain and src and src[0] == 'last': chain_groups(f, r, m, src[1], who)
    if src and src[0] == 'range' and m.map[0] == 'by': by_k(f, r, m, g, src, bad)
    owns = own_values(f, m, g, x, m.map)
    if m.own is not None:
        o = p16.resolve(f, m.own); r.n('own ends')
        if g is not None and src and src[0] in ('set', 'last') and g[0] in ('iv', 'phi') and o != g and o != ('ld', ('elem', m.map[1] if m.map[0] == 'map' else None, p16.resolve(f, x))): bad('own', m.i, 'the edges of %s are filed under %s, which is not its group' % (row, pretty(f, m.own)))
        elif (src is None) and g is not None and g[0] == 'iv' and o != g and not (m.map[0] == 'map' and o == ('ld', ('elem', m.map[1], g))): bad('own', m.i, 'the edges of %s are filed under %s' % (row, pretty(f, m.own)))
    if way and m.dir and m.dir != way: bad('way', m.i, 'the edge is added the wrong way round, from %s' % pretty(f, m.look if m.dir == 'in' else m.own))
    if m.map[0] == 'by' and not (src and src[0] == 'range'): bad('map', m.i, 'the number of the group is changed on the way (%s)' % pretty(f, m.look))
    if f.short not in S['offsets'] and m.off != C(0): bad('map', m.i, 'the number of the group has %s added' % pretty(f, m.off))
    elif mapped and m.map[0] == 'self': bad('map', m.i, 'the edges lead to %s, a node and not a group' % pretty(f, m.entry))
    if m.map[0] == 'self' and not mapped and src and src[0] in ('set', 'last'): bad('map', m.i, 'the edges of a group lead to %s, a node and not a group' % pretty(f, m.entry))
    if m.map[0] == 'map': filled(f, r, m, src, bad)
    # branches that skip the edge
    for a_, k in sorted(f.cdeps(m.blk)):
        if not any(a_ in L.blocks for L in f.loop_chain(m.blk)): continue
        t = f.blocks[a_].term
        if t.op != 'br' or not t.ops: continue
        c = f.expr(t.ops[0])
        Ls = [L for L in f.loop_chain(m.blk) if a_ in L.blocks]
        L = Ls[0]
        if any(loop_test(f, a_, q, c) for q in Ls): continue
        r.n('branches that can skip an edge')
        if a_ in m.L.blocks:
            if presence(f, c, m): continue
            if c[0] == 'cmp' and c[1] in ('eq', 'ne'):
                l, q = p16.resolve(f, c[2]), p16.resolve(f, c[3])
                other = q if l == m.look else l if q == m.look else None
                if other is not None and g is None and src is None and other[0] in ('iv', 'phi') and not m.kind == 'store': owns.add(other)
                if other is not None and other in owns:
                    if (c[1] == 'ne') == (k == 0): continue
                    bad('same', t, 'the edge is added only when both ends are in one group'); continue
                if m.map[0] != 'self' and {l, q} == {m.entry, p16.resolve(f, x)} and (c[1] == 'ne') == (k == 0): continue
            bad('skip', t, 'an edge to another group is left out depending on %s' % pretty(f, c))
        else:
            if c[0] == 'cmp' and p16.skips_empty(f, m.L, c): continue
            d = leaves_out(f, c, k, P_, x)
            if d is not None:
                if d > (trim in ('first', 'last')): bad('skipnode', t, 'the edges of a node with %s are left out' % ('many edges' if d > 5 else '%d entries' % d))
                continue
            if only_rows(f, c, P_, x): continue
            bad('skipnode', t, 'the edges of a node are left out depending on %s' % pretty(f, c))

def by_k(f, r, m, g, src, bad):
    D = m.map[1]
    hi = p16.canon(f, src[2]); lo = p16.canon(f, src[1])
    r.n('coarse segments')
    alts = hi[1] if hi[0] == 'merge' else (hi,)
    k, parts = lin_parts(src[1])
    want = p16.canon(f, add(src[1], D))
    if g is not None and g[1] in f.vals:
        t = f.blocks[f.loop(f.vals[g[1]].blk).header].term
        c = f.expr(t.ops[0]) if t.op == 'br' and t.ops else None
        if c is not None and c[0] == 'cmp':
            w = sub(c[2], c[3])
            if D in lin_parts(w)[1] or lin_parts(w)[0] > 0 and c[1] in ('slt', 'ult') or lin_parts(w)[0]>=0 and False: bad('nodes', t, 'the nodes of the last coarse node are left out')
    for h in alts:
        d = sub(want, h)
        if d == C(0): return
    for h in alts:
        d = sub(want, h)
        if d[0] == 'c' and d[1] > 0: bad('nodes', m.i, 'the last %d nodes of a coarse node are left out' % d[1]); return

def filled(f, r, m, src, bad):
    """a map made here is filled from the same groups"""
    M = m.map[1]
    if not (M[0] == 'heap' or M[0] == 'data' and M[1][0] == 'alloca'): return
    ws = [w for w in p16.accesses(f)[0] if w.base == M and not (w.val[0] == 'c')]
    if not ws: return
    r.n('maps filled here')
    S = src[1] if src and src[0] in ('set', 'last') else None
    for w in ws:
        ix = p16.resolve(f, w.idx)
        through = ix[1][1] if ix[0] == 'ld' and ix[1][0] == 'elem' else None
        if S is not None and through != S: bad('map', w.i, 'the node-to-group map is filled for %s, while the groups hold the nodes of %s' % (pretty(f, w.idx), pretty(f, S)))
        lv = ix[1][2] if through else ix
        v = p16.resolve(f, w.val); kv, pv = lin_parts(v)
        if len(pv) == 1 and next(iter(pv))[0] == 'ld': kv += counted_up(f, w, next(iter(pv))[1])
        if kv or len(pv) != 1 or next(iter(pv.values())) != 1 or next(iter(pv))[0] not in ('iv', 'phi', 'ld', 'arg'): bad('map', w.i, 'the node-to-group map is given %s, which is not the number of the group' % pretty(f, w.val))
        if lv[0] == 'iv':
            q = f.range(lv[1])
            if q and q[1] is not None:
                k0, p0 = lin_parts(q[0]); k1, p1 = lin_parts(q[1])
                if q[2] == 1 and p0 and any(is_ptr(a) for a in p0) and (k0 > 0 or k1 < 0) or q[2] == 1 and not p0 and (k0 > 0 or k1 < 0 and len(p1) == 1): bad('map', w.i, 'the node-to-group map is not filled for all nodes')
            if len(ws) == 1:
                L = depth(f, lv)[1]
                if w.blk != L.header and p16.escapes_turn(f, L, {w.blk}): bad('map', w.i, 'the node-to-group map is filled only for some nodes')

def counted_up(f, w, X):
    """how often the group counter has been counted up before in this turn of the loop"""
    L = f.loop(w.blk); n = 0; at = w.i
    if w.i.op == 'store' and isinstance(w.i.ops[0], str) and w.i.ops[0] in f.vals and f.vals[w.i.ops[0]].op == 'load': at = f.vals[w.i.ops[0]]
    if L is None: return 0
    for i in f.stores():
        if f.expr(i.ops[1]) != X or i.blk not in L.blocks: continue
        k, parts = lin_parts(f.expr(i.ops[0]))
        if parts != {('ld', X): 1}: continue
        if i.blk == at.blk and i.pos < at.pos or i.blk != at.blk and p16.reach_avoid(f, i.blk, at.blk, {L.header}): n = max(n, k)
    return n

def chain_groups(f, r, m, S, who):
    """a chain group is only extended along the single edge to the next node"""
    # the list of group ends: what the source reads its last node by
    x = p16.resolve(f, segment(f, m)[0]); P_ = next(iter(lin_parts(x[1][2])[1]))[1][1]
    pushes = [i for i in f.instrs() if is_call(i) and p16.ADD.search(re.sub(r'<[^()]*>', '', i.cdem or '')) and i.ops and ('data', f.expr(i.ops[0])) == P_ and f.loop_chain(i.blk)]
    if not pushes: return
    for p in pushes:
        L = f.loop(p.blk)
        if p.blk == L.header or not p16.escapes_turn(f, L, {q.blk for q in pushes}): continue
        r.n('chain groupings')
        # conditions under which the group is left open
        conds = []
        for a, k in f.cdeps(p.blk):
            if a not in L.blocks or f.loop(a) is not L: continue
            t = f.blocks[a].term
            c = f.expr(t.ops[0])
            if loop_test(f, a, L, c): continue
            conds.append((c, k, t))
        eqs = [(c[2], c[3]) for c, k, t in conds if c[0] == 'cmp' and c[1] in ('eq', 'ne')]
        txt = [tuple(spread(f, e) for e in q) for q in eqs]
        par = {}
        def find(z):
            while par.get(z, z) != z: z = par[z]
            return z
        for A, B in txt:
            for y in A | B: par.setdefault(y, y)
            ref = find(next(iter(A)))
            for y in A | B: par[find(y)] = ref
        one = {z for z in par if z == C(1)}
        nxt = [z for z in par if z[0] == 'ld' and z[1][0] == 'elem' and z[1][1] == S]
        curs = [('ld', ('elem', S, sub(z[1][2], C(1)))) for z in nxt]
        outd = [z for z in par if degree(z) and (not curs or any(p16.resolve(f, a[1][2]) in curs for a, c in z[2]))]
        chd = [z for z in par if z[0] == 'ld' and z[1][0] == 'elem' and z[1][1] == m.entry[1][1]]
        if not any(one and find(z) == find(C(1)) for z in outd): r.v('%s:chain' % who, p.where(), '%s: a group is extended from a node with more than one edge, whose edges are then left out' % f.short)
        if not any(find(z) == find(y) for z in nxt for y in chd): r.v('%s:chain' % who, p.where(), '%s: a group is extended to a node its last node has no edge to' % f.short)

def degree(z):
    if z[0] != 'lin': return False
    ps = [(a, c) for a, c in z[2]]
    return sorted(c for a, c in ps) == [-1, 1] and all(is_ptr(a) for a, c in ps) and len({repr(a[1][1]) for a, c in ps}) == 1

def spread(f, e, d=0):
    """the values an expression may be (through merges)"""
    e = p16.resolve(f, e)
    if e[0] == 'phi' and d < 4 and e[1] in f.vals and f.vals[e[1]].blk not in f.hdr:
        out = set()
        for o in f.vals[e[1]].ops: out |= spread(f, f.expr(o) if isinstance(o, str) else tuple(o), d + 1)
        return out
    if e[0] == 'sel': return spread(f, e[2], d + 1) | spread(f, e[3], d + 1)
    return {e}

def shortened(f, r, ms):
    """the lists lose only duplicates"""
    conts = set()
    for m in ms:
        if m.kind == 'list': conts.add(m.tgt)
    for i in f.instrs():
        if not is_call(i) or not i.ops: continue
        n = re.sub(r'<[^()]*>', '', i.cdem or '')
        e = f.expr(i.ops[0])
        b = e[1] if e[0] == 'elem' else e
        if b not in conts and not (b[0] == 'data' and b[1] in conts) : continue
        if re.search(r'::(pop_back|pop_front)\(', n) and any(reaches(f, m, i) for m in ms): r.v('%s:%s:lost' % (f.short, p16.nm(f, b)), i.where(), '%s: an edge is taken out of %s again' % (f.short, pretty(f, e)))
        elif re.search(r'::erase\(', n):
            r.n('lists shortened')
            a = [deref(f, o)[-1] for o in i.ops[1:]]
            names = [call_name(f, o) for o in i.ops[1:]]
            if 'unique' not in (names[0] or '') or len(names) > 1 and not re.search(r'end', names[1] or 'end'): r.v('%s:%s:lost' % (f.short, p16.nm(f, b)), i.where(), '%s: edges that are no duplicates are taken out of %s' % (f.short, pretty(f, e)))
        elif re.search(r'::resize\(', n) and any(reaches(f, m, i) and same_turn(f, m, i) for m in ms) and 'unique' not in (call_name(f, i.ops[1], 0, b) or '' if len(i.ops) > 1 else ''): r.v('%s:%s:lost' % (f.short, p16.nm(f, b)), i.where(), '%s: %s is cut after its edges have been added' % (f.short, pretty(f, e)))

def targs(n):
    """template arguments of the called function"""
    m = re.search(r'\bunique<', n)
    if not m: return 1
    d = 1; k = 1
    for ch in n[m.end():]:
        d += ch == '<'; d -= ch == '>'
        if d == 0: break
        k += ch == ',' and d == 1
    return k

def handed_on(f, r, ms):
    """a list filled per group goes to the result for every group; duplicates are the same edge"""
    T = {m.tgt for m in ms if m.kind == 'list' and m.own is None}
    for i in f.instrs():
        if not is_call(i): continue
        n = i.cdem or ''
        if re.search(r'(^|[ :])unique<', n):
            r.n('duplicates removed')
            if targs(n) > 1 and 'equal_to' not in n: r.v('%s:duplicates' % f.short, i.where(), '%s: edges that are not the same may be taken for duplicates' % f.short)
        if not f.loop_chain(i.blk): continue
        n = re.sub(r'<[^()]*>', '', n)
        if p16.ADD.search(n) and len(i.ops) > 1 and any(f.expr(o) in T for o in i.ops[1:] if isinstance(o, str)):
            r.n('lists handed on')
            L = f.loop(i.blk)
            if i.blk != L.header and p16.escapes_turn(f, L, {i.blk}): r.v('%s:handed' % f.short, i.where(), '%s: the edges of some groups do not get to the result' % f.short)

def ends(f, r, ms):
    """the segment of a group ends where its last edge was put"""
    X = {}
    for w in p16.accesses(f)[0]:
        k, parts = lin_parts(w.idx) if w.idx[0] not in ('rf',) else (0, {})
        if len(parts) != 1: continue
        a = next(iter(parts))
        if a[0] in ('phi', 'iv') and (any(m.i is w.i for m in ms) or w in getattr(f, '_p15copies', ())): X[a] = w
    for m in ms:
        if m.kind == 'list' and m.own is None:
            for i in f.stores():
                if p16.is_rmw(f, i) and f.loop(i.blk) is f.loop(m.blk) and lin_parts(f.expr(i.ops[0]))[0] == 1:
                    r.n('segment ends')
                    if {c for c in f.cdeps(i.blk)} != {c for c in f.cdeps(m.blk)}: r.v('%s:ends' % f.short, i.where(), '%s: an edge is added without being counted, or counted without being added' % f.short)
    fam = set()
    for a in X: fam |= web_phis(f, a)
    if not fam: return
    for w in p16.accesses(f)[0]:
        v = w.val if w.val[0] != 'ld' else w.val
        k, parts = lin_parts(v)
        if any(a in fam and parts[a] == 1 for a in parts) and not any(m.i is w.i for m in ms):
            r.n('segment ends')
            if len(parts) > 1: r.v('%s:ends' % f.short, w.i.where(), '%s: the edges of a group end at %s and not where its last edge is' % (f.short, pretty(f, v)))
            elif k: r.v('%s:ends' % f.short, w.i.where(), '%s: the edges of a group end at %s, where its last edge is %s' % (f.short, pretty(f, v), 'before' if k > 0 else 'behind'))

def web_phis(f, a):
    """the counter through the merges"""
    out = set(); todo = [a[1]]
    while todo:
        p = todo.pop()
        if p in out or p not in f.vals: continue
        i = f.vals[p]
        if i.op != 'phi': continue
        out.add(p)
        for o in i.ops:
            if isinstance(o, str):
                for b in flat(f.expr(o)):
                    if isinstance(b, tuple) and len(b) == 2 and b[0] in ('phi', 'iv') and b[1] not in out:
                        k, parts = lin_parts(f.expr(o))
                        if b in parts: todo.append(b[1])
        for j in f.instrs():
            if j.op == 'phi' and any(isinstance(o, str) and (lambda e: p in [q[1] for q in lin_parts(e)[1] if q[0] in ('phi', 'iv')])(f.expr(o)) for o in j.ops) and j.name not in out: todo.append(j.name)
    return {('phi', p) for p in out} | {('iv', p) for p in out}

def reaches(f, m, i): return m.blk == i.blk and m.i.pos < i.pos or p16.reach_avoid(f, m.blk, i.blk, ())

def same_turn(f, m, i):
    L = f.loop(i.blk)
    if L is None: return True
    return m.blk == i.blk and m.i.pos < i.pos or p16.reach_avoid(f, m.blk, i.blk, {L.header})

def call_name(f, o, d=0, skip=None):
    """the call an iterator comes from"""
    e = f.expr(o) if isinstance(o, str) else tuple(o)
    names = [x[0] if x[0] in ('begin', 'end') else x[1] for x in flat(e) if isinstance(x, tuple) and x and (x[0] in ('begin', 'end') or x[0] == 'call' and len(x) == 3)]
    for x in flat(e):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'call' and x[1] in ('operator-', 'distance', 'next', 'prev', 'operator+') and d < 4 and x[2] in f.vals:
            names += [n for o in f.vals[x[2]].ops if isinstance(o, str) for n in [call_name(f, o, d + 1, skip)] if n]
    if names: return ' '.join(names)
    allocs = [x for x in flat(e) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'alloca' and x != skip]
    if d > 4: return None
    for base in allocs:
        for s in f.stores():
            t = f.expr(s.ops[1])
            if t == base or t[0] == 'fld' and t[1] == base:
                x = call_name(f, s.ops[0], d + 1)
                if x: return x
        for i in f.instrs():
            if is_call(i) and len(i.ops) > 1 and f.expr(i.ops[0]) == base and ('iterator' in (i.cdem or '') or (i.callee or '').startswith('llvm.memcpy')):
                x = call_name(f, i.ops[1], d + 1)
                if x: return x
    return None

def copied_out(f, r, ms):
    """lists of edges are copied out in full"""
    for w in p16.accesses(f)[0]:
        v = p16.resolve(f, w.val)
        if v[0] != 'ld' or v[1][0] != 'elem': continue
        b, u = v[1][1], v[1][2]
        if b[0] != 'data' or b[1][0] != 'elem': continue
        T, q = b[1][1], b[1][2]
        if not any(m.tgt == T for m in ms): continue
        r.n('lists copied out'); f.__dict__.setdefault('_p15copies', []).append(w)
        for z, size, what in ((u, ('size', b[1]), 'edges of a group'), (q, None, 'groups')):
            if z[0] != 'iv': continue
            R = f.range(z[1])
            if not R or R[1] is None: continue
            lo, hi, st = R[0], R[1], R[2]
            if st == -1: lo, hi = add(hi, C(1)), add(lo, C(1))
            k, parts = lin_parts(hi)
            if lo[0] == 'c' and lo[1] > 0 or k < 0 and len(parts) == 1: r.v('%s:%s:copy' % (f.short, p16.nm(f, T)), w.i.where(), '%s: some of the %s are not copied' % (f.short, what))
        Lu = depth(f, u)[1] if u[0] in ('iv', 'rf') else None
        if Lu is not None and w.blk != Lu.header and p16.escapes_turn(f, Lu, {w.blk}):
            r.v('%s:%s:copy' % (f.short, p16.nm(f, T)), w.i.where(), '%s: some edges of a group are not copied' % f.short)

def links(f, r, ms, n):
    """edges from every node to its copy in the next block"""
    bases = {m.tgt for m in ms if m.kind == 'store'}
    k = 0
    for w in p16.accesses(f)[0]:
        if w.base not in bases: continue
        c, parts = lin_parts(p16.resolve(f, w.val))
        iv = [a for a in parts if a[0] == 'iv' and parts[a] == 1]
        rest = [a for a in parts if a not in iv]
        if len(iv) == 1 and len(rest) == 1 and parts[rest[0]] == 1 and c == 0 and rest[0][0] == 'ld':
            L = depth(f, iv[0])[1]
            if w.blk != L.header and p16.escapes_turn(f, L, {w.blk}): r.v('%s:link' % f.short, w.i.where(), '%s: the edge from a node to its copy is left out for some nodes' % f.short)
            R = f.range(iv[0][1])
            if R and R[1] is not None and (R[0] != C(0) or R[1] != rest[0]): r.v('%s:link' % f.short, w.i.where(), '%s: not every node has the edge to its copy' % f.short)
            k += 1
    r.n('links to the next block', k)
    if k < n: r.v('%s:links' % f.short, '%s (%s)' % (f.file, f.short), '%s makes %d of the %d links between the blocks' % (f.short, k, n))

def outputs(f, m):
    """the edge goes to the result, not to a list that only helps the routine"""
    t = m.tgt
    b = t
    while b[0] in ('data', 'elem', 'ld', 'fld') and len(b) > 1 and isinstance(b[1], tuple): b = b[1]
    return b

def check(ctx, r):
    P = ctx.prog('ser'); S = spec()
    seen = set()
    for f in P.fns.values():
        if not p07.repo(f) or f.short not in S['edges']: continue
        w = S['edges'][f.short]; n = int(w[0]); trim = w[1] if len(w) > 1 else None; chain = 'chain' in w
        r.n('routines'); seen.add(f.short)
        ms = select(f, emissions(f))
        ctx.__dict__.setdefault('em', {})[f.name] = ms
        for m in ms: look_site(f, r, m, S, trim, chain, 'in' if 'in' in w else 'out' if 'out' in w else None, 'mapped' in w)
        shortened(f, r, ms); copied_out(f, r, ms); handed_on(f, r, ms); ends(f, r, ms)
        if len(ms) < n and not helpers(P, f): r.v('%s:edges' % f.short, '%s (%s)' % (f.file, f.short), '%s adds edges to the group graph in %d of %d places' % (f.short, len(ms), n))
        if any(presence(f, f.expr(f.blocks[a].term.ops[0]), m) for m in ms for a, k in f.cdeps(m.blk) if f.blocks[a].term.op == 'br' and f.blocks[a].term.ops): p16.analyse(P, f, r, None)
        structure(P, f, r)
        if f.short in S['links']: links(f, r, ms, int(S['links'][f.short][0]))
        if f.short in S['offsets'] and len(ms) == n:
            got = sorted(offset(m.off) for m in ms); want = sorted(int(x) for x in S['offsets'][f.short])
            r.n('block offsets')
            if got != want: r.v('%s:offsets' % f.short, '%s (%s)' % (f.file, f.short), '%s: the blocks the edges lead to are %s, expected %s' % (f.short, got, want))
    for n in S['edges']:
        if n not in seen: r.n('listed routines gone')

def offset(e):
    k, parts = lin_parts(e)
    return sum(parts.values()) + k

def select(f, ms):
    """edge ends, without counts kept per node and lists of nodes to visit"""
    ms = [m for m in ms if not (m.kind == 'store' and p16.is_rmw(f, m.i))]
    if any(m.map[0] != 'self' for m in ms): ms = [m for m in ms if m.map[0] != 'self' or m.kind == 'store' and m.tgt[0] == 'ld']
    return ms

def structure(P, f, r):
    """the lists and the pointers of the result are in step (rules of P13 and P14)"""
    class Sub:
        viol = {}
        def n(s, *a): pass
        def ok(s, *a): pass
        def need(s, *a): pass
        def v(s, k, w, m): r.v('%s:lists:%s' % (f.short, k), w, '%s: edges get lost or filed under another group: %s' % (f.short, m))
    q = Sub(); r.n('result lists in step')
    p13.phi_webs(f, q, 'ser'); p13.cells(f, q, 'ser')
    S = p14.stores_of(f)
    p14.chain_checks(P, f, q, S); p14.position_checks(P, f, q, S); p14.accumulator_checks(P, f, q, S)
    # room for all edges copied out
    for w in getattr(f, '_p15copies', ()):
        for i in f.instrs():
            if is_call(i) and re.search(r'::resize\(', re.sub(r'<[^()]*>', '', i.cdem or '')) and len(i.ops) > 1 and ('data', f.expr(i.ops[0])) == w.base:
                z = f.expr(i.ops[1])
                if z[0] not in ('phi', 'iv'): continue
                r.n('room for the edges'); fam = web_phis(f, z)
                for p in fam:
                    if p[0] != 'phi' or p[1] not in f.vals: continue
                    for o in f.vals[p[1]].ops:
                        e = f.expr(o) if isinstance(o, str) else tuple(o)
                        k, parts = lin_parts(e)
                        if any(a in fam for a in parts) and len(parts) > 1 and k: r.v('%s:room' % f.short, i.where(), '%s: %d fewer entries than edges are made room for, per group' % (f.short, -k))

def helpers(P, f):
    for i in f.instrs():
        g = P.fns.get(i.callee or '') if is_call(i) else None
        if g is not None and p07.repo(g) and g is not f and (f.loop_chain(i.blk) and emissions_like(g) or emissions(g)): return True
    return False

def emissions_like(g):
    """a helper that adds something to a list or array it is given"""
    return any(w.base[0] in ('arg', 'data', 'ld') for w in p16.accesses(g)[0]) or any(is_call(i) and p16.ADD.search(re.sub(r'<[^()]*>', '', i.cdem or '')) for i in g.instrs())
