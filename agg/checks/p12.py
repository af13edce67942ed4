"""P12: level sets place a node only after all of its predecessors.
Dependence counters are recognised by what is done to them (incremented once per edge, then decremented once per
edge of a placed node and tested against a constant, or compared with a second counter of seen edges); the two
edge sets, the threshold, the order of placing / closing / removing and the marks must fit together."""
from lib import *
from checks.p11 import ldelem, header_ivs

RULE = ('per dependence counter: +1 for each edge, -1 for each edge of a placed node over the same lists and node map, '
        'one threshold that matches whether the count includes the diagonal, removal only after the level is closed and '
        'for exactly the level just closed, placement guarded by the threshold and an unplaced mark that is set with it, '
        'queue rounds bounded by a count taken before the round that counts every insertion; rounds over a shrinking range end only with the range empty; '
        'a count taken down is looked at afterwards')
ASSUME = ['the dependence graph is acyclic with its diagonal stored as the routine documents']

def chain(f, e):
    """arrays looked up, outermost first, the innermost index, and the additive rest of the outer index"""
    arrs = []
    e = single(f, e)
    while True:
        k, p = lin_parts(e)
        nxt = None
        for a in p:
            a2 = single(f, a)
            if a2[0] == 'ld' and a2[1][0] == 'elem' and p[a] == 1: nxt = a2; break
        if nxt is None: return arrs, e
        b, i = split_elem(nxt[1])
        arrs.append(b); e = single(f, i)

class Site:
    def __init__(s, f, st, D, idx, c):
        s.f = f; s.st = st; s.D = D; s.idx = idx; s.c = c
        s.arrs, s.inner = chain(f, idx)
        s.loop = None; s.lo = s.hi = None; s.kind = None; s.iv = None
        k, p = lin_parts(s.inner)
        ivs = [a for a in p if a[0] == 'iv']
        for a in ivs:
            g = f.range(a[1])
            if g and g[1] is not None:
                s.iv = a; s.loop = g[3]
                s.lo, s.hi = (g[0], g[1]) if g[2] > 0 else (add(g[1], C(1)), add(g[0], C(1)))
        s.classify()
    def classify(s):
        """does the site count the diagonal entry?  s.kind in in/out/tree/odd"""
        f = s.f
        if s.lo is None: s.kind = 'tree'; return
        l, h = ldelem(s.lo), ldelem(s.hi)
        if l and h and l[0] == h[0] and len(s.arrs) >= 1 and not same_as(s.arrs[-1], None):
            if h[2] == -1 and l[2] == 0: s.kind = 'out'
            elif l[2] == 1 and h[2] == 0: s.kind = 'out'
            elif l[2] == 0 and h[2] == 0: s.kind = 'in'
            else: s.kind = 'odd'
        elif h and s.lo == C(0): s.kind = 'in' if h[2] == 0 else 'odd'
        elif h and lin_parts(s.lo)[1] and any(a[0] == 'ld' for a in lin_parts(s.lo)[1]):
            s.kind = {0: 'out', -1: 'in'}.get(lin_parts(s.lo)[0], 'odd')
        elif h is None: s.kind = 'tree'
        else: s.kind = 'odd'
        if s.kind == 'in' and any(self_guard(f, s, g) for g in s.guards()): s.kind = 'out'
    def guards(s):
        """conditions inside the edge loop under which the site is reached: (expr that holds, term)"""
        f = s.f; out = []
        L = s.loop
        for a, k in sorted(f.cdeps(s.st.blk)):
            if L is None or a not in L.blocks: continue
            T = f.blocks[a].term
            if any(x not in L.blocks for x in f.blocks[a].succ): continue
            # counting tests of inner loops
            L2 = f.loop(a)
            if L2 is not None and T.id in counting_tests(f, L2): continue
            if T.op != 'br' or not T.ops: out.append((('odd',), T)); continue
            c = f.expr(T.ops[0])
            if k == 1: c = neg(c)
            out.append((c, T))
        return out

def same_as(a, b): return a == b

def self_guard(f, s, g):
    c = g[0]
    if c[0] == 'cmp' and c[1] == 'ne':
        vals = {s.idx, single(f, s.idx)}
        e = single(f, s.idx)
        # the neighbour itself or its mapped number
        while e[0] == 'ld' and e[1][0] == 'elem':
            vals.add(e); e = single(f, e[1][2])
        for t in list(vals):
            k, p = lin_parts(t)
            for a in p: vals.add(a); vals.add(single(f, a))
        if c[2] in vals and c[3][0] != 'c' or c[3] in vals and c[2][0] != 'c': return True
        if single(f, c[2]) in vals and c[3][0] != 'c' or single(f, c[3]) in vals and c[2][0] != 'c': return True
    return False

def sentinel_guard(f, s, g):
    c = g[0]
    if c[0] != 'cmp': return False
    for x, y, left in ((c[2], c[3], True), (c[3], c[2], False)):
        if single(f, x) == single(f, s.idx) and y[0] == 'c':
            if c[1] == 'ne' and y[1] == -1: return True
            if not left and (c[1], y[1]) in (('sle', 0), ('slt', -1)): return True
    return False

def counters(f):
    inc, dec, tests, pairs = {}, {}, {}, []
    for s in f.stores():
        a = f.expr(s.ops[1]); v = f.expr(s.ops[0])
        if a[0] != 'elem': continue
        d = sub(v, ('ld', a))
        if d[0] != 'c' or d[1] == 0: continue
        (inc if d[1] > 0 else dec).setdefault(a[1], []).append((s, a[2], d[1]))
    for i in f.instrs():
        if i.op != 'icmp': continue
        e = f.expr(i.id)
        if e[0] != 'cmp' or e[1] not in ('eq', 'ne', 'slt', 'sle'): continue
        k, p = lin_parts(sub(e[2], e[3]))
        ar = [(a, c) for a, c in p.items() if a[0] == 'ld' and a[1][0] == 'elem']
        if len(p) == 1 and len(ar) == 1:
            (a, c) = ar[0]; b, x = split_elem(a[1])
            # c*a + k PRED 0
            tests.setdefault(b, []).append((i, x, e, c, k))
        elif len(p) == 2 and len(ar) == 2 and ar[0][1] + ar[1][1] == 0:
            (a, ca), (b, cb) = ar
            if a[1][2] == b[1][2] and a[1][1] != b[1][1]: pairs.append((i, e, a, ca, b, cb, k))
    return inc, dec, tests, pairs

def threshold(t):
    """(t, exact) meaning the test separates D == t (or D <= t)"""
    i, x, e, c, k = t
    if e[1] in ('eq', 'ne'): return -k // c
    # left - right PRED 0 :  c*D + k < 0
    if c == 1: return -k if e[1] == 'sle' else -k - 1        # D <= -k  / D < -k
    return None                                              # D > ..

def reaches(f, R, a, b):
    """b reachable from a inside R without starting the next round"""
    seen = set(); st = [t for t in f.blocks[a].succ]
    while st:
        x = st.pop()
        if x in seen or x not in R.blocks or x == R.header: continue
        seen.add(x)
        if x == b: return True
        st += f.blocks[x].succ
    return False

def branch_of(f, i):
    """branches decided by comparison i: (block, edge taken when it is true)"""
    out = []
    for u in f.users.get(i.id, []):
        if u.op == 'br': out.append((u.blk, 0))
        elif u.op in ('xor',):
            for w in f.users.get(u.id, []):
                if w.op == 'br': out.append((w.blk, 1))
        elif u.op in ('zext', 'phi', 'select', 'and', 'or', 'freeze'):
            for w in f.users.get(u.id, []):
                if w.op == 'br': out.append((w.blk, 0))
    return out

def unmarked_guard(f, blk, x):
    """arrays M with blk executed only when M[x] is 0/false"""
    out = set()
    for a, k in f.cdeps(blk):
        T = f.blocks[a].term
        if T.op != 'br' or not T.ops: continue
        c = f.expr(T.ops[0])
        if k == 1: c = neg(c)
        m = mark_test(f, c, x)
        if m is not None and m[1] is False: out.add(m[0])
    return out

def mark_test(f, c, x):
    """(array, value) if condition c says the mark of x is value"""
    val = True
    while c[0] == 'not': c = c[1]; val = not val
    if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3] == C(0):
        if c[1] == 'eq': val = not val
        c = c[2]
    elif c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3] == C(1):
        if c[1] == 'ne': val = not val
        c = c[2]
    while c[0] == 'and' and ('c', 1) in c: c = c[1] if c[2] == ('c', 1) else c[2]
    if c[0] == 'ld' and c[1][0] == 'elem' and c[1][2] == x: return (c[1][1], val)
    return None

def cd1(f, b):
    f.cdeps(b); return frozenset(f._cd[b])

def check(ctx, r):
    for cfg in ('omp', 'ser'):
        P = ctx.prog(cfg)
        for f in P.fns.values():
            if not f.file or '/example/' in f.file: continue
            one(f, r)
            maxprop(f, r)
    r.need('dependence counters', 8)

def decides(f, i):
    """the outcome of the comparison makes a difference"""
    us = [u for u in f.users.get(i.id, [])] if i.op == 'icmp' else [i]
    def land(b):
        n = 0
        while n < 10:
            B = f.blocks[b]
            if [x for x in B.ins if x.op != 'br'] or len(B.succ) != 1: return b
            b = B.succ[0]; n += 1
        return b
    for u in us:
        if u.op != 'br' or len(u.tgt or []) != 2: return True
        if land(u.tgt[0]) != land(u.tgt[1]): return True
    return not us

def follows(f, a, b):
    """b can be executed after a"""
    if a.blk == b.blk and a.pos < b.pos: return True
    seen = set(); st = list(f.blocks[a.blk].succ)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == b.blk: return True
        st += f.blocks[x].succ
    return False

def one(f, r):
    inc, dec, tests, pairs = counters(f)
    for D in dec:
        if D not in tests: continue
        ths = [t for t in tests[D] if threshold(t) is not None]
        if not ths: continue
        if not any(t[2][1] in ('eq', 'ne') or queues(f, t[0]) for t in ths): continue
        if not (D in inc or D[0] == 'arg' or (D[0] == 'ld' and D[1][0] == 'alloca')): continue
        r.n('dependence counters')
        if D in inc:
            for s in dec[D]:
                if not any(follows(f, s[0], t[0]) and decides(f, t[0]) for t in tests[D]):
                    r.v(nm(f, D) + ':unseen', s[0].where(), 'the dependence count is taken down but never looked at again, so the nodes it releases are never placed'); break
        dectype(f, r, D, [Site(f, *(s[0], D, s[1], s[2])) for s in inc.get(D, [])], [Site(f, s[0], D, s[1], s[2]) for s in dec[D]], tests[D])
    for D in inc:
        if D in dec or D not in tests or not (D[0] in ('heap', 'arg') or D[0] == 'ld' and D[1][0] == 'alloca'): continue
        if not any(t[2][1] in ('eq', 'ne') for t in tests[D]): continue
        for st in f.stores():
            a = f.expr(st.ops[1])
            if a[0] == 'elem' and a[1] == D and f.loop(st.blk) is not None and not any(st.id == x[0].id for x in inc[D]):
                v = f.expr(st.ops[0])
                Li = [Site(f, x[0], D, x[1], x[2]) for x in inc[D]]
                me = Site(f, st, D, a[2], 0)
                if v[0] == 'c' and v[1] != 0 and me.arrs and me.arrs == Li[0].arrs:
                    r.v(nm(f, D) + ':overwritten', st.where(), 'the dependence count of a neighbour is overwritten instead of reduced by one')
        never_removed(f, r, D, inc[D], tests[D], pairs)
    for D in tests:
        if D[0] == 'arg' and D not in inc and D not in dec and not any(s.id and addr_elem(f, s) == D for s in f.stores()):
            for i, x, e, c, k in tests[D]:
                ch = f.loop_chain(i.blk)
                if e[1] in ('eq', 'ne') and len(ch) >= 2 and single(f, x)[0] == 'ld' and queues(f, i):
                    if any(u.op in ('call', 'invoke') and any(f.expr(o) == D for o in u.ops) for u in f.instrs()): continue
                    r.v(nm(f, D) + ':removed', i.where(), 'neighbours are queued once their dependence count reaches a value, but the count is never taken down for the edges of a placed node'); break
    groups = {}
    for i, e, a, ca, b, cb, k in pairs:
        A, B = a[1][1], b[1][1]
        if A in inc and B in inc:
            # which is the total (has a test against a constant), which counts what has been seen
            if A in tests and B not in tests: groups.setdefault((A, B), []).append((i, e, a, ca, k))
            elif B in tests and A not in tests: groups.setdefault((B, A), []).append((i, e, b, cb, k))
    for (D, V), ps in groups.items():
        r.n('dependence counters')
        visittype(f, r, D, V, [Site(f, s[0], D, s[1], s[2]) for s in inc[D]], [Site(f, s[0], V, s[1], s[2]) for s in inc[V]], tests[D], ps)

def queues(f, i):
    """the test decides whether something is queued"""
    tb = {b for b, _ in branch_of(f, i)}
    return any(u.op in ('call', 'invoke') and short_of(u.cdem or '') in ('push', 'push_back', 'emplace_back') and tb & {a for a, _ in f.cdeps(u.blk)} for u in f.instrs())

def addr_elem(f, st):
    a = f.expr(st.ops[1])
    return a[1] if a[0] == 'elem' else a

def never_removed(f, r, D, incs, tests, pairs):
    '''nodes are placed when their count reaches a value it is never brought down to'''
    if any(D in (a[1][1], b[1][1]) for i, e, a, ca, b, cb, k in pairs): return
    if not any(Site(f, s, D, x, c).arrs for s, x, c in incs): return
    own = {s.id for s, _, _ in incs}
    for i, x, e, c, k in tests:
        if e[1] not in ('eq', 'ne'): continue
        ch = f.loop_chain(i.blk)
        if len(ch) >= 2 and single(f, x)[0] == 'ld':
            # the neighbour is queued when its count has come down
            tb = {b for b, _ in branch_of(f, i)}
            R = ch[-1]
            q = [u for u in f.instrs() if u.op in ('call', 'invoke') and u.blk in R.blocks and short_of(u.cdem or '') in ('push', 'push_back', 'emplace_back') and tb & {a for a, _ in f.cdeps(u.blk)}]
            other = [st for st in f.stores() if st.id not in own and st.blk in R.blocks and addr_elem(f, st) == D]
            inside = any(s.blk in R.blocks for s, _, _ in incs)
            gone = any(u.op in ('call', 'invoke') and u.blk in R.blocks and any(f.expr(o) == D for o in u.ops) for u in f.instrs())
            if q and not other and not inside and not gone:
                r.v(nm(f, D) + ':removed', i.where(), 'neighbours are queued once their dependence count reaches a value, but the count is never taken down for the edges of a placed node'); return
        if len(ch) < 2 or x[0] != 'iv' or f.vals[x[1]].blk != ch[0].header: continue
        tr = branch_of(f, i)
        emits = [st for st in f.stores() if st.blk in ch[0].blocks and f.expr(st.ops[0]) == x and any(b in {q for q, _ in f.cdeps(st.blk)} for b, _ in tr)]
        # the scan is repeated: the outer loop does not merely visit something else
        R = ch[1]
        if not emits or any(f.loop(s.blk) and R.header in [q.header for q in f.loop_chain(s.blk)] for s, _, _ in incs): continue
        # the count may be handed to a routine that takes it down
        if any(u.op in ('call', 'invoke') and u.blk in R.blocks and any(f.expr(o) == D for o in u.ops) for u in f.instrs()): continue
        r.v(nm(f, D) + ':removed', i.where(), 'nodes are placed once their dependence count reaches a value, but the count is never taken down for the edges of a placed node'); return

def nm(f, D): return '%s:%s' % (f.short, pretty(f, D).replace(' ', '').replace('*', ''))

def amounts(f, r, key, sites, want, what):
    for s in sites:
        r.n('counted edges sites')
        if s.c != want: r.v(key + ':amount', s.st.where(), 'the dependence count changes by %d instead of %d for one edge' % (s.c, want))

def foreign_guards(f, r, key, s, what, allow=lambda g: False):
    for g in s.guards():
        if self_guard(f, s, g) or sentinel_guard(f, s, g) or allow(g): continue
        r.v(key + ':guard', g[1].where(), '%s an edge depends on a further condition (%s)' % (what, pretty(f, g[0])))

def dectype(f, r, D, incs, decs, tests):
    key = nm(f, D)
    amounts(f, r, key, incs, 1, ''); amounts(f, r, key, decs, -1, '')
    ths = {}
    for t in tests:
        v = threshold(t)
        if v is not None: ths.setdefault(v, []).append(t)
    main = max(ths, key=lambda v: len(ths[v]))
    kinds = {s.kind for s in incs}
    if incs:
        if 'odd' in kinds or len(kinds) > 1:
            r.v(key + ':count', incs[0].st.where(), 'the edges counted do not form complete lists')
            return
        want = 1 if kinds == {'in'} else 0
        for v, ts in ths.items():
            if v != want: r.v(key + ':threshold', ts[0][0].where(), 'a node counts as free when %d dependences are left, but the count %s its own diagonal entry' % (v, 'includes' if want else 'does not include'))
        for s in incs: foreign_guards(f, r, key, s, 'counting')
    else:
        for v, ts in ths.items():
            if v not in (0, 1): r.v(key + ':threshold', ts[0][0].where(), 'a node counts as free when %d dependences are left' % v)
            elif v != main: r.v(key + ':threshold', ts[0][0].where(), 'the same dependence count is tested against %d and %d' % (main, v))
    # edge lists of counting and removal agree
    if incs:
        ic = incs[0].arrs
        for s in decs:
            n = 1 if s.kind == 'tree' or incs[0].kind == 'tree' else len(ic)
            if s.arrs[:n] != ic[:n]:
                r.v(key + ':lists', s.st.where(), 'dependences are removed through %s but were counted through %s' % (' of '.join(pretty(f, a) for a in s.arrs[:n]), ' of '.join(pretty(f, a) for a in ic[:n])))
            if incs[0].kind != 'tree' and s.kind in ('in', 'odd'):
                r.v(key + ':diagonal', s.st.where(), 'removing the edges of a placed node also removes its own diagonal entry (or an incomplete list)')
    # removal follows placement
    for s in decs:
        own = [t for t in tests if t[1] == s.idx and f.dom(s.st, t[0]) and s.loop is not None and t[0].blk in s.loop.blocks]
        if own: queue_dec(f, r, key, s, own)
        elif s.loop is not None and incs: scan_dec(f, r, key, s, D, tests, incs[0].kind == 'tree')
    # guards on removal (the queue insertion test comes after the removal)
    for s in decs:
        if incs: foreign_guards(f, r, key, s, 'removing')

def visited_set(f, blk, M, x):
    """M[x] set true on the path through blk"""
    for s in f.stores():
        if f.expr(s.ops[1]) == elem(M, x) and f.expr(s.ops[0]) != C(0):
            if s.blk == blk or f.bdom(s.blk, blk) or f.bpdom(s.blk, blk): return True
    return False

def queue_dec(f, r, key, s, own):
    """nodes are queued as soon as their last dependence is removed"""
    for L in f.loops.values():
        if L.parent in (None, -1): continue
        pops = [u for b in L.blocks if f.loop(b) is L for u in f.blocks[b].ins if u.op in ('call', 'invoke') and short_of(u.cdem or '') in ('pop', 'pop_front')]
        ivs = list(header_ivs(f, L))
        if pops and ivs and not any((f.range(j.id) or (0, None))[1] is not None for j in ivs):
            r.v(key + ':round', pops[0].where(), 'the nodes taken out in one round are not limited to those queued before it')
    for t in own:
        r.n('placements')

def scan_dec(f, r, key, s, D, tests, tree):
    # the round loop: innermost loop holding the removal and a placement test outside the removal's own loops
    dl = f.loop_chain(s.st.blk)
    place = []
    for t in tests:
        i, x, e, c, k = t
        for L in f.loop_chain(i.blk):
            if L in dl: break
            if x[0] == 'iv' and f.vals[x[1]].blk == L.header: place.append((t, L))
    if not place: 
        # queue of freed nodes rebuilt after the removal elsewhere
        return
    rounds = [L for L in dl if any(L.header == q.header for t, PL in place for q in f.loop_chain(PL.header))]
    if not rounds: return
    R = rounds[0]
    for t, PL in place:
        i, x, e, c, k = t
        if PL.header not in R.blocks: continue
        # rounds go on while the range searched for nodes to place is not empty
        for j in header_ivs(f, PL):
            g = f.range(j.id)
            if not g or g[1] is None or g[2] != 1: continue
            for eb, k2, t2 in f.loop_exits(R):
                T = f.blocks[eb].term
                if T.op != 'br' or not T.ops: continue
                c2 = f.expr(T.ops[0]); on = k2 == 1            # the condition holds where the round is entered
                while c2[0] == 'not': c2 = c2[1]; on = not on
                if c2[0] != 'cmp' or c2[1] not in ('slt', 'sle', 'ult', 'ule', 'sgt', 'sge', 'ugt', 'uge'): continue
                op, A, B = c2[1][1:], c2[2], c2[3]
                if not on: op = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[op]
                if op in ('gt', 'ge'): A, B, op = B, A, {'gt': 'lt', 'ge': 'le'}[op]
                left = add(sub(B, A), C(1 if op == 'le' else 0))       # positive inside
                scan = sub(g[1], g[0])
                d = sub(scan, left)
                if d[0] != 'c': continue
                r.n('rounds over a shrinking range')
                if d[1] > 0: r.v(key + ':rest', T.where(), 'the rounds end while %d node(s) of the range searched are not looked at' % d[1])
        # the stores made when the test succeeds
        tr = branch_of(f, i)
        eqedge = {(b, kk if e[1] in ('eq', 'sle', 'slt') else 1 - kk) for b, kk in tr}
        emits = [st for st in f.stores() if st.blk in PL.blocks and f.expr(st.ops[0]) == x and eqedge & f.cdeps(st.blk)]
        if not emits: continue
        r.n('placements')
        for st in emits:
            ms = unmarked_guard(f, st.blk, x)
            if not ms: r.v(key + ':twice', st.where(), 'a node is placed without a test that it has not been placed before')
            elif not any(visited_set(f, st.blk, M, x) for M in ms): r.v(key + ':mark', st.where(), 'a placed node is not marked as placed')
        if s.st.blk in PL.blocks or not f.bdom(PL.header, s.st.blk):
            r.v(key + ':order', s.st.where(), 'dependences of a node are removed before its level is complete')
        # exactly the level just closed
        for L in dl:
            if L.header == R.header: break
            if L is s.loop and not tree: continue
            for j in header_ivs(f, L):
                g = f.range(j.id)
                if not g or g[1] is None or g[2] != 1: continue
                l, h = ldelem(g[0]), ldelem(g[1])
                if l and not h:
                    # up to the running position itself
                    cl = [w for w in f.stores() if w.blk in R.blocks and split_elem(f.expr(w.ops[1]))[0] == l[0] and f.bdom(PL.header, w.blk) and f.bdom(w.blk, L.header)]
                    if cl and not any(f.expr(w.ops[0]) == g[1] for w in cl):
                        r.v(key + ':closed', s.st.where(), 'the removal does not run over the whole level that was just closed (%s .. %s)' % (pretty(f, g[0]), pretty(f, g[1])))
                if l and h and l[0] == h[0]:
                    cl = [w for w in f.stores() if w.blk in R.blocks and split_elem(f.expr(w.ops[1]))[0] == h[0] and f.bdom(PL.header, w.blk) and f.bdom(w.blk, L.header)]
                    if not any(split_elem(f.expr(w.ops[1]))[1] == h[1] for w in cl):
                        r.v(key + ':closed', s.st.where(), 'the removal does not run over the level that was just closed (%s .. %s)' % (pretty(f, g[0]), pretty(f, g[1])))
    # window shrinking happens before the removal of the round
    for t in tests:
        i, x, e, c, k = t
        if i.blk in R.blocks and not any(i.blk in PL.blocks for _, PL in place) and (s.loop is None or i.blk not in s.loop.blocks):
            if reaches(f, R, s.st.blk, i.blk):
                r.v(key + ':window', i.where(), 'nodes freed by this round are taken for placed ones when the search window shrinks after the removal')

def visittype(f, r, D, V, dincs, vincs, dtests, ps):
    key = nm(f, D)
    amounts(f, r, key, dincs, 1, ''); amounts(f, r, key, vincs, 1, '')
    for t in dtests:
        v = threshold(t)
        if v is None: continue
        if v != 0: r.v(key + ':threshold', t[0].where(), 'a node counts as free of dependences when %d are left' % v)
    vs = [s for s in vincs if s.lo is not None]
    # same lists, same ends left out
    def sig(s):
        l, h = ldelem(s.lo) if s.lo else None, ldelem(s.hi) if s.hi else None
        return (tuple(s.arrs), (l[2] if l else None, h[2] if h else None))
    ds_, vs_ = {sig(s) for s in dincs if s.lo is not None}, {sig(s) for s in vs}
    for s in dincs:
        if s.lo is not None and sig(s) not in vs_: r.v(key + ':lists', s.st.where(), 'edges counted here are not the edges later ticked off (lists or ends differ)')
        foreign_guards(f, r, key, s, 'counting')
    for s in vs:
        if sig(s) not in ds_: r.v(key + ':lists', s.st.where(), 'edges ticked off here are not the edges counted (lists or ends differ)')
    for i, e, a, ca, k in ps:
        # ca*D[x] - ca*V[x] + k == 0   ->  V = D + k/ca
        if e[1] in ('eq', 'ne'): off, pol = k * ca, e[1] == 'eq'           # V = D + off
        elif ca == 1: off, pol = k + (e[1] == 'slt'), True                # V >= D + off
        else: off, pol = -k + (e[1] == 'sle'), False                      # not yet:  V < D + off
        x = a[1][2]
        r.n('placements')
        here = [s for s in vincs if s.idx == x]
        dom = [s for s in here if f.dom(s.st, i)]
        brs = branch_of(f, i)
        if dom: want = 0
        elif here: want = -1
        else:
            r.v(key + ':tick', i.where(), 'the edge is never ticked off for the node tested here'); continue
        if off != want: r.v(key + ':last', i.where(), 'a node is released with %d instead of all of its dependences ticked off' % off)
        if dom:
            for s in dom:
                if s.loop is not None:
                    gs = [g for g in s.guards()]
                    for g in gs:
                        r.v(key + ':guard', g[1].where(), 'ticking off an edge depends on a further condition (%s)' % pretty(f, g[0]))
        # insertion
        L = f.loop(i.blk)
        pushes = [u for b in (L.blocks if L else ()) for u in f.blocks[b].ins if u.op in ('call', 'invoke') and short_of(u.cdem or '') in ('push', 'push_back', 'emplace', 'emplace_back')]
        for u in pushes:
            ed = {(b, kk if pol else 1 - kk) for b, kk in brs}
            if not (ed & f.cdeps(u.blk)):
                r.v(key + ':release', u.where(), 'a node is queued whether or not all of its dependences are ticked off')
            ms = unmarked_guard(f, u.blk, x)
            if not ms: r.v(key + ':twice', u.where(), 'a node is queued without a test that it is not queued already')
            elif not any(visited_set(f, u.blk, M, x) for M in ms): r.v(key + ':mark', u.where(), 'a queued node is not marked as queued')
    rounds(f, r, key, ps)

def rounds(f, r, key, ps):
    """pop loop bounded by a count taken before the round, every insertion counted once"""
    for i, e, a, ca, k in ps[:1]:
        pop = None
        for L in f.loop_chain(i.blk):
            pops = [u for b in L.blocks for u in f.blocks[b].ins if u.op in ('call', 'invoke') and short_of(u.cdem or '') in ('pop', 'pop_front')]
            if pops: pop = (L, pops[0]); break
        if not pop: return
        L, u = pop
        bounded = False
        for j in header_ivs(f, L):
            g = f.range(j.id)
            if g and g[1] is not None: bounded = (j, g)
        if not bounded:
            r.v(key + ':round', u.where(), 'the nodes taken out in one round are not limited to those queued before it'); return
        hi = bounded[1][1]
        if bounded[1][0] != C(0): r.v(key + ':round', u.where(), 'a round does not take out all nodes queued before it')
        if hi[0] != 'phi': return
        ph = f.vals[hi[1]]
        # the additions that make up the next round's count
        web = set(); st = [o for o, b in zip(ph.ops, ph.inc) if ph.blk in f.hdr and b in f.loops[f.hdr[ph.blk]].blocks]
        adds = []
        while st:
            o = st.pop()
            if not isinstance(o, str) or o[0] == 'a' or o in web: continue
            web.add(o); v = f.vals[o]
            if v.op == 'phi': st += [x for x in v.ops]
            elif v.op == 'add':
                adds.append(v); st += [x for x in v.ops if isinstance(x, str)]
            elif v.op in ('sext', 'trunc', 'zext'): st += v.ops
        if not adds: return
        blocks = {}
        for v in adds: blocks[cd1(f, v.blk)] = blocks.get(cd1(f, v.blk), 0) + 1
        for b in L.blocks:
            for w in f.blocks[b].ins:
                if w.op in ('call', 'invoke') and short_of(w.cdem or '') in ('push', 'push_back', 'emplace'):
                    r.n('queue insertions')
                    if not blocks.get(cd1(f, w.blk)):
                        r.v(key + ':uncounted', w.where(), 'a node queued for the next level is not counted in that level')

# longest-path levels (trees): a node's level only ever goes up
def maxprop(f, r):
    cand = []
    for s in f.stores():
        a = f.expr(s.ops[1])
        if a[0] != 'elem' or a[2][0] not in ('phi', 'ld'): continue
        v = f.expr(s.ops[0])
        L = f.loop(s.blk)
        if L is None: continue
        # the index climbs through a parent array in this loop
        T = climbing(f, L, a[2])
        if T is None: continue
        k, p = lin_parts(v)
        if len(p) == 1 and k in (0, 1) and next(iter(p))[0] in ('iv', 'phi'): cand.append((s, a, v, L))
    for s, a, v, L in cand:
        if not f.short.startswith(('build_level_set', 'build_levelSet', 'buildLevelSet')): continue
        r.n('longest-path updates')
        ok = False
        for b, k in f.cdeps(s.blk):
            T = f.blocks[b].term
            if T.op != 'br' or not T.ops: continue
            c = f.expr(T.ops[0])
            if k == 1: c = neg(c)
            if c[0] != 'cmp': continue
            # old <= new  or old < new
            if c[1] in ('slt', 'sle'):
                d = sub(sub(c[2], c[3]), sub(('ld', a), v))
                if d[0] == 'c' and (c[1], d[1]) in (('slt', 0), ('sle', 0), ('slt', -1), ('sle', 1)): ok = True
        if v[0] == 'max' or v[0] == 'sel': ok = True
        if not ok: r.v('%s:%s:longest' % (f.short, pretty(f, a[1])), s.where(), 'a node\'s level can be lowered below that of a deeper path')
        kk, p = lin_parts(v); w = next(iter(p))
        stp = None
        if w[0] == 'iv': stp = f.iv(w[1])[1]
        if w[0] == 'iv' and stp != 1: r.v('%s:%s:step' % (f.short, pretty(f, a[1])), s.where(), 'the level grows by %d per edge' % stp)

def climbing(f, L, x):
    """x is a phi of L (or derived) that moves to T[x]"""
    if x[0] == 'ld' and x[1][0] == 'elem':
        y = x[1][2]
        if y[0] == 'phi' and f.vals[y[1]].blk == L.header:
            ph = f.vals[y[1]]
            for o, b in zip(ph.ops, ph.inc):
                if b in L.blocks and f.expr(o) == x: return x[1][1]
    return None
