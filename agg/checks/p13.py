"""P13 dense cursors"""
import os
from ir import *
from lib import *
from cursors import *
RULE = ('A running position is a group of SSA values connected by "+constant" through loop-header merges (or a counter cell that is read for an index and incremented), '
        'used as the index of output stores. On every path from one visit of the position\'s loop header to the next, the set of offsets written into each output array must be exactly '
        'the consecutive offsets the position moves over: no increment without a store, no store without an increment, no offset skipped.')
ASSUME = ['Arrays whose stores hang on an optional-array test or a loop-invariant switch are only checked for overwrites.',
          'Positions that are compared with a loop-invariant bound to leave their own loop are loop counters, not output positions.']

def compares(f, ref, depth=0):
    '''integer comparisons a branch condition is made of'''
    if not isinstance(ref, str) or ref[0] == 'a' or depth > 6: return []
    i = f.vals[ref]
    if i.op == 'icmp': return [i]
    if i.op in ('phi', 'and', 'or', 'xor', 'select', 'zext', 'trunc', 'freeze'):
        out = []
        for o in i.ops: out += compares(f, o, depth + 1)
        if i.op == 'phi':
            for b in i.inc:
                T = f.blocks[b].term
                if T.op == 'br' and T.ops: out += compares(f, T.ops[0], depth + 1)
        return out
    return []

def is_counter(f, web):
    """loop counters: an exit test of the header's loop compares the position with an invariant bound"""
    for x in web:
        b = f.vals[x].blk
        if b not in f.hdr: continue
        L = f.loops[f.hdr[b]]
        for eb, k, t in f.loop_exits(L):
            T = f.blocks[eb].term
            if T.op != 'br' or not T.ops: continue
            for c in compares(f, T.ops[0]):
              for u, v in ((0, 1), (1, 0)):
                r, _ = chain(f, c.ops[u])
                if isinstance(r, str) and r in web:
                    ve = f.expr(c.ops[v])
                    o, _ = chain(f, c.ops[v])
                    if not (isinstance(o, str) and o[0] != 'a' and f.vals[o].op == 'phi' and f.vals[o].blk in L.blocks): return True
    return False

def fname(f): return f.dem.split('(')[0].split(' ')[-1].replace('(anonymous namespace)::', '')
def aname(f, a): return pretty(f, a)

def phi_webs(f, r, cfg):
    for web, dec in webs(f):
        if dec: continue
        if is_counter(f, web): continue
        W = WebWalk(f, web)
        st = {k: v for k, v in W.stores.items() if not is_rmw(f, v[4])}
        W.stores = st
        if not st:
            push_count(f, r, W, web); continue
        r.n('running positions')
        arrs = {(b, rest) for b, rest, _, _, _ in st.values()}
        opt = set()
        for k, (b, rest, ph, c, ins) in st.items():
            for H in W.hdrs:
                L = f.loops[f.hdr[H]]
                if ins.blk in L.blocks and guarded_optional(f, ins, L): opt.add((b, rest))
        segs = []
        def on_header(H, p, d, w):
            segs.append((H, p, d, w))
        if not W.run(on_header): r.n('positions too complex'); continue
        r.n('path segments', len(segs))
        shifts = {}
        for A in arrs:
            fs = [(p, d, sorted({o for o, _ in w.get(A, ())}), w.get(A, ())) for H, p, d, w in segs]
            mins = [o[0] for p, d, o, _ in fs if o and d > 0]
            if not mins: 
                continue
            sh = min(mins)
            shifts[A] = sh
            for p, d, offs, wr in fs:
                want = list(range(sh, sh + d))
                if offs == want: continue
                miss = [x for x in want if x not in offs]; extra = [x for x in offs if x not in want]
                ins = next((f.vals[i] for o, i in wr), None) or next(v[4] for v in st.values() if (v[0], v[1]) == A)
                if extra:
                    ex = next(f.vals[i] for o, i in wr if o in extra)
                    r.v('%s:%s:overwrite' % (fname(f), aname(f, A[0])), ex.where(), 'an element is stored into %s at the running position, but on a path the position does not move past it (moves by %d)' % (aname(f, A[0]), d))
                elif miss and A not in opt:
                    r.v('%s:%s:gap' % (fname(f), aname(f, A[0])), ins.where(), 'the running position into %s moves by %d on a path that stores only %d element(s)' % (aname(f, A[0]), d, len(offs)))
            r.ok('%s: %s dense over %d segments' % (fname(f), aname(f, A[0]), len(segs)))
        starts(f, r, W, web, shifts, arrs)

def starts(f, r, W, web, sh, arrs):
    '''the first element goes to the first slot'''
    inits = set()
    for x in web:
        i = f.vals[x]
        for o, b in zip(i.ops, i.inc):
            c, d = chain(f, o)
            if isinstance(c, str) and c in web: continue
            if isinstance(c, str): continue
            if c[0] == 'c': inits.add((c[1] + d, i))
    for A, off in sh.items():
        if not A[1]: started(f, r, A[0], off, inits)

def from_zero(f, v):
    '''the value stored first is 0 or the number of the first element'''
    if v[0] == 'iv': return True
    if v[0] != 'phi' or f.vals[v[1]].blk not in f.hdr: return False
    i = f.vals[v[1]]; L = f.loops[f.hdr[i.blk]]
    return any(b not in L.blocks and o == ['c', 0] for o, b in zip(i.ops, i.inc))

def started(f, r, B, off, inits):
    for v, i in inits:
        r.n('starting positions')
        k = v + off
        if k == 0 or v == 0 and off == 1: continue
        if k < 0: continue
        sts = [t for t in f.stores() if f.expr(t.ops[1])[0] == 'elem' and f.expr(t.ops[1])[1] == B]
        got = {f.expr(t.ops[1])[2][1] for t in sts if f.expr(t.ops[1])[2][0] == 'c'}
        if any(f.expr(t.ops[1]) == B for t in f.stores()): got.add(0)
        if all(x in got for x in range(k)): continue
        # a pointer array whose first entry is zero from its allocation
        if k == 1:
            vs = [f.expr(t.ops[0]) for t in f.stores() if addr_parts(f, t.ops[1])[1] and addr_parts(f, t.ops[1])[0] == B]
            if not any(from_zero(f, v) for v in vs) and any(mentions(v, lambda e: e[0] == 'phi' or e[0] == 'ld' and e[1][0] == 'elem' and e[1][1] == B) for v in vs): continue
        r.v('%s:%s:start' % (fname(f), aname(f, B)), i.where(), 'the first element is stored into %s at position %d: the slots before it are never filled' % (aname(f, B), k))

def push_count(f, r, W, web):
    '''a counter recorded in a pointer array next to push_back'ed data'''
    rec = False
    for i in f.stores():
        k, d = index_lin(f, [i.ops[0]])
        if len(d) == 1 and next(iter(d)) in web and f.loop(i.blk) is not None and addr_parts(f, i.ops[1])[1]: rec = True
    if not rec: return
    W.push = True; segs = []
    if not W.run(lambda H, p, d, w: segs.append((H, d, w))): return
    vs = {A for H, d, w in segs for A in w if A[0] == 'push'}
    if not vs: return
    r.n('running positions'); r.n('path segments', len(segs))
    for A in vs:
        if not any(d > 0 and len(w.get(A, ())) == d for H, d, w in segs): continue
        for H, d, w in segs:
            k = len(w.get(A, ()))
            if k == d: continue
            ins = next((f.vals[i] for _, i in w.get(A, ())), None) or f.blocks[H].ins[0]
            r.v('%s:%s:push' % (fname(f), aname(f, A[1])), ins.where(), 'on a path %d element(s) are appended to %s but the running count recorded in the pointer array moves by %d' % (k, aname(f, A[1]), d))
        r.ok('%s: count of %s in step' % (fname(f), aname(f, A[1])))

def cells(f, r, cfg):
    """counter cells: A[.. ld(C) ..] = v with C incremented"""
    for L in f.loops.values():
        inc = {}
        for b in L.blocks:
            if f.loop(b) is not L: continue
            for i in f.blocks[b].ins:
                if i.op != 'store': continue
                a = f.expr(i.ops[1])
                d = const_diff(f.expr(i.ops[0]), ('ld', a))
                if d is not None: inc.setdefault(a, []).append((i, d))
        for a, lst in inc.items():
            if any(d <= 0 for _, d in lst): continue
            loads = {i.id for b in L.blocks for i in f.blocks[b].ins if i.op == 'load' and f.expr(i.ops[0]) == a}
            st = {}
            for b in L.blocks:
                for i in f.blocks[b].ins:
                    if i.op != 'store' or is_rmw(f, i): continue
                    base, idx = addr_parts(f, i.ops[1])
                    if not idx: continue
                    k, d = index_lin(f, idx)
                    hit = [t for t in d if t in loads]
                    if len(hit) == 1 and d[hit[0]] == 1: st[i.id] = (base, hit[0], k, i)
            if not st: continue
            if any(f.loop(v[3].blk) is not L for v in st.values()): continue
            r.n('counter cells')
            opt = {v[0] for v in st.values() if guarded_optional(f, v[3], L)}
            incs = {i.id: d for i, d in lst}
            # walk one iteration
            seen = set(); work = [(L.header, 0, (), ())]; segs = []; n = 0; big = False
            while work:
                b, d, lo, wr = work.pop(); n += 1
                if n > 6000: big = True; break
                o = dict(lo); w = set(wr)
                for i in f.blocks[b].ins:
                    if i.id in loads: o[i.id] = d
                    elif i.op == 'store':
                        if i.id in incs: d += incs[i.id]
                        elif i.id in st and st[i.id][1] in o: w.add((st[i.id][0], o[st[i.id][1]] + st[i.id][2], i.id))
                for t in f.blocks[b].succ:
                    if t == L.header: segs.append((d, w)); continue
                    if t not in L.blocks: segs.append((d, w)); continue
                    s2 = (t, d, tuple(sorted(o.items())), tuple(sorted(w, key=repr)))
                    if s2 not in seen: seen.add(s2); work.append(s2)
            if big: r.n('positions too complex'); continue
            r.n('path segments', len(segs))
            for A in {v[0] for v in st.values()}:
                mins = [min(o for B, o, _ in w if B == A) for d, w in segs if d > 0 and any(B == A for B, _, _ in w)]
                if not mins: continue
                sh = min(mins)
                # with a constant shift other than 0 the cell counts from elsewhere
                started(f, r, A, sh, {(f.expr(t.ops[0])[1], t) for t in f.stores() if f.expr(t.ops[1]) == a and f.expr(t.ops[0])[0] == 'c' and t.blk not in L.blocks and f.bdom(t.blk, L.header)})
                for d, w in segs:
                    offs = sorted({o for B, o, _ in w if B == A}); want = list(range(sh, sh + d))
                    if offs == want: continue
                    ins = next((v[3] for v in st.values() if v[0] == A))
                    if [x for x in offs if x not in want]:
                        r.v('%s:%s:cell-overwrite' % (fname(f), aname(f, A)), ins.where(), 'an element is stored into %s at a counter that does not move past it on a path' % aname(f, A))
                    elif A not in opt and any(x not in offs for x in want):
                        # which arrays got something on this path?  a path that fills another array is that array's segment
                        if not offs and any(B != A and B not in opt for B, _, _ in w): continue
                        r.v('%s:%s:cell-gap' % (fname(f), aname(f, A)), ins.where(), 'the counter into %s moves by %d on a path that stores %d element(s)' % (aname(f, A), d, len(offs)))
                r.ok('%s: %s dense (counter cell)' % (fname(f), aname(f, A)))

def pushed(f):
    '''(call, vector, address or value appended)'''
    for i in f.instrs():
        if i.op in ('call', 'invoke') and i.cdem and short_of(i.cdem) in ('push_back', 'emplace_back') and 'std::vector<' in i.cdem and len(i.ops) > 1:
            yield i, f.expr(i.ops[0]), f.expr(i.ops[1])

def push_cells(f, r):
    '''a counter in memory that is appended to a vector of segment boundaries: it must count the elements appended'''
    P = list(pushed(f))
    for a in {x for _, _, x in P}:
        ptrs = {V for _, V, x in P if x == a}
        for L in f.loops.values():
            inc = {}
            for b in L.blocks:
                if f.loop(b) is not L: continue
                for i in f.blocks[b].ins:
                    if i.op == 'store' and f.expr(i.ops[1]) == a:
                        d = const_diff(f.expr(i.ops[0]), ('ld', a))
                        inc[i.id] = d
            if not inc or any(d is None or d <= 0 for d in inc.values()): continue
            data = {V for i, V, _ in P if V not in ptrs and i.blk in L.blocks and f.loop(i.blk) is L}
            if not data: continue
            r.n('counter cells')
            ids = {i.id: V for i, V, _ in P}
            seen = set(); work = [(L.header, 0, ())]; segs = []; n = 0
            while work and n < 6000:
                b, d, cnt = work.pop(); n += 1; c = dict(cnt)
                for i in f.blocks[b].ins:
                    if i.id in inc: d += inc[i.id]
                    elif i.id in ids: c[ids[i.id]] = c.get(ids[i.id], 0) + 1
                for t in f.blocks[b].succ:
                    if t == L.header: segs.append((d, c)); continue
                    if t not in L.blocks: continue
                    s2 = (t, d, tuple(sorted(c.items(), key=repr)))
                    if s2 not in seen and d < 20: seen.add(s2); work.append(s2)
            if n >= 6000: r.n('positions too complex'); continue
            r.n('path segments', len(segs))
            for A in data:
                if any(d > 0 and c.get(A, 0) >= 1 for d, c in segs):
                    for d, c in segs:
                        if c.get(A, 0) == d: continue
                        ins = next(i for i, V, _ in P if V == A)
                        r.v('%s:%s:push' % (fname(f), aname(f, A)), ins.where(), 'on a path %d element(s) are appended to %s but the running count recorded in the pointer array moves by %d' % (c.get(A, 0), aname(f, A), d))
                    r.ok('%s: count of %s in step' % (fname(f), aname(f, A)))

def counted_only(f, r):
    '''elements counted in a fixed entry of a boundary array are also stored'''
    for L in f.loops.values():
        for b in L.blocks:
            if f.loop(b) is not L: continue
            for i in f.blocks[b].ins:
                if i.op != 'store': continue
                a = f.expr(i.ops[1])
                if a[0] != 'elem' or a[2][0] != 'c' or const_diff(f.expr(i.ops[0]), ('ld', a)) != 1: continue
                if not any(x in L.blocks for x, k in f.cdeps(b) if x != L.header): continue
                r.n('counted entries')
                # the same entry of the array bounds a loop: its elements are read back from a list
                loads = {j.id for x in L.blocks for j in f.blocks[x].ins if j.op == 'load' and f.expr(j.ops[0]) == a}
                used = False
                for x in L.blocks:
                    for j in f.blocks[x].ins:
                        if j.op == 'store':
                            for q in addr_parts(f, j.ops[1])[1]:
                                if set(index_lin(f, [q])[1]) & loads: used = True
                        elif j.op in ('call', 'invoke') and short_of(j.cdem or '') in ('push_back', 'push', 'emplace_back'): used = True
                if not used: r.v('%s:%s:counted' % (fname(f), aname(f, a)), i.where(), 'elements are counted in %s but not stored in any list' % aname(f, a))

def shape(f, e, d=0):
    """an expression with its loop counters replaced by the range they run over"""
    if not isinstance(e, tuple) or not e: return e
    if e[0] == 'iv':
        g = f.range(e[1])
        if not g or g[1] is None or d > 4: return e
        return ('R', shape(f, g[0], d + 1), shape(f, g[1], d + 1), g[2])
    return tuple(shape(f, x, d) if isinstance(x, tuple) else x for x in e)

def guards(f, i, L):
    """the conditions inside loop L under which i is executed"""
    out = set()
    for x, k in f.cdeps(i.blk):
        T = f.blocks[x].term
        if x not in L.blocks or T.op != 'br' or not T.ops or any(y not in f.loop(x).blocks for y in f.blocks[x].succ): continue
        c = f.expr(T.ops[0]); k = int(k)
        while c[0] == 'not': c = c[1]; k ^= 1
        if c[0] == 'cmp':
            p, a, b = c[1], shape(f, c[2]), shape(f, c[3])
            N = {'ne': 'eq', 'sge': 'slt', 'uge': 'ult', 'sgt': 'sle', 'ugt': 'ule'}
            if p in N: p = N[p]; k ^= 1
            if p == 'eq' and repr(b) < repr(a): a, b = b, a
            c = ('cmp', p, a, b)
        else: c = shape(f, c)
        out.add((c, k))
    return out

def two_passes(f, r):
    """what a first pass over the entries counts per list is what the second pass fills into it"""
    K = {}
    for i in f.stores():
        a = f.expr(i.ops[1])
        if a[0] != 'elem' or const_diff(f.expr(i.ops[0]), ('ld', a)) != 1: continue
        ch = list(f.loop_chain(i.blk))
        if not ch: continue
        K.setdefault(a[1], {}).setdefault(ch[-1].header, []).append((shape(f, a[2]), i, ch[-1]))
    for b, g in K.items():
        gs = list(g.values())
        for x in range(len(gs)):
            for y in range(x + 1, len(gs)):
                if not f.bdom(gs[x][0][2].header, gs[y][0][2].header) and not f.bdom(gs[y][0][2].header, gs[x][0][2].header): continue     # alternatives
                A, B = {}, {}
                for D, l in ((A, gs[x]), (B, gs[y])):
                    for n, i, L in l: D.setdefault(n, []).append(({(c, k) for c, k in guards(f, i, L) if not (c[0] == 'cmp' and n in c[2:] and any(t[0] == 'c' for t in c[2:]))}, i))    # whole lists may be left out
                if not any(mentions(n, lambda q: q[0] == 'ld') for n in set(A) & set(B)): continue
                r.n('counting and filling passes')
                nm = aname(f, b)
                if set(A) < set(B) or set(B) < set(A):
                    n = next(iter(set(A) ^ set(B))); i = (A.get(n) or B.get(n))[0][1]
                    r.v('%s:%s:passes' % (fname(f), nm), i.where(), 'the entries of %s counted in one pass are not the ones filled in the other' % nm)
                elif set(A) == set(B):
                    for n in A:
                        if len(A[n]) == len(B[n]) == 1 and A[n][0][0] != B[n][0][0]:
                            r.v('%s:%s:passes' % (fname(f), nm), B[n][0][1].where(), 'an entry of %s is counted under another condition than it is filled' % nm)
                        elif len(A[n]) != len(B[n]):
                            r.v('%s:%s:passes' % (fname(f), nm), B[n][0][1].where(), 'an entry of %s is counted a different number of times than it is filled' % nm)

def check(ctx, r):
    P = ctx.prog('ser')
    for f in P.fns.values():
        if not f.file: continue
        r.n('functions')
        phi_webs(f, r, 'ser'); cells(f, r, 'ser'); push_cells(f, r); counted_only(f, r); two_passes(f, r)
    r.need('functions', 100); r.need('running positions', 15); r.need('counter cells', 5)
