"""P14 segment pointer arrays"""
from ir import *
from lib import *
from cursors import *
from arrays import *
from checks import p08, p11
RULE = ('For every store P[e] = P[e\'] + count of a pointer array the two positions must differ by exactly one (or be the same accumulating entry), a counted array must be read at e\', a running count must be reset for every segment; '
        'for every loop that records a running position in a pointer array the recorded value must be the position at the segment\'s start (stored at the segment number) or at its end (stored one later), a loop of the first kind must be followed by the closing entry, '
        'and the first entry must be zero (value-initialised storage, explicit store, or a position that starts at zero). '
        'A boundary vector appended to once per segment also gets a first or a closing entry, and a position is never appended only where it is the last entry already.')
ASSUME = ['Pointer arrays are recognised by being used as loop bounds P[k]..P[k+1], by being the p field of a matrix, or by their role in a chain store.']

LEFT = set()
DOCS = {}
EXT = [None]
# the first entry is part of the arguments' documented initial state; every caller in the library is checked instead
CALLER_ZEROES = {'sym_lib::make_partitions_parallel', 'sym_lib::build_level_set_tree_efficient'}
def fname(f): return f.dem.split('(')[0].split(' ')[-1]
PTRNAME = re.compile(r'(?i)(ptr\d*$|_p$|^n?[A-Z][a-z]{0,5}p$|colptr|rowptr)')

def base_name(f, b):
    return pretty(f, b).lstrip('*')

def bound_arrays(f):
    """arrays used as P[k] .. P[k+1] somewhere in f"""
    out = set()
    for i in f.instrs():
        if i.op == 'phi' and i.blk in f.hdr and f.iv(i):
            r = f.range(i.id)
            if not r or r[1] is None: continue
            for x in (r[0], r[1]):
                for t in ([x] + [a for a, c in lin_parts(x)[1].items()]):
                    if t[0] == 'ld' and t[1][0] == 'elem': out.add(t[1][1])
    return out

def is_ptr_array(f, b, bnd):
    if b in bnd: return True
    if b[0] == 'ld' and b[1][0] == 'fld' and b[1][2] in ('CSC', 'CSR', 'BCSC') and b[1][3] == 'p': return True
    if b[0] == 'ld' and b[1][0] == 'fld' and str(b[1][3]) == '6' : return False
    return bool(PTRNAME.search(base_name(f, b).split('->')[-1]))

def stores_of(f):
    out = {}
    for st in f.stores():
        base, idx = addr_parts(f, st.ops[1])
        if not idx:
            # P[0] without index
            out.setdefault(base, []).append((st, C(0)))
            continue
        e = C(0)
        for x in idx: e = add(e, f.expr(x))
        out.setdefault(base, []).append((st, e))
    return out

def first_zero(P, f, base, sts):
    for st, e in sts:
        if e == C(0):
            v = f.expr(st.ops[0])
            return v == C(0) or v[0] in ('iv', 'phi') and startv(f, v) == C(0)
    for st, e in sts:       # a loop storing P[iv] = position starting at 0
        it = iv_interval(f, e)
        if it and it[0] == C(0):
            v = f.expr(st.ops[0])
            if v == C(0): return True
            if v[0] in ('iv', 'phi'):
                return startv(f, v) == C(0)
            return None     # computed value: not a chain start
    h = heap_of(f, base)
    if h: return heap_zeroed(f, h)
    if base[0] == 'ld' and base[1][0] == 'fld':
        return (base[1][2], base[1][3]) in zero_fields(P) or None
    if base[0] == 'data': return None
    return None

def startv(f, v):
    i = f.vals[v[1]]
    if i.blk not in f.hdr: return None
    L = f.loops[f.hdr[i.blk]]
    for o, b in zip(i.ops, i.inc):
        if b not in L.blocks: return f.expr(o)

def chain_checks(P, f, r, S):
    for base, sts in S.items():
        for st, e in sts:
            v = f.expr(st.ops[0])
            k, parts = lin_parts(v)
            self = [(a, c) for a, c in parts.items() if a[0] == 'ld' and (a[1][0] == 'elem' and a[1][1] == base or a[1] == base)]
            if len(self) != 1 or self[0][1] != 1: continue
            a = self[0][0]
            e2 = a[1][2] if a[1][0] == 'elem' else C(0)
            d = const_diff(e, e2)
            if d == 0 or d is None: continue
            L = f.loop(st.blk)
            if L is None: continue
            rest = {x: c for x, c in parts.items() if x != a}
            if not rest and not (is_ptr_array(f, base, bound_arrays(f))):
                if k == 0 and d == 1 and iv_interval(f, e) and not any(s2 is not st and L in f.loop_chain(s2.blk) for s2, e2 in sts) and any(s2 is not st and f.loop(s2.blk) is not None for s2, e2 in sts):
                    nm = base_name(f, base)
                    r.v('%s:%s:chain-lost' % (fname(f), nm), st.where(), 'the counts in %s are replaced by their predecessors instead of being added to them' % nm)
                continue
            r.n('chain stores')
            nm = base_name(f, base)
            if d != 1:
                r.v('%s:%s:chain' % (fname(f), nm), st.where(), 'entry %s of %s is set from entry %s, not from its predecessor' % (pretty(f, e), nm, pretty(f, e2)))
                continue
            if k != 0 and rest and not any(x[0] == 'ld' for x in rest) and all(x[0] in ('phi',) for x in rest):
                r.v('%s:%s:chain-const' % (fname(f), nm), st.where(), 'the segment length added to %s is off by the constant %d' % (nm, k))
            if not rest and any(const_diff(f.expr(s2.ops[0]), ('ld', f.expr(s2.ops[1]))) not in (None, 0) for s2, e2 in sts):
                in_step(f, r, base, sts, nm)
                # counts taken before and then overwritten by their predecessor
                inc = [s2 for s2, e2 in sts if s2 is not st and const_diff(f.expr(s2.ops[0]), ('ld', f.expr(s2.ops[1]))) not in (None, 0)]
                if k == 0 and all(L not in f.loop_chain(s2.blk) and not f_reach(f, L, s2.blk) for s2 in inc):
                    r.v('%s:%s:chain-lost' % (fname(f), nm), st.where(), 'the counts in %s are replaced by their predecessors instead of being added to them' % nm)
            elif not rest and k == 0:
                r.v('%s:%s:chain-empty' % (fname(f), nm), st.where(), 'every segment recorded in %s has length zero' % nm)
            if len(rest) > 1 and any(x[0] in ('cmp', 'not', 'bphi') for x in rest):
                r.v('%s:%s:chain-extra' % (fname(f), nm), st.where(), 'the segment length added to %s contains a truth value on top of a count' % nm)
            if len(rest) == 1 and list(rest.values()) == [1]:
                x = next(iter(rest))
                for M in f.loops.values():
                    if M is L or L not in f.loop_chain(M.header): continue
                    for j in f.blocks[M.header].ins:
                        if j.op != 'phi' or not f.iv(j): continue
                        g = f.range(j.id)
                        if not g or g[1] is None or g[2] != 1 or g[3] is not M: continue
                        t = sub(sub(g[1], g[0]), x)
                        other = t[0] == 'lin' and g[0] == C(0) and x[0] == 'phi' and g[1][0] == 'phi' and g[1] != x and M.header not in f.loop_chain(f.vals[x[1]].blk)
                        if t[0] == 'c' and t[1] == k or t[0] != 'c' and not other: continue
                        # one element per turn is emitted at a position that runs on through the segments
                        for ms, dec in webs(f):
                            if dec or j.id in ms: continue
                            hp = [y for y in ms if f.vals[y].blk == M.header]
                            if not hp or not any(f.vals[y].blk == L.header for y in ms): continue
                            nx = {chain(f, o) for o, b in zip(f.vals[hp[0]].ops, f.vals[hp[0]].inc) if b in M.blocks and not isinstance(chain(f, o)[0], list)}
                            if nx == {(hp[0], 1)}:
                                r.v('%s:%s:chain-turns' % (fname(f), nm), st.where(), '%s is advanced by %s, but the loop that emits the segment runs %s times' % (nm, pretty(f, x), pretty(f, sub(g[1], g[0])))); break
            for x, c in rest.items():
                # counted array read at the predecessor's position
                if x[0] == 'ld' and x[1][0] == 'elem' and c == 1:
                    dd = const_diff(x[1][2], e2)
                    if dd is not None and dd != 0 and len(rest) == 1:
                        r.v('%s:%s:chain-count' % (fname(f), nm), st.where(), 'the number of elements of segment %s is taken from position %s of the count array' % (pretty(f, e2), pretty(f, x[1][2])))
                if x[0] == 'phi' and c == 1:
                    root = running_count(f, delayed(f, x[1]))
                    if root is not None:
                        init, HL = root
                        r.n('running counts')
                        if init[0] == 'c' and init[1] != 0:
                            r.v('%s:%s:chain-start' % (fname(f), nm), st.where(), 'the running count added to %s starts at %d' % (nm, init[1]))
                        elif init[0] != 'c' and HL in f.loop_chain(st.blk):
                            r.v('%s:%s:chain-reset' % (fname(f), nm), st.where(), 'the running count added to %s is not reset for every segment' % nm)
                        elif HL in f.loop_chain(st.blk):
                            r.v('%s:%s:chain-reset' % (fname(f), nm), st.where(), 'the running count added to %s is not reset for every segment' % nm)
            chain_end(f, r, base, sts, st, e, nm)
            z = first_zero(P, f, base, sts)
            if z is False:
                r.v('%s:%s:first' % (fname(f), nm), st.where(), 'the first entry of %s is not set to zero' % nm)
            elif z is None and fname(f) not in CALLER_ZEROES and (base[0] == 'arg'):
                r.v('%s:%s:first' % (fname(f), nm), st.where(), 'the first entry of %s is not set' % nm)
            elif z is None and (base[0] == 'arg' or base[0] == 'ld' and base[1][0] == 'arg'):
                r.n('first entry left to the caller'); LEFT.add((f.name, (base if base[0] == 'arg' else base[1])[1], base[0] == 'ld', nm))
            r.ok('%s: %s chained' % (fname(f), nm))

def chain_end(f, r, base, sts, st, e, nm):
    """a chain in an array of known size goes on to the array's last entry"""
    g = iv_interval(f, e)
    if not g: return
    xs = []
    if base[0] == 'arg': xs = DOCS.get((f.name, base[1]), [])
    else: xs = EXT[0].of(f, base) or []
    hi = EXT[0].norm(f, g[1])
    for x in xs:
        d = const_diff(EXT[0].norm(f, x), hi)
        if d is None or any(const_diff(EXT[0].norm(f, y), hi) == 0 for y in xs if y is not x): continue
        r.n('chains followed to the end')
        if d > 0 and not any(s2 is not st and const_diff(x, e2) is not None and 1 <= const_diff(x, e2) <= d for s2, e2 in sts):
            r.v('%s:%s:chain-end' % (fname(f), nm), st.where(), '%s has %s entries but the chain stops at entry %s' % (nm, pretty(f, x), pretty(f, sub(g[1], C(1))))); return
    if g[0][0] == 'c' and g[0][1] > 1 and not any(s2 is not st and e2[0] == 'c' and 0 < e2[1] < g[0][1] for s2, e2 in sts):
        r.v('%s:%s:chain-begin' % (fname(f), nm), st.where(), 'the chain in %s begins at entry %d; the one before it is never set' % (nm, g[0][1]))

def returned_count(f, r, S):
    """an array whose entry number [returned count] is set on one way out has it set on every way out"""
    leaves = []; seen = set()
    def go(o, b):
        if (o if isinstance(o, str) else repr(o), b) in seen: return
        seen.add((o if isinstance(o, str) else repr(o), b))
        v = f.vals.get(o) if isinstance(o, str) else None
        if v is not None and v.op == 'phi' and v.blk not in f.hdr:
            for x, y in zip(v.ops, v.inc): go(x, y)
        else: leaves.append((f.expr(o), b))
    for i in f.instrs():
        if i.op == 'ret' and i.ops: go(i.ops[0], i.blk)
    if not leaves: return
    for base, sts in S.items():
        if base[0] != 'arg': continue
        if not any(v[0] != 'c' and const_diff(e, v) == 0 for v, b in leaves for st, e in sts): continue
        nm = base_name(f, base)
        for v, b in leaves:
            if v[0] != 'c' or v[1] < 1: continue
            r.n('returned counts')
            for k in [C(x) for x in range(v[1] + 1)]:
                have = {st.blk for st, e in sts if const_diff(e, k) == 0}
                todo = [f.entry]; seen = set()
                while todo:
                    x = todo.pop()
                    if x in seen or x in have: continue
                    seen.add(x); todo += f.blocks[x].succ
                if b in seen: r.v('%s:%s:returned' % (fname(f), nm), f.blocks[b].term.where(), 'on a way out that returns %s, entry %s of %s is not set' % (pretty(f, v), pretty(f, k), nm))

def delayed(f, pid):
    """a header value that is replaced every round by another counter (cur = next): the other counter"""
    i = f.vals[pid]
    if i.op != 'phi' or i.blk not in f.hdr: return pid
    L = f.loops[f.hdr[i.blk]]
    outs = [chain(f, o)[0] for o, b in zip(i.ops, i.inc) if b in L.blocks]
    for c in outs:
        if isinstance(c, str) and c[0] != 'a' and f.vals[c].op == 'phi' and not derives(f, c, pid): return c
    return pid

def derives(f, c, pid):
    seen = set(); st = [c]
    while st:
        x = chain(f, st.pop())[0]
        if not isinstance(x, str) or x[0] == 'a' or x in seen: continue
        if x == pid: return True
        seen.add(x)
        if f.vals[x].op == 'phi': st += list(f.vals[x].ops)
    return False

def running_count(f, pid, depth=0):
    """(initial value, header loop) of the counter phi behind value pid"""
    i = f.vals[pid]
    if i.op != 'phi': return None
    if i.blk in f.hdr:
        L = f.loops[f.hdr[i.blk]]
        o = next((o for o, b in zip(i.ops, i.inc) if b not in L.blocks), None)
        if o is None: return None
        c, d = chain(f, o)
        if isinstance(c, str) and c[0] != 'a' and f.vals[c].op == 'phi' and f.vals[c].blk in f.hdr and depth < 6:
            r = running_count(f, c, depth + 1)
            if r: return r
        return (f.expr(o), L)
    hs = set()
    for o in i.ops:
        c, d = chain(f, o)
        if isinstance(c, str) and c[0] != 'a' and f.vals[c].op == 'phi': hs.add(c)
    if len(hs) == 1 and depth < 6: return running_count(f, hs.pop(), depth + 1)
    return None

def position_checks(P, f, r, S):
    bnd = bound_arrays(f)
    W = webs(f)
    for base, sts in S.items():
        if not is_ptr_array(f, base, bnd): continue
        for st, e in sts:
            L = f.loop(st.blk)
            if L is None: continue
            c, d = chain(f, st.ops[0])
            if not isinstance(c, str): continue
            w = next((x for x, dec in W if c in x and not dec), None)
            if w is None: continue
            # header phi of the segment loop: innermost loop of the store that carries the position
            hp = None; SL = None
            for X in f.loop_chain(st.blk):
                h = [i.id for i in f.blocks[X.header].ins if i.op == 'phi' and i.id in w]
                if h: hp = h[0]; SL = X; break
            if hp is None: continue
            ek, ed = lin_parts(e)
            ivs = [t for t in ed if t[0] == 'iv' and f.vals[t[1]].blk == SL.header]
            dyn = [t for t in ed if t[0] in ('phi',) and not ivs]
            if not ivs and not dyn:
                if strip(f, st.ops[0]) == hp: closing_check(f, r, base, sts, st, w, SL, None, base_name(f, base))
                continue
            if any(t[1] in w for t in ivs + dyn): continue    # P[k] indexed by its own value
            nm = base_name(f, base)
            latch = {o for o, b in zip(f.vals[hp].ops, f.vals[hp].inc) if b in SL.blocks}
            r.n('recorded positions')
            val = strip(f, st.ops[0])
            is_start = val == hp
            is_end = any(strip(f, o) == val for o in latch) and not is_start
            if not is_start and not is_end:
                # positions recorded in the middle of a segment
                if d != 0 or True:
                    if reaches_latch(f, val, latch, w): is_end = True
                    else:
                        r.v('%s:%s:mid' % (fname(f), nm), st.where(), 'the position recorded in %s is neither the start nor the end of the segment' % nm); continue
            if ivs and skipped(f, SL, st, {s2.blk for s2, e2 in sts if e2 == e}):
                r.v('%s:%s:skipped' % (fname(f), nm), st.where(), 'the entry of %s is not recorded for every segment' % nm); continue
            it = iv_interval(f, e) if ivs else None
            first = it[0] if it else None
            if is_start and not ivs: closing_check(f, r, base, sts, st, w, SL, None, nm)
            if not ivs:
                k0 = startv(f, dyn[0]) if f.vals[dyn[0][1]].blk in f.hdr else None
                if k0 is None or k0[0] != 'c' or len(dyn) != 1: continue
                first = add(sub(e, dyn[0]), k0)
            if first is not None and first[0] == 'c':
                if is_start and first[1] != 0:
                    r.v('%s:%s:shift' % (fname(f), nm), st.where(), 'the start of the first segment is recorded at entry %d of %s instead of entry 0' % (first[1], nm)); continue
                if is_end and first[1] != 1:
                    r.v('%s:%s:shift' % (fname(f), nm), st.where(), 'the end of the first segment is recorded at entry %d of %s instead of entry 1' % (first[1], nm)); continue
            if is_start and it:
                sv = startv(f, ('phi', hp))
                if sv is not None and sv[0] == 'c' and sv[1] != 0:
                    r.v('%s:%s:first' % (fname(f), nm), st.where(), 'the first entry of %s is not zero' % nm)
                # closing entry
                hi = it[1]
                closing_check(f, r, base, sts, st, w, SL, hi, nm)
            if is_end:
                z = first_zero(P, f, base, [(s2, e2) for s2, e2 in sts if s2 is not st])
                if z is False:
                    r.v('%s:%s:first' % (fname(f), nm), st.where(), 'the first entry of %s is not set to zero' % nm)
            r.ok('%s: %s records %s' % (fname(f), nm, 'starts' if is_start else 'ends'))

def closing_only(f, r, S):
    """the closing entry is recorded after the loop that counts the segments, but none of the entries before it inside"""
    for base, sts in S.items():
        for st, e in sts:
            if len(e) != 2 or e[0] not in ('phi', 'iv'): continue
            h = f.vals[e[1]]
            if h.op != 'phi' or h.blk not in f.hdr: continue
            L = next((l for l in f.loops.values() if l.header == h.blk), None)
            if L is None or st.blk in L.blocks: continue
            v = f.expr(st.ops[0])
            if len(v) != 2 or v[0] not in ('phi', 'iv') or f.vals[v[1]].blk != h.blk or v == e: continue
            # a counter of what is emitted: moved on some rounds only, or next to another counter that drives the loop
            if any(s2.blk in L.blocks for s2, e2 in sts): continue
            if any(i.op in ('call', 'invoke') and any(isinstance(o, str) and f.expr(o) == base for o in i.ops) for b in L.blocks for i in f.blocks[b].ins): continue
            r.v('%s:%s:closing-only' % (fname(f), base_name(f, base)), st.where(), 'the end of the last segment is recorded in %s, but no start of a segment is recorded in the loop that counts them' % base_name(f, base))

def tiles_segments(f, r, S):
    """entries recorded for the nodes of segment after segment: the ranges written in one round join up from Q[i] to Q[i+1]"""
    bnd = bound_arrays(f)
    for base, sts in S.items():
        if not is_ptr_array(f, base, bnd): continue
        by = {}
        for st, e in sts:
            M = f.loop(st.blk); lo, hi = e, add(e, C(1))
            if M is None: continue
            if e[0] == 'iv' and f.vals[e[1]].blk == M.header:
                g = f.range(e[1])
                if not g or g[1] is None or g[2] != 1: continue
                if not all(f.bdom(st.blk, t) for t in M.latches): continue
                lo, hi = g[0], g[1]; M = next((x for x in f.loop_chain(st.blk) if x is not M), None)
                if M is None: continue
            q, s2 = p11.ldelem(lo), p11.ldelem(hi)
            if q is None or s2 is None or q[0] != s2[0] or q[0] not in bnd or q[0] == base: continue
            for h in p11.header_ivs(f, M):
                iv = ('iv', h.id)
                if all(const_diff(x[1], iv) in (0, 1) for x in (q, s2)):
                    by.setdefault((M.header, q[0], h.id), []).append((lo, hi, st)); break
        for k, rs in by.items():
            Q, iv = k[1], ('iv', k[2])
            def at(x, c):
                t = p11.ldelem(x)
                return (const_diff(t[1], iv), t[2] + c)
            r.n('nodes of segments')
            cur = (0, 0); seen = set()
            while cur != (1, 0) and cur not in seen:
                seen.add(cur)
                nx = next((at(hi, 0) for lo, hi, st in rs if at(lo, 0) == cur), None)
                if nx is None: break
                cur = nx
            if cur != (1, 0):
                st = rs[0][2]
                r.v('%s:%s:untiled' % (fname(f), base_name(f, base)), st.where(), 'the entries of %s recorded for the nodes of one segment of %s do not cover the segment' % (base_name(f, base), base_name(f, Q)))

def skipped(f, L, st, blks):
    """a turn of the loop can go by without recording"""
    if st.blk == L.header or f.loop(st.blk) is not L: return False
    todo = [x for x in f.blocks[L.header].succ if x in L.blocks]; seen = set()
    while todo:
        x = todo.pop()
        if x in seen or x in blks: continue
        if x == L.header: return True
        seen.add(x)
        todo += [y for y in f.blocks[x].succ if y in L.blocks]
    return False

def in_step(f, r, base, sts, nm):
    """entries counted up one by one must count exactly the elements emitted"""
    inc = {s2.id: ('rmw', base) for s2, e2 in sts if const_diff(f.expr(s2.ops[0]), ('ld', f.expr(s2.ops[1]))) == 1}
    by = {x: 1 for x in inc}; ups = set(inc)
    for s2, e2 in sts:                 # P[p] = P[p-1] + k
        k, parts = lin_parts(f.expr(s2.ops[0]))
        a = next(iter(parts)) if len(parts) == 1 else None
        if a is not None and parts[a] == 1 and a[0] == 'ld' and a[1][0] == 'elem' and a[1][1] == base and const_diff(e2, a[1][2]) == 1 and k: inc[s2.id] = ('rmw', base); by[s2.id] = k
    loops = {f.loop(f.vals[x].blk).id for x in ups if f.loop(f.vals[x].blk)}
    for web, dec in webs(f):
        if dec: continue
        W = WebWalk(f, web)
        if not any(f.hdr[h] in loops for h in W.hdrs): continue
        W.stores = {k: v for k, v in W.stores.items() if v[0] != base}
        if not W.stores or all(is_iv_bound(f, h, web) for h in W.hdrs if f.hdr[h] in loops): continue
        W.extra = inc; segs = []
        if not W.run(lambda H, p, d, w: segs.append((W.cur, H, d - sum(by[x] for _, x in w.get(('rmw', base), ())), d))): continue
        if not any(d > 0 and x == 0 for _, H, x, d in segs): continue
        r.n('counts in step')
        # around every loop the entries counted are the elements emitted
        pot = {}; todo = []
        for a, b, x, d in sorted(segs, key=lambda z: (len(f.loop_chain(z[0])), z[0] != z[1])):
            if a not in pot and not todo: pot[a] = 0; todo = [a]
            while todo:
                h = todo.pop()
                for a2, b2, x2, d2 in segs:
                    if a2 == h and b2 not in pot: pot[b2] = pot[h] + x2; todo.append(b2)
        for a, b, x, d in segs:
            if a in pot and b in pot and pot[a] + x != pot[b]:
                r.v('%s:%s:step' % (fname(f), nm), f.vals[next(iter(ups))].where(), 'on a path the entry of %s counts %d element(s) more than are emitted' % (nm, pot[b] - pot[a] - x) if pot[b] - pot[a] - x > 0 else 'on a path the entry of %s counts %d element(s) less than are emitted' % (nm, pot[a] + x - pot[b]))

def is_iv_bound(f, h, web):
    return any(i.op == 'phi' and i.id in web and f.bound(i.id) for i in f.blocks[h].ins)

def closing_check(f, r, base, sts, st, w, SL, hi, nm):
    OL = SL
    for X in f.loop_chain(st.blk):
        if any(i.op == 'phi' and i.id in w for i in f.blocks[X.header].ins): OL = X
    cl = [(s2, e2) for s2, e2 in sts if s2.blk not in OL.blocks and f_reach(f, OL, s2.blk)]
    r.n('closing entries')
    if not any(hi is None or const_diff(e2, hi) in (0, None) for s2, e2 in cl):
        r.v('%s:%s:closing' % (fname(f), nm), st.where(), 'no closing entry is stored into %s after the loop that records segment starts' % nm)

def accumulator_checks(P, f, r, S):
    """positions that advance by a counted amount: pos += cnt[k]"""
    bnd = bound_arrays(f)
    for base, sts in S.items():
        if not is_ptr_array(f, base, bnd): continue
        nm = base_name(f, base)
        for st, e in sts:
            L = f.loop(st.blk)
            if L is None: continue
            it = iv_interval(f, e)
            if not it or it[3] is not L or not it[2]: continue
            v = f.expr(st.ops[0])
            acc = None
            for i in f.blocks[L.header].ins:
                if i.op != 'phi': break
                if f.iv(i) or i.ty not in ('i32', 'i64'): continue
                nx = {f.expr(o) for o, b in zip(i.ops, i.inc) if b in L.blocks}
                if len(nx) != 1: continue
                n1 = nx.pop(); t = sub(n1, ('phi', i.id))
                if mentions(t, lambda x: x == ('phi', i.id)): continue
                if v == ('phi', i.id): acc = (i, t, 'start')
                elif v == n1: acc = (i, t, 'end')
            if not acc: continue
            i, t, kind = acc
            r.n('accumulated positions')
            sv = startv(f, ('phi', i.id))
            first = it[0]
            if kind == 'start':
                if first[0] == 'c' and first[1] != 0: r.v('%s:%s:shift' % (fname(f), nm), st.where(), 'the start of the first segment is recorded at entry %d of %s' % (first[1], nm))
                if sv is not None and sv[0] == 'c' and sv[1] != 0: r.v('%s:%s:first' % (fname(f), nm), st.where(), 'the first entry of %s is not zero' % nm)
                cl = [e2 for s2, e2 in sts if s2.blk not in L.blocks and f_reach(f, L, s2.blk)]
                if not any(const_diff(e2, it[1]) in (0, None) for e2 in cl):
                    r.v('%s:%s:closing' % (fname(f), nm), st.where(), 'no closing entry is stored into %s after the loop that records segment starts' % nm)
                cidx = e
            else:
                if first[0] == 'c' and first[1] != 1: r.v('%s:%s:shift' % (fname(f), nm), st.where(), 'the end of the first segment is recorded at entry %d of %s' % (first[1], nm))
                if first_zero(P, f, base, [x for x in sts if x[0] is not st]) is False:
                    r.v('%s:%s:first' % (fname(f), nm), st.where(), 'the first entry of %s is not set to zero' % nm)
                cidx = add(e, C(-1))
            if t[0] == 'ld' and t[1][0] == 'elem':
                d = const_diff(t[1][2], cidx)
                if d is not None and d != 0: r.v('%s:%s:chain-count' % (fname(f), nm), st.where(), 'the length of a segment of %s is taken from the count of another segment' % nm)
            r.ok('%s: %s accumulates %s' % (fname(f), nm, kind))

def caller_checks(P, r):
    """arrays whose first entry a callee leaves to the caller"""
    todo = set(LEFT); done = set()
    while todo:
        g, k, ind, nm = todo.pop()
        if (g, k) in done: continue
        done.add((g, k))
        for f in P.fns.values():
            for i in f.instrs():
                if i.op not in ('call', 'invoke') or i.callee != g or k >= len(i.ops): continue
                e = f.expr(i.ops[k])
                if ind: e = ('ld', e)
                r.n('caller first entries')
                S = stores_of(f).get(e, [])
                if any(x == C(0) and f.expr(st.ops[0]) == C(0) for st, x in S): continue
                if any((iv_interval(f, x) or [None])[0] == C(0) for st, x in S): continue
                h = heap_of(f, e)
                if h:
                    if not heap_zeroed(f, h):
                        r.v('%s:%s:first' % (fname(f), base_name(f, e)), i.where(), 'the first entry of %s is not set to zero before %s chains on it' % (base_name(f, e), short_of(i.cdem or g)))
                elif e[0] == 'arg': todo.add((f.name, e[1], False, nm))
                elif e[0] == 'ld' and e[1][0] == 'arg': todo.add((f.name, e[1][1], True, nm))

def reaches_latch(f, val, latch, w):
    """val flows unchanged (through merges) to the latch"""
    seen = set(); st = list(latch)
    while st:
        x = strip(f, st.pop())
        if not isinstance(x, str) or x in seen or x[0] == 'a': continue
        seen.add(x)
        if x == val: return True
        i = f.vals[x]
        if i.op == 'phi' and i.blk not in f.hdr: st += list(i.ops)
    return False

def f_reach(f, L, b):
    seen = set(); st = [t for _, _, t in f.loop_exits(L)]
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += f.blocks[x].succ
    return False

def constant_checks(P, f, r, S):
    '''a pointer array whose every entry written in a loop is one and the same value'''
    bnd = bound_arrays(f)
    for base, sts in S.items():
        if not is_ptr_array(f, base, bnd): continue
        inl = [(st, e) for st, e in sts if f.loop(st.blk) is not None]
        if not inl: continue
        r.n('pointer arrays written in loops')
        def fixed(st, e):
            v = f.expr(st.ops[0])
            return v[0] in ('c', 'arg') or not mentions(v, lambda x: x[0] in ('iv', 'phi', 'bphi', 'ld', 'call', 'rf'))
        if not all(fixed(st, e) for st, e in inl): continue
        # a routine called with the array may fill it
        if any(u.op in ('call', 'invoke') and any(isinstance(o, (str, list)) and f.expr(o) == base for o in u.ops) and not (u.cdem or '').startswith(('operator delete', 'free')) for u in f.instrs()): continue
        if not any(i for i in f.instrs() if i.op == 'ret'): continue
        # a routine that only initialises arrays
        if all(fixed(st, None) for st in f.stores() if f.loop(st.blk) is not None): continue
        st, e = inl[0]; it = iv_interval(f, e)
        if it is None: continue
        nm = base_name(f, base)
        r.v('%s:%s:constant' % (fname(f), nm), st.where(), 'every entry of %s is set to %s: its segments have no length' % (nm, pretty(f, f.expr(st.ops[0]))))

def after(f, a, b):
    '''b can run after a'''
    if a.blk == b.blk and f.dom(a, b): return True
    seen = set(); st = list(f.blocks[a.blk].succ)
    while st:
        x = st.pop()
        if x == b.blk: return True
        if x in seen: continue
        seen.add(x); st += f.blocks[x].succ
    return False

def replaced_checks(P, f, r, S):
    '''a position that is recorded as a boundary runs on: it is not replaced by the length of one segment'''
    bnd = bound_arrays(f)
    for base, sts in S.items():
        if not is_ptr_array(f, base, bnd): continue
        for st, e in sts:
            L = f.loop(st.blk)
            if L is None or e[0] == 'c': continue
            c, d = chain(f, st.ops[0])
            if not isinstance(c, str) or c[0] == 'a' or f.vals[c].op != 'phi' or f.vals[c].blk != L.header or f.iv(f.vals[c]): continue
            i = f.vals[c]
            outs = [chain(f, o)[0] for o, b in zip(i.ops, i.inc) if b in L.blocks]
            r.n('boundary positions')

            for o in outs:
                if not isinstance(o, str) or o[0] == 'a' or derives_lin(f, o, c): continue
                root = running_count(f, o) if f.vals[o].op == 'phi' else None
                if root and root[0] == C(0) and root[1] is not L and L in f.loop_chain(root[1].header):
                    nm = base_name(f, base)
                    r.v('%s:%s:replaced' % (fname(f), nm), st.where(), 'the position recorded in %s is replaced by the number of elements of one segment instead of moving on by it' % nm)

def derives_lin(f, o, c):
    '''o is built from c by additions and merges'''
    seen = set(); st = [o]
    while st:
        x = st.pop()
        if not isinstance(x, str) or x[0] == 'a' or x in seen: continue
        if x == c: return True
        seen.add(x); i = f.vals[x]
        if i.op in ('add', 'sub', 'phi', 'sext', 'zext', 'trunc', 'select', 'load'): st += [q for q in i.ops if isinstance(q, str)]
    return False

def vector_checks(P, f, r):
    '''boundary vectors: first entry zero, further entries appended for each segment'''
    V = {}
    for i in f.instrs():
        if i.op in ('call', 'invoke') and i.cdem and 'std::vector<' in i.cdem and i.ops:
            V.setdefault(f.expr(i.ops[0]), []).append(i)
    for v, cs in V.items():
        nm = base_name(f, v)
        if not PTRNAME.search(nm.split('->')[-1]): continue
        ps = [i for i in cs if short_of(i.cdem) in ('push_back', 'emplace_back')]
        if not ps: continue
        r.n('boundary vectors')
        allcs = cs
        for i in ps:
            x = f.expr(i.ops[1])
            if x[0] == 'alloca':
                w = [q for q in f.blocks[i.blk].ins if q.op == 'store' and f.expr(q.ops[1]) == x and q.pos < i.pos] if hasattr(i, 'pos') else [q for q in f.instrs() if q.op == 'store' and f.expr(q.ops[1]) == x]
                if len(w) != 1: continue
                x = f.expr(w[0].ops[0])
            last = ('ld', ('elem', ('data', v), ('lin', -1, ((('size', v), 1),))))
            for c, t, T in f.guards(i.blk):
                while c[0] == 'not': c = c[1]; t = not t
                if c[0] != 'cmp' or c[1] not in ('eq', 'ne') or last not in (c[2], c[3]): continue
                r.n('entries appended on a comparison with the last')
                if (c[1] == 'eq') == t and const_diff(c[2] if c[3] == last else c[3], x) == 0:
                    r.v('%s:%s:repeated' % (fname(f), nm), i.where(), 'the position is appended to %s only where it is its last entry already' % nm)
        # only what is appended after the last time the vector was emptied
        cl = [i for i in cs if short_of(i.cdem) == 'clear' and f.loop(i.blk) is None]
        if cl:
            last = [c for c in cl if not any(d is not c and after(f, c, d) for d in cl) and all(d is c or after(f, d, c) for d in cl)]
            if last: cs = [i for i in cs if f.dom(last[0], i)]; ps = [i for i in ps if f.dom(last[0], i)]
            if not ps: continue
        if any(short_of(i.cdem) in ('resize', 'assign', 'insert', 'swap', 'operator=') for i in cs): continue
        if any(i.op in ('call', 'invoke') and i not in allcs and any(f.expr(o) == v for o in i.ops) for i in f.instrs()): continue
        if any(f.loop(i.blk) is not None for i in ps):
            one_more(f, r, v, nm, ps, cs); continue
        r.v('%s:%s:closing' % (fname(f), nm), ps[0].where(), 'only %d entr%s ever appended to %s: no segment is closed' % (len(ps), 'y is' if len(ps) == 1 else 'ies are', nm))

def one_more(f, r, v, nm, ps, cs):
    """a boundary vector has one entry more than there are segments: besides those appended for
    each segment, one is appended before the first or after the last of them"""
    if any(short_of(i.cdem) not in ('push_back', 'emplace_back', 'size', 'back', 'clear', 'operator[]', 'data', 'begin', 'end', 'reserve', 'vector', '~vector', 'at', 'front', 'empty') for i in cs): return
    if any(short_of(i.cdem) == 'vector' and len([o for o in i.ops if isinstance(o, str)]) > 2 for i in cs): return
    Ls = {id(f.loop(i.blk)): f.loop(i.blk) for i in ps}
    if len(Ls) != 1: return
    L = next(iter(Ls.values()))
    r.n('boundary vectors appended to in one loop')
    if not re.search(r'vector<(?:int|long|unsigned long|unsigned int|size_t)[,>]', ps[0].cdem): return
    if any(after(f, c, i) and f.loop(c.blk) is L for c in cs if short_of(c.cdem) == 'clear' for i in ps): return
    r.v('%s:%s:ends' % (fname(f), nm), ps[0].where(), 'one entry per segment is appended to %s but neither a first one before them nor a closing one after them' % nm)
    return

def copy_checks(P, f, r, S):
    """element-wise copies of pointer arrays: no self-store, closing entry included"""
    bnd = bound_arrays(f)
    for base, sts in S.items():
        for st, e in sts:
            v = f.expr(st.ops[0]); a = f.expr(st.ops[1])
            nm = base_name(f, base)
            if not is_ptr_array(f, base, bnd): continue
            if v == ('ld', a):
                r.v('%s:%s:self' % (fname(f), nm), st.where(), 'an entry of %s is assigned to itself' % nm); continue
            L = f.loop(st.blk)
            if L is None: continue
            k, parts = lin_parts(v)
            q = [t for t in parts if t[0] == 'ld' and t[1][0] == 'elem']
            if len(parts) != 1 or len(q) != 1 or q[0][1][1] == base: continue
            if not is_ptr_array(f, q[0][1][1], bnd): continue
            if const_diff(e, q[0][1][2]) is None: continue
            it = iv_interval(f, e)
            if not it or it[3] is not L: continue
            r.n('pointer copies')
            lo, hi = it[0], it[1]
            # closing: some store to the array covers index hi, or hi is the documented length n+1
            if hi[0] == 'lin' and hi[1] >= 1 and len(hi[2]) == 1: continue
            oth = [e2 for s2, e2 in sts if s2 is not st]
            cov = False
            for e2 in oth:
                if const_diff(e2, hi) == 0: cov = True
                j = iv_interval(f, e2)
                if j and const_diff(j[1], hi) == 1: cov = True
            n_of = hi[0] == 'ld' and hi[1][0] == 'fld' and hi[1][3] in ('n', 'm') or hi[0] == 'arg'
            if n_of and not cov and (lo == C(0)):
                r.v('%s:%s:copy-closing' % (fname(f), nm), st.where(), 'the copy of pointer array %s stops before its closing entry' % nm)

def check(ctx, r):
    P = ctx.prog('ser'); LEFT.clear(); DOCS.update(p08.docs()); EXT[0] = p08.Ext(P)
    for f in P.fns.values():
        if not f.file: continue
        r.n('functions')
        S = stores_of(f)
        chain_checks(P, f, r, S); position_checks(P, f, r, S); copy_checks(P, f, r, S); accumulator_checks(P, f, r, S); constant_checks(P, f, r, S); replaced_checks(P, f, r, S); returned_count(f, r, S); closing_only(f, r, S); tiles_segments(f, r, S); vector_checks(P, f, r)
        for L, bs in p11.idle_loops(f):
            q = [b for b in bs if re.search(r'(?i)ptr', base_name(f, b))]
            if q: r.v('%s:%s:idle' % (fname(f), base_name(f, q[0])), f.blocks[L.header].term.where(), 'the loop goes over the boundaries %s and records nothing' % base_name(f, q[0]))
    caller_checks(P, r)
    r.need('functions', 100); r.need('chain stores', 10); r.need('recorded positions', 10)
