"""P11: adjacency lists are scanned completely.
Segment loops (a counter running between two entries of a pointer array) must run over the whole
segment, one entry at a time, without leaving early; the loops over the nodes start at the first
node and end at the last; no edge is left out because of its position or number."""
from lib import *

RULE = ('each loop whose counter runs between entries of a pointer array covers [P[e], P[e+1]) (at most the '
        'entry at one end is left out, only in routines whose graphs store the diagonal there), in steps of one, '
        'is not left before its end unless it is a pure search or a resumable depth-first step, filters entries '
        'neither by position nor by comparison of the neighbour with a fixed number; node loops start at 0 and '
        'run to the full count')
ASSUME = ['routines listed in DIAG work on graphs that store the diagonal entry first/last (their documented convention)']

# routines whose graphs hold the node's own diagonal at one end of the list: which end is skipped
DIAG = {
 'fs_csr_inspector_dep': 'last', 'fs_ic0csc_inspector_group': 'first',
 'computePostOrderAndGroup': 'first', 'computePostOrder': 'first', 'chainGrouping': 'first', 'partialSparsification': 'first',
 'treeBasedGrouping': 'last', 'treeBasedGrouping_Aggressive': 'last', 'treeBasedGroupingBFS': 'last',
 'buildLevelSet_CSC_Queue': 'first', 'level_set_multi_graphs': 'first', 'level_set_bn': 'first', 'bcsc_csc_bcsc_levelset': 'first',
}
RESUME = {'computePostOrderAndGroup', 'computePostOrder'}   # depth-first: the node is looked at again after the break

def fname(f, i):
    return i.loc[0][3] if i.loc and i.loc[0][3] else f.short

def ldelem(e):
    """(array, index, const) if e = P[index] + const"""
    k, p = lin_parts(e)
    if len(p) != 1: return None
    a, c = next(iter(p.items()))
    if c != 1 or a[0] != 'ld': return None
    b, i = split_elem(a[1])
    if b[0] in ('fld', 'alloca', 'g') or (b[0] == 'arg' and i == C(0) and a[1][0] != 'elem'): return None
    return (b, i, k)

def header_ivs(f, L):
    for i in f.blocks[L.header].ins:
        if i.op != 'phi': break
        if f.iv(i): yield i

def live_effect(f, L, blocks):
    """side effects inside the blocks"""
    for b in blocks:
        for i in f.blocks[b].ins:
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                if i.op == 'store' and root_of(f.expr(i.ops[1]))[0] == 'alloca': continue
                return i
            if i.op in ('call', 'invoke'):
                c = i.callee or ''
                if c.startswith('llvm.') and not c.startswith(('llvm.mem',)): continue
                n = short_of(i.cdem or '')
                if n in ('operator[]', 'size', 'begin', 'end', 'at', 'empty', 'back', 'front', 'top', 'data', 'operator*', 'operator++', 'operator!=', 'operator==', 'min', 'max', 'bool'): continue
                return i
    return None

# triangle-half utilities: which half of the stored entries is taken is their operation
HALF = {'compute_etree', 'transpose_symmetric', 'make_half', 'make_full', 'transpose_general', 'row_col_counts_symmetric', 'extract_diagonals', 'tree_post_order'}
OUTPUT = re.compile(r'^print|_to_mtx$|^save')

def seg_ivs(f, L):
    """segment counters of L: (phi, lo(P,idx,c) or None, hi(P,idx,c) or None, start, bound, step, terminator)"""
    out = []
    for i in header_ivs(f, L):
        st, step, _ = f.iv(i)
        for p, b, T in f.bound(i.id):
            # normalise to [lo, hi)
            if step > 0:
                lo = st; hi = b if p in ('slt', 'ult', 'ne') else add(b, C(1)) if p in ('sle', 'ule') else None
            else:
                hi = add(st, C(1)); lo = add(b, C(1)) if p in ('sgt', 'ugt', 'ne') else b if p in ('sge', 'uge') else None
                if p in ('slt', 'sle') : lo = None
            if lo is None or hi is None: continue
            q, s = ldelem(hi), ldelem(lo)
            if q is None and s is None: continue
            out.append((i, s, q, lo, hi, step, T))
    return out

def is_unwind(f, b):
    B = f.blocks[b]
    return B.ins[0].op == 'landingpad' or B.term.op in ('unreachable', 'resume')

def loop_name(f, L, i):
    l = L.loc
    return '%s:%d' % (l[0][0].replace(f.prog.root + '/', ''), l[0][1]) if l else i.where()

def search_exit(f, L, cnt):
    """L is a pure search: no side effect, and it hands only constants to the code after it"""
    if live_effect(f, L, L.blocks): return False
    for b, k, t in f.loop_exits(L):
        if is_unwind(f, t): continue
        for i in f.blocks[t].ins:
            if i.op != 'phi': break
            for o, p in zip(i.ops, i.inc):
                if p in L.blocks and isinstance(o, str) and o[0] != 'a' and f.vals[o].blk in L.blocks: return False
    # values defined inside must not be used outside
    for b in L.blocks:
        for i in f.blocks[b].ins:
            for u in f.users.get(i.id, []):
                if u.blk not in L.blocks: return False
    return True

def diag_search(f, L, ivs):
    """left as soon as the entry equal to the node itself is found"""
    for b, k, t in f.loop_exits(L):
        if is_unwind(f, t): continue
        T = f.blocks[b].term
        if T.op != 'br' or not T.ops: return False
        c = f.expr(T.ops[0])
        if k == 1: c = neg(c)
        if T.id in ivs: continue
        if not (c[0] == 'cmp' and c[1] == 'eq'): return False
        if not any(x[0] == 'iv' for x in (c[2], c[3])): return False
    return True

def check(ctx, r):
    P = ctx.prog('omp'); Q = ctx.prog('ser')
    done = set()
    for prog, cfg in ((P, 'omp'), (Q, 'ser')):
        for f in prog.fns.values():
            if not f.file or '/example/' in f.file: continue
            if OUTPUT.search(f.short): continue
            one(f, r, done)
    r.need('segment loops', 60)

def unread(f, r):
    '''a loop over the entries of one node does something for each entry without looking at the entry'''
    for L in f.loops.values():
        if not any(i.op == 'store' or i.op in ('call', 'invoke') and not (i.callee or '').startswith('llvm.') for b in L.blocks for i in f.blocks[b].ins): continue
        for j in f.blocks[L.header].ins:
            if j.op != 'phi' or not f.iv(j): continue
            g = f.range(j.id)
            if not g or g[1] is None or g[3] is not L: continue
            ph, pl = lin_parts(g[1])[1], lin_parts(g[0])[1]
            if len(ph) != 1: continue
            b = next(iter(ph))
            if b[0] in ('phi', 'bphi') and f.vals[b[1]].op == 'phi':
                b = next((e for e in (f.expr(o) for o in f.vals[b[1]].ops) if e[0] == 'ld' and e[1][0] == 'elem' and any(a[0] == 'ld' and a[1][0] == 'elem' and a[1][1] == e[1][1] for a in pl)), b)
            if b[0] != 'ld' or b[1][0] != 'elem' or not any(a[0] == 'ld' and a[1][0] == 'elem' and a[1][1] == b[1][1] for a in pl): continue
            me = ('iv', j.id); used = False
            for x in L.blocks:
                for i in f.blocks[x].ins:
                    if i.op in ('load', 'store'): ops = [i.ops[0] if i.op == 'load' else i.ops[1]]
                    elif i.op in ('call', 'invoke', 'getelementptr'): ops = i.ops
                    else: continue
                    if any(mentions(f.expr(o), lambda q: q == me) for o in ops if isinstance(o, (str, list))): used = True
            if not used:
                r.v('%s:%s:unread' % (f.short, pretty(f, b[1][1]).replace('*', '')), f.blocks[L.header].term.where(), 'the loop over %s[..] does its work for each entry without ever reading the entry' % pretty(f, b[1][1]))

def idle_loops(f):
    '''counted loops that read array entries but do nothing with them: (loop, bases read)'''
    for L in f.loops.values():
        ph = [i for i in f.blocks[L.header].ins if i.op == 'phi']
        if len(ph) != 1 or not f.iv(ph[0]): continue
        if len([1 for b, k, t in f.loop_exits(L) if not is_unwind(f, t)]) != 1: continue
        if live_effect(f, L, L.blocks) or kept_local(f, L): continue
        ins = [i for b in L.blocks for i in f.blocks[b].ins]
        if any(u.blk not in L.blocks for i in ins for u in f.users.get(i.id, [])): continue
        # what the loop's own bound needs is not reading an entry
        me = ('iv', ph[0].id)
        bs = []
        for i in ins:
            if i.op != 'load': continue
            b, x = split_elem(f.expr(i.ops[0]))
            if mentions(x, lambda q: q == me): bs.append(b)
        if bs: yield L, bs

def kept_local(f, L):
    """the loop leaves something in a local variable that is looked at outside of it"""
    for b in L.blocks:
        for i in f.blocks[b].ins:
            if i.op != 'store': continue
            rt = root_of(f.expr(i.ops[1]))
            if rt[0] != 'alloca': continue
            for u in f.users.get(rt[1], []):
                if u.blk in L.blocks or u.op == 'store' and u.ops[1] == rt[1] and u.ops[0] != rt[1]: continue
                if (u.callee or '').startswith('llvm.lifetime'): continue
                return True
    return False

def same_element(f, r):
    """a loop over the entries of a segment whose every turn writes the same value to the same place"""
    for L in f.loops.values():
        ph = [i for i in f.blocks[L.header].ins if i.op == 'phi']
        if len(ph) != 1 or not f.iv(ph[0]): continue
        g = f.range(ph[0].id)
        if not g or g[1] is None or ldelem(g[0]) is None or ldelem(g[1]) is None or ldelem(g[0])[0] != ldelem(g[1])[0]: continue
        if len([1 for b, k, t in f.loop_exits(L) if not is_unwind(f, t)]) != 1: continue
        ins = [i for b in L.blocks for i in f.blocks[b].ins]
        if sum(1 for b in L.blocks if len(set(f.blocks[b].succ)) > 1) != 1: continue
        if any(i.op in ('call', 'invoke') and not (i.callee or '').startswith('llvm.') for i in ins): continue
        if any(u.blk not in L.blocks for i in ins for u in f.users.get(i.id, [])): continue
        ss = [i for i in ins if i.op == 'store']
        mine = {i.id for i in ins if i.id}
        def inv(o, d=0):
            if not isinstance(o, str): return True
            if o not in mine: return True
            x = f.vals[o]
            if x.op == 'phi': return False
            if x.op == 'load':
                a = f.expr(x.ops[0]); return inv(x.ops[0], d + 1) and not any(f.expr(q.ops[1]) == a for q in ss)
            return all(inv(q, d + 1) for q in x.ops)
        if ss: r.n('segment loops that store')
        if ss and all(inv(i.ops[0]) and inv(i.ops[1]) for i in ss):
            r.v('%s:%s:same' % (f.short, pretty(f, ldelem(g[0])[0]).replace('*', '')), ss[0].where(), 'the loop over a segment of %s writes %s in every turn whatever the entry' % (pretty(f, ldelem(g[0])[0]), pretty(f, f.expr(ss[0].ops[1]))))

def idle(f, r):
    for L, bs in idle_loops(f):
        r.v('%s:%s:idle' % (f.short, pretty(f, bs[0]).replace('*', '')), f.blocks[L.header].term.where(), 'the loop reads the entries of %s one after the other and does nothing with any of them' % pretty(f, bs[0]))

def listing(f, r):
    """a loop that puts the nodes it finds on a list or work list looks at all of them"""
    for L in f.loops.values():
        for h in header_ivs(f, L):
            g = f.range(h.id)
            if not g or g[1] is None or g[3] is not L: continue
            me = ('iv', h.id); hit = None
            for b in L.blocks:
                if f.loop(b) is not L: continue
                for i in f.blocks[b].ins:
                    if i.op != 'store' or f.expr(i.ops[0]) != me: continue
                    d = f.expr(i.ops[1])
                    if d[0] == 'alloca':        # handed to a container
                        if any(u.op in ('call', 'invoke') and short_of(u.cdem or '') in ('push_back', 'push', 'emplace_back', 'insert') and u.blk in L.blocks for u in f.users.get(d[1], [])): hit = i
                    elif d[0] == 'elem' and not mentions(d, lambda q: q == me) and mentions(d[2], lambda q: q[0] == 'phi' or q[0] == 'ld' and q[1][0] in ('alloca', 'fld', 'arg')): hit = i
            if hit is None: continue
            r.n('listing loops')
            lo, up = (g[0], g[1]) if g[2] > 0 else (add(g[1], C(1)), add(g[0], C(1)))
            if lo[0] != 'c': continue
            if lo[1] > 0 and not listed_before(f, hit, lo[1]):
                r.v('%s:listing-first' % f.short, hit.where(), 'nodes are put on the list from number %d on: the ones before are never looked at' % lo[1])
            k, p = lin_parts(up)
            if k < 0 and len(p) == 1 and next(iter(p))[0] in ('arg', 'ld') and not listed_before(f, hit, up):
                r.v('%s:listing-last' % f.short, hit.where(), 'the last nodes are never looked at when nodes are put on the list (the loop ends before %s)' % pretty(f, up))

def listed_before(f, hit, x):
    """some number below/at the border is put on a list on its own"""
    return any(i.op == 'store' and i is not hit and f.expr(i.ops[0]) in ((C(0), C(x - 1)) if isinstance(x, int) else (x,)) and f.expr(i.ops[1])[0] == 'elem' and f.expr(i.ops[1])[2] == C(0) and f.loop(i.blk) is None for i in f.instrs())

def one(f, r, done):
    listing(f, r)
    unread(f, r); idle(f, r); same_element(f, r)
    for L in f.loops.values():
        segs = seg_ivs(f, L)
        if not segs: continue
        root = f.short
        for i, s, q, lo, hi, step, T in segs:
            where = loop_name(f, L, i)
            names = {root} | {l[3] for l in (L.loc or []) if l[3]}
            key0 = '%s:%s' % (root, pretty(f, (s or q)[0]).replace(' ', ''))
            r.n('segment loops')
            if abs(step) != 1:
                r.v(key0 + ':step', where, 'the loop advances by %d entries at a time, so entries of the list are not examined' % step)
            if s and q and s[0] == q[0]:
                d = sub(q[1], s[1])
                if d[0] == 'c':
                    if d[1] != 1:
                        r.v(key0 + ':range', where, 'the loop runs from %s to %s, which is not the list of one node' % (pretty(f, lo), pretty(f, hi)))
                    else:
                        sides = []
                        if s[2] == 1: sides.append('first')
                        elif s[2] != 0: r.v(key0 + ':start', where, 'the scan starts at %s instead of the first entry of the list' % pretty(f, lo))
                        if q[2] == -1: sides.append('last')
                        elif q[2] != 0: r.v(key0 + ':end', where, 'the scan ends before %s instead of at the last entry of the list' % pretty(f, hi))
                        if len(sides) == 2: r.v(key0 + ':both', where, 'both the first and the last entry of the list are left out')
                        for sd in sides:
                            if not any(DIAG.get(n) == sd for n in names) and not apart(f, L, sub(hi, C(0)) if sd == 'last' else sub(lo, C(1))):
                                r.v(key0 + ':skip-' + sd, where, 'the %s entry of the list (%s .. %s) is never examined' % (sd, pretty(f, lo), pretty(f, hi)))
                            r.n('lists without their diagonal end')
                else:
                    # range over several consecutive nodes: P[x] .. P[y]
                    for z, nm, c in ((s[1], 'first', s[2]), (q[1], 'last', q[2])):
                        if c: r.v(key0 + ':multi-' + nm, where, 'the range %s .. %s leaves out entries at its %s end' % (pretty(f, lo), pretty(f, hi), nm))
                    xs, ys = ldelem(s[1]), ldelem(q[1])
                    if xs and ys and xs[0] == ys[0] and (xs[2] or ys[2] or const_diff(ys[1], xs[1]) not in (1, None)):
                        r.v(key0 + ':multi', where, 'the range %s .. %s is not that of consecutive groups' % (pretty(f, lo), pretty(f, hi)))
            elif q and not s and lo[0] == 'c' and lo[1] != 0 and q[2] == 0:
                r.v(key0 + ':start', where, 'the scan up to %s starts at %s instead of 0' % (pretty(f, hi), pretty(f, lo)))
            elif q and not s and lo == C(0) and q[2] != 0:
                r.v(key0 + ':end', where, 'the scan ends before %s' % pretty(f, hi))
            # early exits
            cnt = {t.id for _, _, _, _, _, _, t in segs}
            ex = [f.blocks[b].term for b, k, t in f.loop_exits(L) if f.blocks[b].term.id not in cnt and not is_unwind(f, t)]
            if ex and s and q:
                if names & RESUME and resumable(f, L): r.n('resumable steps')
                elif search_exit(f, L, cnt) or diag_search(f, L, cnt): r.n('searches')
                elif s[0] != q[0] and paused(f, L, i, s): r.n('resumable steps')
                else:
                    r.v(key0 + ':early-exit', ex[0].where(), 'the scan of the list %s .. %s (%s) can stop before its end, so later entries are not examined' % (pretty(f, lo), pretty(f, hi), where))
            # position or number filters
            if s and q: filters(f, r, L, i, s, q, names, key0)
            # node loop
            if s and q and s[0] == q[0]: node_loop(f, r, s[1], where, key0)
    r.n('functions')

def resumable(f, L):
    """the loop lies in a work-list loop, and nothing is changed on the path that goes on to the next entry"""
    if L.parent in (None, -1): return False
    # blocks from which the header is reached again inside L
    back = set(L.latches); st = list(back)
    while st:
        b = st.pop()
        for p in f.blocks[b].pred:
            if p in L.blocks and p not in back and b != L.header: back.add(p); st.append(p)
    return live_effect(f, L, back) is None

def paused(f, L, i, s):
    """depth-first step that stores where to go on before it leaves the list"""
    ok = False
    for st in f.stores():
        b, _ = split_elem(f.expr(st.ops[1]))
        if b != s[0]: continue
        v = f.expr(st.ops[0]); k, p = lin_parts(v)
        if ('iv', i.id) in p:
            if len(p) != 1 or k not in (0, 1): return False
            ok = True
        elif len(p) == 1 and k != 0: return False
    return ok

def filters(f, r, L, i, s, q, names, key0):
    iv = ('iv', i.id)
    for b in L.blocks:
        T = f.blocks[b].term
        if T.op != 'br' or not T.ops or any(x not in L.blocks for x in f.blocks[b].succ): continue
        c = f.expr(T.ops[0])
        if c[0] == 'not': c = c[1]
        if c[0] != 'cmp': continue
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            kx, px = lin_parts(sub(x, y)) if x[0] != 'ld' else (0, {x: 1})
            if iv in px:
                # position of the edge: only against the ends of its own list
                rest = mk_lin(kx, {a: v for a, v in px.items() if a != iv})
                e = ldelem(scale(rest, -1)) if px[iv] == 1 else ldelem(rest)
                if e and e[0] == s[0]: continue
                if c[2] == iv or c[3] == iv or e is None:
                    # inner loop bounds/counters comparing j with another list are handled as segment loops themselves
                    if any(a[0] in ('iv',) and a != iv and f.vals[a[1]].blk in L.blocks for a in px): continue
                    r.v(key0 + ':position', T.where(), 'an entry of the list is treated differently because of its position (%s)' % pretty(f, c)); break
            if x[0] == 'ld' and x[1][0] == 'elem' and lin_parts(x[1][2])[1].get(iv) and neighbour(f, L, x):
                if y[0] == 'c' and not sentinel(c[1], x is c[2], y[1]):
                    r.v(key0 + ':number', T.where(), 'a neighbour is examined or left out because of its number (%s)' % pretty(f, c)); break
                if c[1] in ('slt', 'sle') and not (names & HALF) and y in node_exprs(f, s[1]):
                    r.v(key0 + ':order', T.where(), 'a neighbour is examined or left out because of its order relative to the node (%s)' % pretty(f, c)); break

def apart(f, L, e):
    """the entry left out is a node number, dealt with by itself next to the loop: its own lists or slots are accessed there"""
    for i in f.instrs():
        if i.op not in ('load', 'store') or i.blk in L.blocks: continue
        b, x = split_elem(f.expr(i.ops[-1] if i.op == 'store' else i.ops[0]))
        if x == e and i.op == 'store': return True
    return False

def node_exprs(f, e):
    return {e}

def sentinel(p, left, k):
    """tests against the 'none' value -1"""
    if p in ('eq', 'ne'): return k == -1
    if p in ('slt', 'sle'):
        # left: x p k ; right: k p x
        if left: return (p, k) in (('slt', 0), ('sle', -1))
        return (p, k) in (('sle', 0), ('slt', -1))
    return False

def neighbour(f, L, x):
    """the loaded value is used as an index inside the loop"""
    def idx(e): return e[0] == 'elem' and x in lin_parts(e[2])[1]
    for b in L.blocks:
        for i in f.blocks[b].ins:
            if i.op in ('load', 'store') and mentions(f.expr(i.ops[-1] if i.op == 'store' else i.ops[0]), idx): return True
            if i.op in ('call', 'invoke') and any(isinstance(o, str) and f.expr(o) == x for o in i.ops): return True
    return False

_sc = {}
def segment_counts(f):
    """arrays the routine itself reads as segment boundaries (entries x and x+1 of a counted loop): their number of segments"""
    if f in _sc: return _sc[f]
    seen = {}; out = {}
    for i in f.instrs():
        if i.op != 'load': continue
        b, x = split_elem(f.expr(i.ops[0])); k, p = lin_parts(x)
        if len(p) == 1 and next(iter(p.items()))[0][0] == 'iv' and next(iter(p.values())) == 1: seen.setdefault((b, next(iter(p))[1]), set()).add(k)
    for (b, h), ks in seen.items():
        g = f.range(h)
        if {0, 1} <= ks and g and g[0] == C(0) and g[1] is not None and g[2] == 1: out.setdefault(b, set()).add(g[1])
    _sc[f] = {b: v.pop() for b, v in out.items() if len(v) == 1}
    return _sc[f]

def listed_nodes(f, r, a, k0, where, key0):
    """nodes taken from the first (or, just before a boundary, last) entry of each segment of a boundary array"""
    b, x = split_elem(a[1]); k, p = lin_parts(x); k += k0
    if len(p) != 1: return
    v = next(iter(p))
    if v[0] != 'iv' or p[v] != 1: return
    g = f.range(v[1]); n = segment_counts(f).get(b)
    if not g or n is None or abs(g[2]) != 1 or g[1] is None: return
    up = g[1] if g[2] > 0 else add(g[0], C(1)); lo = g[0] if g[2] > 0 else add(g[1], C(1))
    r.n('loops over first nodes of segments')
    d = const_diff(add(up, C(k)), n)
    if d is not None and d > 0: r.v(key0 + ':nodes-past', where, 'the loop goes past the last segment of %s: what is read there is the end of the list, not a node' % pretty(f, b))
    elif d is not None and d < 0: r.v(key0 + ':nodes-last', where, 'the loop ends before the last segment of %s' % pretty(f, b))
    d = const_diff(add(lo, C(k)), C(0))
    if d is not None and d > 0: r.v(key0 + ':nodes-first', where, 'the loop leaves out the first segments of %s' % pretty(f, b))

def node_loop(f, r, e, where, key0):
    k, parts = lin_parts(e)
    if len(parts) != 1: return
    a = next(iter(parts))
    if a[0] == 'ld' and parts[a] == 1: return listed_nodes(f, r, a, k, where, key0) if k in (0, -1) else None
    if a[0] != 'iv' or parts[a] != 1: return
    g = f.range(a[1])
    if not g: return
    st, hi, step, L = g
    r.n('node loops')
    if abs(step) != 1:
        r.v(key0 + ':nodes-step', where, 'the loop over the nodes advances by %d' % step); return
    lo, up = (st, hi) if step > 0 else (add(hi, C(1)) if hi else None, add(st, C(1)))
    if lo is not None and lo[0] == 'c' and lo[1] + k != 0:
        r.v(key0 + ':nodes-first', where, 'the loop over the nodes starts at node %d' % (lo[1] + k))
    if up is not None and lo is not None and lo[0] == 'c':
        kk, pp = lin_parts(add(up, C(k)))
        if pp and kk != 0 and not (kk == -1 and any(t[0] == 'size' for t in pp)) and len(pp) == 1 and next(iter(pp))[0] in ('arg', 'ld', 'call'):
            r.v(key0 + ':nodes-last', where, 'the loop over the nodes ends before %s' % pretty(f, add(up, C(k))))
