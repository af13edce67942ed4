"""Bounds that do not need an allocation: loops over a vector's own size, loops over one segment, positions in short arrays."""
import re
from ir import *
from lib import *
from arrays import *
from cursors import *
import counts

def vector_loops(P, fs, r, guards, X):
    """V[i + c] with i counted up to V.size() + d"""
    for f in fs:
        for i in f.instrs():
            if i.op not in ('call', 'invoke') or len(i.ops) < 2 or short_of(i.cdem or '') != 'operator[]' or 'std::vector<' not in (i.cdem or ''): continue
            V = f.expr(i.ops[0]); e = f.expr(i.ops[1]); k, parts = lin_parts(e)
            ivs = [a for a in parts if a[0] == 'iv']
            if len(parts) != 1 or not ivs or parts[ivs[0]] != 1: continue
            g = f.range(ivs[0][1])
            if not g or g[1] is None or g[2] != 1 or g[3] not in f.loop_chain(i.blk): continue
            d = sub(g[1], ('size', V))
            if d[0] != 'c': continue
            r.n('loops over a vector\'s own size')
            if d[1] + k <= 0: continue
            # the vector is not lengthened in the loop, the access not guarded
            if any(u.op in ('call', 'invoke') and u.blk in g[3].blocks and u.ops and f.expr(u.ops[0]) == V and short_of(u.cdem or '') in ('push_back', 'resize', 'emplace_back', 'insert') for u in f.instrs()): continue
            if guards(f, X, i.blk, e, V) is None or guards(f, X, i.blk, e, V): continue
            r.v('%s:%s:size' % (f.dem.split('(')[0], pretty(f, V).lstrip('*')), i.where(), 'the loop reaches element %s of %s, one past its last' % (pretty(f, add(('size', V), C(d[1] + k - 1))), pretty(f, V).lstrip('*')))

def segment_loops(P, fs, r):
    """a loop over P[s] .. P[s+1] stays in front of the next segment"""
    for f in fs:
        for L in f.loops.values():
            for j in f.blocks[L.header].ins:
                if j.op != 'phi' or not f.iv(j): continue
                g = f.range(j.id)
                if not g or g[1] is None or g[3] is not L or g[2] != 1: continue
                kl, pl = lin_parts(g[0]); kh, ph = lin_parts(g[1])
                if len(pl) != 1 or len(ph) != 1: continue
                (a, ca), (b, cb) = next(iter(pl.items())), next(iter(ph.items()))
                if ca != 1 or cb != 1 or a[0] != 'ld' or b[0] != 'ld' or a[1][0] != 'elem' or b[1][0] != 'elem' or a[1][1] != b[1][1]: continue
                if const_diff(b[1][2], a[1][2]) != 1: continue
                r.n('loops over one segment')
                if kh > 0 and kl >= 0:
                    r.v('%s:%s:segment' % (f.dem.split('(')[0], pretty(f, a[1][1]).lstrip('*')), j.where() if j.loc else f.blocks[L.header].term.where(), 'the loop over a segment of %s runs %d past the start of the next segment' % (pretty(f, a[1][1]).lstrip('*'), kh))

def short_positions(P, fs, r, X):
    """one element stored at a running position per turn of a counted loop, into an array that is shorter than the loop"""
    for f in fs:
        for web, dec in webs(f):
            if dec: continue
            W = WebWalk(f, web)
            if not W.stores: continue
            for H in W.hdrs:
                L = f.loops[f.hdr[H]]
                hp = [x for x in web if f.vals[x].blk == H]
                if len(hp) != 1: continue
                i = f.vals[hp[0]]
                init = [f.expr(o) for o, b in zip(i.ops, i.inc) if b not in L.blocks]
                if len(init) != 1 or init[0] != C(0): continue
                if not all(chain(f, o) == (hp[0], 1) for o, b in zip(i.ops, i.inc) if b in L.blocks): continue
                # the loop's own bound: some header value that starts at a constant and stays below hi
                lim = None
                T = f.blocks[H].term
                for eb, k, t in f.loop_exits(L):
                    T = f.blocks[eb].term
                    if eb != H or T.op != 'br' or not T.ops: continue
                    c = f.expr(T.ops[0])
                    if k == 0: c = neg(c)          # what holds inside
                    if c[0] == 'cmp' and c[1] == 'slt' and c[2][0] in ('phi', 'iv') and f.vals[c[2][1]].blk == H and c[3][0] != 'c' and not mentions(c[3], lambda x: x[0] in ('iv', 'phi', 'bphi')):
                        q = f.vals[c[2][1]]; s = [f.expr(o) for o, b in zip(q.ops, q.inc) if b not in L.blocks]
                        if len(s) == 1 and s[0][0] == 'c': lim = sub(c[3], s[0])
                if lim is None: continue
                for st in W.stores.values():
                    base, rest, ph, kk, ins = st
                    if rest or ph != hp[0] or base[0] not in ('heap', 'ld', 'data'): continue
                    if not f.bdom(H, ins.blk) or f.loop(ins.blk) is not L: continue
                    r.n('positions in arrays of known size')
                    for e in X.of(f, base):
                        d = sub(add(X.norm(f, lim), C(kk)), X.norm(f, e))
                        if d[0] == 'c' and d[1] > 0:
                            r.v('%s:%s:position' % (f.dem.split('(')[0], pretty(f, base).lstrip('*')), ins.where(), '%s holds %s elements but up to %s are stored into it' % (pretty(f, base).lstrip('*'), pretty(f, e), pretty(f, add(lim, C(kk)))))

def filled_totals(P, fs, r, X):
    """arrays sized by a counted total and filled through a running position: both totals in closed form"""
    seen = set()
    for f in fs:
        for b, st, v, T in counts.fills(f):
            if (f.name, b) in seen or b[0] == 'arg': continue
            seen.add((f.name, b)); js = []
            for e in X.of(f, b) or []:
                try: js.append((counts.sign(sub(v, counts.resolve(f, T, e))), e))
                except counts.NoForm: js.append((None, e))
            if not js: continue
            r.n('filled totals compared')
            if all(j[0] == 1 for j in js):
                nm = pretty(f, b).lstrip('*')
                r.v('%s:%s:total' % (f.dem.split('(')[0], nm), st.where(), '%s has room for %s elements, fewer than the loops that fill it store' % (nm, pretty(f, js[0][1])))

GROW = ('push_back', 'push', 'emplace_back', 'push_front', 'emplace', 'emplace_front')
SHRINK = ('pop_back', 'pop', 'pop_front')
USE = ('back', 'front', 'top') + SHRINK
CALM = ('size', 'empty', 'begin', 'end', 'data', 'operator[]', 'at', 'reserve', 'capacity', 'cbegin', 'cend', 'rbegin', 'rend', 'find')
MANY = 9

def container_calls(f):
    by = {}
    for i in f.instrs():
        if i.op in ('call', 'invoke') and i.ops and re.match(r'(?:[\w:<>*& ]* )?std::(?:__cxx11::)?(?:vector|list|deque|queue|stack|priority_queue)<', i.cdem or ''):
            v = f.expr(i.ops[0])
            if v[0] in ('alloca', 'arg', 'fld'): by.setdefault(v, []).append(i)
    return by

def touches(P, g, k, seen=()):
    """the routine reads or writes through its parameter k, itself or in a routine it hands it to"""
    if (g.name, k) in seen: return False
    for i in g.instrs():
        if i.op in ('load', 'store') and split_elem(g.expr(i.ops[0] if i.op == 'load' else i.ops[1]))[0] == ('arg', k): return True
        if i.op in ('call', 'invoke') and i.callee in P.fns:
            for j, o in enumerate(i.ops):
                if isinstance(o, str) and split_elem(g.expr(o)) == (('arg', k), C(0)) and touches(P, P.fns[i.callee], j, seen + ((g.name, k),)): return True
    return False

def past_end(P, fs, r, X):
    """the second part of a work array handed to a routine starts inside the array"""
    for f in fs:
        for i in f.instrs():
            if i.op not in ('call', 'invoke') or i.callee not in P.fns: continue
            for k, o in enumerate(i.ops):
                if not isinstance(o, str): continue
                b, off = split_elem(f.expr(o))
                if b[0] not in ('heap', 'ld', 'data', 'arr') or off == C(0) or mentions(off, lambda x: x[0] in ('iv', 'phi', 'bphi')): continue
                es = X.of(f, b)
                if not es or not touches(P, P.fns[i.callee], k): continue
                r.n('parts of arrays handed on')
                ds = [sub(X.norm(f, off), X.norm(f, e)) for e in es]
                if all(d[0] == 'c' and d[1] >= 0 for d in ds):
                    nm = pretty(f, b).lstrip('*')
                    r.v('%s:%s:part' % (f.dem.split('(')[0], nm), i.where(), '%s holds %s elements but %s is handed the part of it from %s on' % (nm, pretty(f, es[0]), short_of(i.cdem or ''), pretty(f, off)))

def first_positions(P, fs, r, X):
    """the first element stored at a running position lies inside the array"""
    for f in fs:
        for web, dec in webs(f):
            for st in f.stores():
                b, k = split_elem(f.expr(st.ops[1]))
                if b[0] not in ('heap', 'ld', 'data', 'arr'): continue
                c, parts = lin_parts(k)
                hit = [t for t in parts if t[0] == 'phi' and t[1] in web]
                if len(hit) != 1 or any(mentions(t, lambda x: x[0] in ('iv', 'phi', 'bphi')) for t in parts if t != hit[0]): continue
                init = [f.expr(o) for w in web for o, bb in zip(f.vals[w].ops, f.vals[w].inc) if not (isinstance(o, str) and o in web) and f.expr(o)[0] == 'c']
                if len(init) != 1: continue
                es = X.of(f, b)
                if not es: continue
                # the position moves only after an element has been stored
                moves = [w for w in f.instrs() if w.op in ('add', 'sub') and any(o in web for o in w.ops if isinstance(o, str)) and (w.id in web or any(u.op == 'phi' and u.id in web for u in f.users.get(w.id, ())))]
                if not moves or not all(f.dom(st, w) for w in moves): continue
                at = add(sub(k, hit[0] if parts[hit[0]] == 1 else ('lin', 0, ((hit[0], parts[hit[0]]),))), C(init[0][1] * parts[hit[0]]))
                r.n('first positions')
                ds = [sub(X.norm(f, at), X.norm(f, e)) for e in es]
                if all(d[0] == 'c' and d[1] >= 0 for d in ds):
                    nm = pretty(f, b).lstrip('*')
                    r.v('%s:%s:firstpos' % (f.dem.split('(')[0], nm), st.where(), '%s holds %s elements but the first one is stored at %s' % (nm, pretty(f, es[0]), pretty(f, at)))

def no_room(P, fs, r):
    """a local vector made with no elements and never given any is not indexed"""
    for f in fs:
        for V, cs in container_calls(f).items():
            if V[0] != 'alloca': continue
            mk = [i for i in cs if short_of(i.cdem) == 'vector']
            if len(mk) != 1 or len(mk[0].ops) < 2: continue
            if f.expr(mk[0].ops[1]) != C(0) or '(unsigned long' not in (mk[0].cdem or ''): continue
            r.n('vectors made empty')
            if any(short_of(i.cdem) not in CALM + ('vector', '~vector') for i in cs): continue
            if any(i.op in ('call', 'invoke') and i not in cs and not (i.callee or '').startswith('llvm.') and any(isinstance(o, str) and f.expr(o) == V for o in i.ops) for i in f.instrs()): continue
            for i in f.instrs():
                if i.op not in ('load', 'store'): continue
                b, k = split_elem(f.expr(i.ops[0] if i.op == 'load' else i.ops[1]))
                if b == ('data', V):
                    nm = pretty(f, V).lstrip('*')
                    r.v('%s:%s:noroom' % (f.dem.split('(')[0], nm), i.where(), '%s is made with no elements and element %s of it is used' % (nm, pretty(f, k))); break

def scans(P, fs, r):
    """a search that steps along an array until an element stops it also stops at the array's end"""
    for f in fs:
        for L in f.loops.values():
            for q in f.blocks[L.header].ins:
                if q.op != 'phi': continue
                me = f.expr(q.id)
                nx = [f.expr(o) for o, b in zip(q.ops, q.inc) if b in L.blocks]
                st = [f.expr(o) for o, b in zip(q.ops, q.inc) if b not in L.blocks]
                ks = {sub(x, me) for x in nx}
                if len(ks) != 1 or len(st) != 1: continue
                step = next(iter(ks))
                if step not in (C(1), C(-1)): continue
                hit = None; limited = False
                for eb, k, t in f.loop_exits(L):
                    T = f.blocks[eb].term
                    if T.op != 'br' or not T.ops: continue
                    c = f.expr(T.ops[0]); todo = [c]
                    while todo:
                        c = todo.pop()
                        if c[0] in ('not', 'and', 'or', 'sel', 'op'): todo += [x for x in c[1:] if isinstance(x, tuple)]; continue
                        if c[0] == 'cmp':
                            d = lin_parts(sub(c[2], c[3]))[1]
                            if me in d: limited = True
                        if hit is None:
                            def find(e):
                                if not isinstance(e, tuple): return None
                                if e and e[0] == 'ld' and e[1][0] == 'elem' and lin_parts(e[1][2])[1].get(me): return e[1]
                                for x in e:
                                    z = find(x)
                                    if z: return z
                            hit = find(c)
                if hit is None: continue
                r.n('searches along arrays')
                if limited: continue
                # a round that is only gone on with while something is left to be found
                ss = set(lin_parts(st[0])[1])
                def left(c):
                    while c[0] == 'not': c = c[1]
                    if c[0] != 'cmp': return False
                    d = set(lin_parts(sub(c[2], c[3]))[1])
                    return any(x[0] in ('phi', 'bphi') and placed(x) for x in d) and not d & ss
                def placed(x):
                    """a count of the elements put on a list"""
                    wb = next((w for w, dec in webs(f) if x[1] in w), None)
                    return wb is not None and any(f.expr(i.ops[0])[0] == 'iv' and any(t[0] == 'phi' and t[1] in wb for t in lin_parts(split_elem(f.expr(i.ops[1]))[1])[1]) for i in f.stores())
                if any(left(c) for c, t, T in f.guards(L.header)): continue
                nm = pretty(f, hit[1]).lstrip('*')
                r.v('%s:%s:scan' % (f.dem.split('(')[0], nm), q.where() if q.loc else f.blocks[L.header].term.where(), 'the search along %s from %s goes on until an element stops it; nothing stops it at the end of the array' % (nm, pretty(f, st[0])))

def counts_down(f, L):
    """a loop whose counter starts at a value found at run time and goes down by one to a constant"""
    down = set()
    for q in f.blocks[L.header].ins:
        if q.op != 'phi': continue
        st = [f.expr(o) for o, b in zip(q.ops, q.inc) if b not in L.blocks]
        nx = [f.expr(o) for o, b in zip(q.ops, q.inc) if b in L.blocks]
        if len(st) == 1 and st[0][0] != 'c' and nx and all(sub(x, f.expr(q.id)) == C(-1) for x in nx): down.add(f.expr(q.id))
    for eb, k, t in f.loop_exits(L):
        T = f.blocks[eb].term
        c = f.expr(T.ops[0]) if T.op == 'br' and T.ops else ('c', 0)
        while c[0] == 'not': c = c[1]
        if c[0] == 'cmp' and any(len(lin_parts(x)[1]) == 1 and next(iter(lin_parts(x)[1])) in down for x in (sub(c[2], c[3]),)): return True
    return False

def empty_containers(P, fs, r):
    """an end element is looked at or removed only where the container holds at least one"""
    for f in fs:
        for V, cs in container_calls(f).items():
            uses = [i for i in cs if short_of(i.cdem) in USE + ('erase',)]
            if not uses: continue
            r.n('end elements of containers', len(uses))
            S = ('size', V); at = {i.id if i.id else id(i): i for i in cs}
            mine = {id(i) for i in cs}
            def step(i, n):
                if id(i) in mine:
                    s = short_of(i.cdem)
                    if s in GROW: return min(max(n, 0) + 1, MANY)
                    if s in SHRINK: return n if n in (MANY, -1) else max(n - 1, 0)
                    if s == 'clear': return 0
                    if s in USE or s in CALM: return n
                    if s == 'erase': return n if n in (MANY, -1) else max(n - 1, 0)
                    if s in ('vector', 'list', 'deque', 'queue', 'stack', 'priority_queue'): return 0 if len(i.ops) == 1 or 'allocator' in (i.cdem or '').split('(')[-1] and len(i.ops) == 2 else MANY
                    return MANY
                if i.op in ('call', 'invoke') and not (i.callee or '').startswith('llvm.') and any(isinstance(o, str) and f.expr(o) == V for o in i.ops): return MANY
                if i.op == 'store' and f.expr(i.ops[1]) == V: return MANY
                return n
            def known(c, t):
                """the condition being t says the container is not empty"""
                if c[0] == 'not': return known(c[1], not t)
                if c[0] in ('and', 'op') and len(c) > 2 and t and c[0] == 'and': return any(known(x, t) for x in c[1:] if isinstance(x, tuple))
                if c[0] == 'or' and not t: return any(known(x, t) for x in c[1:] if isinstance(x, tuple))
                if c[0] == 'sel' and c[3] == ('c', 0) and t: return known(c[1], True) or known(c[2], True)
                if c[0] == 'call' and len(c) == 3 and short_of(f.vals[c[2]].cdem or '') == 'empty' and f.expr(f.vals[c[2]].ops[0]) == V: return not t
                if c[0] == 'cmp':
                    sz = lambda e: S if e[0] == 'call' and len(e) == 3 and short_of(f.vals[e[2]].cdem or '') == 'size' and f.expr(f.vals[e[2]].ops[0]) == V else e
                    d = sub(sz(c[2]), sz(c[3])); k, p = lin_parts(d)
                    if S not in p or len(p) != 1: return False
                    q = p[S]; p_ = c[1]
                    if p_ == 'eq': return not t and k == 0 or t and k != 0
                    if p_ == 'ne': return t and k == 0 or not t and k != 0
                    # q*size + k < 0 ...
                    lo = {'slt': 1, 'ult': 1, 'sle': 0, 'ule': 0}.get(p_)
                    if lo is None: return False
                    if t and q == -1: return k + lo >= 1           # size >= k + lo
                    if not t and q == 1: return (-k if lo else -k + 1) >= 1
                return False
            def plain(c):
                while c[0] == 'not': c = c[1]
                return c[0] == 'call' or c[0] == 'cmp' and c[1] in ('eq', 'ne') and C(0) in (c[2], c[3])
            def counted(i):
                """one element per turn of a loop that counts the elements found in the container before"""
                ch = f.loop_chain(i.blk)
                if ch and not any(short_of(j.cdem) in SHRINK + ('erase',) and j.blk in ch[0].blocks for j in cs): return False
                if ch and counts_down(f, ch[0]): return True
                if not any(j.op == 'phi' and f.iv(j) and (f.range(j.id) or (0, None))[1] is not None and f.range(j.id)[1][0] != 'c' for j in (f.blocks[ch[0].header].ins if ch else ())): return False
                return True
            IN = {f.entry: MANY if V[0] != 'alloca' else 0}
            todo = [f.entry]; rounds = 0; bad = {}
            while todo and rounds < 4000:
                rounds += 1
                b = todo.pop(0); n = IN[b]
                for i in f.blocks[b].ins: n = step(i, n)
                T = f.blocks[b].term
                c = f.expr(T.ops[0]) if T.op == 'br' and T.ops and len(f.blocks[b].succ) == 2 else None
                if T.op in ('call', 'invoke'): pass
                for k, t in enumerate(f.blocks[b].succ):
                    m = n
                    if c is not None and m in (0, -1) and known(c, k == 0): m = 1
                    elif c is not None and known(c, k != 0) and plain(c): m = -1
                    w = m if t not in IN or IN[t] == m else 0 if -1 in (m, IN[t]) else min(m, IN[t])
                    if t not in IN or w != IN[t]:
                        IN[t] = w
                        if t not in todo: todo.append(t)
            for b in IN:
                n = IN[b]
                for i in f.blocks[b].ins:
                    if id(i) in mine and short_of(i.cdem) in USE + ('erase', 'operator[]') and (n == -1 or n == 0 and short_of(i.cdem) in USE) and (n == -1 or not counted(i)):
                        r.v('%s:%s:empty' % (f.dem.split('(')[0], pretty(f, V).lstrip('*')), i.where(), '%s() of %s where %s' % (short_of(i.cdem), pretty(f, V).lstrip('*'), 'it is known to be empty' if n == -1 else 'nothing is known to be left in it'))
                    n = step(i, n)
