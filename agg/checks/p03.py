from ir import *
from lib import *
from omp import *
from effects import Effects
import omp, solvers
RULE = ("For every parallel region of the multi-threaded configuration: each write (store, container update, write effect of a called routine) must go to memory private "
        "to the thread, be indexed by the worksharing iteration (directly, through the iteration's own segment of a pointer array or its own schedule entries), be selected by the "
        "thread number, be atomic, in a critical/single section or a reduction; every read in the same worksharing loop of an array written there must be owned the same way; and "
        "between a worksharing loop and later uses of what it wrote there is a barrier.")
ASSUME = ["schedules, permutations and groupings used as index maps do not repeat entries (properties P10, P12, P13)",
          "in the solvers, unknowns read through Li belong to earlier levels or the same partition (the schedule's correctness)"]
MUT = {'push_back', 'emplace_back', 'pop_back', 'insert', 'erase', 'clear', 'resize', 'reserve', 'assign', 'swap', 'operator=', 'push', 'pop', 'push_front', 'pop_front'}

def regions(P):
    for f in P.fns.values():
        if 'omp_outlined' in f.name and '.reduction' not in f.name and is_region(P, f): yield f
def is_region(P, f):
    return len(f.args) >= 2 and not f.name.endswith('reduction_func')

def fam(f, addr, ws):
    """normal form of the index path used to own the location"""
    return addr

def rootname(f, e):
    r = e
    while True:
        if r[0] in ('elem', 'arr', 'fld', 'data', 'begin', 'end', 'size', 'ld'):
            r = r[1]; continue
        break
    if r[0] == 'arg': return f.args[r[1]]['n'] or 'captured%d' % r[1]
    return pretty(f, r)

def outer(f):
    return short_of(f.dem) if not f.name.startswith('_Z') else encl(f)
def encl(f):
    m = re.match(r'(_Z.*?)\.omp_outlined', f.name)
    g = f.prog.fns.get(m.group(1)) if m else None
    return (g.dem.split('(')[0] if g else f.short)

def tid_owned(f, addr):
    e = addr
    while e[0] in ('elem', 'fld', 'arr', 'ld', 'data'):
        if e[0] == 'elem' and mentions(e[2], lambda x: x[0] == 'call' and x[1] == 'omp_get_thread_num') and e[2][0] == 'call': return True
        e = e[1]
    return False

def chunk_owned(f, addr):
    """index runs over the thread's own chunk [q*tid, q*(tid+1)) or positions derived from it"""
    e = addr
    while e[0] in ('elem', 'fld', 'arr', 'ld', 'data'):
        if e[0] == 'elem' and in_chunk(f, e[2], 0): return True
        e = e[1]
    return False
def istid(e): return mentions(e, lambda x: x[0] == 'call' and x[1] == 'omp_get_thread_num')
def in_chunk(f, idx, d):
    t = iv_interval(f, idx)
    if not t or d > 4: return False
    lo, hi, asc, L, iv = t
    return False

def check(ctx, r):
    P = ctx.prog('omp'); E = Effects(P); omp.EFFECTS = E
    r.need('parallel regions', 20); r.need('shared writes', 30)
    sol = {}
    for name, na, ro, chain, fs in solvers.find(P):
        for f in fs: sol[f.name] = (f, ro)
    for f in regions(P):
        if f.name.count('omp_outlined') and any(x in f.name for x in ('.omp.reduction',)): continue
        r.n('parallel regions')
        one(P, E, f, r, sol)

def accesses(P, E, f):
    """(kind 'w'/'r', address expr, instruction, how)"""
    for i in f.instrs():
        if i.op == 'store': yield 'w', f.expr(i.ops[1]), i, 'store'
        elif i.op == 'load': yield 'r', f.expr(i.ops[0]), i, 'load'
        elif i.op in ('atomicrmw', 'cmpxchg'): yield 'a', f.expr(i.ops[0]), i, i.op
        elif i.op in ('call', 'invoke'):
            c = i.callee or ''; d = i.cdem or ''; n = short_of(d)
            if c.startswith(('llvm.dbg', 'llvm.lifetime', '__kmpc', 'omp_')): continue
            if c in P.fns:
                for (b, path) in E.sum[c]:
                    if b[0] == 'arg' and b[1] < len(i.ops): yield 'w', ('elem', f.expr(i.ops[b[1]]), ('call', n, i.id)) if path or True else None, i, 'call to ' + n
                    elif b[0] == 'g': yield 'w', b, i, 'call to ' + n
                continue
            if 'operator<<' in d: continue
            if c.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')): yield 'w', f.expr(i.ops[0]), i, c[5:11]; continue
            if n in ('sort', 'stable_sort', 'fill', 'fill_n', 'copy', 'iota', 'reverse', 'unique', 'partial_sum'):
                k = 2 if n == 'copy' else 0
                yield 'w', deref_iter(f, i.ops[k]), i, n
                continue
            if 'std::vector<' in d and n in MUT and i.ops: yield 'w', ('fld', f.expr(i.ops[0]), 'vector', 'contents'), i, n
            elif n in MUT and i.ops and 'std::' in d: yield 'w', ('fld', f.expr(i.ops[0]), 'container', 'contents'), i, n

def deref_iter(f, o):
    e = f.expr(o)
    if e[0] in ('begin', 'end'): return ('data', e[1])
    return e

def one(P, E, f, r, sol):
    W = ws_loops(f)
    en = encl(f)
    m = re.match(r'(_Z.*?)\.omp_outlined', f.name)
    solver = sol.get(m.group(1)) if m else None
    writes = {}
    for kind, a, i, how in accesses(P, E, f):
        if kind == 'r' or private_root(f, a): continue
        rn = rootname(f, a)
        w = next((w for w in W if w.L and i.blk in w.L.blocks), None)
        r.n('shared writes')
        key = '%s:%s' % (en, skel(a))
        if kind == 'a':
            r.n('atomic'); continue
        if in_critical(f, i): r.n('critical'); continue
        if guarded_by_call(f, i, '__kmpc_single') or guarded_by_call(f, i, '__kmpc_master'): r.n('single'); continue
        if guarded_by_call(f, i, '__kmpc_reduce'): r.n('reduction'); continue
        if w and owned(f, a, w):
            r.n('owned by the iteration'); writes.setdefault((id(w), rn), []).append((a, i, w)); continue
        if tid_owned(f, a): r.n('owned by the thread'); continue
        if not W and chunk_private(f, a): r.n('owned chunk'); continue
        if dispatch_slot(f, a): continue
        if idempotent(f, a, i, w): r.n('idempotent flag'); continue
        r.v(key + ':write' + ('' if w else ':outside-worksharing'), i.where(), 'parallel iterations/threads of %s can write the same element of %s (%s): it is neither indexed by the iteration, atomic, critical nor a reduction' % (en, rn, how))
    # reads of arrays written by owned writes
    for kind, a, i, how in accesses(P, E, f):
        if kind != 'r' or private_root(f, a): continue
        w = next((w for w in W if w.L and i.blk in w.L.blocks), None)
        if not w: continue
        rn = rootname(f, a)
        ws = writes.get((id(w), rn))
        if not ws: continue
        if a[0] == 'arg' or a[0] == 'ld' and a[1][0] == 'arg': continue    # the pointer variable itself
        if not is_element(a, [x[0] for x in ws]): continue
        r.n('reads of written arrays')
        if solver and is_dep_read(f, a): r.n('dependence reads (scheduled)'); continue
        if any(same_owner(f, a, x[0], w) for x in ws): continue
        r.v('%s:%s:read' % (en, skel(a)), i.where(), 'an iteration of the parallel loop reads %s while another iteration writes it' % pretty(f, a))
    # barriers after worksharing loops
    for w in W:
        if not w.L: 
            r.v('%s:worksharing' % en, w.init.where(), 'worksharing loop whose iteration variable could not be identified'); continue
        r.n('worksharing loops')
        touched = {k[1] for k in writes if k[0] == id(w)}
        exits = [t for b, k, t in f.loop_exits(w.L)]
        nb = no_barrier_reach(f, w, exits, touched, P, E)
        if nb: r.v('%s:barrier:%s' % (en, nb[1]), nb[0].where(), 'threads can reach this use of %s while others still write it: no barrier after the parallel loop' % nb[1])
    phases(P, E, f, r, W)
    r.ok('%s: %d worksharing loops' % (en, len(W)))

def construct(f, W, i):
    w = next((w for w in W if w.L and i.blk in w.L.blocks), None)
    if w: return ('for', id(w))
    for c in f.instrs():
        if c.op in ('call', 'invoke') and (c.callee or '').startswith(('__kmpc_single', '__kmpc_master', '__kmpc_masked')) and guarded_by(f, i, c): return ('one', c.id)
    return None

def guarded_by(f, i, c):
    """i runs only on the thread for which call c returned non-zero"""
    for b, k in closure(f, i.blk):
        T = f.blocks[b].term
        if T.op == 'br' and T.ops and mentions(f.expr(T.ops[0]), lambda x: x[0] == 'call' and x[2] == c.id): return True
    return False

def closure(f, b):
    seen = set(); st = [b]
    while st:
        x = st.pop()
        for d, k in f.cdeps(x):
            if (d, k) not in seen: seen.add((d, k)); st.append(d)
    return seen

def no_barrier_path(f, a, b):
    """a path from instruction a to instruction b on which no barrier lies"""
    seen = set(); st = [(a.blk, a.pos)]
    while st:
        blk, p = st.pop(); stop = False
        for i in f.blocks[blk].ins:
            if i.pos <= p: continue
            if i is b: return True
            if i.op in ('call', 'invoke') and (i.callee or '').startswith(('__kmpc_barrier', '__kmpc_cancel_barrier')): stop = True; break
        if stop: continue
        for t in f.blocks[blk].succ:
            if t not in seen: seen.add(t); st.append((t, -1))
    return False

def phases(P, E, f, r, W):
    """what one thread writes in a single section (or the threads write in a parallel loop) and what is read or written elsewhere in the region is kept apart by a barrier"""
    if 'omp_outlined' not in f.name: return
    acc = []
    for kind, a, i, how in accesses(P, E, f):
        if private_root(f, a) or kind == 'a' or in_critical(f, i) or guarded_by_call(f, i, '__kmpc_reduce') or tid_owned(f, a) or dispatch_slot(f, a): continue
        acc.append((kind, skel(a), rootname(f, a), i, construct(f, W, i), a))
    en = encl(f)
    wr = [x for x in acc if x[0] == 'w' and x[4]]
    for k, sk, rn, i, c, a in wr:
        for k2, sk2, rn2, j, c2, a2 in acc:
            if rn2 != rn or c2 == c or j is i: continue
            if sk2 != sk and not (is_element(a2, [a]) and a2[0] == 'elem' and a[0] == 'elem'): continue
            r.n('accesses in different phases')
            if no_barrier_path(f, i, j) or no_barrier_path(f, j, i):
                r.v('%s:phase:%s' % (en, rn), i.where(), 'one thread can write %s here while another is at line %s: no barrier keeps the two apart' % (rn, j.line)); break

def skel(e):
    """shape of an access path without names"""
    k = e[0]
    if k == 'elem': return '%s[%s]' % (skel(e[1]), skel(e[2]))
    if k in ('ld', 'data', 'arr'): return skel(e[1])
    if k == 'fld': return '%s.%s' % (skel(e[1]), e[3])
    if k in ('iv', 'phi', 'sel', 'max', 'min', 'lin', 'rf'): return 'v'
    if k == 'arg': return 'p'
    if k == 'c': return str(e[1])
    return k

def idempotent(f, a, i, w):
    """every store to the object inside the loop writes one and the same constant and nothing there reads it"""
    if not w or i.op != 'store': return False
    c = f.expr(i.ops[0])
    if c[0] != 'c': return False
    b = split_elem(a)[0]
    for x in f.instrs():
        if x.blk not in w.L.blocks: continue
        if x.op == 'store' and split_elem(f.expr(x.ops[1]))[0] == b and f.expr(x.ops[0]) != c: return False
        if x.op == 'load' and split_elem(f.expr(x.ops[0]))[0] == b: return False
    return True

def is_element(a, ws):
    """is the read address an element of the same array level as one of the writes"""
    def lvl(x):
        n = 0
        while x[0] in ('elem', 'fld', 'arr', 'ld', 'data', 'begin', 'end', 'size'):
            if x[0] in ('ld', 'data', 'size', 'begin', 'end'): n += 1
            x = x[1]
        return n
    return any(lvl(a) == lvl(w) for w in ws)

def is_dep_read(f, a):
    b, idx = split_elem(a)
    return idx[0] == 'ld'
def same_owner(f, a, w, ws):
    if a == w: return True
    ia, iw = split_elem(a)[1], split_elem(w)[1]
    if split_elem(w)[0][0] in ('fld',): return owned(f, a, ws)
    if not owned(f, a, ws): return False
    # both in the iteration's own set: a fixed distance between two iteration-indexed positions means a neighbour's element
    d = const_diff(ia, iw)
    if d is not None and d != 0: return linear_in(ia, ws) is False and linear_in(iw, ws) is False
    if linear_in(ia, ws) != linear_in(iw, ws): return False
    return True
def linear_in(e, ws): return lin_parts(e)[1].get(('iv', ws.iv), 0) != 0

def dispatch_slot(f, a):
    return a[0] == 'arg' and a[1] < 2

def chunk_private(f, a):
    e = a
    while e[0] in ('elem', 'fld', 'arr', 'ld', 'data'):
        if e[0] == 'elem' and chunk_index(f, e[2], 0): return True
        e = e[1]
    return False
def chunk_index(f, idx, depth):
    """position between two consecutive entries of a thread-private boundary list that was filled inside the thread's own chunk"""
    t = iv_interval(f, idx)
    if not t: return False
    lo, hi, asc, L, iv = t
    if istid(lo): return True
    if lo[0] == 'ld' and private_root(f, lo[1]):
        lst = lo[1]
        while lst[0] in ('elem', 'data'): lst = lst[1]
        # every value pushed to the private list must stay inside the chunk end
        ok = False
        for i in f.instrs():
            if i.op in ('call', 'invoke') and short_of(i.cdem or '') in ('push_back', 'emplace_back') and f.expr(i.ops[0]) == lst:
                ok = True
        return ok and chunk_bounded(f)
    return False
def chunk_bounded(f):
    """every while-loop that extends a position compares it against the chunk end, not only the global end"""
    for i in f.instrs():
        if i.op == 'icmp':
            pass
    # position growth loops: phi that starts at (chunk position + 1) and is compared to a captured (shared) bound
    for h, lid in f.hdr.items():
        L = f.loops[lid]
        for p in f.blocks[h].ins:
            if p.op != 'phi': break
            v = f.iv(p)
            if not v or v[1] != 1: continue
            st = v[0]
            k, parts = lin_parts(st)
            # starts at another loop's running position (the chunk cursor)
            if any(a[0] in ('phi', 'iv') and chunk_cursor(f, a[1]) for a in parts):
                for c in L.blocks:
                    T = f.blocks[c].term
                    if T.op == 'br' and T.ops:
                        e = f.expr(T.ops[0])
                        if e[0] == 'cmp' and e[1] in ('slt', 'ult', 'ne') and e[2] == ('iv', p.id):
                            if shared_bound(f, e[3]): return False
    return True
def chunk_cursor(f, pid):
    i = f.vals[pid]
    return i.op == 'phi' and any(istid(f.expr(o)) for o in i.ops)
def shared_bound(f, e):
    """bound is a captured value that does not depend on the thread"""
    if e[0] == 'phi':
        return not any(istid(f.expr(o)) for o in f.vals[e[1]].ops)
    return not istid(e)

def no_barrier_reach(f, w, exits, touched, P, E):
    if not touched: return None
    seen = set(); st = list(exits)
    while st:
        b = st.pop()
        if b in seen or b in w.L.blocks: continue
        seen.add(b); stop = False
        for i in f.blocks[b].ins:
            if i.op in ('call', 'invoke') and (i.callee or '').startswith(('__kmpc_barrier', '__kmpc_reduce', '__kmpc_cancel_barrier')):
                if (i.callee or '').startswith('__kmpc_barrier') : stop = True; break
                if i.callee == '__kmpc_reduce': stop = True; break
            a = None
            if i.op == 'load': a = f.expr(i.ops[0])
            elif i.op == 'store': a = f.expr(i.ops[1])
            if a is not None and not private_root(f, a) and a[0] in ('elem', 'fld', 'data') and rootname(f, a) in touched: return i, rootname(f, a)
        if not stop: st += f.blocks[b].succ
    return None
