from ir import *
from lib import *
from omp import *
import solvers, re
from checks.p10 import derive
RULE = ("For every scheduled triangular solver, in the multi-threaded configuration the loops around the row update are put together across the outlined parallel region and its "
        "fork: exactly one of them is a worksharing loop, it is the level's member loop directly inside the level loop; the level loop is sequential and ascending, and either the fork is "
        "inside it (the join ends the level) or every path from the worksharing loop to the next level passes a barrier all threads execute; no task or further fork sits inside. In both "
        "configurations every loop inside a partition (segments of rows, rows of a group) runs in ascending schedule order.")
ASSUME = ["the parallel runtime's join and barrier have their specified meaning"]

def completions(f, isx):
    return [i for i in f.instrs() if i.op == 'store' and f.expr(i.ops[0])[0] == 'fdiv' and isx(f, f.expr(i.ops[1]))]

def fork_sites(P, f):
    out = []
    for i in f.instrs():
        if i.op in ('call', 'invoke') and kname(i).startswith('__kmpc_fork'):
            out.append(i)
    return out

def target(P, i):
    for o in i.ops:
        if not isinstance(o, str) and o[0] == 'g' and o[1] in P.fns: return P.fns[o[1]]
    return None

def step_sign(f, L):
    s = set()
    for i in f.blocks[L.header].ins:
        if i.op != 'phi': break
        v = f.iv(i)
        if v and f.bound(i.id): s.add(1 if v[1] > 0 else -1)
    if s: return s
    # loop variable kept in memory (captured by the region): tested at an exit, stepped by one store
    for b, k, t in f.loop_exits(L):
        T = f.blocks[b].term
        if T.op != 'br' or not T.ops: continue
        c = f.expr(T.ops[0])
        for d in lin_parts(sub(c[2], c[3]))[1] if c[0] == 'cmp' else ():
            if d[0] != 'ld' or d[1][0] != 'alloca': continue
            for u in f.users.get(d[1][1], []):
                if u.op == 'store' and u.ops[1] == d[1][1] and u.blk in L.blocks:
                    k = const_diff(f.expr(u.ops[0]), d)
                    s.add(0 if not k else 1 if k > 0 else -1)
    return s

def reaches(f, a, b, block):
    """b reachable from (after) block a without passing block `block`"""
    seen = set(); st = list(f.blocks[a].succ)
    while st:
        x = st.pop()
        if x in seen or x == block: continue
        seen.add(x)
        if x == b: return True
        st += f.blocks[x].succ
    return False

def check(ctx, r):
    r.need('solvers', 9); r.need('parallel solvers', 5)
    S = ctx.prog('ser'); P = ctx.prog('omp')
    for name, na, ro, chain, fs in solvers.find(S):
        for f in fs:
            tag = f.short + '/%d' % ro['x']; x = ('arg', ro['x'])
            r.n('solvers')
            D = completions(f, lambda f, a: split_elem(a)[0] == x)
            npar = len([1 for c in chain if c[0] in ('seg', 'all')])
            for d in D:
                steps, loops, err = derive(f, split_elem(f.expr(d.ops[1]))[1])
                # outermost level loop, then the level's members, then the inside of a partition
                for k, (L, asc, iv) in enumerate(loops):
                    depth = len(loops) - 1 - k
                    if depth == 1 : continue      # members of one level are independent of each other
                    r.n('sequential loops')
                    if not asc:
                        r.v('%s:order%d' % (tag, depth), f.vals[iv].where(), 'the loop over %s runs backwards, not in schedule order' % ('levels' if depth == 0 else 'the rows of one partition'))
            g = P.fns.get(f.name)
            if g is None: continue
            fk = fork_sites(P, g)
            if not fk: continue
            r.n('parallel solvers')
            parallel(P, g, fk, tag, r)

def parallel(P, g, fk, tag, r):
    if len(fk) != 1:
        r.v(tag + ':forks', fk[1].where(), 'the solver forks %d times; the rows of a level must be one worksharing loop' % len(fk)); return
    fk = fk[0]; o = target(P, fk)
    if o is None: r.v(tag + ':region', fk.where(), 'the parallel region is not visible'); return
    D = completions(o, lambda f, a: root_elem(a))
    if len(D) < 1: r.v(tag + ':rows', fk.where(), 'no row is completed inside the parallel region'); return
    for i in o.instrs():
        if i.op in ('call', 'invoke') and kname(i).startswith(('__kmpc_fork', '__kmpc_omp_task', '__kmpc_taskloop')):
            r.v(tag + ':nested', i.where(), 'the level forks further work of its own (%s)' % kname(i))
    W = ws_loops(o)
    for d in D:
        inner = [L for L in o.loop_chain(d.blk)]
        ws = next((w for w in W if w.L and d.blk in w.L.blocks), None)
        if ws is None:
            r.v(tag + ':worksharing', d.where(), 'the row update is not inside a worksharing loop'); continue
        # dispatch loop: loop that only re-enters the worksharing loop for its next chunk
        pos = [L.id for L in inner].index(ws.L.id)
        inside = inner[:pos]; outer_in = [L for L in inner[pos + 1:] if not is_dispatch(o, L)]
        outer_out = g.loop_chain(fk.blk)
        nout = len(outer_in) + len(outer_out)
        if nout != 1:
            r.v(tag + ':levels', ws.init.where(), 'the worksharing loop sits in %d sequential loops; exactly the level loop is expected around it' % nout); continue
        for L in inside:
            s = step_sign(o, L)
            if s and s != {1}: r.v(tag + ':order-in', o.blocks[L.header].ins[0].where(), 'a loop inside one partition runs backwards')
            r.n('sequential loops')
        if outer_out:
            L = outer_out[0]
            if step_sign(g, L) != {1}: r.v(tag + ':level-order', fk.where(), 'the level loop is not an ascending counted loop')
            r.n('levels ended by a join'); r.ok('%s: fork inside the level loop' % tag)
            continue
        L = outer_in[0]
        if step_sign(o, L) != {1}: r.v(tag + ':level-order', ws.init.where(), 'the level loop is not an ascending counted loop')
        bars = [i for i in o.instrs() if i.op in ('call', 'invoke') and kname(i) == '__kmpc_barrier' and i.blk in L.blocks]
        good = [b for b in bars if all(o.bdom(b.blk, l) for l in L.latches) and not reaches(o, b.blk, ws.init.blk, L.header) and b.blk not in ws.L.blocks]
        if not good: r.v(tag + ':barrier', ws.init.where(), 'no barrier separates a level from the next one')
        else: r.n('levels ended by a barrier'); r.ok('%s: barrier at %s' % (tag, good[0].where()))

def is_dispatch(f, L):
    return any(i.op in ('call', 'invoke') and kname(i).startswith('__kmpc_dispatch_next') for i in f.blocks[L.header].ins)
def root_elem(a): return a[0] == 'elem'
