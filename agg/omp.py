"""OpenMP regions of the multi-threaded configuration: worksharing loops, barriers, ownership of written locations."""
from ir import *
from lib import *

INIT = ('__kmpc_for_static_init', '__kmpc_dispatch_init')
def kname(i): return i.callee or ''

class WS:
    """one worksharing loop: loop L whose iv is the iteration number"""
    def __init__(s, f, init, L, iv): s.f = f; s.init = init; s.L = L; s.iv = iv
    @property
    def dynamic(s): return 'dispatch' in kname(s.init)

def ws_loops(f):
    out = []
    for i in f.instrs():
        if i.op not in ('call', 'invoke') or not kname(i).startswith(INIT): continue
        # lower-bound slot: static: operand 4 ; dispatch: found through __kmpc_dispatch_next
        if 'static' in kname(i): slots = [f.expr(i.ops[4])]
        else:
            slots = [f.expr(n.ops[3]) for n in f.instrs() if n.op in ('call', 'invoke') and kname(n).startswith('__kmpc_dispatch_next')]
        best = None
        for h, lid in f.hdr.items():
            L = f.loops[lid]
            for p in f.blocks[h].ins:
                if p.op != 'phi': break
                v = f.iv(p)
                if v and v[0][0] == 'ld' and v[0][1] in slots and f.bdom(i.blk, h):
                    best = (L, p.id)
        out.append(WS(f, i, best[0] if best else None, best[1] if best else None))
    return out

def is_ws_fn(f):
    return any(i.op in ('call', 'invoke') and kname(i).startswith(INIT) for i in f.instrs())

def private_root(f, e):
    """is the object private to the thread (declared or allocated inside the region)?"""
    while True:
        k = e[0]
        if k in ('elem', 'fld', 'arr', 'data', 'begin', 'end', 'size'): e = e[1]; continue
        if k == 'alloca': return True
        if k == 'heap': return True
        if k == 'ld':
            # pointer held in a private variable or private container
            return private_root(f, e[1])
        return False

# (function, number of parameters) -> parameters that list every node/group at most once
PERMUTATIONS = {
    ('sym_lib::parallel_cc', None): (12,), ('HDAGG::parallel_cc', None): (7,), ('HDAGG::computeCC', None): (7,),
    ('HDAGG::buildGroupDAG', None): (3,), ('HDAGG::treeBasedGrouping', None): (5,),
    ('sym_lib::fs_csr_executor_sgroup', None): (11, 7), ('sym_lib::sptrsv_csr_levelset', 8): (7, 6),
    ('sym_lib::sptrsv_csr_levelset', 9): (7,), ('sym_lib::sptrsv_csr_lbc', None): (8,),
    ('sym_lib::sptrsv_csr_group_lbc', None): (8, 10), ('sym_lib::sptrsv_csr_group_levelset', None): (6, 8)}
EFFECTS = None
def permutation_array(f, b):
    import effects
    r = b
    while r[0] != 'arg':
        if r[0] in ('ld', 'data', 'elem', 'fld', 'arr', 'begin'): r = r[1]
        else: return False
    E = EFFECTS; got = False
    for g in f.prog.fns.values():
        for i in calls(g, '__kmpc_fork'):
            if effects.fork_target(i) != f.name: continue
            t = E.deref(g, E.tok(g, g.expr(i.ops[r[1] + 1])), ('*',) if b[0] == 'ld' else ())
            nm = g.dem.split('(')[0]; na = len(g.args)
            if t and all(x[0][0] == 'obj' and distinct_list(g, x[0][1]) for x in t): got = True; continue
            ok = PERMUTATIONS.get((nm, na), PERMUTATIONS.get((nm, None), ()))
            if not t or not all(x[0][0] == 'arg' and x[0][1] in ok for x in t): return False
            got = True
    return got

def distinct_list(g, v):
    """a local std::vector filled only by one push_back of a loop counter: its entries are distinct"""
    pushes = []
    for i in g.instrs():
        if i.op in ('call', 'invoke') and 'std::vector<' in (i.cdem or '').split('(')[0] and i.ops and g.expr(i.ops[0]) == v:
            n = short_of(i.cdem)
            if n in ('push_back', 'emplace_back'): pushes.append(i)
            elif n in ('resize', 'insert', 'assign', 'operator='): return False
        if i.op == 'store' and root_of(g.expr(i.ops[1])) == ('data', v): return False
    if len(pushes) != 1: return False
    p = pushes[0]; e = g.expr(p.ops[1])
    if e[0] == 'alloca':      # passed by reference
        ss = [i for i in g.instrs() if i.op == 'store' and g.expr(i.ops[1]) == e]
        L = g.loop(p.blk)
        steps = [g.expr(x.ops[0]) for x in ss]
        inc = [x for x in ss if const_diff(g.expr(x.ops[0]), ('ld', e)) not in (None, 0)]
        # the loop counter itself lives in memory: one constant start, one increment per turn of the push's loop
        if len(ss) == 2 and len(inc) == 1 and any(x[0] == 'c' for x in steps):
            return L is not None and g.loop(inc[0].blk) is L and L.parent in (None, -1)
        if len(ss) != 1: return False
        e = g.expr(ss[0].ops[0])
    if e[0] != 'iv': return False
    L = g.loop(p.blk)
    return L is not None and g.vals[e[1]].blk == L.header and L.parent in (None, -1)

def varies(f, e, L):
    """does e depend on anything that changes within one execution of loop L (other than given)?"""
    return mentions(e, lambda x: (x[0] in ('iv', 'phi', 'bphi') and f.vals[x[1]].blk in L.blocks) or
                    (x[0] in ('call', 'op', 'rmw') and len(x) > 2 and x[-1] in f.vals and f.vals[x[-1]].blk in L.blocks))

def injective(f, idx, ws, depth=0):
    """different iterations of the worksharing loop give different index values:
    iv (+ invariant), a position inside the iv's own segment, or a schedule entry at such a position"""
    if depth > 8: return False
    W = ('iv', ws.iv)
    k, parts = lin_parts(idx)
    if parts.get(W) in (1, -1):
        rest = mk_lin(k, {a: c for a, c in parts.items() if a != W})
        return not varies(f, rest, ws.L)
    if idx[0] == 'ld':
        b, j = split_elem(idx[1])
        # indirection through an array: distinct positions hold distinct entries only for the documented
        # schedule / grouping / permutation arguments
        return injective(f, j, ws, depth + 1) and permutation_array(f, b)
    for a, c in parts.items():
        if a[0] == 'phi' and c == 1 and len(parts) == 1 and own_member(f, a[1], ws, depth, set()): return True
    if own_cursor(f, idx, ws): return True
    t = iv_interval(f, idx)
    if t:
        lo, hi, asc, L, iv = t
        if L.id == ws.L.id or not f.bdom(ws.L.header, L.header): return False
        if lo[0] == 'ld':
            b, j = split_elem(lo[1])
            if hi == ('ld', elem(b, add(j, C(1)))) or sub(('ld', elem(b, add(j, C(1)))), hi)[0] == 'c' and sub(('ld', elem(b, add(j, C(1)))), hi)[1] >= 0:
                return injective(f, j, ws, depth + 1)
    return False

def own_member(f, phi, ws, depth, seen):
    """a value selected among the iteration's own elements (e.g. the minimum of the own segment)"""
    if phi in seen: return False
    seen.add(phi); got = False
    st = [phi]
    while st:
        p = st.pop(); i = f.vals[p]
        for o in i.ops:
            e = f.expr(o)
            if e[0] in ('phi', 'bphi'):
                if e[1] not in seen: seen.add(e[1]); st.append(e[1])
                continue
            if not varies(f, e, ws.L): continue          # neutral start value
            if e[0] == 'sel': return False
            if depth < 6 and injective(f, e, ws, depth + 1): got = True
            else: return False
    return got

def own_cursor(f, idx, ws):
    """a running position that starts inside the iteration's own segment P[i].. and is only moved forward,
    used below the segment's end P[i+1] (or offset by a position in the iteration's private buffer)"""
    k, parts = lin_parts(idx)
    for a, c in parts.items():
        if c != 1: continue
        if a[0] in ('phi', 'iv'):
            lo = start_value(f, a[1])
            if lo is None: continue
            kk, pp = lin_parts(lo)
            for b, cc in pp.items():
                if cc == 1 and b[0] == 'ld':
                    base, j = split_elem(b[1])
                    if base[0] not in ('alloca',) and injective(f, j, ws, 6) and kk >= 0 and len(pp) == 1:
                        end = ('ld', elem(base, add(j, C(1))))
                        # guarded by cursor < end
                        if guarded_lt(f, a, end): return True
        if a[0] == 'ld':
            base, j = split_elem(a[1])
            if injective(f, j, ws, 6):
                rest = [x for x in parts if x != a]
                if rest and all(x[0] == 'call' and x[1] in ('operator-', 'distance') for x in rest): return True
    return False

def start_value(f, phi):
    """entry value of a forward-moving cursor phi (through nested header phis)"""
    seen = set(); st = [phi]; entry = None
    while st:
        p = st.pop()
        if p in seen: continue
        seen.add(p)
        for o in f.vals[p].ops:
            e = f.expr(o)
            k, pp = lin_parts(e)
            inner = [x for x in pp if x[0] in ('phi', 'iv') and f.vals[x[1]].op == 'phi']
            if len(pp) == 1 and inner and pp[inner[0]] == 1 and k >= 0: st.append(inner[0][1]); continue
            if entry is not None and entry != e: return None
            entry = e
    return entry

def guarded_lt(f, a, end):
    for i in f.instrs():
        if i.op == 'icmp' and f.expr(i.id) == ('cmp', 'slt', a, end): return True
    return False

def owned(f, addr, ws, depth=0):
    """the location belongs to the current iteration only"""
    if depth > 8: return False
    if private_root(f, addr): return True
    e = addr
    while True:
        k = e[0]
        if k == 'elem':
            if injective(f, e[2], ws): return True
            e = e[1]; continue
        if k in ('fld', 'arr'): e = e[1]; continue
        if k in ('ld', 'data', 'begin', 'end', 'size'): 
            return owned(f, e[1], ws, depth + 1)
        return False

def calls(f, *names):
    return [i for i in f.instrs() if i.op in ('call', 'invoke') and kname(i).startswith(names)]

def in_critical(f, ins):
    for c in calls(f, '__kmpc_critical'):
        if f.dom(c, ins):
            ends = [e for e in calls(f, '__kmpc_end_critical')]
            if not any(f.dom(e, ins) and f.dom(c, e) for e in ends): return True
    return False

def guarded_by_call(f, ins, prefix):
    """ins executes only when a call with that prefix returned non-zero (single/master/reduce)"""
    for a, k in f.cdeps(ins.blk):
        T = f.blocks[a].term
        if T.op == 'br' and T.ops:
            c = f.expr(T.ops[0])
            if mentions(c, lambda x: x[0] == 'call' and kname(f.vals[x[2]]).startswith(prefix)): return True
        if T.op == 'switch':
            c = f.expr(T.ops[0])
            if mentions(c, lambda x: x[0] == 'call' and kname(f.vals[x[2]]).startswith(prefix)): return True
    return False
