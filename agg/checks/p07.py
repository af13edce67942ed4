"""Initialisation before use."""
from ir import *
from lib import *
from arrays import *
import re
RULE = ("(a) After promoting local variables to SSA form no reachable instruction of the repository's functions uses an undefined value; variables kept in memory (address taken, captured) "
        "are given a value on every path before each load. (b) For each array obtained uninitialised (new[]/malloc), every element read has a preceding initialisation: counters, "
        "accumulators and marker tests need one that covers every element (block fill, zeroing allocation, complete loop over the allocated range or a store to the same element "
        "that dominates), other reads need a completed writing loop, a dominating store or an appended list; arrays handed to other routines are held to what that routine's own "
        "parameter needs (summaries over the call graph). (c) Arrays a constructor leaves in the object are initialised to the degree the class's methods need, and every scalar or "
        "pointer field is given a value by every constructor.")
ASSUME = ["index values lie within the documented ranges (P08)", "external library routines fill the buffers documented as their outputs"]
FREE = ('free', 'operator delete', 'operator delete[]')
OUTEXT = {'__isoc23_fscanf', '__isoc99_fscanf', 'fscanf', 'sscanf', '__isoc99_sscanf', '__isoc23_sscanf', 'fgets', 'strcpy', 'fread', 'METIS_NodeND', 'METIS_PartGraphKway', 'METIS_PartGraphRecursive', 'METIS_SetDefaultOptions'}

def repo(f): return bool(f.file) and f.file.startswith(f.prog.root) and 'omp_outlined' not in f.name

# ------------------------------------------------------------------ (a) scalars
def undef_uses(f):
    for i in f.instrs():
        if i.op == 'resume': continue
        if i.op == 'phi':
            for o, b in zip(i.ops, i.inc):
                if not isinstance(o, str) and o[0] in ('undef', 'poison') and b in f.reach and f.users.get(i.id):
                    yield i
                    break
            continue
        if i.op in ('insertvalue', 'insertelement', 'shufflevector'): continue
        for o in i.ops:
            if not isinstance(o, str) and o[0] in ('undef', 'poison'): yield i; break

def undef_phi_reads(f):
    """phi nodes carrying an undefined value matter where the value is really used: transitively through phis"""
    bad = set(); why = {}
    for i in undef_uses(f):
        if i.op != 'phi': yield i, i; continue
        bad.add(i.id); why[i.id] = i
    # a phi with undef input used by a non-phi
    work = list(bad); seen = set(bad)
    while work:
        v = work.pop()
        for u in f.users.get(v, []):
            if u.op == 'phi':
                if u.id not in seen: seen.add(u.id); why[u.id] = why[v]; work.append(u.id)
            elif u.op != 'resume' and 'dbg' not in (u.callee or ''):
                yield why[v], u

def mem_slots(f):
    """scalar memory variables: allocas of scalar type and constant fields of stack structs"""
    out = {}
    for i in f.instrs():
        if i.op == 'alloca': out[('alloca', i.id)] = i
    return out

BYCONST = {'push_back', 'emplace_back', 'max', 'min', 'insert', 'resize', 'assign', 'push', 'fill', 'count', 'find', 'push_front'}
SCAL = re.compile(r'^(i\d+|double|float|ptr)$')
def may_uninit(P, f, defines):
    """loads of a scalar stack variable that some path reaches before any store"""
    slots = {}
    for i in f.instrs():
        if i.op == 'alloca' and SCAL.match(i.aty or i.sty or '') and i.n and not i.n.startswith('.') and 'omp' not in i.n: slots[i.id] = i
    if not slots: return
    gen = {}; 
    for b in f.reach:
        g = []
        for i in f.blocks[b].ins:
            for sid in slots:
                if sid not in i.ops: continue
                if i.op == 'store' and i.ops[1] == sid: g.append((i.pos, 'D', sid, i))
                elif i.op == 'load': g.append((i.pos, 'U', sid, i))
                elif i.op in ('call', 'invoke'):
                    c = i.callee or ''
                    if c.startswith(('llvm.lifetime', 'llvm.dbg')): continue
                    if c in P.fns and repo(P.fns[c]):
                        ks = [k for k, o in enumerate(i.ops) if o == sid]
                        if any((c, k) in defines for k in ks): g.append((i.pos, 'D', sid, i))
                        elif any(reads_arg(P.fns[c], k) for k in ks): g.append((i.pos, 'U', sid, i))
                    elif short_of(i.cdem or '') in BYCONST and i.ops and (sid in i.ops[1:] or short_of(i.cdem or '') in ('max', 'min')): g.append((i.pos, 'U', sid, i))
                    elif c.startswith('__kmpc'): g.append((i.pos, 'D', sid, i))
                    else: g.append((i.pos, 'D', sid, i))
                elif i.op in ('getelementptr', 'bitcast', 'ptrtoint', 'select', 'phi') or i.op == 'store': g.append((i.pos, 'D', sid, i))   # address escapes
        gen[b] = g
    IN = {b: None for b in f.reach}; IN[f.entry] = frozenset(slots)
    def out(b, s):
        s = set(s)
        for _, k, sid, i in gen[b]:
            if k == 'D': s.discard(sid)
        return frozenset(s)
    work = [f.entry]
    while work:
        b = work.pop(); o = out(b, IN[b])
        for t in f.blocks[b].succ:
            n = o if IN[t] is None else IN[t] | o
            if n != IN[t]: IN[t] = n; work.append(t)
    for b in f.reach:
        s = set(IN[b] or ())
        for _, k, sid, i in gen[b]:
            if k == 'D': s.discard(sid)
            elif sid in s: yield slots[sid], i; s.discard(sid)

def aliases(f, a):
    """the argument itself and reloads of the local variable that holds it"""
    out = [a]
    for u in f.users.get(a, []):
        if u.op == 'store' and u.ops[0] == a and isinstance(u.ops[1], str) and u.ops[1] in f.vals and f.vals[u.ops[1]].op == 'alloca':
            sl = u.ops[1]
            if sum(1 for w in f.users[sl] if w.op == 'store' and w.ops[1] == sl) == 1:
                out += [w.id for w in f.users[sl] if w.op == 'load']
    return out

def reads_arg(f, k):
    A = aliases(f, f.args[k]['id'])
    U = [u for a in A for u in f.users.get(a, [])]
    for u in U:
        if u.op == 'load' and u.ops[0] in A:
            # only if not dominated by a store
            if not any(w.op == 'store' and w.ops[1] in A and f.dom(w, u) for w in U): return True
    return False

def ret_blocks(f): return [b for b in f.reach if f.blocks[b].term.op == 'ret']

def definite_defs(P):
    """(function, parameter) pairs: *param is stored on every path to a normal return"""
    d = set()
    for _ in range(3):
        for f in P.fns.values():
            if not repo(f): continue
            for k, a in enumerate(f.args):
                if a['ty'] != 'ptr' or (f.name, k) in d: continue
                if defines_arg(P, f, k, d): d.add((f.name, k))
    return d

def defines_arg(P, f, k, d):
    A = aliases(f, f.args[k]['id']); B = set()
    for a, u in [(a, u) for a in A for u in f.users.get(a, [])]:
        if u.op == 'store' and u.ops[1] == a: B.add(u.blk)
        elif u.op in ('call', 'invoke') and (u.callee, u.ops.index(a)) in d: B.add(u.blk)
        elif u.op in ('call', 'invoke') and 'operator>>' in (u.cdem or ''): B.add(u.blk)
    if not B: return False
    seen = set(); st = [f.entry]
    while st:
        b = st.pop()
        if b in seen or b in B: continue
        seen.add(b)
        if f.blocks[b].term.op == 'ret': return False
        st += f.blocks[b].succ
    return True

def cells_unset(f):
    """elements of a small local array that is only used element by element: (array, element, load) reached without a store"""
    for a in f.instrs():
        if a.op != 'alloca' or not a.n: continue
        el = {}; ok = True
        for u in f.users.get(a.id, []):
            if u.op == 'call' and (u.callee or '').startswith('llvm.dbg'): continue
            e = f.expr(u.id) if u.op == 'getelementptr' else None
            A = ('arr', ('alloca', a.id))
            if e == A: e = ('elem', A, C(0))
            if e is None or e[0] != 'elem' or e[1] != A or e[2][0] != 'c': ok = False; break
            for w in f.users.get(u.id, []):
                if w.op == 'load' or w.op == 'store' and w.ops[1] == u.id and w.ops[0] != u.id: el.setdefault(e[2][1], []).append(w)
                else: ok = False
        if not ok or not el: continue
        for k, us in el.items():
            seen = set(); st = [(a.blk, a.pos)]
            while st:
                b, p = st.pop()
                h = next((i for i in sorted((i for i in us if i.blk == b and i.pos > p), key=lambda i: i.pos)), None)
                if h is not None:
                    if h.op == 'load': yield a, k, h; break
                    continue
                for t in f.blocks[b].succ:
                    if t not in seen: seen.add(t); st.append((t, -1))

# ------------------------------------------------------------------ (b) arrays
class Arr:
    """accesses to one array inside one function"""
    def __init__(s): s.ev = []

def same_array(f, base):
    """function deciding whether an address belongs to the array: returns index or None"""
    cache = {}
    def idx(a):
        b, k = split_elem(a)
        if b == base: return k
        if base[0] == 'heap':
            if b not in cache: cache[b] = heap_of(f, b)
            if cache[b] == base: return k
        return None
    return idx

def collect(P, f, base, sums):
    """events on the array: ('W',idx,ins) ('R',idx,ins) ('F',ins) full fill, ('N',level,ins) call needing level, ('P',level,ins) call providing level"""
    ix = same_array(f, base); ev = []
    esz = None
    for i in f.instrs():
        if i.op == 'store':
            k = ix(f.expr(i.ops[1]))
            if k is not None: ev.append(['W', k, i])
        elif i.op == 'load':
            k = ix(f.expr(i.ops[0]))
            if k is not None and f.expr(i.ops[0]) != ('g',): ev.append(['R', k, i])
        elif i.op in ('call', 'invoke'):
            c = i.callee or ''; n = short_of(i.cdem or '') or c
            for a, o in enumerate(i.ops):
                if isinstance(o, str) and i.id != base[1] or not isinstance(o, str) and o[0] in ('g',):
                    e = f.expr(o)
                    if e[0] in ('call',): continue
                    k = ix(e)
                    if k is None: continue
                    if n in FREE or c in ('_ZdaPv', '_ZdlPv') or c.startswith(('llvm.dbg', 'llvm.lifetime')): continue
                    if c.startswith('llvm.memset'):
                        if a == 0: ev.append(['M', k, i])
                    elif c.startswith(('llvm.memcpy', 'llvm.memmove')):
                        if a == 0: ev.append(['M', k, i])
                        elif a == 1: ev.append(['R', ('any',), i])
                    elif c in P.fns and repo(P.fns[c]):
                        need, prov = sums.get((c, a), (0, 0))
                        if need: ev.append(['N', need, i])
                        if prov: ev.append(['P', prov, i])
                        elif not need and P.fns[c].args and False: pass
                    elif n in ('fill', 'fill_n', 'copy', 'copy_n', 'iota', 'memset', 'memcpy', 'transform', 'uninitialized_copy'):
                        ev.append(['M', k, i])
                    elif c in OUTEXT or c.startswith(('llvm.', '__kmpc')): ev.append(['X', k, i])
                    else: ev.append(['N', 1, i] if n not in ('operator=', 'push_back') else ['X', k, i])
    return ev

def data_driven(f, k):
    return mentions(k, lambda x: x[0] in ('ld', 'call', 'vb', 'phi') )

def self_update(f, w):
    a = f.expr(w.ops[1]); v = f.expr(w.ops[0])
    return mentions(v, lambda x: x[0] == 'ld' and x[1] == a)

def always_in(f, blk, L):
    """blk runs on every complete iteration of L"""
    return all(f.bdom(blk, l) for l in L.latches)

def full_store(f, k, i):
    """an unconditional store at the loop variable of a counted loop: (lo, hi, outermost loop) else None"""
    t = iv_interval(f, k)
    if not t: return None
    lo, hi, asc, L, iv = t
    if i.blk not in L.blocks or not always_in(f, i.blk, L): return None
    if any(f.blocks[b].term.id not in counting_tests(f, L) for b, e, x in f.loop_exits(L) if f.blocks[x].term.op not in ('unreachable', 'resume') and not landing(f, x)): return None
    return lo, hi, L

def landing(f, b): return any(i.op == 'landingpad' for i in f.blocks[b].ins)

def after_loop(f, L, blk):
    """blk is only reached after L has run to its end (L's header dominates it and it is outside)"""
    return blk not in L.blocks and f.bdom(L.header, blk)

def precedes(f, e, blk, pos):
    """event instruction e certainly happened before position: dominates it, or sits in loops that completed"""
    if e.blk == blk: 
        if e.pos < pos: return True
    elif f.bdom(e.blk, blk): return True
    best = False
    for L in f.loop_chain(e.blk):
        if after_loop(f, L, blk):
            # unconditional inside the loops up to L
            ok = True; b = e.blk
            for M in f.loop_chain(e.blk):
                if not (always_in(f, b, M)): ok = False
                b = M.header
                if M is L: break
            if ok: best = True
    return best

def cursor_index(f, k):
    """index is a moving position: a counter kept in a register or in memory, stepped by constants"""
    return mentions(k, lambda x: x[0] == 'phi' and stepped(f, x[1]) or x[0] == 'ld' and x[1][0] in ('alloca', 'arg'))

def stepped(f, v):
    L = f.loops[f.hdr[f.vals[v].blk]] if f.vals[v].blk in f.hdr else None
    seen = set(); st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, str) or x in seen: continue
        seen.add(x)
        if x[0] == 'a': continue
        i = f.vals[x]
        if i.op in ('phi', 'select'): st += [o for o in (i.ops if i.op == 'phi' else i.ops[1:])]
        elif i.op in ('sext', 'zext', 'trunc'): st.append(i.ops[0])
        elif i.op in ('add', 'sub') and not isinstance(i.ops[1], str): st.append(i.ops[0])
        elif i.op in ('add',) and not isinstance(i.ops[0], str): st.append(i.ops[1])
        elif L is not None and i.blk not in L.blocks: continue
        elif i.op in ('call', 'invoke'): continue
        else: return False
    return True

def covered(f, base, ev, esz):
    """list of (ins-or-loop, 'full'|'part') initialisation events of the array"""
    cnt = None
    if base[0] == 'heap': cnt = alloc_count(f, base, esz)
    out = []; consts = {}
    for e in ev:
        if e[0] == 'M':
            i = e[2]; full = True
            if cnt is not None and (i.callee or '').startswith('llvm.mem'):
                full = f.expr(i.ops[2]) == f.expr(f.vals[base[1]].ops[0]) or bytes_count(f, i.ops[2], esz) == cnt and e[1] == C(0)
                if not full:
                    b = bytes_count(f, i.ops[2], esz)
                    if b is not None:
                        d = sub(cnt, b)
                        full = d[0] == 'c' and 0 <= d[1] <= 1 and e[1][0] == 'c'
                    else: full = False
            out.append((i, 'full' if full else 'part'))
        elif e[0] == 'X': out.append((e[2], 'full'))
        elif e[0] == 'P': out.append((e[2], 'full' if e[1] > 1 else 'part'))
        elif e[0] == 'W':
            i = e[2]
            if self_update(f, i): continue
            t = full_store(f, e[1], i)
            if t:
                lo, hi, L = t
                full = True
                if cnt is not None:
                    dl = lo; dh = sub(cnt, hi)
                    # exact, or all but a first/last element given separately
                    if not (dl[0] == 'c' and dl[1] in (0, 1)): full = False
                    elif not (dh[0] == 'c' and dh[1] in (0, 1)):
                        full = loose(f, cnt, hi)
                out.append((i, 'full' if full else 'part'))
            else: out.append((i, 'part'))
    return out

def loose(f, cnt, hi):
    """sizes that only differ in how the same count is obtained (not decidable here) are accepted"""
    return not (cnt[0] in ('arg',) and hi[0] in ('arg',) and cnt != hi) and not (sub(cnt, hi)[0] == 'c')

def need_of(P, f, base, ev, esz, zeroed=False):
    """violating reads: list of (ins, level, why)"""
    inits = covered(f, base, ev, esz)
    bad = []
    W = [e for e in ev if e[0] == 'W']
    for e in ev:
        if e[0] == 'R' or e[0] == 'N':
            i = e[2]; blk, pos = i.blk, i.pos
            before = [(x, lv) for x, lv in inits if x is not i and precedes(f, x, blk, pos)]
            if any(lv == 'full' for x, lv in before): continue
            if e[0] == 'N':
                if e[1] > 1: bad.append((i, 2, 'is passed to %s, which relies on its contents' % short_of(i.cdem or i.callee)))
                elif not before and not appended(f, W, i) : bad.append((i, 1, 'is passed to %s, which reads it' % short_of(i.cdem or i.callee)))
                continue
            k = e[1]
            same = [x for x, lv in inits if x.op == 'store' and f.dom(x, i) and f.expr(x.ops[1]) == f.expr(i.ops[0])] if i.op == 'load' else []
            if same: continue
            if use_is_update(f, i) or marker_test(f, i, W):
                bad.append((i, 2, 'is %s' % ('updated' if use_is_update(f, i) else 'tested') + ' before every element has been given its initial value')); continue
            if before or appended(f, W, i): continue
            bad.append((i, 1, 'is read before anything has been stored in it'))
    return bad

def appended(f, W, i):
    """list filled through a moving position somewhere before, or in a loop shared with the read"""
    for e in W:
        w = e[2]
        if cursor_index(f, e[1]):
            if any(i.blk in L.blocks or f.bdom(L.header, i.blk) for L in f.loop_chain(w.blk)): return True
    return False

def use_is_update(f, i):
    """the loaded value flows into a store to the same element"""
    if i.op != 'load': return False
    a = f.expr(i.ops[0])
    for u in reach_users(f, i.id, 4):
        if u.op == 'store' and f.expr(u.ops[1]) == a and u.ops[1] != i.id and self_update(f, u): return True
    return False

def reach_users(f, v, d):
    out = []; st = [(v, 0)]; seen = {v}
    while st:
        x, k = st.pop()
        for u in f.users.get(x, []):
            out.append(u)
            if k < d and u.id not in seen and u.op not in ('store', 'phi', 'br', 'load'):
                seen.add(u.id); st.append((u.id, k + 1))
    return out

def marker_test(f, i, W):
    """the loaded value is compared with a constant and the array holds constants stored at chosen positions"""
    if i.op != 'load': return False
    cmpc = [u for u in f.users.get(i.id, []) if u.op in ('icmp', 'trunc', 'zext', 'sext')]
    if not any(u.op != 'icmp' or any(f.expr(o)[0] == 'c' for o in u.ops) for u in cmpc): return False
    return any(f.expr(e[2].ops[0])[0] == 'c' for e in W)

def elem_size(f, ev):
    for e in ev:
        if e[0] == 'W':
            v = e[2].ops[0]
            t = e[2].sty or (f.vals[v].ty if isinstance(v, str) and v in f.vals else None)
            if t: return esize(t)
        if e[0] == 'R' and e[2].op == 'load': return esize(e[2].ty)
    return None

def alloc_esz(f, i):
    for o in i.ops:
        e = f.expr(o)
        if e[0] == 'sel': e = e[3]
        if e[0] == 'xv' and e[1][0] == 'call':
            c = f.vals[e[1][2]]
            if len(c.ops) > 1 and f.expr(c.ops[1])[0] == 'c': return f.expr(c.ops[1])[1]
    return None

def summaries(P):
    """(function, parameter) -> (needs 0/1/2, provides 0/1/2) for arrays passed as pointers"""
    S = {}
    fs = [f for f in P.fns.values() if repo(f)]
    for rnd in range(4):
        ch = False
        for f in fs:
            for k, a in enumerate(f.args):
                if a['ty'] != 'ptr': continue
                if k == 0 and '::' in f.dem.split('(')[0] and (a['n'] == 'this'): continue
                base = ('arg', k)
                ev = collect(P, f, base, S)
                if not ev: v = (0, 0)
                else:
                    esz = elem_size(f, ev)
                    nd = max([l for _, l, _ in need_of(P, f, base, ev, esz)] + [0])
                    pr = 0
                    for x, lv in covered(f, base, ev, esz):
                        if all_returns(f, x): pr = max(pr, 2 if lv == 'full' else 1)
                        elif lv: pr = max(pr, 1)
                    v = (nd, pr)
                if S.get((f.name, k)) != v: S[(f.name, k)] = v; ch = True
        if not ch: break
    return S

def all_returns(f, x):
    for b in ret_blocks(f):
        if not precedes(f, x, b, 10 ** 6): return False
    return True

def check(ctx, r):
    P = ctx.prog('ser')
    r.need('functions', 150); r.need('uninitialised arrays', 25); r.need('array reads', 40)
    D = definite_defs(P)
    for f in P.fns.values():
        if not repo(f): continue
        r.n('functions')
        for src, u in undef_phi_reads(f):
            r.v('%s:undef' % f.dem.split('(')[0], u.where() if u.loc else src.where(), 'a local variable is used on a path on which it was never given a value')
        for s, i in may_uninit(P, f, D):
            r.v('%s:%s' % (f.dem.split('(')[0], s.n), i.where(), 'variable %s is read on a path on which it was never given a value' % s.n)
    R = ctx.prog('raw'); DR = definite_defs(R)
    for f in R.fns.values():
        if not repo(f): continue
        for s, i in may_uninit(R, f, DR):
            r.v('%s:%s' % (f.dem.split('(')[0], s.n), i.where(), 'variable %s is read on a path on which it was never given a value' % s.n)
        for a, k, i in cells_unset(f):
            r.v('%s:%s[%d]' % (f.dem.split('(')[0], a.n, k), i.where(), 'element %d of %s is read on a path on which it was never given a value' % (k, a.n))
        r.n('variables in memory', sum(1 for i in f.instrs() if i.op == 'alloca' and i.n))
    S = summaries(P)
    for f in P.fns.values():
        if not repo(f): continue
        for i in f.instrs():
            if i.op not in ('call', 'invoke') or f.expr(i.id)[0] != 'heap' or (i.callee or '').startswith('_Znw'): continue
            h = ('heap', i.id)
            if heap_zeroed(f, h): r.n('arrays zeroed on allocation'); continue
            r.n('uninitialised arrays')
            ev = collect(P, f, h, S)
            esz = elem_size(f, ev) or alloc_esz(f, i)
            nm = array_name(f, i)
            r.n('array reads', sum(1 for e in ev if e[0] in ('R', 'N')))
            for x, lv, why in need_of(P, f, h, ev, esz):
                r.v('%s:%s' % (f.dem.split('(')[0], nm), x.where(), 'array %s (allocated without a value at line %s) %s' % (nm, i.line, why))
    out_vectors(P, S, r)
    objects(P, S, r)

def outputs():
    import os
    out = {}
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'outputs.txt')) as fh:
        for l in fh:
            w = l.split()
            if w: out[w[0]] = [int(x) for x in w[1:] if x.isdigit()]
    return out

def guard_of(f, i, v):
    """`if (!v.empty()) v.clear()` clears in every case: the event is the test"""
    for a, k in f.cdeps(i.blk):
        T = f.blocks[a].term
        if not T.ops or T.op != 'br': continue
        c = f.expr(T.ops[0])
        if k == 1: c = neg(c)
        if c[0] == 'cmp' and (c[1] == 'ne' and c[2] == ('size', v) and c[3] == C(0) or c[1] == 'ult' and c[3] == ('size', v)): return T
    return i

RESET = {'clear', 'assign', 'operator=', 'swap', 'vector'}
def out_vectors(P, S, r):
    """what a caller's output vector held before the call must not be read"""
    for fn, ks in outputs().items():
        f = P.fns.get(fn)
        if not f or not repo(f): continue
        for k in ks:
            if k >= len(f.args): continue
            v = ('arg', k); base = ('data', v)
            ev = collect(P, f, base, S)
            calls = [i for i in f.instrs() if i.op in ('call', 'invoke') and i.ops and f.expr(i.ops[0]) == v and 'std::vector<' in (i.cdem or '').split('(')[0]]
            if not any(short_of(i.cdem) in ('resize', 'assign', 'push_back', 'clear', 'emplace_back') for i in calls): continue
            r.n('output vectors')
            for i in calls:
                if short_of(i.cdem) in RESET: ev.append(['X', C(0), guard_of(f, i, v)])
            # handing the vector itself to a routine that produces it
            O = outputs()
            for i in f.instrs():
                if i.op in ('call', 'invoke') and i.callee in O:
                    for a in O[i.callee]:
                        if a < len(i.ops) and f.expr(i.ops[a]) == v: ev.append(['X', C(0), i])
            for x, lv, why in need_of(P, f, base, ev, elem_size(f, ev)):
                if lv < 2 or x.op == 'load' and mentions(f.expr(x.ops[0]), lambda e: e == ('size', v)): continue     # last element: just appended
                r.v('%s:%s' % (f.dem.split('(')[0], f.args[k]['n']), x.where(), 'output vector %s %s: what the caller left in it would show' % (f.args[k]['n'], why))

def array_name(f, i):
    for u in f.users.get(i.id, []):
        if u.op == 'store' and u.ops[0] == i.id:
            return pretty(f, f.expr(u.ops[1])).lstrip('*')
    return i.n or 'line'

# ------------------------------------------------------------------ (c) objects
def ctor_of(f):
    q = f.dem.split('(')[0].split('::')
    return q[-1] if len(q) > 1 and q[-1] == q[-2] else None

def field_zeroing(P):
    """constructor -> fields left with uninitialised heap arrays"""
    out = {}
    for f in P.fns.values():
        if not ctor_of(f) or not repo(f): continue
        for i in f.stores():
            a = f.expr(i.ops[1]); v = f.expr(i.ops[0])
            if a[0] == 'fld' and a[1] == ('arg', 0) and v[0] == 'heap' and not (f.vals[v[1]].callee or '').startswith('_Znw') and not heap_zeroed(f, v):
                ev = collect(P, f, v, {})
                if not any(l == 'full' and all_returns(f, x) for x, l in covered(f, v, ev, elem_size(f, ev))): out.setdefault(f.name, set()).add(a[3])
    return out

def objects(P, S, r):
    U = field_zeroing(P)
    for f in P.fns.values():
        if not repo(f): continue
        for i in f.instrs():
            if i.op not in ('call', 'invoke') or i.callee not in P.fns or not ctor_of(P.fns[i.callee]) or not i.ops: continue
            o = f.expr(i.ops[0])
            if o[0] != 'heap': continue
            r.n('objects created')
            for fld in U.get(i.callee, ()):
                # every expression for this object's field array
                bases = set()
                for x in f.instrs():
                    if x.op == 'load':
                        a = f.expr(x.ops[0])
                        if a[0] == 'fld' and a[3] == fld and (a[1] == o or heap_of(f, a[1]) == o): bases.add(('ld', a))
                for b in bases:
                    ev = collect(P, f, b, S)
                    for x, lv, why in need_of(P, f, b, ev, elem_size(f, ev)):
                        r.v('%s:%s' % (f.dem.split('(')[0], fld), x.where(), 'array %s of the new object (left without values by its constructor) %s' % (pretty(f, b), why))
    # need of each field array over the class's own methods
    need = {}
    for f in P.fns.values():
        if not repo(f) or not f.args or f.args[0]['n'] != 'this' or ctor_of(f) or '~' in f.dem: continue
        cls = f.dem.split('(')[0].split('::')[-2]
        flds = set()
        for i in f.instrs():
            if i.op == 'load':
                a = f.expr(i.ops[0])
                if a[0] == 'fld' and a[1] == ('arg', 0): flds.add(a)
        for a in flds:
            base = ('ld', a)
            if any(i.op == 'store' and f.expr(i.ops[1]) == a for i in f.instrs()): continue
            ev = collect(P, f, base, S)
            if not ev: continue
            for x, lv, why in need_of(P, f, base, ev, elem_size(f, ev)):
                k = (cls, a[3])
                if lv > need.get(k, (0,))[0]: need[k] = (lv, x, f)
    for f in P.fns.values():
        c = ctor_of(f)
        if not c or not repo(f): continue
        r.n('constructors')
        for i in f.stores():
            a = f.expr(i.ops[1]); v = f.expr(i.ops[0])
            if a[0] == 'fld' and a[1] == ('arg', 0) and v[0] == 'heap' and (c, a[3]) in need and not (f.vals[v[1]].callee or '').startswith('_Znw'):
                r.n('object arrays')
                if heap_zeroed(f, v): continue
                ev = collect(P, f, v, S); ini = covered(f, v, ev, elem_size(f, ev))
                lv = need[(c, a[3])]
                if not any(all_returns(f, x) and (l == 'full' or lv[0] == 1) for x, l in ini):
                    r.v('%s:field%s' % (c, a[3]), i.where(), 'the array kept in field %s of %s is left uninitialised although %s relies on its contents at %s' % (a[3], c, lv[2].short, lv[1].where()))

    for f in P.fns.values():
        c = ctor_of(f)
        if not c or not repo(f): continue
        st = next((t for n, t in P.structs.items() if n.split('::')[-1] == c), None)
        if not st or f.fline == st['line']: continue       # compiler-generated
        for k, m in enumerate(st['members']):
            if m[0].startswith('_vptr') or not scalar_member(m[2]): continue
            r.n('constructor fields')
            if not stores_field(P, f, m[0], k):
                r.v('%s:ctor%d:%s' % (c, len(f.args), m[0]), (P.relfile(f) + ':%s' % f.fline), 'this constructor of %s leaves field %s without a value' % (c, m[0]))

def scalar_member(t):
    t = t.replace('const ', '').strip()
    return t.endswith('*') or t in ('int', 'unsigned long', 'bool', 'double', 'float', 'unsigned int', 'long', 'size_t', 'char', 'unsigned char', 'short')

def stores_field(P, f, nm, k, depth=0):
    B = set()
    for i in f.instrs():
        if i.op == 'store':
            a = f.expr(i.ops[1])
            if a[0] == 'fld' and a[1] == ('arg', 0) and a[3] in (nm, '#%d' % k) or a == ('arg', 0) and k == 0: B.add(i.blk)
        elif i.op in ('call', 'invoke') and i.ops and f.expr(i.ops[0]) == ('arg', 0) and i.callee in P.fns and depth < 3:
            g = P.fns[i.callee]
            if repo(g) and stores_field(P, g, nm, k, depth + 1): B.add(i.blk)
        elif i.op in ('call', 'invoke') and (i.callee or '').startswith('llvm.mem') and f.expr(i.ops[0]) == ('arg', 0): B.add(i.blk)
    seen = set(); st = [f.entry]
    while st:
        b = st.pop()
        if b in seen or b in B: continue
        seen.add(b)
        if f.blocks[b].term.op == 'ret': return False
        st += f.blocks[b].succ
    return True
