"""Marker workspaces are restored before their next use."""
import os, re
import extents
from ir import *
from lib import *
from arrays import *
from cursors import *
from checks import p06, p07, p20
LEVEL = 'other'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ("Every array that is given constant marks and is put back (element by element, over a list of what was marked, or as a whole) is followed over the control-flow graph: what is put back must be what was marked (the element's number is "
        "recorded in the list at the mark, or both use the same index over the same range, the list being gone through from its start to its counter), and no path leads from a mark to the next round of the loop both are in, or out of the routine when "
        "the array outlives it, without passing the reset. A whole-array reset covers the array. A mark array tested by a second pass is reset after the first, a count reused as a cursor is zeroed in between, a cost accumulated under a counter that starts anew "
        "is zeroed with it, and a marker kept in an object is reset before a call tests it. agg/rounds.txt lists the routines known to restore markers and how many.")
ASSUME = ["marks that no reset in the routine matches record finished work", "exceptional exits end the round"]
is_call = p20.is_call

class W:
    def __init__(s, i, base, idx, val): s.i = i; s.base = base; s.idx = idx; s.val = val; s.blk = i.blk

def accesses(f):
    """element writes (with vector<bool> included) and bulk writes"""
    if hasattr(f, '_p16'): return f._p16
    ws = []; bulk = []
    refs = {}
    zero = lambda v: ('c', 0) if v in (('f', '0'), ('f', '0.0'), ('f', 0.0)) else v
    for i in f.instrs():
        if i.op == 'store':
            e = f.expr(i.ops[1]); v = f.expr(i.ops[0])
            if e[0] == 'fld' and e[1][0] == 'alloca' and v[0] == 'xv' and v[1][0] == 'vb': refs[e[1]] = v[1]
    for i in f.instrs():
        if i.op == 'store':
            e = f.expr(i.ops[1]); v = f.expr(i.ops[0])
            if e[0] == 'elem': ws.append(W(i, e[1], e[2], zero(v)))
        elif is_call(i):
            c = i.cdem or ''
            if c.startswith('std::_Bit_reference::operator=(bool)'):
                vb = refs.get(f.expr(i.ops[0]))
                if vb: v = f.expr(i.ops[1]); ws.append(W(i, vb[1], vb[2], ('c', v[1] & 1) if v[0] == 'c' else v))
            elif (i.callee or '').startswith('llvm.memset'):
                bulk.append(W(i, f.expr(i.ops[0]), None, f.expr(i.ops[1])))
            elif re.match(r'(\S+ )?(\S+ )*std::(fill|fill_n|__fill)', c) and i.ops:
                bulk.append(W(i, strip_data(f.expr(i.ops[0])), None, fillval(f, i)))
            elif re.search(r'::assign\(', c) and i.ops: bulk.append(W(i, ('data', f.expr(i.ops[0])), None, None)); bulk.append(W(i, f.expr(i.ops[0]), None, None))
    # loops that fill from the start
    for w in list(ws):
        if w.val[0] == 'c' and w.idx[0] == 'iv':
            r = f.range(w.idx[1])
            if r and r[0] == ('c', 0) and r[2] == 1 and every_turn(f, r[3], w.blk) and not counted(f, r[1], w.base):
                w.fill = True; b = W(w.i, w.base, None, w.val); b.loop = r[3]; b.hi = r[1]; bulk.append(b)
    f._p16 = (ws, bulk)
    return f._p16

def strip_data(e): return e

def counted(f, hi, base):
    """the bound is a count the routine keeps, or the length of another list"""
    k, parts = lin_parts(hi)
    return any(a[0] == 'phi' and any(a[1] in m for m in wsets(f)) or a[0] == 'size' and base != ('data', a[1]) for a in parts)

def fillval(f, i):
    for o in i.ops[1:]:
        e = f.expr(o) if isinstance(o, str) else tuple(o)
        if e[0] == 'alloca':
            vs = {f.expr(s.ops[0]) for s in f.stores() if f.expr(s.ops[1]) == e}
            if len(vs) == 1:
                v = vs.pop(); return ('c', 0) if v[0] == 'f' and float(v[1]) == 0 else v
    return None

def every_turn(f, L, blk):
    """the block is on every turn of the loop"""
    return not escapes(f, L.header, {blk}, {L.header}, L.blocks, leave=False) if L.header != blk else True

def succs(f, b):
    B = f.blocks[b]
    return B.succ[:1] if B.term.op == 'invoke' else B.succ

def escapes(f, start, targets, stops, within=None, leave=True, rets=True):
    """a path from the end of block start to a stop (or a return, or out of the blocks) that passes no target"""
    st = [x for x in succs(f, start)]; seen = set()
    while st:
        x = st.pop()
        if x in stops: return True
        if x in seen or x in targets: continue
        seen.add(x)
        if within is not None and x not in within:
            if leave: return True
            continue
        T = f.blocks[x].term
        if T.op == 'ret' and rets: return True
        if T.op in ('unreachable', 'resume') or ends_in_throw(f, x): continue
        st += succs(f, x)
    return False

def ends_in_throw(f, b): return any(is_call(i) and (p06.ends(i.callee or '') or i.callee == '__cxa_throw') for i in f.blocks[b].ins)

def together(f, a, b):
    """two blocks run together"""
    if a == b: return True
    La, Lb = f.loop(a), f.loop(b)
    if La is not Lb: return False
    stop = {La.header} if La else set()
    within = La.blocks if La else None
    def fwd(x, y): return not escapes(f, x, {y}, stop, within) and f.bdom(x, y)
    return fwd(a, b) or fwd(b, a)

def neutral(f, base, ws, bulk):
    if base[0] == 'heap' and heap_zeroed(f, base): return ('c', 0)
    vs = {b.val for b in bulk if b.base == base and b.val is not None and b.val[0] == 'c'}
    if len(vs) == 1: return vs.pop()
    cs = {w.val for w in ws if w.base == base and w.val[0] == 'c'}
    if ('c', 0) in cs or ('c', 0) in vs: return ('c', 0)
    return None

def flip(w): return w.val[0] == 'lin' and w.val[1] == -2 and w.val[2] == ((('ld', ('elem', w.base, w.idx)), -1),)

def wsets(f): return [m for m, _ in webs(f)]

# ---- matching a reset with the marks it undoes
def resolve(f, e, d=0):
    """variables that hold one value"""
    if e[0] == 'ld' and e[1][0] == 'alloca':
        vs = {f.expr(s.ops[0]) for s in f.stores() if f.expr(s.ops[1]) == e[1]}
        if len(vs) == 1 and d < 4: return resolve(f, vs.pop(), d + 1)
    return e

def loopvars(e, out=None):
    out = [] if out is None else out
    if isinstance(e, tuple):
        if e and e[0] in ('iv', 'rf', 'phi'): out.append(e)
        else:
            for x in e: loopvars(x, out)
    return out

def canon(f, e, d=0):
    """an expression with its loop variables replaced by their ranges"""
    if not isinstance(e, tuple) or d > 12: return e
    if e and e[0] == 'iv':
        r = f.range(e[1])
        if r and r[1] is not None:
            lo, hi, st = r[0], r[1], r[2]
            if st == -1: lo, hi, st = add(hi, ('c', 1)), add(lo, ('c', 1)), 1
            lo, hi = canon(f, lo, d + 1), canon(f, hi, d + 1)
            # one segment after the other
            if st == 1 and lo[0] == hi[0] == 'ld' and lo[1][0] == hi[1][0] == 'elem' and lo[1][1] == hi[1][1] and lo[1][2][0] == 'range' and lo[1][2][3] == 1 and hi[1][2] == ('lin', 1, ((lo[1][2], 1),)):
                P_, I = lo[1][1], lo[1][2]
                lo, hi = ('ld', ('elem', P_, I[1])), ('ld', ('elem', P_, I[2]))
            return ('range', lo, hi, st)
        return ('range', canon(f, r[0], d + 1), None, r[2]) if r else ('any',)
    if e and e[0] == 'phi':
        q = f.vals.get(e[1])
        if q is not None and q.op == 'phi' and q.blk not in f.hdr: return merge([canon(f, f.expr(o) if isinstance(o, str) else tuple(o), d + 1) for o in q.ops])
        return ('any',)
    if e and e[0] == 'max': return merge([canon(f, e[1], d + 1), canon(f, e[2], d + 1)])
    if e and e[0] == 'ld' and e[1][0] == 'call' and len(e[1]) == 3 and e[1][1] in ('max', 'min') and e[1][2] in f.vals:
        return merge([canon(f, value_at(f, o), d + 1) for o in f.vals[e[1][2]].ops])
    if e and e[0] == 'ld' and e[1][0] == 'alloca':
        x = resolve(f, e)
        return canon(f, x, d + 1) if x != e else e
    if e and e[0] == 'ld' and e[1][0] in ('phi', 'sel'):
        a = canon(f, e[1], d + 1)
        if a[0] == 'merge' and all(x[0] == 'alloca' for x in a[1]): return merge([canon(f, resolve(f, ('ld', x)), d + 1) for x in a[1]])
        return ('ld', a)
    if e and e[0] == 'sel': return merge([canon(f, e[2], d + 1), canon(f, e[3], d + 1)])
    if e and e[0] == 'rf': return ('any',)
    if e and e[0] == 'call': return e[:2] + ('any',) if len(e) == 3 else e
    if e and e[0] == 'lin' and len(e) == 3:
        k, parts = e[1], {}
        for a, c in e[2]:
            a = canon(f, a, d)
            k2, p2 = (a[1], a[2]) if a[0] == 'lin' else (a[1], ()) if a[0] == 'c' else (0, ((a, 1),))
            k += c * k2
            for x, y in p2: parts[x] = parts.get(x, 0) + c * y
        parts = {x: y for x, y in parts.items() if y}
        if not parts: return ('c', k)
        if k == 0 and list(parts.values()) == [1]: return next(iter(parts))
        return ('lin', k, tuple(sorted(parts.items(), key=repr)))
    return tuple(canon(f, x, d) if isinstance(x, tuple) else x for x in e)

def value_at(f, o):
    """the value a reference stands for"""
    e = f.expr(o) if isinstance(o, str) else tuple(o)
    return resolve(f, ('ld', e))

def merge(l):
    """one of several values: a value kept from going below zero counts as the value"""
    out = set()
    for x in l: out |= set(x[1]) if x and x[0] == 'merge' else {x}
    if len(out) == 2: out.discard(('c', 0))
    if len(out) == 1: return out.pop()
    return ('merge', tuple(sorted(out, key=repr)))

def skeleton(f, e):
    if not isinstance(e, tuple): return e
    if e and e[0] in ('iv', 'phi', 'rf'): return ('*',)
    return tuple(skeleton(f, x) if isinstance(x, tuple) else x for x in e)

CONT = re.compile(r'::(top|front|back)\(')
def container_of(f, e):
    """the container whose next element the expression is"""
    if e[0] == 'ld' and e[1][0] == 'call' and e[1][1] in ('top', 'front', 'back'): 
        i = f.vals.get(e[1][2])
        if i is not None: return f.expr(i.ops[0])
    return None

ADD = re.compile(r'::(push|push_back|emplace|emplace_back|insert|push_front)\(')
def records(f, T, cont):
    """(instruction, value recorded, position)"""
    out = []
    for w in accesses(f)[0]:
        if w.base == T: out.append((w.i, w.val, w.idx))
    for i in f.instrs():
        if is_call(i) and ADD.search((i.cdem or '').split('<')[0] + '::' + re.sub(r'.*::', '', re.sub(r'<[^()]*>', '', i.cdem or ''))) and i.ops:
            b = f.expr(i.ops[0])
            if b in (T, cont) or T[0] == 'data' and T[1] == b:
                for o in i.ops[1:]:
                    e = f.expr(o) if isinstance(o, str) else tuple(o)
                    if isinstance(o, str) and f.vals.get(o) is not None and f.vals[o].ty == 'ptr' or e[0] in ('alloca', 'elem', 'arg', 'phi'):
                        out.append((i, ('ld', e), None))
                    out.append((i, e, None))
    return out

def whole(f, v, T):
    """the loop variable goes over the whole container T"""
    if v[0] == 'rf': return True
    if v[0] != 'iv': return False
    r = f.range(v[1])
    return bool(r and r[0] == ('c', 0) and r[1] is not None and T[0] == 'data' and r[1][0] == 'size' and r[1][1] == T[1])

class Match:
    def __init__(s, m, how): s.m = m; s.how = how

def web_of(f, e):
    for i, w in enumerate(wsets(f)):
        if any(x[0] in ('phi', 'iv') and x[1] in w for x in loopvars(e)): return i
    return None

def matches(f, r, marks, probs):
    out = []
    er = resolve(f, r.idx)
    # the element a list holds
    T = X = None; cont = container_of(f, er)
    if er[0] == 'ld' and er[1][0] == 'elem' and loopvars(er[1][2]): T, X = er[1][1], er[1][2]
    for m in marks:
        em = resolve(f, m.idx)
        if canon(f, em) == canon(f, er) and (em == er or ('any',) not in flat(canon(f, er))): out.append(Match(m, 'same range')); continue
        vr = [v for v in loopvars(er)]; vm = loopvars(em)
        if skeleton(f, em) == skeleton(f, er) and len(vr) == 1 and inner_list(er) is not None and whole(f, vr[0], inner_list(er)): out.append(Match(m, 'whole list')); continue
        if T is not None or cont is not None:
            rec = [x for x in records(f, T if T is not None else ('none',), cont) if same(f, x[1], em, m, x[0]) and (x[0].blk == r.blk and x[0].pos < r.i.pos or reach_avoid(f, x[0].blk, r.blk, ()))]
            if rec:
                good = [x for x in rec if together(f, x[0].blk, m.blk)]
                if not good: probs.append((m, 'is recorded for the reset only on some of the paths that mark it')); out.append(Match(m, 'list')); continue
                M = Match(m, 'list'); M.rec = good; out.append(M)
                if T is not None and X[0] == 'iv': M.bad = list_range(f, X, good) or downward(f, X, T)
                M.lists = {x for x in (cont, T, T[1] if T is not None and T[0] == 'data' else None) if x is not None}
    return out

def flat(e, out=None):
    out = set() if out is None else out
    if isinstance(e, tuple):
        out.add(e)
        for x in e: flat(x, out)
    return out

def inner_list(e):
    if e[0] == 'ld' and e[1][0] == 'elem':
        if e[1][2][0] in ('iv', 'rf', 'phi'): return e[1][1]
        return inner_list(e[1][2])
    return None

def same(f, v, em, m, at):
    v = resolve(f, v)
    if v == em: return True
    if v[0] == 'ld' and em[0] == 'ld' and v[1] == em[1]: return True
    return False

def list_range(f, X, recs):
    """the reset loop covers what was recorded"""
    r = f.range(X[1])
    if not r or r[1] is None: return None
    lo, hi, step = r[0], r[1], r[2]
    if step < 0: return None
    for i, v, pos in recs:
        if pos is None:
            continue
        lv = loopvars(pos)
        if len(lv) != 1: continue
        W_ = next((w for w in wsets(f) if lv[0][1] in w), None)
        if W_ is None and lv[0][0] == 'iv': continue
        inits = set()
        for x in (W_ or ()):
            p = f.vals[x]
            if p.op != 'phi': continue
            for o in p.ops:
                e = tuple(o) if not isinstance(o, str) else f.expr(o)
                if e[0] == 'c': inits.add(e[1])
        k, parts = lin_parts(hi)
        pv = [a for a in parts if a[0] in ('phi', 'iv') and W_ and a[1] in W_]
        if pv and len(parts) == 1 and parts[pv[0]] == 1:
            kp, _ = lin_parts(pos)
            if k < kp: return 'stops %d short of what was recorded' % (kp - k)
            if lo[0] == 'c' and inits and lo[1] > min(inits) + kp: return 'starts at %d, after the first recorded element' % lo[1]
    return None

def phi_group(f, pid):
    """the phis a counter goes through"""
    out = set(); st = [pid]
    users = {}
    for i in f.instrs():
        if i.op != 'phi': continue
        for o in i.ops:
            e = f.expr(o) if isinstance(o, str) else tuple(o)
            k, parts = lin_parts(e)
            if len(parts) == 1 and list(parts.values()) == [1]:
                a = next(iter(parts))
                if a[0] in ('phi', 'iv'): users.setdefault(a[1], set()).add(i.id); users.setdefault(i.id, set()).add(a[1])
    while st:
        x = st.pop()
        if x in out: continue
        out.add(x); st += users.get(x, ())
    return out

def downward(f, X, T):
    """the list is filled from its end: the reset starts at the last position filled and goes to the end"""
    r = f.range(X[1])
    if not r or r[1] is None or r[2] != 1: return None
    k, parts = lin_parts(r[0])
    pv = [a for a in parts if a[0] in ('phi', 'iv')]
    if len(parts) != 1 or not pv or parts[pv[0]] != 1: return None
    G = phi_group(f, pv[0][1])
    for w in accesses(f)[0]:
        if w.base != T: continue
        kp, pp = lin_parts(w.idx)
        if kp != -1 or len(pp) != 1 or next(iter(pp))[0] not in ('phi', 'iv') or next(iter(pp))[1] not in G: continue
        if k > 0: return 'starts %d after the last position that was filled' % k
        ends = {e for x in G for o in f.vals[x].ops for e in [f.expr(o) if isinstance(o, str) else tuple(o)] if not any(a[0] in ('phi', 'iv') and a[1] in G for a in lin_parts(e)[1])}
        for e in ends:
            d = sub(e, r[1])
            if d[0] == 'c' and d[1] > 0: return 'stops %d before the end of the list' % d[1]
    return None

def emptied(f, M, rs, conts):
    """the list is emptied after the mark and before the reset"""
    cs = [i for i in f.instrs() if is_call(i) and i.ops and f.expr(i.ops[0]) in conts and re.search(r'::clear\(\)', i.cdem or '')]
    recs = {x[0].blk for x in M.rec}
    ent = reset_entry(f, rs, M.m.blk)
    for c in cs:
        a = M.m.blk == c.blk and M.m.i.pos < c.pos or reach_avoid(f, M.m.blk, c.blk, {ent})
        if a and (c.blk == rs.blk and c.pos < rs.i.pos or reach_avoid(f, c.blk, ent, recs)): return c
    return None

def reach_avoid(f, a, b, avoid):
    st = list(succs(f, a)); seen = set()
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen or x in avoid: continue
        seen.add(x); st += succs(f, x)
    return False

# ---- paths
def common_loop(f, a, b):
    ca = f.loop_chain(a); cb = {L.id for L in f.loop_chain(b)}
    for L in ca:
        if L.id in cb: return L
    return None

def reset_entry(f, r, m):
    """where control must pass for the reset to be done"""
    inm = {L.id for L in f.loop_chain(m)}
    out = r.blk
    for L in f.loop_chain(r.blk):
        if L.id in inm: break
        out = L.header
        # a guard that only skips a loop that would make no turn
        while True:
            d = f.blocks[out].idom
            if d is None or d in (m,) or f.loop(d) is not f.loop(out) and out != L.header: break
            t = f.blocks[d].term
            if t.op == 'br' and len(t.tgt or []) == 2 and t.ops and skips_empty(f, L, f.expr(t.ops[0])): out = d
            elif t.op == 'br' and len(t.tgt or []) == 1 and [p for p in f.blocks[out].pred if p not in L.blocks] == [d]: out = d
            else: break
    return out

def skips_empty(f, L, c):
    """the condition compares the two ends of the loop's range"""
    for p in f.instrs():
        if p.op != 'phi' or p.blk != L.header: continue
        r = f.range(p.id)
        if not r or r[1] is None: continue
        d = sub(r[1], r[0])
        if c[0] == 'cmp' and len(c) == 4:
            e = sub(c[2], c[3])
            if e == d and c[1] in ('sgt', 'ne', 'ugt', 'sle', 'eq', 'ule'): return True
            if scale(e, -1) == d and c[1] in ('slt', 'ne', 'ult', 'sge', 'eq', 'uge'): return True
            if sub(d, e) == ('c', 1) and c[1] in ('sge', 'slt') or sub(scale(d, -1), e) == ('c', -1) and c[1] in ('sle', 'sgt'): return True
    return False

def conditional(f, r, m):
    """inside its own loops the reset is skipped on some turn"""
    inm = {L.id for L in f.loop_chain(m)}
    for L in f.loop_chain(r.blk):
        if L.id in inm: break
        if r.blk == L.header: continue
        inner = [x for x in f.loop_chain(r.blk) if x is not L and x.blocks < L.blocks]
        tgt = {inner[-1].h} if inner and inner[-1].id != L.id else {r.blk}
        if escapes_turn(f, L, tgt): return L
        break
    return None

def escapes_turn(f, L, targets):
    """a path from the loop header (staying in it) back to the header that misses the targets"""
    st = [x for x in succs(f, L.header) if x in L.blocks]; seen = set()
    while st:
        x = st.pop()
        if x == L.header: return True
        if x in seen or x in targets: continue
        seen.add(x); st += [y for y in succs(f, x) if y in L.blocks]
    return False

def persists(f, base):
    """the array is still there after the routine"""
    if base[0] in ('arg',): return True
    if base[0] == 'ld' and root_of(base[1])[0] == 'arg' : return True
    return False

def nm(f, b): return pretty(f, b).lstrip('*')

def guard_on_marker(f, r):
    for c, t, T in f.guards(r.blk):
        for x in flat(c):
            if isinstance(x, tuple) and len(x) > 2 and x[0] in ('elem', 'vb') and x[1] == r.base: return True
    return False

def analyse(P, f, r, EX):
    ws, bulk = accesses(f)
    restored = set()
    bases = {}
    for w in ws: bases.setdefault(w.base, []).append(w)
    for base, l in bases.items():
        z = neutral(f, base, ws, bulk)
        flips = [w for w in l if flip(w)]
        if flips: marks = resets = flips
        else:
            marks = [w for w in l if w.val[0] == 'c' and z is not None and w.val != z and not getattr(w, 'fill', False)]
            resets = [w for w in l if w.val == z and not getattr(w, 'fill', False)]
        if not marks: continue
        r.n('marker arrays')
        bl = [b for b in bulk if b.base == base and (b.val is None or b.val == z)]
        done = {}
        for rs in resets:
            probs = []
            cand = [m for m in marks if m.i is not rs.i]
            if flips: cand = [m for m in cand if reaches(f, m, rs)]
            ms = matches(f, rs, cand, probs)
            if flips and not ms: continue
            r.n('resets')
            if not ms:
                if not any(reaches(f, m, rs) for m in marks) or marked_elsewhere(P, f, base, z): continue
                r.v('%s:%s:undo' % (f.short, nm(f, base)), rs.i.where(), '%s: %s is reset here, which is no element that was marked' % (f.short, pretty(f, ('elem', base, rs.idx)))); continue
            restored.add(base)
            for m, why in probs: r.v('%s:%s:record' % (f.short, nm(f, base)), m.i.where(), '%s: %s %s' % (f.short, pretty(f, ('elem', base, m.idx)), why))
            for M in ms:
                if getattr(M, 'lists', None) and emptied(f, M, rs, M.lists): r.v('%s:%s:emptied' % (f.short, nm(f, base)), rs.i.where(), '%s: the list of what was marked in %s is emptied before the reset goes over it' % (f.short, nm(f, base)))
                if getattr(M, 'bad', None): r.v('%s:%s:range' % (f.short, nm(f, base)), rs.i.where(), '%s: the reset of %s %s' % (f.short, nm(f, base), M.bad))
                done.setdefault(M.m.i, (M.m, []))[1].append((rs, M))
            if conditional(f, rs, ms[0].m.blk) and not guard_on_marker(f, rs): r.v('%s:%s:conditional' % (f.short, nm(f, base)), rs.i.where(), '%s: the reset of %s is skipped for some of the marked elements' % (f.short, nm(f, base)))
        f._p16und = getattr(f, '_p16und', set()) | {(base, canon(f, m.idx)) for m, l2 in done.values()}
        for m, l2 in done.values():
            if all(container_of(f, resolve(f, rs.idx)) is not None and M.how == 'list' for rs, M in l2) and not persists(f, base): 
                queue_flags(f, r, base, m, l2); continue
            L = next((c for c in (common_loop(f, m.blk, rs.blk) for rs, _ in l2) if c), None)
            if L is None and not persists(f, base): continue
            tg = {reset_entry(f, rs, m.blk) for rs, _ in l2} | {b.blk if not hasattr(b, 'loop') else b.loop.header for b in bl}
            r.n('marks followed')
            f._p16done = getattr(f, '_p16done', set())
            if L: f._p16done.add(m.i)
            if m.blk in tg: continue
            if escapes(f, m.blk, tg, {L.header} if L else set(), L.blocks if L and not persists(f, base) else None, leave=False):
                r.v('%s:%s:path' % (f.short, nm(f, base)), m.i.where(), '%s: %s marked here can still be marked %s' % (f.short, pretty(f, ('elem', base, m.idx)), 'in the next round of the loop' if L else 'when the routine returns'))
        # whole-array resets in a round or between two passes
        for b in bl:
            for m in marks:
                if reaches(f, m, b): restored.add(base)
    return restored

def range_writes(g, k, pred):
    """the routine writes elements of its argument k that it goes over in a loop"""
    ws = accesses(g)[0]
    return any(w.base in (('arg', k), ('data', ('arg', k)), ('ld', ('arg', k))) and w.val[0] == 'c' and pred(w.val) and any(v[0] in ('iv', 'rf') for v in loopvars(w.idx)) for w in ws)

def handed(P, f, base):
    for i in f.instrs():
        g = P.fns.get(i.callee or '') if is_call(i) else None
        if g is None or not p07.repo(g) or g is f: continue
        for k, o in enumerate(i.ops):
            if isinstance(o, str) and f.expr(o) in (base, base[1] if base[0] == 'data' else None): yield i, g, k

def marked_elsewhere(P, f, base, z): return any(range_writes(g, k, lambda v: v != z) for i, g, k in handed(P, f, base))

def reaches(f, a, b):
    """b can run after a"""
    if a.blk == b.blk and a.i.pos < b.i.pos: return True
    st = list(succs(f, a.blk)); seen = set()
    while st:
        x = st.pop()
        if x == b.blk: return True
        if x in seen: continue
        seen.add(x); st += succs(f, x)
    return False

def queue_flags(f, r, base, m, l2):
    """membership flags: taken off exactly when the element leaves the queue"""
    for rs, M in l2:
        T = container_of(f, resolve(f, rs.idx))
        pops = [i for i in f.instrs() if is_call(i) and i.ops and f.expr(i.ops[0]) == T and re.search(r'::(pop|pop_front|pop_back|erase)\(', i.cdem or '')]
        r.n('queue flags')
        for p in pops:
            if not together(f, p.blk, rs.blk): r.v('%s:%s:queue' % (f.short, nm(f, base)), p.where(), '%s: an element leaves the queue and stays flagged in %s' % (f.short, nm(f, base)))

# ---- whole-array resets cover the array
ES = {'i32': 4, 'double': 8, 'i64': 8, 'i8': 1, 'ptr': 8, 'float': 4}
def elem_size(f, base):
    for i in f.instrs():
        if i.op == 'getelementptr' and i.id and f.expr(i.id)[0] == 'elem' and f.expr(i.id)[1] == base and i.sty in ES: return ES[i.sty]
    return None

def coverage(P, f, r, X):
    ws, bulk = accesses(f)
    for b in bulk:
        es = elem_size(f, b.base)
        marks = [w for w in ws if w.base == b.base and not getattr(w, 'fill', False)]
        if not marks or es is None: continue
        ns = [x for x in X.of(f, b.base) if x is not None and x != ('c', 0)]
        if not ns: continue
        if hasattr(b, 'loop'): cov = X.norm(f, b.hi)
        elif (b.i.callee or '').startswith('llvm.memset'):
            e = f.expr(b.i.ops[2])
            cov = bytes_count(f, b.i.ops[2], es)
            if cov is None:
                if any(x[0] in ('xv', 'sel', 'call') for x in flat(e) if isinstance(x, tuple) and x): continue
                e = X.norm(f, e); cf = {abs(v) for v in lin_parts(e)[1].values()}
                if cf and max(cf) < es and any(same_count(n, e) for n in ns): r.v('%s:%s:bytes' % (f.short, nm(f, b.base)), b.i.where(), '%s: the reset of %s counts %d bytes for each element of %d' % (f.short, nm(f, b.base), max(cf), es))
                continue
            cov = X.norm(f, cov)
        else: continue
        r.n('whole resets')
        if left_alone(f, b, ws, cov): continue
        ds = [sub(n, cov) for n in ns]
        if all(d[0] == 'c' and d[1] > 0 for d in ds): r.v('%s:%s:cover' % (f.short, nm(f, b.base)), b.i.where(), '%s: the reset of %s leaves its last %d elements' % (f.short, nm(f, b.base), min(d[1] for d in ds)))
        elif not hasattr(b, 'loop') and not f.loop_chain(b.blk) and dimension(f, cov) and all(dimension(f, n) and lin_parts(n)[1] != lin_parts(cov)[1] for n in ns) and initial(f, b): r.v('%s:%s:cover' % (f.short, nm(f, b.base)), b.i.where(), '%s: %s has %s elements and %s of them are reset' % (f.short, nm(f, b.base), pretty(f, ns[0]), pretty(f, cov)))

def dimension(f, e):
    """a single size of a matrix, with a constant"""
    k, parts = lin_parts(e)
    if len(parts) != 1 or set(parts.values()) != {1}: return False
    a = next(iter(parts))
    return a[0] == 'arg' or a[0] == 'ld' and a[1][0] == 'fld' and a[1][-1] in ('m', 'n', 'nodes')

def initial(f, b):
    """the array was in use before the reset"""
    return any(reaches(f, w, b) for w in accesses(f)[0] if w.base == b.base and not getattr(w, 'fill', False))

def same_count(n, e):
    """the byte count is made of the values the element count is made of"""
    return bool(set(lin_parts(n)[1]) & set(lin_parts(e)[1]))

def left_alone(f, b, ws, cov):
    """the elements past the reset are written individually"""
    return any(w.base == b.base and w.idx == cov for w in ws) or not any(reaches(f, w, b) for w in ws if w.base == b.base and not getattr(w, 'fill', False))

# ---- a second pass over the same marks
def tests(f, base):
    out = []
    for i in f.instrs():
        if i.op != 'br' or not i.ops: continue
        for x in flat(f.expr(i.ops[0])):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'ld' and x[1][0] == 'elem' and x[1][1] == base: out.append(i); break
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'vb' and x[1] == base: out.append(i); break
    return out

def top_loop(f, blk):
    c = f.loop_chain(blk)
    return c[-1] if c else None

def passes(P, f, r):
    ws, bulk = accesses(f)
    for base in {w.base for w in ws}:
        z = neutral(f, base, ws, bulk)
        if z is None: z = ('c', 0)
        marks = [w for w in ws if w.base == base and w.val[0] == 'c' and w.val != z and not getattr(w, 'fill', False)]
        if not marks: continue
        ts = tests(f, base)
        tg = {b.loop.header if hasattr(b, 'loop') else b.blk for b in bulk if b.base == base} | {w.blk for w in ws if w.base == base and w.val == z and not f.loop_chain(w.blk)} | {L.header for w in ws if w.base == base and w.val == z for L in f.loop_chain(w.blk)[:1]}
        for h in {L.header: L for L in (top_loop(f, m.blk) for m in marks) if L}.values():
            if all(m.i in getattr(f, '_p16done', ()) for m in marks if top_loop(f, m.blk) is h): continue
            for t in ts:
                B = top_loop(f, t.blk)
                if B is None or B is h or not any(top_loop(f, m.blk) is B for m in marks): continue
                if not any(top_loop(f, q.blk) is h for q in ts): continue
                r.n('second passes')
                if any(escapes(f, x, tg, {B.header}, None, rets=False) for x in h.blocks if any(y not in h.blocks for y in succs(f, x))):
                    r.v('%s:%s:pass' % (f.short, nm(f, base)), t.where(), '%s: the marks of an earlier pass over %s are still set when it is tested here' % (f.short, nm(f, base)))
        # a marker kept in an object
        if base[0] == 'ld' and base[1][0] == 'fld' and base[1][1] == ('arg', 0) and f.args and f.args[0]['n'] == 'this' and not re.search(r'(\w+)::~?\1\(', f.dem):
            for t in ts:
                r.n('markers kept in objects')
                if f.entry in tg: continue
                if escapes(f, f.entry, tg, {t.blk}, None, rets=False) or t.blk == f.entry:
                    if not reset_at_end(f, marks, tg): r.v('%s:%s:call' % (f.short, nm(f, base)), t.where(), '%s: %s still holds the marks of the call before when it is tested here' % (f.short, nm(f, base))); break

def reset_at_end(f, marks, tg):
    return bool(tg) and not any(escapes(f, m.blk, tg, set()) for m in marks)

# ---- counts reused as cursors
def cursors_zeroed(P, f, r):
    ws, bulk = accesses(f)
    inc = {}
    for w in ws:
        k, parts = lin_parts(w.val)
        if k == 1 and parts == {('ld', ('elem', w.base, w.idx)): 1}: inc.setdefault(w.base, []).append(w)
    for base, l in inc.items():
        used = [w for w in ws if w.base != base and any(x[0] == 'ld' and x[1][0] == 'elem' and x[1][1] == base for x in flat(w.idx) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and x[1] and x[0] == 'ld')]
        if not used: continue
        for u in used:
            B = top_loop(f, u.blk)
            if B is None: continue
            cur = [w for w in l if top_loop(f, w.blk) is B]
            if not cur: continue
            r.n('cursor arrays')
            pos = {x for x in lin_parts(u.idx)[1] if x[0] == 'ld' and x[1][0] == 'elem' and x[1][1] == base}
            if not pos or len(lin_parts(u.idx)[1]) < 2: continue      # the entry itself is the position: it starts at the segment, not at zero
            tg = {b.loop.header if hasattr(b, 'loop') else b.blk for b in bulk if b.base == base} | {L.header for x in ws if x.base == base and x.val == ('c', 0) for L in f.loop_chain(x.blk)[:1]}
            for w in l:
                A = top_loop(f, w.blk)
                if A is None or A is B: continue
                if any(escapes(f, x, tg, {B.header}, None, rets=False) for x in A.blocks if any(y not in A.blocks for y in succs(f, x))):
                    r.v('%s:%s:cursor' % (f.short, nm(f, base)), u.i.where(), '%s: %s still holds its counts when it is used as a position here' % (f.short, nm(f, base)))

# ---- costs accumulated under a counter that starts anew
def accumulators(P, f, r):
    ws, bulk = accesses(f)
    for w in ws:
        if w.val[0] != 'op' and w.val[0] != 'lin' and w.val[0] != 'fadd' and not is_rmw(f, w.i): continue
        if not is_rmw(f, w.i): continue
        if w.idx[0] not in ('phi',): continue
        L = restarts(f, w.idx[1])
        if L is None: continue
        if w.base[0] == 'heap' and f.vals[w.base[1]].blk in L.blocks: continue
        r.n('accumulators under a restarting counter')
        tg = {b.loop.header if hasattr(b, 'loop') else b.blk for b in bulk if b.base == w.base} | {x.blk for x in ws if x.base == w.base and x.val in (('c', 0), ('c', 0.0)) or x.base == w.base and x.i is not w.i and x.idx == w.idx and x.val[0] == 'c'}
        tg = {x if not f.loop_chain(x) else x for x in tg}
        inl = {x for x in tg if x in L.blocks}
        if not inl or w.blk in succs(f, L.header) or escapes(f, L.header, inl | loops_with(f, inl, L), {w.blk}, L.blocks, leave=False, rets=False):
            r.v('%s:%s:accumulate' % (f.short, nm(f, w.base)), w.i.where(), '%s: %s is added to without having been set back since the counter started anew' % (f.short, pretty(f, ('elem', w.base, w.idx))))

def loops_with(f, blks, L):
    out = set()
    for b in blks:
        for q in f.loop_chain(b):
            if q is L: break
            out.add(q.header)
    return out

def restarts(f, pid):
    """the outer loop in which the counter starts anew at a constant"""
    w = next((x for x in wsets(f) if pid in x), None)
    if w is None: return None
    best = None
    for x in w:
        p = f.vals[x]
        if p.op != 'phi': continue
        for o, b in zip(p.ops, p.inc):
            e = f.expr(o) if isinstance(o, str) else tuple(o)
            if e[0] == 'c' and e[1] in (0,) and f.loop(b) is not None:
                L = f.loop(b)
                if p.blk in f.hdr and b not in f.loop(p.blk).blocks and all(L.blocks >= (f.loop(f.vals[y].blk).blocks if f.loop(f.vals[y].blk) else set()) and f.vals[y].blk in L.blocks for y in w if f.vals[y].op == 'phi'): best = L
    return best

def spec():
    out = {'restored': {}, 'fresh': {}}
    for l in open(os.path.join(HERE, 'rounds.txt')):
        w = l.split('#')[0].split()
        if len(w) >= 3: out[w[0]].setdefault(w[1], []).extend(int(x) for x in w[2:])
    return out

def zeroing(f, b):
    """blocks after which the array has been set back"""
    ws, bulk = accesses(f)
    return {x.loop.header if hasattr(x, 'loop') else x.blk for x in bulk if x.base == b and (x.val is None or x.val == ('c', 0))} | {x.blk for x in ws if x.base == b and x.val == ('c', 0)} | {L.header for x in ws if x.base == b and x.val == ('c', 0) for L in f.loop_chain(x.blk)[:1]}

def makes_pointers(f, b):
    """the counts in array b are summed up into segment boundaries: P[k] = P[k-1] + b[..]"""
    for st in f.stores():
        base, k = split_elem(f.expr(st.ops[1])); c, parts = lin_parts(f.expr(st.ops[0]))
        if base == b or c or len(parts) != 2 or set(parts.values()) != {1}: continue
        q = [split_elem(t[1]) for t in parts if t[0] == 'ld']
        if len(q) == 2 and any(x[0] == base and const_diff(k, x[1]) == 1 for x in q) and any(x[0] == b for x in q): return True
    return False

def fresh_args(P, S):
    """(routine, position) of the arrays that have to be zero at the call: named ones, those added to under a counter that starts at a constant, and those handed on to such a position"""
    out = set()
    fns = [f for f in P.fns.values() if p07.repo(f)]
    for f in fns:
        for k in S['fresh'].get(f.short, []) + S['fresh'].get(f.dem.split('(')[0], []): out.add((f.name, k))
        for w in accesses(f)[0]:
            if w.base[0] == 'arg' and is_rmw(f, w.i) and w.idx[0] == 'ld' and makes_pointers(f, w.base):
                z = zeroing(f, w.base)
                if f.entry not in z and (w.blk == f.entry or escapes(f, f.entry, z, {w.blk}, None, rets=False)): out.add((f.name, w.base[1]))
                continue
            if w.base[0] != 'arg' or not is_rmw(f, w.i) or w.idx[0] != 'phi' or f.range(w.idx[1]) is not None: continue
            wb = next((x for x in wsets(f) if w.idx[1] in x), None)
            if wb is None: continue
            ins = [f.expr(o) if isinstance(o, str) else tuple(o) for x in wb for o in f.vals[x].ops if f.vals[x].op == 'phi']
            if not any(e[0] == 'c' for e in ins): continue
            z = zeroing(f, w.base)
            if f.entry in z or w.blk != f.entry and not escapes(f, f.entry, z, {w.blk}, None, rets=False): continue
            out.add((f.name, w.base[1]))
    while True:
        n = len(out)
        for f in fns:
            for i in f.instrs():
                if not is_call(i) or i.callee not in P.fns: continue
                for k, o in enumerate(i.ops):
                    if (i.callee, k) not in out or not isinstance(o, str): continue
                    e = f.expr(o)
                    if e[0] != 'arg': continue
                    z = zeroing(f, e)
                    if f.entry in z or i.blk != f.entry and not escapes(f, f.entry, z, {i.blk}, None, rets=False): continue
                    out.add((f.name, e[1]))
        if len(out) == n: return out

def fresh_arguments(P, f, r, F):
    for i in f.instrs():
        if not is_call(i) or i.callee not in P.fns: continue
        for k, o in enumerate(i.ops):
            if (i.callee, k) not in F or not isinstance(o, str): continue
            b = f.expr(o); h = heap_of(f, b) or b
            out = f.loop_chain(i.blk)
            if h[0] == 'heap': out = [L for L in out if f.vals[h[1]].blk not in L.blocks]
            if not out: continue
            r.n('fresh arguments')
            tg = zeroing(f, b)
            if i.blk in tg and any(x.i.pos < i.pos for x in accesses(f)[1] if x.base == b and x.blk == i.blk): continue
            if escapes(f, i.blk, tg, {i.blk}, None, rets=False):
                r.v('%s:%s:fresh' % (f.short, nm(f, b)), i.where(), '%s: %s is handed to %s again with what the last round left in it' % (f.short, nm(f, b), P.fns[i.callee].short))

def check(ctx, r):
    P = ctx.prog('ser'); S = spec()
    X = extents.Ext(P); got = {}; where = {}; und = {}; F = fresh_args(P, S)
    r.n('arrays that start at zero at a call', len(F))
    for f in P.fns.values():
        if not p07.repo(f): continue
        r.n('routines')
        got.setdefault(f.short, set()).update((f.name, b) for b in analyse(P, f, r, None)); where[f.short] = f
        und.setdefault(f.short, set()).update((f.name,) + x for x in getattr(f, '_p16und', ()))
        coverage(P, f, r, X); passes(P, f, r); cursors_zeroed(P, f, r); accumulators(P, f, r); fresh_arguments(P, f, r, F)
    ctx.got16 = got; ctx.und16 = und
    for n, ks in S['restored'].items():
        if n not in got: r.n('listed routines gone'); continue
        r.n('listed routines')
        h = helpers(P, where[n])
        if len(got[n]) + h < ks[0]: r.v('%s:restored' % n, '%s (%s)' % (where[n].file, n), '%s puts back %d of its %d marker arrays' % (n, len(got[n]), ks[0]))
        elif len(ks) > 1 and len(und[n]) + h < ks[1]: r.v('%s:undone' % n, '%s (%s)' % (where[n].file, n), '%s undoes %d of the %d sets of marks it used to undo' % (n, len(und[n]), ks[1]))

def helpers(P, f):
    """marker arrays handed to a routine that puts them back"""
    return len({w.base for w in accesses(f)[0] if w.val[0] == 'c' and any(range_writes(g, k, lambda v: v == ('c', 0)) for i, g, k in handed(P, f, w.base))})
