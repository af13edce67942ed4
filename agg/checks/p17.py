"""P17 values move with their indices"""
from ir import *
from lib import *
from cursors import *
from arrays import *
RULE = ('For every store of a matrix value B.x[e] = c * A.x[s]: the index arrays of the same matrices (the i fields, or integer arrays used in the same loop for raw triples) must be read at the same s and written at the same e '
        '(same SSA position, no counter update in between), in the same loop; every store into a result\'s index array must have a value store at the same position in the same loop when the result carries values; '
        'no value is assigned to itself; an index array is never sorted after its values were stored.')
ASSUME = ['Companion arrays are the x and i fields of one matrix object; for raw arrays the integer arrays indexed in the same loop.']
MAT = ('CSC', 'CSR', 'BCSC')
def fname(f): return f.dem.split('(')[0].split(' ')[-1]

def vty(f, v):
    if isinstance(v, str): return f.argbyid[v]['ty'] if v[0] == 'a' and v in f.argbyid else f.vals[v].ty if v in f.vals else '?'
    return {'f': 'double', 'c': 'int', 'null': 'ptr'}.get(v[0], '?')

def matrix_of(base, fld):
    if base[0] == 'ld' and base[1][0] == 'fld' and base[1][2] in MAT and base[1][3] == fld: return base[1][1]
    return None

def idx_expr(f, idx):
    e = C(0)
    for x in idx: e = add(e, f.expr(x))
    return e

def load_refs(f, r, depth=0):
    """load instructions an index value is computed from (through arithmetic)"""
    out = []
    if not isinstance(r, str) or r[0] == 'a' or depth > 10: return out
    i = f.vals[r]
    if i.op == 'load': return [i]
    if i.op in ('add', 'sub', 'mul', 'sext', 'zext', 'trunc', 'shl'):
        for o in i.ops: out += load_refs(f, o, depth + 1)
    return out

def versions_agree(f, L, la, lb):
    """loads of the same cell: is there an update of the cell between them?"""
    A = f.expr(la.ops[0])
    if la.id == lb.id: return True
    if f.dom(lb, la): la, lb = lb, la
    if not f.dom(la, lb): return True
    for st in f.stores():
        if st.blk not in L.blocks: continue
        if f.expr(st.ops[1]) != A: continue
        if f.dom(la, st) and (f.dom(st, lb) or reach_within(f, L, st.blk, lb.blk, st.pos, lb.pos)): return False
    return True

def reach_within(f, L, a, b, pa, pb):
    if a == b: return pa < pb
    seen = set(); st = [t for t in f.blocks[a].succ if t in L.blocks and t != L.header]
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += [t for t in f.blocks[x].succ if t in L.blocks and t != L.header]
    return False

def same_pos(f, L, idx1, idx2):
    e1, e2 = idx_expr(f, idx1), idx_expr(f, idx2)
    if e1 != e2: return False
    l1 = [l for r in idx1 for l in load_refs(f, r)]; l2 = [l for r in idx2 for l in load_refs(f, r)]
    for a in l1:
        for b in l2:
            if f.expr(a.ops[0]) == f.expr(b.ops[0]) and not versions_agree(f, L, a, b): return False
    return True

def arr_loads(f, L, pred):
    out = []
    for b in L.blocks:
        for i in f.blocks[b].ins:
            if i.op == 'load':
                base, idx = addr_parts(f, i.ops[0])
                if pred(base, i): out.append((base, idx, i))
    return out

def nm(f, b): return pretty(f, b).lstrip('*')

def check_fn(P, f, r):
    xs = []; ist = []
    for st in f.stores():
        base, idx = addr_parts(f, st.ops[1])
        t = vty(f, st.ops[0])
        L = f.loop(st.blk)
        if t == 'double' or matrix_of(base, 'x') is not None:
            a = f.expr(st.ops[1])
            if f.expr(st.ops[0]) == ('ld', a):
                r.v('%s:%s:self' % (fname(f), nm(f, base)), st.where(), 'a value of %s is assigned to itself' % nm(f, base)); continue
            if L is not None and not is_rmw(f, st): xs.append((st, base, idx, L))
        elif t in ('i32', 'i64', 'int') and L is not None:
            ist.append((st, base, idx, L))
    for st, base, idx, L in xs:
        v = f.expr(st.ops[0])
        src = set()
        def walk(e):
            if isinstance(e, tuple) and e:
                if e[0] == 'ld':
                    b, s = split_elem(e[1]); src.add((b, s)); return
                for x in e: walk(x)
        ref = st.ops[0]
        # loads feeding the value
        lds = []
        stk = [ref]; n = 0
        while stk and n < 40:
            n += 1; x = stk.pop()
            if not isinstance(x, str) or x[0] == 'a' or x not in f.vals: continue
            i = f.vals[x]
            if i.op == 'load':
                if i.ty == 'double': lds.append(i)
                continue
            if i.op in ('fmul', 'fadd', 'fsub', 'fdiv', 'fneg'): stk += list(i.ops)
        Bm = matrix_of(base, 'x')
        moved = False
        for ld in lds:
            ab, ai = addr_parts(f, ld.ops[0])
            Am = matrix_of(ab, 'x')
            if f.loop(ld.blk) is not L: continue
            # triplet style records: value and indices live in the same element
            if Am is not None:
                comp = arr_loads(f, L, lambda b, i: matrix_of(b, 'i') is not None)
                own = [c for c in comp if matrix_of(c[0], 'i') == Am]
                if comp:
                    r.n('value moves')
                    if not any(same_pos(f, L, c[1], ai) for c in own):
                        r.v('%s:%s:source' % (fname(f), nm(f, base)), st.where(), 'the value stored into %s comes from %s[%s], but no row or column index of that entry is read in this loop' % (nm(f, base), nm(f, ab), pretty(f, idx_expr(f, ai))))
                    r.ok('%s: %s[..] = %s[%s] with its index' % (fname(f), nm(f, base), nm(f, ab), pretty(f, idx_expr(f, ai))))
            elif rec_of(f.expr(ld.ops[0])):
                k, el = rec_of(f.expr(ld.ops[0]))
                comp = [x for x in ist if x[3] is L and rec_of_val(f, x[0].ops[0]) and rec_of_val(f, x[0].ops[0])[0] == k]
                if Bm is not None: comp = [x for x in comp if matrix_of(x[1], 'i') == Bm]
                if comp:
                    r.n('value moves')
                    if not any(rec_of_val(f, x[0].ops[0])[1] == el for x in comp):
                        r.v('%s:%s:source' % (fname(f), nm(f, base)), st.where(), 'the value stored into %s comes from record %s, its index from another record' % (nm(f, base), pretty(f, el)))
            elif ab[0] == 'arg':
                se = idx_expr(f, ai)
                ivs = {t for t in lin_parts(se)[1] if t[0] in ('iv', 'phi')}
                comp = [c for c in arr_loads(f, L, lambda b, i: i.ty == 'i32' and b[0] == 'arg') if any(t in lin_parts(idx_expr(f, c[1]))[1] for t in ivs)]
                comp = [c for c in comp if f.loop(c[2].blk) is L]
                if comp and (Bm is not None or any(x[3] is L for x in ist)):
                    r.n('value moves'); moved = True
                    if not any(same_pos(f, L, c[1], ai) for c in comp):
                        r.v('%s:%s:source' % (fname(f), nm(f, base)), st.where(), 'the value stored into %s is read at position %s, but the indices of this entry are read elsewhere' % (nm(f, base), pretty(f, se)))
        if Bm is None and not moved:
            for ld in lds:
                ab, ai = addr_parts(f, ld.ops[0])
                if ab[0] == 'arg' and f.loop(ld.blk) is L and any(same_pos(f, L, x[2], ai) for x in ist if x[3] is L and not is_rmw(f, x[0]) and x[1] != base) and \
                        any(same_pos(f, L, c[1], idx) for c in arr_loads(f, L, lambda b, i: i.ty == 'i32' and b[0] == 'arg')):
                    r.v('%s:%s:source' % (fname(f), nm(f, base)), st.where(), 'source and destination positions are exchanged')
            continue
        # destination
        if Bm is not None:
            comp = [x for x in ist if x[3] is L and matrix_of(x[1], 'i') == Bm]
        else:
            comp = [x for x in ist if x[3] is L and not is_rmw(f, x[0]) and lds]
            comp = [x for x in comp if not is_scratch(f, x, L)]
        if comp:
            r.n('value destinations')
            if not any(same_pos(f, L, c[2], idx) for c in comp):
                r.v('%s:%s:dest' % (fname(f), nm(f, base)), st.where(), 'the value is stored at %s[%s], but no index is stored at that position' % (nm(f, base), pretty(f, idx_expr(f, idx))))
    # every emitted index carries its value
    byM = {}
    for st, base, idx, L in xs:
        m = matrix_of(base, 'x')
        if m is not None: byM.setdefault(m, []).append((st, idx, L))
    for st, base, idx, L in ist:
        m = matrix_of(base, 'i')
        if m is None or m not in byM: continue
        if is_rmw(f, st): continue
        here = [x for x in byM[m] if x[2] is L]
        r.n('index stores of valued matrices')
        if not here:
            # a separate loop may fill all values afterwards: it must cover positions from a load of the index (gather) or the same range
            if gathered(f, base, byM[m]): continue
            if any(not set(x[2].blocks) & set(L.blocks) for x in byM[m]) and all_separate(f, byM[m], L): 
                continue
            if flag_branch(f, st, byM[m]): continue
            r.v('%s:%s:dropped' % (fname(f), nm(f, base)), st.where(), 'an index is stored into %s but its value is not stored' % nm(f, base)); continue
        if gathered(f, base, byM[m]): continue
        same = [x[0] for x in here if same_pos(f, L, x[1], idx)]
        if not same or not ctl_ok(f, st, same, L):
            r.v('%s:%s:dropped' % (fname(f), nm(f, base)), st.where(), 'an index is stored into %s[%s] but on that path no value is stored at the same position' % (nm(f, base), pretty(f, idx_expr(f, idx))))
    # sorting an index array whose values are already in place
    for i in f.instrs():
        if i.op in ('call', 'invoke') and i.cdem and short_of(i.cdem) in ('sort', 'stable_sort', 'reverse', 'random_shuffle') and i.ops:
            e = f.expr(i.ops[0])
            b, _ = split_elem(e)
            m = matrix_of(b, 'i')
            if m is None or m not in byM: continue
            r.n('sorted index arrays')
            for st, idx, L in byM[m]:
                if not f.dom(i, st) and not gathered(f, b, [(st, idx, L)]):
                    r.v('%s:%s:sort' % (fname(f), nm(f, b)), i.where(), 'the indices of %s are reordered without their values' % nm(f, b)); break

def gathered(f, base, lst):
    """the values are fetched through the stored indices afterwards: Cx[p] = x[Ci[p]]"""
    for st, idx, L in lst:
        for e in lds_of(f.expr(st.ops[0])):
            b, s = split_elem(e)
            if b == base and any(add(s, f.expr(k), -1) == C(0) for k in idx): return True
    return False

def lds_of(e):
    out = []
    if isinstance(e, tuple):
        if e and e[0] == 'ld': out.append(e[1])
        for x in e: out += lds_of(x)
    return out

def rec_of(a):
    """address of a field of an array element of struct type -> (struct, element)"""
    if a[0] == 'fld' and a[1][0] == 'elem': return a[2], a[1]
    return None

def rec_of_val(f, v):
    if not isinstance(v, str): return None
    for a in lds_of(f.expr(v)):
        k = rec_of(a)
        if k: return k
    return None

def is_scratch(f, x, L):
    """int stores that are not outputs: constants (marks)"""
    v = x[0].ops[0]
    return not isinstance(v, str)

def all_separate(f, lst, L):
    def runs_to(a, b):
        seen = set(); st = [a]
        while st:
            x = st.pop()
            if x == b: return True
            if x in seen: continue
            seen.add(x); st += f.blocks[x].succ
        return False
    lst = [x for x in lst if runs_to(L.header, x[2].header) or runs_to(x[2].header, L.header)]
    return bool(lst) and all(x[2] is not L and L.header not in x[2].blocks and x[2].header not in L.blocks for x in lst)

def flag_branch(f, st, lst):
    """the loop without value stores is the pattern-only alternative"""
    a = {(f.expr(T.ops[0]), k) for T, k in ((f.blocks[b].term, k) for b, k in f.cdeps(st.blk)) if T.ops and T.op == 'br'}
    for x in lst:
        c = {(f.expr(T.ops[0]), k) for T, k in ((f.blocks[b].term, k) for b, k in f.cdeps(x[0].blk)) if T.ops and T.op == 'br'}
        if any((e, 1 - k) in c and absent_test(f, e) for e, k in a): return True
    return False

def absent_test(f, e):
    """a test of whether values are there or wanted"""
    if mentions(e, lambda x: x[0] == 'fld' and ('pattern' in str(x[3]) or str(x[3]) == 'x')): return True
    for _ in range(3):
        if e[0] == 'not': e = e[1]
        elif e[0] == 'cmp' and e[3][0] == 'c': e = e[2]
        elif e[0] in ('and', 'trunc') : e = e[1]
    if e[0] in ('phi', 'bphi'):
        return any(absent_test(f, f.expr(o)) for o in f.vals[e[1]].ops if f.expr(o) != e and f.expr(o)[0] not in ('phi', 'bphi', 'c'))
    return e[0] == 'arg'

def ctl_ok(f, a, bs, L):
    """every iteration that executes a also executes one of the stores bs, except where a pattern / null / invariant test decides otherwise"""
    blks = {x.blk for x in bs}
    if a.blk in blks: return True
    cut = set()
    for x in bs:
        for t, k in f.cdeps(x.blk):
            T = f.blocks[t].term
            if not T.ops or T.op != 'br' or t == L.header: continue
            c = f.expr(T.ops[0])
            if mentions(c, lambda e: e[0] == 'null' or e[0] == 'fld' and 'pattern' in str(e[3])) or not varies(f, c, L):
                for s in f.blocks[t].succ:
                    if not any(s == y or reaches(f, L, s, y, t) for y in blks): cut.add((t, s))
    def reach(x, goal):
        seen = set(); st = [x]
        while st:
            y = st.pop()
            if y in goal: return True
            if y in seen or y in blks or y not in L.blocks: continue
            seen.add(y)
            st += [t for t in f.blocks[y].succ if (y, t) not in cut and (t != L.header or t in goal)]
        return False
    return not (reach(L.header, {a.blk}) and any(t == L.header or (a.blk, t) not in cut and reach(t, {L.header}) for t in f.blocks[a.blk].succ))

def reaches(f, L, s, y, avoid):
    seen = set(); st = [s]
    while st:
        x = st.pop()
        if x == y: return True
        if x in seen or x not in L.blocks or x == avoid: continue
        seen.add(x); st += [t for t in f.blocks[x].succ if t != L.header]
    return False

def varies(f, e, L):
    if not isinstance(e, tuple) or not e: return False
    if e[0] in ('iv', 'phi', 'bphi'): return f.vals[e[1]].blk in L.blocks
    if e[0] == 'call': return f.vals[e[2]].blk in L.blocks
    return any(varies(f, x, L) for x in e if isinstance(x, tuple))

def check(ctx, r):
    P = ctx.prog('ser')
    for f in P.fns.values():
        if not f.file or 'sptrsv_src' in f.file: continue
        r.n('functions'); check_fn(P, f, r)
    r.need('functions', 100); r.need('value moves', 8); r.need('value destinations', 8); r.need('index stores of valued matrices', 8)
