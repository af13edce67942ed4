from ir import *
from lib import *
import solvers
RULE = ("For every triangular solver: all stores to the unknowns are (a) a division x[r] := A / Lx[Lp[r+1]-1] and (b) a reduction "
        "over j in exactly [Lp[r], Lp[r+1]-1) of x[r] - Lx[j]*x[Li[j]] with the same row r (in memory or in a register), which completes "
        "before the division; neither is under a condition other than its loops' counting tests, and no other store or call writes x. "
        "Decided on LLVM IR with integer expressions in linear normal form.")
ASSUME = ["matrix rows are sorted with the diagonal entry last (the documented input form)", "the solver's argument roles are those of the table in agg/solvers.py"]

def prod_ok(f, e, ro, xval, xaddr_ok):
    """('fmul', ld Lx[J], ld x[ld Li[J]]) -> J"""
    if e[0] != 'fmul': return None
    for a, b in ((e[1], e[2]), (e[2], e[1])):
        if a[0] == 'ld' and b[0] == 'ld':
            ba, ja = split_elem(a[1]); bx, ix = split_elem(b[1])
            if ba == ('arg', ro['Lx']) and bx == ('arg', ro['x']) and ix[0] == 'ld':
                bl, jl = split_elem(ix[1])
                if bl == ('arg', ro['Li']) and jl == ja: return ja
    return None

def row_bounds(f, J, R, ro):
    t = iv_interval(f, J)
    if not t: return None, 'the entry index does not run over a counted loop'
    lo, hi, asc, L, iv = t
    Lp = ('arg', ro['Lp'])
    want_lo = ('ld', elem(Lp, R)); want_hi = add(('ld', elem(Lp, add(R, C(1)))), C(-1))
    if lo != want_lo: return None, 'the entry loop starts at %s instead of Lp[row]' % pretty(f, lo)
    if hi != want_hi: return None, 'the entry loop ends at %s instead of Lp[row+1]-1' % pretty(f, hi)
    if not clean_exits(f, L, iv): return None, 'the entry loop has another exit than its counting test'
    return L, None

def reduction(f, phi, ro, sign):
    """phi (non-iv) accumulating  phi -/+ prod : returns (start expr, J, loop, ins) or error"""
    i = f.vals[phi]
    if i.blk not in f.hdr: return None
    L = f.loops[f.hdr[i.blk]]
    start = None; J = None
    for o, b in zip(i.ops, i.inc):
        if b in L.blocks:
            e = f.expr(o)
            ok = False
            if sign < 0 and e[0] == 'fsub' and e[1] == ('phi', phi): p = e[2]; ok = True
            if sign > 0 and e[0] == 'fadd':
                if e[1] == ('phi', phi): p = e[2]; ok = True
                elif e[2] == ('phi', phi): p = e[1]; ok = True
            if not ok: return None
            j = prod_ok(f, p, ro, None, None)
            if j is None: return None
            if J is not None and J != j: return None
            J = j; ins = f.vals[o]
        else: start = f.expr(o)
    if J is None: return None
    return start, J, L, ins

def check(ctx, r):
    r.need('row updates', 9)
    P = ctx.prog('ser')
    for name, na, ro, chain, fs in solvers.find(P):
        if not fs:
            from build import AnalysisError
            raise AnalysisError('solver %s/%d not found' % (name, na))
        for f in fs:
            one(f, ro, r)

def one(f, ro, r):
    r.n('solvers')
    x = ('arg', ro['x'])
    tag = f.short + '/%d' % ro['x']
    def bad(kind, ins, msg): r.v('%s:%s' % (tag, kind), ins.where() if ins else f.short, msg)
    divs = []; upds = []
    for i in f.instrs():
        if i.op == 'store':
            b, idx = split_elem(f.expr(i.ops[1]))
            if root_of(b) == x or b == x:
                v = f.expr(i.ops[0])
                if b != x: bad('other-store', i, 'store to the unknowns through an unexpected address'); continue
                if v[0] == 'fdiv': divs.append((i, idx, v))
                else: upds.append((i, idx, v))
        elif i.op in ('call', 'invoke') and not (i.callee or '').startswith('llvm.'):
            for o in i.ops:
                if root_of(f.expr(o)) == x: bad('call', i, 'the unknowns are passed to %s' % (i.cdem or i.callee))
        elif i.op in ('call',) and (i.callee or '').startswith(('llvm.mem',)):
            if root_of(f.expr(i.ops[0])) == x: bad('mem', i, 'block write to the unknowns')
    if len(divs) != 1:
        bad('divisions', divs[1][0] if divs else None, 'expected exactly one division of a row by its diagonal, found %d' % len(divs)); return
    D, R, v = divs[0]
    Lp = ('arg', ro['Lp']); r.n('row updates')
    diag = ('ld', elem(('arg', ro['Lx']), add(('ld', elem(Lp, add(R, C(1)))), C(-1))))
    if v[2] != diag: bad('diagonal', D, 'row is divided by %s, not by its diagonal entry Lx[Lp[row+1]-1]' % pretty(f, v[2]))
    A = v[1]; xr = ('ld', elem(x, R))
    ex = extra_conditions(f, D.blk)
    if ex: bad('div-condition', D, 'the division only happens under the condition %s' % pretty(f, f.expr(ex[0][0].ops[0])))
    used = []; redloop = None
    def use_reg(e):
        nonlocal redloop
        # register reduction
        if e[0] == 'phi':
            q = reduction(f, e[1], ro, -1)
            if q and q[0] == xr: return q
        if e[0] == 'fsub' and e[1] == xr and e[2][0] == 'phi':
            q = reduction(f, e[2][1], ro, +1)
            if q and q[0] in (('f', '0.000000e+00'), ('f', '0'), ('f', '0.0')) or q and q[0][0] == 'f' and float_zero(q[0][1]): return q
        return None
    q = use_reg(A)
    if q:
        others = upds
        # an intermediate x[R] := sum store is harmless only if it is the same value
        for i, idx, vv in upds:
            bad('other-store', i, 'x[%s] is also assigned %s' % (pretty(f, idx), pretty(f, vv)))
        L, err = row_bounds(f, q[1], R, ro)
        if err: bad('range', D, err)
        elif extra_conditions(f, q[3].blk): bad('update-condition', q[3], 'an entry is only subtracted under the condition %s' % pretty(f, f.expr(extra_conditions(f, q[3].blk)[0][0].ops[0])))
        r.ok('%s: x[%s] reduced in a register over [Lp,Lp+1-1) then divided' % (tag, pretty(f, R)))
        return
    if A != xr:
        bad('dividend', D, 'the divided value is %s, not the reduced right-hand side of the row' % pretty(f, A)); return
    if len(upds) != 1:
        bad('updates', (upds[1][0] if len(upds) > 1 else D), 'expected one reduction of the row, found %d updates of x' % len(upds)); return
    U, RU, vu = upds[0]
    if RU != R: bad('update-row', U, 'the reduction writes x[%s] but the division x[%s]' % (pretty(f, RU), pretty(f, R))); return
    if vu[0] == 'fsub' and vu[1] == xr and vu[2][0] == 'fmul':
        J = prod_ok(f, vu[2], ro, None, None)
        if J is None: bad('product', U, 'subtracts %s instead of Lx[j]*x[Li[j]]' % pretty(f, vu[2])); return
        L, err = row_bounds(f, J, R, ro)
        if err: bad('range', U, err); return
        exu = extra_conditions(f, U.blk)
        if exu: bad('update-condition', U, 'an entry is only subtracted under the condition %s' % pretty(f, f.expr(exu[0][0].ops[0]))); return
        if D.blk in L.blocks: bad('order', D, 'the division is inside the entry loop'); return
        if not f.bdom(L.header, D.blk): bad('order', D, 'the division does not follow the reduction'); return
        lu = [l.id for l in f.loop_chain(U.blk)]; ld = [l.id for l in f.loop_chain(D.blk)]
        if lu[1:] != ld: bad('order', D, 'the reduction and the division belong to different row loops')
        r.ok('%s: x[%s] -= Lx[j]*x[Li[j]], j in [Lp[r],Lp[r+1]-1); /= Lx[Lp[r+1]-1]' % (tag, pretty(f, R)))
        return
    q = use_reg(vu)
    if q:
        L, err = row_bounds(f, q[1], R, ro)
        if err: bad('range', U, err)
        if extra_conditions(f, q[3].blk) or extra_conditions(f, U.blk): bad('update-condition', U, 'an entry is only subtracted under a condition')
        if not f.dom(U, D) or [l.id for l in f.loop_chain(U.blk)] != [l.id for l in f.loop_chain(D.blk)]: bad('order', D, 'the division does not follow the reduction')
        return
    bad('product', U, 'x[row] is assigned %s, not x[row] - Lx[j]*x[Li[j]]' % pretty(f, vu))

def float_zero(s):
    try: return float(s) == 0.0
    except ValueError:
        return s.lower().replace('0x', '').strip('0') == ''
