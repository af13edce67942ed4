"""Shared analyses used by several checks."""
from ir import *

def root_of(e):
    """root object of an address or pointer expression"""
    while True:
        k = e[0]
        if k in ('elem', 'fld', 'arr'): e = e[1]
        elif k == 'ld': return e
        else: return e

def single(f, e):
    """follow a variable kept in memory (address taken) to the only value ever stored in it"""
    if e[0] == 'ld' and e[1][0] == 'alloca':
        st = [u for u in f.users.get(e[1][1], []) if u.op == 'store' and u.ops[1] == e[1][1]]
        if len(st) == 1: return f.expr(st[0].ops[0])
    return e

def deep(f, e, d=0):
    """e with every such variable replaced by its only value"""
    if not isinstance(e, tuple) or d > 12: return e
    x = single(f, e)
    if x != e: return deep(f, x, d + 1)
    if e and e[0] == 'lin':
        out = C(e[1])
        for a, c in e[2]: out = add(out, scale(deep(f, a, d + 1), c))
        return out
    if e and e[0] == 'mul': return mul(deep(f, e[1], d + 1), deep(f, e[2], d + 1))
    return tuple(deep(f, t, d + 1) if isinstance(t, tuple) else t for t in e)

def loads_arg(e):
    """('arg',k) if the pointer expression is (an element of) argument k"""
    b, i = split_elem(e)
    return b if b[0] == 'arg' else None

def iv_interval(f, j):
    """for an index expression j = iv + rest (rest invariant in the iv's loop):
    (lo, hi_exclusive, ascending, loop, ivid) else None"""
    k, parts = lin_parts(j)
    ivs = [a for a in parts if a[0] == 'iv']
    # innermost iv: the one whose loop is nested deepest
    ivs.sort(key=lambda a: -len(f.loop_chain(f.vals[a[1]].blk)))
    for a in ivs:
        if abs(parts[a]) != 1: return None
        r = f.range(a[1])
        if not r or r[1] is None or abs(r[2]) != 1: return None
        st, hi, step, L = r
        if step == 1: lo, up = st, hi
        else: lo, up = add(hi, C(1)), add(st, C(1))
        rest = sub(j, a) if parts[a] == 1 else add(j, a)
        if parts[a] == 1: return (add(lo, rest), add(up, rest), step == 1, L, a[1])
        # decreasing function of iv: j = rest - iv
        return (add(sub(rest, up), C(1)), add(sub(rest, lo), C(1)), step == -1, L, a[1])
    return None

def clean_exits(f, L, ivid):
    """the loop leaves only through its own counting test"""
    ex = f.loop_exits(L)
    bs = {T.id for _, _, T in f.bound(ivid)}
    return all(f.blocks[b].term.id in bs for b, k, t in ex) and len({b for b, k, t in ex}) == 1

def counting_tests(f, L):
    """terminators of L that test an induction variable against its bound"""
    out = set()
    for i in f.blocks[L.header].ins:
        if i.op != 'phi': break
        if f.iv(i):
            for p, b, T in f.bound(i.id): out.add(T.id)
    return out

def trivially_skips(f, term, succ):
    """branch at term taken towards succ; the other side is only taken when there is
    nothing to do: an argument count that is zero/negative or a null pointer"""
    if term.op != 'br' or not term.ops: return False
    c = f.expr(term.ops[0])
    if succ == 1: c = neg(c)
    # c holds on the working side
    if c[0] != 'cmp': return False
    p, a, b = c[1], c[2], c[3]
    if b == ('null',) or a == ('null',): return p == 'ne'
    if a[0] == 'arg' and b == C(0): return p in ('ne',)
    if a in (C(0),) and b[0] == 'arg': return p in ('slt',)       # 0 < n
    if a == C(1) and b[0] == 'arg': return p in ('sle',)
    if a == C(0) and b[0] == 'arg' and p == 'sle': return True      # 0 <= n
    return False

def emptiness_guard(f, term, succ, loops):
    """zero-trip guard of one of the loops"""
    c = f.expr(term.ops[0]) if term.ops else None
    if c is None or c[0] != 'cmp': return False
    if succ == 1: c = neg(c)
    if c[0] != 'cmp': return False
    for L in loops:
        for i in f.blocks[L.header].ins:
            if i.op != 'phi': break
            if f.iv(i):
                r = f.range(i.id)
                if r and r[1] is not None:
                    lo, hi = (r[0], r[1]) if r[2] > 0 else (r[1], r[0])
                    # lo < hi
                    if c[1] == 'slt' and sub(c[2], c[3]) == sub(lo, hi): return True
                    if c[1] == 'sle' and sub(c[2], c[3]) == add(sub(lo, hi), C(1)): return True
                    if c[1] == 'ne' and sub(c[2], c[3]) in (sub(lo, hi), sub(hi, lo)): return True
    return False

def extra_conditions(f, blk, allow=None):
    """control dependences of blk that are neither counting tests of enclosing loops nor emptiness guards"""
    chain = f.loop_chain(blk)
    cnt = set()
    for L in chain: cnt |= counting_tests(f, L)
    out = []
    for a, k in sorted(f.cdeps(blk)):
        T = f.blocks[a].term
        if T.id in cnt: continue
        if trivially_skips(f, T, k): continue
        if emptiness_guard(f, T, k, chain): continue
        if allow and allow(T, k): continue
        # a counting test of a loop that does not contain blk but finishes before it
        L = f.loop(a)
        if L and L not in chain and blk not in L.blocks and T.id in counting_tests(f, L): continue
        out.append((T, k))
    return out
