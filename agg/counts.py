"""Closed forms of counted totals: the final value of an accumulator or running position as an expression over the inputs
(sums of loop ranges, telescoping segment lengths), so that what is allocated can be compared with what is filled in."""
from ir import *
from lib import *
from cursors import *

class NoForm(Exception): pass

def subst(e, a, b):
    if e == a: return b
    if not isinstance(e, tuple): return e
    if e and e[0] == 'lin':
        out = C(e[1])
        for t, c in e[2]: out = add(out, scale(subst(t, a, b), c))
        return out
    if e and e[0] == 'elem': return elem(subst(e[1], a, b), subst(e[2], a, b))
    if e and e[0] == 'mul': return mul(subst(e[1], a, b), subst(e[2], a, b))
    return tuple(subst(x, a, b) for x in e)

def has(e, a): return mentions(e, lambda x: x == a)

class Totals:
    def __init__(s, f): s.f = f
    def value(s, r, inside=(), acc=None, depth=0):
        f = s.f
        if depth > 40: raise NoForm
        if not isinstance(r, str) or r[0] == 'a': return s.leaf(r, inside)
        if r == acc: return ('acc', r)
        i = f.vals[r]
        if i.op in ('sext', 'zext', 'trunc'): return s.value(i.ops[0], inside, acc, depth + 1)
        if i.op in ('add', 'sub'):
            a = s.value(i.ops[0], inside, acc, depth + 1); b = s.value(i.ops[1], inside, acc, depth + 1)
            return add(a, b) if i.op == 'add' else sub(a, b)
        if i.op == 'mul': return mul(s.value(i.ops[0], inside, acc, depth + 1), s.value(i.ops[1], inside, acc, depth + 1))
        if i.op == 'phi':
            if i.blk in f.hdr:
                L = f.loops[f.hdr[i.blk]]
                if L.id in inside:
                    if f.iv(i): return ('iv', r)
                    raise NoForm
                return s.after(i, L, inside, acc, depth)
            vs = {s.value(o, inside, acc, depth + 1) for o in i.ops}
            if len(vs) == 1: return vs.pop()
            raise NoForm
        return s.leaf(r, inside)
    def stored(s):
        if not hasattr(s, 'st'): s.st = {split_elem(s.f.expr(i.ops[1]))[0] for i in s.f.stores()}
        return s.st
    def leaf(s, r, inside):
        e = s.f.expr(r)
        def look(x):
            if isinstance(x, tuple):
                if x and x[0] == 'ld' and (split_elem(x[1])[0] in s.stored() or x[1] in s.stored()): raise NoForm
                if x and x[0] in ('iv', 'phi', 'rec', 'bphi', 'call', 'alloca') :
                    if x[0] != 'iv' or s.f.hdr.get(s.f.vals[x[1]].blk) not in inside: raise NoForm
                for y in x: look(y)
        look(e)
        return e
    def after(s, phi, L, inside, acc, depth):
        """value the header phi has when the loop has run"""
        f = s.f
        ex = f.loop_exits(L)
        if len(ex) != 1 or ex[0][0] != phi.blk: raise NoForm
        iv = None
        for j in f.blocks[phi.blk].ins:
            if j.op != 'phi': break
            if not f.iv(j): continue
            g = f.range(j.id)
            if g and g[1] is not None and g[2] == 1: iv = (j.id, g[0], g[1])
        if iv is None: raise NoForm
        init = delta = None
        for o, b in zip(phi.ops, phi.inc):
            if b in L.blocks:
                d = sub(s.value(o, inside + (L.id,), phi.id, depth + 1), ('acc', phi.id))
                if delta is not None and d != delta: raise NoForm
                delta = d
            else:
                v = s.value(o, inside, acc, depth + 1)
                if init is not None and init != v: raise NoForm
                init = v
        if init is None or delta is None or mentions(delta, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'acc'): raise NoForm
        lo, hi = s.fix(iv[1], inside), s.fix(iv[2], inside)
        return add(init, s.sum(delta, ('iv', iv[0]), lo, hi))
    def fix(s, e, inside):
        def look(x):
            if isinstance(x, tuple):
                if x and x[0] in ('phi', 'rec', 'bphi', 'call'): raise NoForm
                if x and x[0] == 'iv' and s.f.hdr.get(s.f.vals[x[1]].blk) not in inside: raise NoForm
                for y in x: look(y)
        look(e); return e
    def sum(s, d, iv, lo, hi):
        k, parts = lin_parts(d); n = sub(hi, lo)
        out = mul(C(k), n) if k else C(0)
        left = {}
        for t, c in parts.items():
            if has(t, iv): left[t] = c
            else: out = add(out, scale(mul(t, n), c))
        for t in list(left):
            u = subst(t, iv, add(iv, C(1)))
            while left.get(t) and left.get(u) and left[t] * left[u] < 0:
                c = 1 if left[u] > 0 else -1
                left[u] -= c; left[t] += c
                first = subst(t, iv, lo)
                # the first entry of an array of positions is zero
                out = add(out, scale(subst(t, iv, hi), c))
                if lo != C(0): out = add(out, scale(first, -c))
        for t, c in left.items():
            if not c: continue
            if t == iv: out = add(out, scale(('sum', lo, hi, ('#',)), c)); continue
            out = add(out, scale(('sum', lo, hi, subst(t, iv, ('#',))), c))
        return out

def align(d):
    """split sums over ranges that differ by a constant number of members"""
    for _ in range(8):
        k, parts = lin_parts(d)
        sums = [t for t in parts if t[0] == 'sum']
        done = True
        for a in sums:
            for b in sums:
                if a is b or a[3] != b[3] or a[1] != b[1]: continue
                m = const_diff(a[2], b[2])
                if m is None or not 1 <= m <= 3: continue
                c = parts[a]
                new = ('sum', b[1], b[2], b[3])
                rep = new
                for q in range(m): rep = add(rep, subst(a[3], ('#',), add(b[2], C(q))))
                d = add(sub(d, scale(a, c)), scale(rep, c)); done = False; break
            if not done: break
        if done:
            for a in sums:
                for b in sums:
                    if a is b or a[3] != b[3] or a[2] != b[2]: continue
                    m = const_diff(b[1], a[1])
                    if m is None or not 1 <= m <= 3: continue
                    rep = b
                    for q in range(m): rep = add(rep, subst(a[3], ('#',), add(a[1], C(q))))
                    c = parts[a]; d = add(sub(d, scale(a, c)), scale(rep, c)); done = False; break
                if not done: break
                edge = subst(a[3], ('#',), sub(a[2], C(1)))
                if parts.get(edge) and parts[edge] * parts[a] < 0:
                    c = parts[a]; rep = add(('sum', a[1], sub(a[2], C(1)), a[3]), edge)
                    d = add(sub(d, scale(a, c)), scale(rep, c)); done = False; break
        if done:
            # a sum and its last member on their own
            for a in sums:
                last = subst(a[3], ('#',), a[2])
                if parts.get(last) and parts[last] * parts[a] > 0:
                    q = [t for t in parts if t[0] == 'sum' and t[3] == a[3] and t[1] == a[1] and const_diff(t[2], a[2]) == 1]
                    c = 1 if parts[a] > 0 else -1
                    d = add(sub(sub(d, scale(a, c)), scale(last, c)), ('sum', a[1], add(a[2], C(1)), a[3]), c); done = False; break
            if done: return d
    return d

def grow(d):
    """every scalar argument written as 2 + something"""
    args = set()
    def look(x):
        if isinstance(x, tuple):
            if x and x[0] == 'arg': args.add(x); return
            if x and x[0] in ('ld', 'elem', 'sum'): return
            for y in x: look(y)
    look(d)
    for a in args: d = subst_top(d, a, add(a, C(2)))
    return d
def subst_top(e, a, b):
    if e == a: return b
    if e[0] == 'lin':
        out = C(e[1])
        for t, c in e[2]: out = add(out, scale(subst_top(t, a, b), c))
        return out
    if e[0] == 'mul': return mul(subst_top(e[1], a, b), subst_top(e[2], a, b))
    return e

def sign(d):
    """1: positive as soon as there is something to store, -1: negative, 0: equal, None: unknown"""
    d = align(d)
    if d == C(0): return 0
    k, parts = lin_parts(grow(d))
    cs = list(parts.values()) + ([k] if k else [])
    if all(c >= 0 for c in cs): return 1
    if all(c <= 0 for c in cs): return -1
    # entries of one array of positions at different indices: the later one is larger
    k, parts = lin_parts(d)
    up = dn = 0
    for t in list(parts):
        for u in list(parts):
            if parts.get(t, 0) > 0 and parts.get(u, 0) < 0:
                a, b = t, u
                if a[0] == b[0] == 'sum' and a[1:3] == b[1:3]: a, b = a[3], b[3]
                if a[0] == b[0] == 'ld' and split_elem(a[1])[0] == split_elem(b[1])[0]:
                    m = const_diff(split_elem(a[1])[1], split_elem(b[1])[1])
                    if m is None: continue
                    c = min(parts[t], -parts[u]); parts[t] -= c; parts[u] += c
                    if m > 0: up += 1
                    else: dn += 1
    parts = {t: c for t, c in parts.items() if c}
    if k == 0 and not parts and (up == 0) != (dn == 0): return 1 if up else -1
    # lengths held by different arrays have nothing to do with each other
    if k == 0 and parts and not up and not dn and all(t[0] == 'sum' and arrays_in(t) for t in parts):
        pos = set().union(*[arrays_in(t) for t, c in parts.items() if c > 0] or [set()]); ng = set().union(*[arrays_in(t) for t, c in parts.items() if c < 0] or [set()])
        if pos and ng and not pos & ng: return 1
    return None

def arrays_in(t):
    """the arguments the summed elements come from; none where something else takes part"""
    out = set()
    b = t[3]
    while b[0] in ('ld', 'elem'):
        b = b[1]
    return {b} if b[0] == 'arg' else set()

def fills(f):
    """(base, store, final position as a closed form) of arrays filled through one running position"""
    T = Totals(f); out = []
    for ms, down in webs(f):
        if down: continue
        top = [f.vals[x] for x in ms if f.vals[x].blk in f.hdr and len(f.loop_chain(f.vals[x].blk)) == 1]
        last = [p for p in top if all(q is p or f.bdom(q.blk, p.blk) for q in top)]
        if len(last) != 1: continue
        for st in f.stores():
            b, idx = addr_parts(f, st.ops[1])
            if len(idx) != 1: continue
            c, d = chain(f, idx[0])
            if not isinstance(c, str) or c not in ms: continue
            if f.iv(f.vals[c]) and len(ms) == 1: continue
            try: v = T.value(last[0].id)
            except NoForm: continue
            # the last position written: the cursor moves on by one after each store
            out.append((b, st, v, T))
    return out

def resolve(f, T, e):
    """an expression that mentions accumulators after their loops, in closed form"""
    if not isinstance(e, tuple): return e
    if e[0] in ('phi', 'iv'): return T.value(e[1])
    if e[0] == 'lin':
        out = C(e[1])
        for t, c in e[2]: out = add(out, scale(resolve(f, T, t), c))
        return out
    if e[0] == 'mul': return mul(resolve(f, T, e[1]), resolve(f, T, e[2]))
    if mentions(e, lambda x: isinstance(x, tuple) and len(x) > 0 and x[0] in ('phi', 'iv', 'rec', 'bphi', 'call')): raise NoForm
    return e
