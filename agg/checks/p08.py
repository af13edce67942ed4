"""Accesses stay inside the arrays."""
from ir import *
from lib import *
from arrays import *
from extents import *
from checks import p06, p07
import re, bounds2
RULE = ("For each array whose size the source fixes (allocation count, vector size, fixed local array, class contract of the matrix types, or the documented size of a public routine's parameter) "
        "every access indexed by loop counters and constants is bounded: the largest index its counted loops reach must stay below the size, the smallest must not be negative. "
        "Requirements on array parameters are inferred from the routine's own accesses and carried to every call site, in the caller's terms. Block operations (memset, fill, copy) are "
        "held to the same limit, and an array of segment boundaries filled through a running position needs one entry more than it has segments.")
ASSUME = ["indices read from arrays (row indices, permutations) lie in their documented ranges", "sizes that cannot be compared symbolically are taken as consistent"]

def atoms(f, e, acc=None, d=0):
    """counters, sizes and values an expression depends on, loop bounds included"""
    acc = set() if acc is None else acc
    if not isinstance(e, tuple) or not e: return acc
    if e[0] in ('iv', 'rf') and e not in acc:
        acc.add(e)
        r = f.range(e[1]) if e[0] == 'iv' else None
        if r and d < 4:
            for x in r[:2]: atoms(f, x, acc, d + 1)
    elif e[0] in ('phi', 'bphi', 'arg', 'alloca', 'heap', 'call', 'rec'): acc.add(e)
    for x in e:
        if isinstance(x, tuple): atoms(f, x, acc, d)
    return acc

def blk_dom(f, x, b):
    while b is not None:
        if b == x: return True
        b = f.blocks[b].idom
    return False

def solve(c, v):
    """condition as a bound on the counter v: ('<='|'>='|'eq'|'ne', expression), or None"""
    if c[0] != 'cmp': return None
    d = sub(c[2], c[3]); k, parts = lin_parts(d)
    q = parts.get(v, 0)
    if abs(q) != 1: return None
    rest = sub(d, scale(v, q))
    if mentions(rest, lambda x: x == v): return None
    e = scale(rest, -q)                          # q*v + rest OP 0  ->  v OP' e
    op = c[1].lstrip('su') if c[1] not in ('eq', 'ne') else c[1]
    if q < 0: op = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
    return {'lt': ('<=', add(e, C(-1))), 'le': ('<=', e), 'gt': ('>=', add(e, C(1))), 'ge': ('>=', e), 'eq': ('eq', e), 'ne': ('ne', e)}.get(op)

def guards(f, X, blk, idx=None, base=None):
    """None: a condition sharing values with the access may be its bound check; otherwise the bounds conditions put on counters"""
    at = (atoms(f, idx) | atoms(f, base)) if idx is not None else None
    out = {}
    for T, k in extra_conditions(f, blk):
        if not T.ops: continue
        c = f.expr(T.ops[0])
        if at is not None and not mentions(c, lambda x: x[0] == 'bphi') and not at & atoms(f, c): continue
        if mentions(c, lambda x: x[0] == 'null'): continue
        if k: c = neg(c)
        if c[0] == 'not': c = c[1] if c[1][0] != 'cmp' else neg(c[1])
        if c[0] == 'bphi': return None
        if c[0] == 'cmp' and (c[1] in ('eq', 'ne') or 'c' in (c[2][0], c[3][0])) and not mentions(c, lambda x: x[0] in ('iv', 'phi', 'size', 'rf')): continue
        if c[0] == 'cmp' and idx is not None:
            ivs = [a for a in lin_parts(sub(c[2], c[3]))[1] if a[0] == 'iv' and a in at]
            if ivs and not mentions(c, lambda x: x[0] in ('phi', 'bphi', 'size', 'rf', 'rec', 'xv')):
                s = f.blocks[T.blk].succ[k]
                holds = f.blocks[s].pred == [T.blk] and blk_dom(f, s, blk)
                bad = False
                for v in ivs:
                    b = solve(c, v)
                    if b is None: bad = True
                    elif holds: out.setdefault(v, []).append(b)
                    elif b[0] == 'eq' and (f.range(v[1]) or [0, None])[1] is not None and X.norm(f, add(b[1], C(1))) == X.norm(f, f.range(v[1])[1]) and f.range(v[1])[2] == 1: pass
                    elif b[0] == 'ne' : out.setdefault(v, []).append(b)
                    elif b[0] == 'eq' and b[1] == (f.range(v[1]) or [None])[0]: pass
                    else: bad = True
                if bad: return None
                continue
        if T.blk in f.hdr and f.loop(T.blk) and blk in f.loop(T.blk).blocks and c[0] == 'cmp' and not touches(f, c): return None
        if c[0] == 'cmp' and not touches(f, c): return None
        if c[0] == 'cmp' and mentions(c, lambda x: x[0] in ('iv', 'phi', 'size')) and not data_only(c): return None
    return out

def cond_on_sizes(f, blk, idx=None, base=None, X=None):
    return guards(f, X, blk, idx, base) is None

def library_object(f, b):
    while b[0] in ('ld', 'fld', 'arr') and isinstance(b[1], tuple): b = b[1]
    if b[0] == 'arg':
        t = p06.params(f)[b[1]] or ''
        return 'std::' in t and 'vector' not in t
    return b[0] == 'alloca' and 'std::' in (f.vals[b[1]].aty or f.vals[b[1]].sty or '')

def touches(f, c):
    """the condition looks at array contents"""
    return mentions(c, lambda x: x[0] == 'ld' and x[1][0] in ('elem', 'data', 'heap') or x[0] in ('vb', 'bitref') or x[0] == 'ld' and x[1][0] == 'arg')

def data_only(c):
    """both sides are contents or constants (counters only inside subscripts)"""
    def side(e): return not any(a[0] in ('iv', 'phi', 'size') for a in lin_parts(e)[1])
    return side(c[2]) and side(c[3])

def accesses(P, X, f):
    """(base, largest+1, smallest, instr) for loop-indexed accesses"""
    for i in f.instrs():
        if i.op in ('load', 'store'):
            a = f.expr(i.ops[0] if i.op == 'load' else i.ops[1])
            b, k = split_elem(a)
            if b[0] not in ('arg', 'heap', 'data', 'ld', 'arr', 'call') or b[0] == 'ld' and root_of(b[1])[0] == 'g' or b[0] == 'ld' and b[1][0] == 'call': continue
            if b[0] == 'arg' and k == C(0) : continue
            yield b, k, k, i
        elif i.op in ('call', 'invoke'):
            c = i.callee or ''; n = short_of(i.cdem or '') or c
            if c.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                for q in ((0,) if 'memset' in c else (0, 1)):
                    b, k = split_elem(f.expr(i.ops[q]))
                    if b[0] == 'heap' and heap_zeroed(f, b) and f.expr(i.ops[2]) == f.expr(f.vals[b[1]].ops[0]): continue
                    es = X.esz(f, b) or esz_guess(f, b)
                    m = bytes_count(f, i.ops[2], es) if es else None
                    if m is not None: yield b, add(k, add(m, C(-1))), k, i
            elif n == 'fill_n' and len(i.ops) >= 2:
                b, k = split_elem(f.expr(i.ops[0])); yield b, add(k, add(f.expr(i.ops[1]), C(-1))), k, i
            elif n in ('fill', 'copy', 'reverse', 'sort') and len(i.ops) >= 2:
                b, k = split_elem(f.expr(i.ops[0])); b2, k2 = split_elem(f.expr(i.ops[1]))
                if b == b2 and b[0] != 'begin':
                    yield b, add(k2, C(-1)), k, i
                    if n == 'copy' and len(i.ops) > 2:
                        b3, k3 = split_elem(f.expr(i.ops[2]))
                        yield b3, add(k3, add(sub(k2, k), C(-1))), k3, i
                elif n == 'copy' and len(i.ops) > 2 and b[0] == 'begin' and b2[0] == 'end' and b[1] == b2[1]:
                    b3, k3 = split_elem(f.expr(i.ops[2]))
                    if b3[0] != 'begin': yield b3, add(k3, add(('size', b[1]), C(-1))), k3, i
            elif i.ops and isinstance(i.ops[0], str) and re.match(r'(?:[\w:<>*& ]* )?std::(?:vector|list|deque|set)<', i.cdem or ''):
                b, k = split_elem(f.expr(i.ops[0]))
                if b[0] == 'data': yield b, k, k, i
            elif c == 'fgets' and len(i.ops) > 1:
                b, k = split_elem(f.expr(i.ops[0])); yield (b if b[0] != 'alloca' else ('arr', b)), add(k, add(f.expr(i.ops[1]), C(-1))), k, i

def esz_guess(f, b):
    for u in f.instrs():
        if u.op in ('load', 'store'):
            x, k = split_elem(f.expr(u.ops[0] if u.op == 'load' else u.ops[1]))
            if x == b:
                t = u.ty if u.op == 'load' else (f.vals[u.ops[0]].ty if isinstance(u.ops[0], str) and u.ops[0] in f.vals else u.sty)
                if t and esize(t): return esize(t)
    return None

def over(need, ext):
    """need (largest index + 1) certainly exceeds ext"""
    d = sub(need, ext)
    if d[0] == 'c': return d[1] if d[1] > 0 else None
    k, p = lin_parts(d)
    return k + sum(p.values()) if k + sum(p.values()) > 0 else None       # at the smallest sizes
def settled(need, ext):
    d = sub(need, ext)
    if d[0] == 'c': return True
    k, p = lin_parts(d)
    return need[0] == 'c' and all(c < 0 and at_least_one(a) for a, c in p.items())
def at_least_one(a):
    """a matrix dimension or node count: valid inputs have at least one row"""
    return a[0] == 'arg' or a[0] == 'ld' and (a[1][0] == 'arg' or a[1][0] == 'fld' and a[1][3] in ('n', 'm', 'ncol', 'nodes')) or a[0] == 'mul' and all(at_least_one(x) for x in a[1:])

def judge(need, exts):
    """None, or the violated extent: only when comparable with one and within none"""
    cmpb = [e for e in exts if settled(need, e)]
    if not cmpb: return False, None
    if any(over(need, e) is None for e in cmpb): return True, None
    return True, cmpb[0]

def tops(f, X, g, sign):
    """replacements of counters by the limits conditions put on them (each alternative is a valid limit)"""
    alts = [{}]
    for v, bs in g.items():
        r = f.range(v[1])
        for k, e in bs:
            if k == 'eq': alts.append({v: e})
            elif k == '<=' and sign > 0 or k == '>=' and sign < 0: alts.append({v: e})
            elif k == 'ne' and r and r[1] is not None and abs(r[2]) == 1:
                last = add(r[1], C(-1)) if r[2] == 1 else r[0]; first = r[0] if r[2] == 1 else add(r[1], C(1))
                if sign > 0 and X.norm(f, e) == X.norm(f, last): alts.append({v: add(last, C(-1))})
                if sign < 0 and X.norm(f, e) == X.norm(f, first): alts.append({v: add(first, C(1))})
    return alts

class Req:
    """what a routine's parameters must provide: (function, k) -> {need expr: (instr, text)}"""
    def __init__(s): s.d = {}

def running(f, a):
    """a memory cell the function itself moves: a running position"""
    c = f.__dict__.setdefault('_cells', None)
    if c is None:
        c = f._cells = {f.expr(i.ops[1]) for i in f.stores() if p07.self_update(f, i)}
    return a in c

def arg_terms(e):
    """only parameters, constants and what they refer to"""
    return not mentions(e, lambda x: x[0] in ('iv', 'phi', 'bphi', 'alloca', 'heap', 'call', 'rf', 'rec', 'undef', 'op', 'xv', 'rmw', 'sel', 'max', 'min'))

def docs():
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'extents.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            w = l.rstrip('\n').split(' ', 2)
            if len(w) == 3 and w[0][0] != '#': out.setdefault((w[0], int(w[1])), []).append(eval(w[2]))
    return out

def infer(P, X, r=None):
    """collect accesses once, then carry parameter needs to callers"""
    req = {}; local = []
    fs = [f for f in P.fns.values() if p07.repo(f)]
    for f in fs:
        for b, kmax, kmin, i in accesses(P, X, f):
            g = guards(f, X, i.blk, kmax, b)
            if g is None: continue
            if any(t[0] == 'ld' and running(f, t[1]) for t in lin_parts(kmax)[1]): continue
            his = [X.reach(f, kmax, True, top=t) for t in tops(f, X, g, 1)]; los = [X.reach(f, kmin, False, top=t) for t in tops(f, X, g, -1)]
            hi = None if None in his else his; lo = None if None in los else los
            if hi is None and lo is None: continue
            hi = tuple(sorted({add(h, C(1)) for h in hi}, key=repr)) if hi else None
            local.append((f, b, hi, tuple(los) if lo else None, i))
            if b[0] == 'arg' and hi and len(hi) == 1:
                n = hi[0]
                if arg_terms(n): req.setdefault((f.name, b[1]), {}).setdefault(n, i)
    carried = []
    work = dict(req)
    for rnd in range(5):
        new = {}
        for f in fs:
            for i in f.instrs():
                if i.op not in ('call', 'invoke') or i.callee not in P.fns: continue
                g = P.fns[i.callee]
                for k, o in enumerate(i.ops):
                    needs = work.get((g.name, k))
                    if not needs or not isinstance(o, str): continue
                    b, off = split_elem(f.expr(o))
                    for n, at in needs.items():
                        y = X.subst(n, g, f, i)
                        if y is None: continue
                        gd = guards(f, X, i.blk, add(y, off), b)
                        if gd is None: continue
                        y = X.norm(f, add(y, off))
                        ys = [X.reach(f, add(y, C(-1)), True, top=t) for t in tops(f, X, gd, 1)]
                        if None in ys: continue
                        ys = tuple(sorted({add(q, C(1)) for q in ys}, key=repr)); y = ys[0]
                        carried.append((f, b, ys, None, i))
                        if len(ys) > 1: continue
                        if b[0] == 'arg' and arg_terms(y) and y not in req.get((f.name, b[1]), {}): new.setdefault((f.name, b[1]), {})[y] = i
        for k, v in new.items(): req.setdefault(k, {}).update(v)
        if not new: break
        work = new
    return req, local, carried

def sizings(f):
    """(array as named by its uses, element count, instr) for every operation that fixes an array's size"""
    for i in f.instrs():
        if i.op not in ('call', 'invoke') or not i.ops: continue
        c = i.callee or ''; d = (i.cdem or '').split('(')[0]; n = short_of(i.cdem or '')
        e = f.expr('%s' % i.id) if i.id else None
        if e and e[0] == 'heap': yield [e, slot(f, e)], None, i
        elif 'std::vector<' in d and n in ('vector', 'resize', 'assign'):
            v = f.expr(i.ops[0])
            if (n == 'resize' or (i.cdem or '').split('(', 1)[1].startswith('unsigned long')) and len(i.ops) > 1:
                yield [v, ('data', v)], f.expr(i.ops[1]), i

def member(a):
    """class and member name of an array kept in an object"""
    while a and a[0] in ('ld', 'data'): a = a[1]
    return a[2:4] if a and a[0] == 'fld' else None

def boundary_sizes(P, X, fs, r):
    """arrays of segment boundaries hold one entry more than they have segments"""
    res, BP = boundaries(P, fs)
    mem = {member(b) for bs in res.values() for b in bs} - {None}
    for f in fs:
        bs = res[f.name] | {('ld', ('arg', k)) for k in range(len(f.args)) if (f.name, k) in BP} | {('arg', k) for k in range(len(f.args)) if (f.name, k) in BP}
        for names, n, i in sizings(f):
            if not any(b in bs or member(b) in mem for b in names): continue
            if n is None: n = alloc_count(f, names[0], X.esz(f, names[0]) or 4)
            if n is None: continue
            n = X.norm(f, n); k, parts = lin_parts(n)
            r.n('boundary arrays sized')
            if k <= 0 and len(parts) == 1 and list(parts.values()) == [1] and dimension(list(parts)[0]):
                nm = pretty(f, names[-1]).lstrip('*')
                r.v('%s:%s' % (f.dem.split('(')[0], nm), i.where(), 'array of segment boundaries %s holds %s elements: no room for the closing boundary' % (nm, pretty(f, n)))

def dimension(t):
    """a count of rows, nodes, levels, parts: not the size of another array"""
    if t[0] == 'mul': return all(dimension(x) for x in t[1:])
    return t[0] in ('arg', 'call', 'phi', 'bphi', 'iv', 'rf') or t[0] == 'ld' and t[1][0] in ('arg', 'fld', 'alloca', 'elem')

def contract_sizes(P, X, fs, r):
    """an array put into a matrix object has the size the class promises"""
    for f in fs:
        for i in f.stores():
            a, v = f.expr(i.ops[1]), f.expr(i.ops[0])
            if a[0] != 'fld': continue
            nm = fieldname(P, a); q = CONTRACT.get((a[2], nm))
            if not q: continue
            h = v if v[0] == 'heap' else heap_of(f, v) if v[0] == 'ld' else None
            if not h: continue
            n = alloc_count(f, h, 8 if nm == 'x' else 4)
            if n is None: continue
            want = add(X.norm(f, field_now(P, f, a[1], a[2], q[0])), C(q[1])); n = X.norm(f, n)
            d = sub(want, n)
            r.n('arrays put into matrix objects')
            if d[0] == 'c' and d[1] > 0:
                r.v('%s:%s' % (f.dem.split('(')[0], nm), i.where(), 'member %s of a %s is given %s elements, the class promises %s' % (nm, a[2], pretty(f, n), pretty(f, want)))

def check(ctx, r):
    P = ctx.prog('ser'); X = Ext(P)
    r.need('functions', 120); r.need('accesses bounded', 150)
    fs = [f for f in P.fns.values() if p07.repo(f)]
    boundary_sizes(P, X, fs, r); contract_sizes(P, X, fs, r)
    r.need('boundary arrays sized', 20); r.need('arrays put into matrix objects', 5)
    bounds2.vector_loops(P, fs, r, guards, X); bounds2.segment_loops(P, fs, r); bounds2.short_positions(P, fs, r, X); bounds2.filled_totals(P, fs, r, X); bounds2.past_end(P, fs, r, X); bounds2.no_room(P, fs, r); bounds2.scans(P, fs, r); bounds2.first_positions(P, fs, r, X); bounds2.empty_containers(P, fs, r)
    req, local, carried = infer(P, X)
    r.n('functions', sum(1 for f in P.fns.values() if p07.repo(f)))
    seen = set()
    for f, b, hi, lo, i in local + carried:
        key = (f.name, b, hi, lo, i.id)
        if key in seen: continue
        seen.add(key)
        call = i.op in ('call', 'invoke') and i.callee in P.fns
        nm = pretty(f, b).lstrip('*')
        if lo is not None and all(q[0] == 'c' and q[1] < 0 for q in lo) and not library_object(f, b):
            r.v('%s:%s' % (f.dem.split('(')[0], nm), i.where(), 'array %s is accessed at index %d' % (nm, lo[0][1]))
        if hi is None: continue
        if b[0] == 'arg': continue
        ex = X.of(f, b)
        if not ex: r.n('accesses without a known size'); continue
        js = [judge(h, ex) for h in hi]
        if not all(j[0] for j in js): r.n('sizes not comparable'); continue
        bad = js[0][1] if all(j[1] is not None for j in js) else None
        hi = hi[0]
        r.n('sizes at calls' if call else 'accesses bounded')
        if bad is not None:
            r.v('%s:%s' % (f.dem.split('(')[0], nm), i.where(), 'array %s holds %s elements but %s reaches %s' % (nm, pretty(f, bad), 'the call of %s' % short_of(i.cdem or '') if call else 'the access', pretty(f, add(hi, C(-1)))))
    D = docs()
    for (fn, k), needs in req.items():
        f = P.fns[fn]
        d = D.get((fn, k))
        for n, i in needs.items():
            if n[0] == 'c' and n[1] <= 1: continue
            if not d: r.n('parameters without documented size'); continue
            ok, bad = judge(n, d)
            if ok: r.n('parameter needs compared')
            if bad is not None:
                r.v('%s:%s' % (f.dem.split('(')[0], f.args[k]['n']), i.where(), 'parameter %s is documented with %s elements but the routine reaches %s' % (f.args[k]['n'], pretty(f, bad), pretty(f, add(n, C(-1)))))
