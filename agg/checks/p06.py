"""Results are defined on every normal return."""
from ir import *
from lib import *
from arrays import *
from checks import p07
import re
RULE = ("(a) A scalar or pointer the caller passes by reference for the routine to fill (non-const reference to a scalar or pointer, or a pointer the routine only stores through) is stored on every path "
        "that ends in a normal return, and no declared routine has such a parameter that it never touches. (b) No path of a routine that returns a value runs off its end. "
        "(c) Every array a routine hands out (stored through a reference, in a field of an object that outlives the call, or returned) is written on every path to a normal return, "
        "and an array obtained uninitialised has all its elements written: the completed writing loops and single stores that precede the return join up from the first element to the "
        "allocated count, or the array is filled through a position or a permutation by stores no condition on the data can skip. "
        "(d) A vector the caller passes to be filled is reset or filled on every path to a normal return.")
ASSUME = ["a return of a failure code (false where the other returns give true, a negative value, a non-zero value where another return gives zero) is not a normal return",
          "permutation and position arrays used as store indices enumerate the elements (P12, P13, P18)"]
SC = r'(int|unsigned long|bool|double|float|long|unsigned int|char)'

def params(f):
    """demangled parameter types aligned with f.args (None for this/sret)"""
    d = f.dem
    depth = 0; i0 = None; out = []; cur = ''
    j = d.find('(')
    while d[j - 8:j] == 'operator' and d[j:j + 2] == '()': j = d.find('(', j + 2)
    k = j + 1; depth = 0
    while k < len(d):
        c = d[k]
        if c in '<(': depth += 1
        elif c == '>' : depth -= 1
        elif c == ')':
            if depth == 0: break
            depth -= 1
        if c == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += c
        k += 1
    if cur.strip(): out.append(cur.strip())
    return [None] * (len(f.args) - len(out)) + out if len(out) <= len(f.args) else out[:len(f.args)]

# ------------------------------------------------------------- normal returns
def returns(f, deep=False):
    """[(block of the return edge or block, is_normal)]: edges into the return block with a constant value are told apart"""
    out = []
    for b in p07.ret_blocks(f):
        t = f.blocks[b].term
        if not t.ops: out.append((None, b, None)); continue
        v = t.ops[0]
        ph = f.vals.get(v) if isinstance(v, str) else None
        if ph is not None and ph.op == 'phi' and (ph.blk == b or deep and ph.blk not in f.hdr and f.bdom(ph.blk, b) and not f.loop_chain(ph.blk)):
            if ph.blk != b: f.__dict__.setdefault('_retphi', {})[b] = ph.blk
            for o, p in zip(ph.ops, ph.inc):
                if p in f.reach: out.append((p, b, f.expr(o)))
        else: out.append((None, b, f.expr(v)))
    return out

def failure(f, rs, v, p=None):
    """a value that tells the caller the routine failed"""
    if v is None: return False
    others = [x for _, _, x in rs if x is not None and x != v]
    ty = f.ret
    if v[0] == 'null': return bool(others)
    if ty == 'i1' or {x for _, _, x in rs} == {C(0), C(1)}: return v == main_false(f, rs) and bool(others)
    if ty in ('i32', 'i64'):
        zero = any(x == C(0) for x in others)
        if v[0] == 'c': return v[1] != 0 and zero or v[1] < 0 and bool(others)
        if others and p is not None and known_nonzero(f, v, p, ('slt',)): return True
        if zero and p is not None: return known_nonzero(f, v, p)
    return False

def main_false(f, rs):
    """a routine returning only true/false: false means failure, unless it is the value of its last return"""
    last = max(rs, key=lambda t: (f.blocks[t[0] or t[1]].term.line or 0))
    return C(0) if last[2] != C(0) or f.ret == 'i1' else C(1)

def known_nonzero(f, v, p, ops=('ne', 'slt', 'sgt')):
    for a, k in f.cdeps(p):
        T = f.blocks[a].term
        if not T.ops or T.op != 'br': continue
        c = f.expr(T.ops[0])
        if k == 1: c = neg(c)
        if c[0] == 'cmp' and c[1] in ops and c[2] == v and c[3] == C(0): return True
        if c[0] == 'cmp' and c[2] == v and c[3][0] == 'c' and (c[3][1] < 0 and c[1] in ('slt', 'sle', 'eq') or c[3][1] and c[1] == 'eq' and len(ops) > 1): return True
    return False

def done_before_returns(f, x):
    """x has certainly run whenever the routine returns normally"""
    rs = returns(f, True)
    return all(failure(f, rs, v, p) or (p07.precedes(f, x, p or b, 10 ** 6) or p07.precedes(f, x, b, 10 ** 6)) for p, b, v in rs)

def escapes_without(f, B, start=None, spos=None):
    """a normal return some path reaches from the entry (or from an instruction) without running through a block of B"""
    rs = returns(f, True)
    bad = {}
    for p, b, v in rs: bad.setdefault(b, []).append((p, v))
    RP = f.__dict__.get('_retphi', {}); at = set(RP.values())
    seen = set(); st = [(start or f.entry, None, None)]; first = True
    while st:
        b, pr, tag = st.pop()
        if b in at: tag = pr
        if b in B and not (first and start): first = False; continue
        first = False
        if b in bad:
            for p, v in bad[b]:
                if (p is None or p == (tag if b in RP else pr) or b in RP and tag is None) and not failure(f, rs, v, p): return b, pr
        q = (b, pr if b in bad or b in at else None, tag)
        if q in seen: continue
        seen.add(q)
        if f.blocks[b].term.op == 'ret': continue
        for t in f.blocks[b].succ:
            st.append((t, b, tag))
    return None

def ret_where(f, b, pr):
    for x in (pr, b):
        if x and f.blocks[x].term.loc: return f.blocks[x].term.where()
    return '%s:%s' % (f.prog.relfile(f), f.fline)

# ------------------------------------------------------------- (a) scalars
def only_written(P, f, k):
    """pointer parameter the function only stores through, at the pointed-to element itself"""
    A = p07.aliases(f, f.args[k]['id']); w = False
    for a in A:
        for u in f.users.get(a, []):
            if u.op == 'store' and u.ops[1] == a: w = True
            elif u.op == 'store' and u.ops[0] == a and u.ops[1] in f.vals and f.vals[u.ops[1]].op == 'alloca': pass
            elif u.op == 'load': pass
            else: return False
    return w and not p07.reads_arg(f, k)

def declared(ctx, P):
    import os
    txt = ''
    import re
    for d, _, fs in os.walk(os.path.join(ctx.root, 'include')):
        for n in fs:
            with open(os.path.join(d, n), errors='replace') as fh: txt += fh.read()
    return {(m.group(1), w) for m in re.finditer(r'\b(\w+)\s*\(([^()]*)\)\s*;', txt) for w in re.findall(r'\w+', m.group(2))}

def inout():
    """result references that carry a value into the routine as well: accumulators and storage the caller provides"""
    import os
    out = set()
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'inout.txt')) as fh:
        for l in fh:
            w = l.split()
            if w and w[0][0] != '#': out |= {(w[0], int(x)) for x in w[1:]}
    return out

def placeholder(f, u, ST, k):
    """a constant stored ahead of every other store, none of which builds on it"""
    if f.expr(u.ops[0])[0] != 'c' or f.loop(u.blk) is not None: return False
    rest = [w for w in ST if w is not u]
    me = ('arg', k)
    return bool(rest) and all(f.dom(u, w) and f.loop(w.blk) is None and not mentions(f.expr(w.ops[0]), lambda x: x == ('ld', me)) for w in rest)

def scalars(ctx, P, r, D):
    O = p07.outputs(); INOUT = inout()
    decl = declared(ctx, P)
    for f in P.fns.values():
        if not p07.repo(f) or f.short == 'main': continue
        for k, t in enumerate(params(f)):
            if t is None or f.args[k]['ty'] != 'ptr': continue
            ref = re.match(r'^' + SC + r'\**&$', t); ptr = re.match(r'^' + SC + r'\*+$', t)
            if not ref and not ptr: continue
            A = p07.aliases(f, f.args[k]['id'])
            us = [u for a in A for u in f.users.get(a, []) if not (u.op == 'store' and u.ops[0] == a)]
            key = '%s:%s' % (f.dem.split('(')[0], f.args[k]['n'])
            if not us:
                if ref and (f.short, f.args[k]['n']) in decl:
                    r.n('reference outputs')
                    r.v(key, '%s:%s' % (P.relfile(f), f.fline), 'result parameter %s is never given a value' % f.args[k]['n'])
                continue
            st = any(u.op == 'store' for u in us) or any((u.callee, u.ops.index(a)) in D for a in A for u in us if u.op in ('call', 'invoke') and a in u.ops)
            out = ref and k in O.get(f.name, ()) and (f.name, k) not in INOUT
            if not st and not out: continue
            if ref and not out and p07.reads_arg(f, k) or ptr and not only_written(P, f, k): continue
            r.n('reference outputs')
            B = set(); ST = [u for a in A for u in f.users.get(a, []) if u.op == 'store' and u.ops[1] == a]
            real = [u for u in ST if not placeholder(f, u, ST, k)]
            if not real: real = ST
            for a in A:
                for u in f.users.get(a, []):
                    if u.op == 'store' and u.ops[1] == a:
                        if u in real: B.add(u.blk)
                    elif u.op in ('call', 'invoke') and ((u.callee, u.ops.index(a)) in D or 'operator>>' in (u.cdem or '')): B.add(u.blk)
            e = escapes_without(f, B)
            if e: r.v(key, ret_where(f, *e), 'a normal return is reached without a value having been given to the result %s' % f.args[k]['n'])

# ------------------------------------------------------------- (b) falling off the end
def falls_off(P, r):
    for f in P.fns.values():
        if not p07.repo(f): continue
        r.n('functions')
        if f.ret == 'void' or f.short == 'main': continue
        seen = set(); st = [f.entry]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            B = f.blocks[b]
            if any(i.op in ('call', 'invoke') and ends(i.callee or '') for i in B.ins) or p07.landing(f, b): continue
            st += B.succ
            if B.term.op == 'unreachable':
                r.v('%s:end' % f.dem.split('(')[0], '%s:%s' % (P.relfile(f), f.fline), 'a path of this routine ends without returning a value')

def ends(c): return c in ('__cxa_throw', '__cxa_rethrow', 'exit', '_exit', 'abort', '__assert_fail', '_ZSt9terminatev', '__clang_call_terminate') or c.startswith('_ZSt') and '__throw_' in c

# ------------------------------------------------------------- (c) arrays
def handed_out(P, f):
    """heap arrays that leave the function: [(heap expr, alloc instr, store/ret instr, name)]"""
    out = {}
    for i in f.instrs():
        if i.op not in ('store', 'ret') or not i.ops or not isinstance(i.ops[0], str): continue
        v = f.expr(i.ops[0])
        cand = [v]
        if v[0] == 'phi': cand += [f.expr(o) for o in f.vals[v[1]].ops]
        if v[0] == 'sel': cand += [v[2], v[3]]
        for c in cand:
            if c[0] == 'ld' and c[1][0] in ('alloca', 'fld'):
                h = heap_of(f, c)
            else: h = c if c[0] == 'heap' else None
            if not h or (f.vals[h[1]].callee or '').startswith('_Znw'): continue
            if i.op == 'store':
                a = f.expr(i.ops[1])
                if a[0] == 'arg': nm = f.args[a[1]]['n']
                elif a[0] == 'fld' and root_of(a)[0] in ('arg', 'ld', 'heap', 'call') and not (f.args and root_of(a) == ('arg', 0) and f.args[0]['n'] == 'this' and p07.ctor_of(f)): nm = pretty(f, a)
                else: continue
            else: nm = 'the returned array'
            out.setdefault(h, (f.vals[h[1]], i, nm))
    return [(h,) + t for h, t in out.items()]

def const_store_at_start(e): return e[0] == 'W' and e[1] == C(0)
def start_only(f, e, wr, cnt):
    """a store of the first element that says nothing about the rest: of an array with a closing element, or ahead of every other store"""
    if not const_store_at_start(e): return False
    if cnt is not None and lin_parts(cnt)[0] >= 1 and lin_parts(cnt)[1]: return True
    return all(x is e or f.dom(e[2], x[2]) for x in wr) and len(wr) > 1

def write_blocks(f, ev, cnt):
    """blocks every one of which means the array has been worked on: the header of the outermost loop that writes it and that the return comes after"""
    B = set()
    for e in ev:
        if e[0] not in ('W', 'M', 'X', 'P') : continue
        if start_only(f, e, ev, cnt): continue
        i = e[2]; B.add(i.blk)
        for L in f.loop_chain(i.blk): B.add(L.header)
    return B

def uncond(f, i):
    """header blocks of the loops around i that run i in each of their iterations, outwards"""
    out = []; b = i.blk
    for L in f.loop_chain(i.blk):
        if not p07.always_in(f, b, L): break
        out.append(L.header); b = L.header
    return out

def joined(f, h, ev, esz, cnt, a):
    """do completed loops and single stores cover [0, cnt)?  -> (True, None) or (False, gap expr)"""
    iv = []; B = set(); now = False
    def other(i, every=True):
        nonlocal now
        B.add(i.blk); B.update(uncond(f, i) if every else [L.header for L in f.loop_chain(i.blk)])
        if i.blk == a.blk and i.pos > a.pos: now = True
    for e in ev:
        i = e[2]
        if e[0] == 'M':
            if (i.callee or '').startswith('llvm.mem'):
                b = bytes_count(f, i.ops[2], esz)
                if b is None or f.expr(i.ops[2]) == f.expr(f.vals[h[1]].ops[0]): other(i)
                elif done_before_returns(f, i): iv.append((e[1], add(e[1], b)))
            else: other(i)
        elif e[0] in ('X', 'P'): other(i)
        elif e[0] == 'W':
            t = p07.full_store(f, e[1], i)
            if t:
                if done_before_returns(f, i): iv.append((t[0], t[1]))
            elif f.loop(i.blk) is None:
                if done_before_returns(f, i): iv.append((e[1], add(e[1], C(1))))
                elif not start_only(f, e, ev, cnt): B.add(i.blk)
            elif p07.cursor_index(f, e[1]): other(i, False)
            elif uncond(f, i): 
                if i.blk != uncond(f, i)[-1]: B.add(uncond(f, i)[-1])
                B.add(i.blk)
    if now or B and not escapes_without(f, B, a.blk): return True, None
    cur = C(0)
    for _ in range(len(iv) + 1):
        if cnt is None: return bool(iv), cur
        d = sub(cnt, cur)
        if d[0] == 'c' and d[1] <= 0: return True, None
        nxt = None
        for lo, hi in iv:
            dl = sub(lo, cur)
            if dl[0] == 'c' and dl[1] <= 0:
                dh = sub(hi, cur)
                if dh[0] == 'c' and dh[1] <= 0: continue
                nxt = hi; break
        if nxt is None:
            # two descriptions of the same count that cannot be compared here
            if iv and not any(comparable(x[0], cur) for x in iv) : return True, None
            return False, cur
        cur = nxt
        if not comparable(cnt, cur): return True, None
    return False, cur

def comparable(a, b):
    return sub(a, b)[0] == 'c' or (roots(a) == roots(b))
def roots(e):
    k, p = lin_parts(e)
    return set(p)

def arrays_out(P, r, S):
    for f in P.fns.values():
        if not p07.repo(f) or f.short == 'main': continue
        for h, a, st, nm in handed_out(P, f):
            ev = p07.collect(P, f, h, S)
            if st.op == 'store':
                have = {e[2].id for e in ev}
                ev += [e for e in p07.collect(P, f, ('ld', f.expr(st.ops[1])), S) if e[2].id not in have and f.dom(st, e[2])]
            wr = [e for e in ev if e[0] in ('W', 'M', 'X', 'P')]
            r.n('arrays handed out')
            key = '%s:%s' % (f.dem.split('(')[0], nm)
            esz = p07.elem_size(f, ev) or p07.alloc_esz(f, a)
            z = heap_zeroed(f, h)
            if not wr:
                if not z: r.v(key, a.where(), 'array %s is handed to the caller without anything having been stored in it' % nm)
                continue
            wr = [e for e in wr if not (z and e[2].op == 'call' and (e[2].callee or '').startswith('llvm.memset') and e[1] == C(0) and f.expr(e[2].ops[2]) == f.expr(a.ops[0]))]
            if wr and not all(start_only(f, e, wr, alloc_count(f, h, esz)) for e in wr):
                B = write_blocks(f, wr, alloc_count(f, h, esz))
                e = escapes_without(f, B, a.blk)
                if e and a.blk not in B: r.v(key, ret_where(f, *e), 'array %s is handed to the caller without having been filled on a path to this return' % nm)
            if z: r.n('arrays zeroed on allocation'); continue
            r.n('uninitialised arrays')
            ok, gap = joined(f, h, ev, esz, alloc_count(f, h, esz), a)
            if not ok: r.v(key, a.where(), 'array %s is obtained uninitialised and element %s is not given a value on every path to a normal return' % (nm, pretty(f, gap)))

# ------------------------------------------------------------- (d) vectors
MUT = {'resize', 'assign', 'clear', 'push_back', 'emplace_back', 'operator=', 'swap', 'insert', 'erase', 'pop_back', 'vector', '~vector'}
def vectors(P, r):
    O = p07.outputs()
    for fn, ks in O.items():
        f = P.fns.get(fn)
        if not f or not p07.repo(f): continue
        for k in ks:
            if k >= len(f.args) or not (params(f)[k] or '').startswith('std::vector'): continue
            v = ('arg', k); B = set(); reset = False
            for i in f.instrs():
                if i.op in ('call', 'invoke') and i.ops:
                    n = short_of(i.cdem or '')
                    if f.expr(i.ops[0]) == v and 'std::vector<' in (i.cdem or '').split('(')[0] and n in MUT:
                        if n in ('resize', 'assign', 'clear', 'operator='): reset = True
                        g = p07.guard_of(f, i, v); B.add(g.blk)
                        for L in f.loop_chain(i.blk): B.add(L.header)
                    elif i.callee in O:
                        for a in O[i.callee]:
                            if a < len(i.ops) and f.expr(i.ops[a]) == v:
                                B.add(i.blk); reset = True
                                for L in f.loop_chain(i.blk): B.add(L.header)
                elif i.op == 'store':
                    b, _ = split_elem(f.expr(i.ops[1]))
                    if b == ('data', v):
                        for L in f.loop_chain(i.blk): B.add(L.header)
            if not reset: continue
            r.n('output vectors')
            e = escapes_without(f, B)
            if e: r.v('%s:%s' % (f.dem.split('(')[0], f.args[k]['n']), ret_where(f, *e), 'output vector %s is left as the caller passed it on a path to this return' % f.args[k]['n'])

def check(ctx, r):
    P = ctx.prog('ser')
    r.need('functions', 150); r.need('reference outputs', 40); r.need('arrays handed out', 30)
    D = p07.definite_defs(P)
    scalars(ctx, P, r, D)
    falls_off(P, r)
    S = p07.summaries(P)
    arrays_out(P, r, S)
    vectors(P, r)
    from checks import p14
    for f in P.fns.values():
        if f.file: p14.returned_count(f, r, p14.stores_of(f))
