"""SSA program model over the JSON dump: functions, dominators, loops, canonical
expressions (helpers already inlined, casts stripped, integer arithmetic in linear
normal form, std::vector accesses as array elements)."""
import re, sys
sys.setrecursionlimit(20000)

INTCAST = {'sext', 'zext', 'trunc', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast', 'fpext'}
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'oeq': 'une', 'une': 'oeq'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

def C(k): return ('c', k)
def is_c(e): return e[0] == 'c'

def lin_parts(e):
    if e[0] == 'c': return e[1], {}
    if e[0] == 'lin': return e[1], dict(e[2])
    return 0, {e: 1}
def mk_lin(k, d):
    d = {a: c for a, c in d.items() if c}
    if not d: return ('c', k)
    if k == 0 and len(d) == 1:
        a, c = next(iter(d.items()))
        if c == 1: return a
    return ('lin', k, tuple(sorted(d.items(), key=lambda t: repr(t[0]))))
def add(a, b, s=1):
    ka, da = lin_parts(a); kb, db = lin_parts(b)
    d = dict(da)
    for t, c in db.items(): d[t] = d.get(t, 0) + s * c
    return mk_lin(ka + s * kb, d)
def sub(a, b): return add(a, b, -1)
def scale(a, k):
    ka, da = lin_parts(a)
    return mk_lin(ka * k, {t: c * k for t, c in da.items()})
def mul(a, b):
    if a[0] == 'c': return scale(b, a[1])
    if b[0] == 'c': return scale(a, b[1])
    if a[0] == 'lin' or b[0] == 'lin':
        ka, da = lin_parts(a); kb, db = lin_parts(b)
        if len(da) * len(db) <= 9:
            out = C(ka * kb)
            for t, c in da.items(): out = add(out, scale(t, c * kb))
            for t, c in db.items(): out = add(out, scale(t, c * ka))
            for t, c in da.items():
                for u, d in db.items(): out = add(out, scale(('mul',) + tuple(sorted((t, u), key=repr)), c * d))
            return out
    x, y = sorted((a, b), key=repr)
    return ('mul', x, y)
def const_diff(a, b):
    d = sub(a, b)
    return d[1] if d[0] == 'c' else None
def elem(base, idx):
    if idx == ('c', 0): return base
    if base[0] == 'elem': return elem(base[1], add(base[2], idx))
    return ('elem', base, idx)
def split_elem(a):
    return (a[1], a[2]) if a[0] == 'elem' else (a, ('c', 0))

class Ins:
    __slots__ = ('id', 'op', 'ty', 'ops', 'loc', 'blk', 'pos', 'j', 'fn')
    def __init__(s, j, blk, pos, fn):
        s.id = j['id']; s.op = j['op']; s.ty = j['ty']; s.ops = j['ops']; s.loc = j.get('loc'); s.blk = blk; s.pos = pos; s.j = j; s.fn = fn
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        return s.j.get(k)
    @property
    def line(s):
        return s.loc[-1][1] if s.loc else None
    def where(s):
        if not s.loc: return '%s:?' % (s.fn.file or '?')
        l = s.loc[0]
        f = l[0].replace(s.fn.prog.root + '/', '')
        return '%s:%d (%s)' % (f, l[1], l[3] or s.fn.short)
    def __repr__(s): return '<%s %s %s>' % (s.id, s.op, s.where())

class Block:
    def __init__(s, j): s.id = j['id']; s.succ = j['succ']; s.idom = j.get('idom'); s.ipdom = j.get('ipdom'); s.ins = []; s.pred = []
    @property
    def term(s): return s.ins[-1]

class Loop:
    def __init__(s, j):
        s.id = j['id']; s.header = j['header']; s.parent = j['parent']; s.blocks = set(j['blocks']); s.latches = j['latches']; s.pre = j.get('preheader'); s.loc = j.get('loc')

def short_of(dem):
    # function name without template args, params and return type
    d = dem
    d = re.sub(r'\[abi:\w+\]', '', d)
    depth = 0; out = []; 
    i = 0
    # cut at the parameter list
    d2 = ''
    for ch in d:
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif ch == '(' and depth <= 0: break
        elif depth == 0: d2 += ch
    d2 = d2.strip()
    d2 = d2.split(' ')[-1]
    return d2.split('::')[-1] or d2

class Fn:
    def __init__(s, j, prog):
        s.prog = prog; s.j = j; s.name = j['name']; s.dem = j['dem']; s.short = short_of(s.dem); s.file = j.get('file'); s.fline = j.get('line')
        s.args = j['args']; s.ret = j['ret']; s.dret = j.get('dret')
        s.argbyid = {a['id']: a for a in s.args}
        s.blocks = {}; s.vals = {}; s.order = []
        for b in j['blocks']:
            B = Block(b); s.blocks[B.id] = B; s.order.append(B.id)
            for p, i in enumerate(b['ins']):
                I = Ins(i, B.id, p, s); B.ins.append(I); s.vals[I.id] = I
        for B in s.blocks.values():
            for t in B.succ: s.blocks[t].pred.append(B.id)
        s.entry = s.order[0]
        s.loops = {l['id']: Loop(l) for l in j['loops']}
        s.bloop = {}
        for l in s.loops.values():   # preorder: inner loops come later
            for b in l.blocks: s.bloop[b] = l.id
        s.hdr = {l.header: l.id for l in s.loops.values()}
        s._expr = {}; s._users = None; s._dommemo = {}
        s.reach = s._reachable()
    def _reachable(s):
        seen = set(); st = [s.entry]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); st += s.blocks[b].succ
        return seen
    def __repr__(s): return '<Fn %s>' % s.short
    def instrs(s):
        for b in s.order:
            if b not in s.reach: continue
            for i in s.blocks[b].ins: yield i
    @property
    def users(s):
        if s._users is None:
            u = {}
            for i in s.instrs():
                for o in i.ops:
                    if isinstance(o, str): u.setdefault(o, []).append(i)
            s._users = u
        return s._users
    def argidx(s, name):
        for k, a in enumerate(s.args):
            if a['n'] == name: return k
        return None
    # ---- dominance
    def bdom(s, a, b):
        """block a dominates block b"""
        k = (a, b)
        if k in s._dommemo: return s._dommemo[k]
        x = b; r = False
        while x is not None:
            if x == a: r = True; break
            x = s.blocks[x].idom
        s._dommemo[k] = r
        return r
    def bpdom(s, a, b):
        x = b
        while x is not None:
            if x == a: return True
            x = s.blocks[x].ipdom
        return False
    def dom(s, i, j):
        """instruction i dominates instruction j"""
        if i.blk == j.blk: return i.pos < j.pos
        return s.bdom(i.blk, j.blk)
    def loop(s, b):
        l = s.bloop.get(b)
        return s.loops[l] if l is not None else None
    def loop_chain(s, b):
        out = []; l = s.bloop.get(b)
        while l is not None and l != -1:
            out.append(s.loops[l]); l = s.loops[l].parent
        return out   # innermost first
    def in_loop(s, b, lid): return b in s.loops[lid].blocks
    # ---- guards: branch edges that dominate the block
    def guards(s, b, within=None):
        out = []; x = b
        while x is not None:
            d = s.blocks[x].idom
            if d is None: break
            if within is not None and d not in within: break
            t = s.blocks[d].term
            if t.op == 'br' and len(t.tgt or []) == 2 and t.tgt[0] != t.tgt[1]:
                for k, tg in enumerate(t.tgt):
                    if s.bdom(tg, b) and all(p == d or s.bdom(tg, p) for p in s.blocks[tg].pred):
                        out.append((s.expr(t.ops[0]), k == 0, t))
            elif t.op == 'switch':
                for k, tg in enumerate(t.tgt):
                    if s.bdom(tg, b) and all(p == d or s.bdom(tg, p) for p in s.blocks[tg].pred) and t.tgt.count(tg) == 1:
                        out.append((('switch', s.expr(t.ops[0]), t.cases[k - 1] if k else None), True, t))
            x = d
        return out
    def cdeps(s, b):
        """all control dependences (transitive) as (term, succidx)"""
        if not hasattr(s, '_cd'):
            cd = {x: set() for x in s.blocks}
            for a in s.reach:
                B = s.blocks[a]
                if len(set(B.succ)) < 2: continue
                for k, t in enumerate(B.succ):
                    x = t; n = 0
                    while x is not None and x != B.ipdom:
                        cd[x].add((a, k)); x = s.blocks[x].ipdom; n += 1
            s._cd = cd
        seen = set(); st = [b]; done = {b}
        while st:
            x = st.pop()
            for (a, k) in s._cd[x]:
                if (a, k) not in seen:
                    seen.add((a, k))
                    if a not in done: done.add(a); st.append(a)
        return seen
    # ---- expressions
    def expr(s, r):
        if isinstance(r, str):
            e = s._expr.get(r)
            if e is None:
                s._expr[r] = ('rec', r)
                e = s._mk(r)
                s._expr[r] = e
            return e
        k = r[0]
        if k == 'c': return ('c', r[1])
        if k == 'f': return ('f', r[1])
        if k == 'null': return ('null',)
        if k == 'g': return ('g', r[1])
        if k in ('undef', 'poison'): return ('undef',)
        if k == 'ce':
            if r[1] == 'getelementptr': return ('ce',) + tuple(repr(x) for x in r[2:])
            return s.expr(r[2]) if len(r) == 3 else ('ce', repr(r))
        return ('k', repr(r))
    def _mk(s, r):
        if r[0] == 'a': return ('arg', int(r[1:]))
        i = s.vals[r]; op = i.op; E = s.expr
        if op in INTCAST: return E(i.ops[0])
        if op == 'fptrunc': return ('fptrunc', E(i.ops[0]))
        if op == 'add': return add(E(i.ops[0]), E(i.ops[1]))
        if op == 'sub': return sub(E(i.ops[0]), E(i.ops[1]))
        if op == 'mul': return mul(E(i.ops[0]), E(i.ops[1]))
        if op == 'shl' and i.ops[1][0] == 'c': return scale(E(i.ops[0]), 1 << i.ops[1][1])
        if op in ('fadd', 'fmul'):
            a, b = sorted((E(i.ops[0]), E(i.ops[1])), key=repr); return (op, a, b)
        if op in ('fsub', 'fdiv', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'lshr', 'ashr', 'shl', 'frem'):
            a, b = E(i.ops[0]), E(i.ops[1])
            if op in ('and', 'or', 'xor'): a, b = sorted((a, b), key=repr)
            if op == 'xor' and b == ('c', -1) or op == 'xor' and b == ('c', 1) and i.ty == 'i1': return neg(a)
            if op == 'xor' and a in (('c', -1), ('c', 1)) and i.ty == 'i1': return neg(b)
            return (op, a, b)
        if op == 'fneg': return ('fneg', E(i.ops[0]))
        if op in ('sitofp', 'uitofp'): return ('i2f', E(i.ops[0]))
        if op in ('fptosi', 'fptoui'): return ('f2i', E(i.ops[0]))
        if op in ('icmp', 'fcmp'):
            return mk_cmp(i.pred, E(i.ops[0]), E(i.ops[1]))
        if op == 'select': return ('sel', E(i.ops[0]), E(i.ops[1]), E(i.ops[2]))
        if op == 'load': return ('ld', E(i.ops[0]))
        if op == 'alloca': return ('alloca', i.id)
        if op == 'getelementptr': return s._gep(i)
        if op == 'phi': return s._phi(i)
        if op in ('call', 'invoke'): return s._call(i)
        if op == 'extractvalue': return ('xv', E(i.ops[0]), tuple(i.xi))
        if op == 'atomicrmw': return ('rmw', i.id)
        return ('op', op, i.id)
    def _gep(s, i):
        base = s.expr(i.ops[0]); cur = base
        first = True
        for p in i.path:
            if p[0] == 'idx':
                idx = s.expr(i.ops[p[1]])
                if first: cur = elem(cur, idx)
                else: cur = elem(('arr', cur), idx) if idx != ('c', 0) else ('arr', cur)
            else:
                cur = ('fld', cur, p[1].split('::')[-1], p[2])
            first = False
        if i.path and i.sty.startswith('[') and len(i.path) == 2 and i.path[1][0] == 'idx':
            pass
        return cur
    def iv(s, phi):
        """(start expr, step, loop) if phi is a basic induction variable"""
        i = s.vals[phi] if isinstance(phi, str) else phi
        if i.op != 'phi' or i.blk not in s.hdr: return None
        L = s.loops[s.hdr[i.blk]]
        st = None; nx = []
        for o, b in zip(i.ops, i.inc):
            if b in L.blocks: nx.append(o)
            else:
                if st is not None and s.expr(st) != s.expr(o): return None
                st = o
        if st is None or not nx: return None
        step = None
        for n in nx:
            e = s._step(n, i.id, 0)
            if e is None: return None
            if step is not None and e != step: return None
            step = e
        if not step: return None
        return (s.expr(st), step, L)
    def _step(s, r, phi, depth):
        # constant difference between value r and phi on every path, or None
        if r == phi: return 0
        if not isinstance(r, str) or r[0] == 'a' or depth > 12: return None
        i = s.vals[r]
        if i.op in ('sext', 'zext', 'trunc'): return s._step(i.ops[0], phi, depth + 1)
        if i.op == 'add':
            for x, y in ((0, 1), (1, 0)):
                if not isinstance(i.ops[y], str) and i.ops[y][0] == 'c':
                    d = s._step(i.ops[x], phi, depth + 1)
                    if d is not None: return d + i.ops[y][1]
            return None
        if i.op == 'sub' and not isinstance(i.ops[1], str) and i.ops[1][0] == 'c':
            d = s._step(i.ops[0], phi, depth + 1)
            return None if d is None else d - i.ops[1][1]
        if i.op == 'phi':
            ds = set()
            for o in i.ops:
                if o == i.id: continue
                ds.add(s._step(o, phi, depth + 1))
            if len(ds) == 1: return ds.pop()
        return None
    def _phi(s, i):
        v = s.iv(i)
        if v: return ('iv', i.id)
        # trivial phi
        es = {s.expr(o) if not (isinstance(o, str) and o == i.id) else None for o in i.ops} if i.blk not in s.hdr else set()
        es.discard(None)
        if len(es) == 1:
            e = es.pop()
            if e[0] != 'rec': return e
        if i.ty == 'i1' and i.blk not in s.hdr:
            return ('bphi', i.id)
        return ('phi', i.id)
    def callee(s, i): return i.callee or ''
    def _call(s, i):
        d = i.cdem or ''; n = short_of(d); E = s.expr
        if i.callee in ('malloc', '_Znwm', '_Znam', 'calloc', 'realloc') or (i.callee or '').startswith('_Zna') or (i.callee or '').startswith('_Znw'):
            return ('heap', i.id)
        if 'std::vector<' in d.split('(')[0] and i.ops:
            v = E(i.ops[0])
            if n == 'operator[]' or n == 'at':
                return ('vb', v, E(i.ops[1])) if 'std::vector<bool' in d.split('(')[0] else elem(('data', v), E(i.ops[1]))
            if n == 'size': return ('size', v)
            if n == 'data' or n == 'front': return ('data', v)
            if n == 'back': return elem(('data', v), add(('size', v), ('c', -1)))
            if n == 'begin' or n == 'cbegin': return ('begin', v)
            if n == 'end' or n == 'cend': return ('end', v)
            if n == 'empty': return ('cmp', 'eq', ('size', v), ('c', 0))
        if d.startswith('__gnu_cxx::__normal_iterator') and n == 'operator*':
            return s._deref_iter(i)
        if n in ('_Bit_reference::operator bool',) or d.startswith('std::_Bit_reference::operator bool'):
            return ('bitref', E(i.ops[0]))
        if (i.callee or '').startswith('llvm.fmuladd'):
            return ('fadd',) + tuple(sorted((tuple(['fmul'] + sorted((E(i.ops[0]), E(i.ops[1])), key=repr)), E(i.ops[2])), key=repr))
        if (i.callee or '').startswith(('llvm.smax', 'llvm.umax')): return ('max', E(i.ops[0]), E(i.ops[1]))
        if (i.callee or '').startswith(('llvm.smin', 'llvm.umin')): return ('min', E(i.ops[0]), E(i.ops[1]))
        return ('call', n, i.id)
    def _deref_iter(s, i):
        it = s.expr(i.ops[0])
        if it[0] == 'alloca':
            srcs = set(); lid = None
            for u in s.users.get(it[1], []):
                if u.op == 'store' and u.ops[1] == it[1]: srcs.add(s.expr(u.ops[0]))
                if u.op == 'getelementptr':
                    for w in s.users.get(u.id, []):
                        if w.op == 'store' and w.ops[1] == u.id: srcs.add(s.expr(w.ops[0]))
            incs = [u for u in s.users.get(it[1], []) if u.op == 'call' and short_of(u.cdem or '') == 'operator++']
            if len(srcs) == 1 and incs:
                e = next(iter(srcs))
                L = s.loop(incs[0].blk)
                if e[0] == 'begin' and L: return elem(('data', e[1]), ('rf', L.id, it[1]))
            if len(srcs) == 1 and not incs:
                e = next(iter(srcs))
                if e[0] == 'begin': return ('data', e[1])
        return ('call', 'operator*', i.id)
    # ---- loop bounds
    def loop_exits(s, L):
        out = []
        for b in L.blocks:
            B = s.blocks[b]
            for k, t in enumerate(B.succ):
                if t not in L.blocks: out.append((b, k, t))
        return out
    def bound(s, ivphi):
        """list of (pred, bound expr, on) : conditions known to hold in the body for the iv,
        normalised to  iv PRED bound  (continue condition), from every exit test on the iv"""
        i = s.vals[ivphi]; v = s.iv(i)
        if not v: return []
        L = v[2]; out = []
        for b, k, t in s.loop_exits(L):
            T = s.blocks[b].term
            if T.op != 'br' or not T.ops: continue
            c = s.expr(T.ops[0])
            if c[0] != 'cmp': continue
            pred, a, bb = c[1], c[2], c[3]
            if k == 0: pred = NEG.get(pred, '!' + pred)   # exits when true -> continue when false
            # isolate iv
            d = sub(a, bb)
            kk, parts = lin_parts(d)
            co = parts.pop(('iv', ivphi), None)
            if co not in (1, -1): continue
            rest = mk_lin(kk, parts)
            # co*iv + rest PRED 0
            if co == 1: bnd = scale(rest, -1); p = pred
            else: bnd = rest; p = SWAP.get(pred, pred)
            if _mentions_loopvar(s, bnd, L): continue
            out.append((p, bnd, T))
        return out
    def range(s, ivphi):
        """(lo, hi_exclusive, step, L, nexits) of a basic iv, hi None if unknown"""
        i = s.vals[ivphi]; v = s.iv(i)
        if not v: return None
        st, step, L = v
        bs = s.bound(ivphi)
        hi = None
        for p, b, T in bs:
            if step > 0:
                if p in ('slt', 'ult', 'ne'): h = b
                elif p in ('sle', 'ule'): h = add(b, ('c', 1))
                else: continue
            else:
                if p in ('sgt', 'ugt', 'ne'): h = b
                elif p in ('sge', 'uge'): h = add(b, ('c', -1))
                else: continue
            # test at the latch on the incremented value? the compared value is phi itself or phi+step (folded)
            hi = h if hi is None else hi
        return (st, hi, step, L)
    # ---- stores
    def stores(s):
        for i in s.instrs():
            if i.op == 'store': yield i
    def pretty(s, e, d=0):
        return pretty(s, e, d)

def _mentions_loopvar(fn, e, L):
    if not isinstance(e, tuple): return False
    if e and e[0] in ('iv', 'phi', 'bphi'):
        return fn.vals[e[1]].blk in L.blocks
    if e and e[0] == 'rf': return fn.loops[e[1]].header in L.blocks
    if e and e[0] == 'call' and len(e) == 3: return fn.vals[e[2]].blk in L.blocks
    return any(_mentions_loopvar(fn, x, L) for x in e if isinstance(x, tuple))

def mentions(e, pred):
    if not isinstance(e, tuple): return False
    if e and isinstance(e[0], str) and pred(e): return True
    return any(mentions(x, pred) for x in e if isinstance(x, tuple))

def mk_cmp(p, a, b):
    if p in ('sgt', 'sge', 'ugt', 'uge', 'ogt', 'oge'):
        p = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule', 'ogt': 'olt', 'oge': 'ole'}[p]; a, b = b, a
    if p in ('eq', 'ne'):
        if a[0] == 'c' and b[0] != 'c': a, b = b, a
        # bool tests
        if b == ('c', 0) and a[0] in ('cmp',):
            return a if p == 'ne' else neg(a)
        if a[0] != 'c' and b[0] != 'c' and repr(a) > repr(b): a, b = b, a
    elif p in ('oeq', 'une'):
        if a[0] in ('c', 'f') and b[0] not in ('c', 'f') or a[0] not in ('c', 'f') and b[0] not in ('c', 'f') and repr(a) > repr(b): a, b = b, a
    return ('cmp', p, a, b)
def neg(e):
    if e[0] == 'cmp' and e[1] in NEG: return mk_cmp(NEG[e[1]], e[2], e[3])
    if e[0] == 'not': return e[1]
    return ('not', e)

def pretty(f, e, d=0):
    if d > 8: return '..'
    P = lambda x: pretty(f, x, d + 1)
    k = e[0]
    if k == 'c': return str(e[1])
    if k == 'f': return e[1]
    if k == 'arg': return f.args[e[1]]['n'] or 'arg%d' % e[1]
    if k in ('iv', 'phi', 'bphi', 'alloca', 'heap'):
        i = f.vals[e[1]]; return (i.n or k + e[1])
    if k == 'rf': return 'each'
    if k == 'elem': return '%s[%s]' % (P(e[1]), P(e[2]))
    if k == 'ld': return P(e[1]) if e[1][0] in ('elem', 'fld') else '*' + P(e[1])
    if k == 'fld': return '%s->%s' % (P(e[1]), e[3])
    if k == 'data': return P(e[1])
    if k == 'size': return P(e[1]) + '.size()'
    if k == 'lin':
        s = ''
        for a, c in e[2]:
            s += (' + ' if c > 0 else ' - ') + ('' if abs(c) == 1 else '%d*' % abs(c)) + P(a)
        if e[1]: s += (' + ' if e[1] > 0 else ' - ') + str(abs(e[1]))
        s = s.strip()
        return s[2:] if s.startswith('+ ') else s
    if k == 'cmp': return '(%s %s %s)' % (P(e[2]), {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'ult': '<', 'ule': '<='}.get(e[1], e[1]), P(e[3]))
    if k == 'not': return '!' + P(e[1])
    if k in ('fsub', 'fadd', 'fmul', 'fdiv', 'sdiv', 'mul'):
        o = {'fsub': '-', 'fadd': '+', 'fmul': '*', 'fdiv': '/', 'sdiv': '/', 'mul': '*'}[k]
        return '(%s %s %s)' % (P(e[1]), o, P(e[2]))
    if k == 'call': return e[1] + '(..)'
    return '%s(%s)' % (k, ', '.join(P(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in e[1:]))

class Program:
    def __init__(s, j, root):
        s.root = root; s.j = j
        s.fns = {}
        s.units = j.get('units', [])
        for f in j['fns']: s.fns[f['name']] = Fn(f, s)
        s.byshort = {}
        for f in s.fns.values(): s.byshort.setdefault(f.short, []).append(f)
        s.globals = {g['name']: g for g in j['globals']}
        s.structs = {t['name']: t for t in j['structs']}
        s.decls = dict(j['decls'])
    def get(s, short, ns=None, file=None):
        out = [f for f in s.byshort.get(short, []) if (ns is None or f.dem.find(ns + '::') >= 0) and 'omp_outlined' not in f.name]
        if file: out = [f for f in out if f.file and f.file.endswith(file)]
        return out
    def lib(s):
        """functions defined in the repository's own code"""
        return [f for f in s.fns.values() if f.file]
    def outlined(s):
        return [f for f in s.fns.values() if 'omp_outlined' in f.name]
    def relfile(s, f): return (f.file or '').replace(s.root + '/', '')
