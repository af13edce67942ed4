"""Ownership typestate."""
import itertools
from ir import *
from lib import *
LEVEL = 'other'
RULE = ("Typestate on every allocation (new, new[], malloc/calloc, fopen, and pointers a library routine hands out through a result or reference argument) over all control-flow "
        "paths of the allocating function, with branch correlation: owned -> released exactly once by the matching operation, or handed over (returned, stored into an out-argument, "
        "an object or a container, passed to a routine that keeps it); no path may return while still owning it, release it twice, with the wrong operation, or use it after release. "
        "For classes: every field that is given a fresh block is released by the destructor with the matching operation.")
ASSUME = ["normal paths only: exceptional exits are not examined", "a block stored into another heap object or container is owned by that object from then on",
          "members released by a destructor are not shared between objects"]
NEWK = {'_Znwm': 'new', '_Znam': 'new[]', 'malloc': 'malloc', 'calloc': 'malloc', 'fopen': 'fopen', 'fopen64': 'fopen', 'strdup': 'malloc'}
RELK = {'_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', 'free': 'malloc', 'fclose': 'fopen'}
RELNAME = {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free', 'fopen': 'fclose'}
CAP = 40000

def is_call(i): return i.op in ('call', 'invoke')

class Own:
    def __init__(s, P):
        s.P = P; s.frees = {}; s.caps = {}; s.fresh_ret = {}; s.fresh_out = {}
        order = topo(P)
        for f in order: s.summary(f)
    def summary(s, f):
        s.rets = getattr(s, 'rets', {}); s.rets[f.name] = set(); s.frees[f.name] = {}; s.caps[f.name] = set(); s.fresh_ret[f.name] = None; s.fresh_out[f.name] = {}
        for k, a in enumerate(f.args):
            if a['ty'] != 'ptr': continue
            e = Explore(s, f, None, arg=k); e.run()
            if e.rel_kinds:
                ends = {x for x in e.ends}
                s.frees[f.name][k] = (e.rel_kinds, ends == {'R'})
            if e.escaped and not e.retonly: s.caps[f.name].add(k)
            if e.returned: s.rets[f.name].add(k)
        # fresh results
        for i in f.instrs():
            src = sources(s, i)
            for kind, how in src:
                e = Explore(s, f, i, kind=kind, how=how); e.run()
                if e.returned: s.fresh_ret[f.name] = kind
                for k in e.outargs: s.fresh_out[f.name][k] = kind

def topo(P):
    seen = set(); out = []
    def go(f):
        if f.name in seen: return
        seen.add(f.name)
        for i in f.instrs():
            if is_call(i) and i.callee in P.fns: go(P.fns[i.callee])
        out.append(f)
    for f in P.fns.values(): go(f)
    return out

def sources(O, i):
    """acquisitions made by instruction i: (kind, 'ret') or (kind, ('out', operand index))"""
    if not is_call(i): return []
    c = i.callee or ''
    if c in NEWK: return [(NEWK[c], 'ret')]
    out = []
    if c in O.fresh_ret:
        if O.fresh_ret[c]: out.append((O.fresh_ret[c], 'ret'))
        for k, kind in O.fresh_out[c].items(): out.append((kind, ('out', k)))
    return out

class Explore:
    def __init__(s, O, f, site, kind=None, how='ret', arg=None):
        s.O = O; s.f = f; s.site = site; s.kind = kind; s.how = how; s.arg = arg
        s.reset()
    def reset(s):
        s.ends = set(); s.rel_kinds = set(); s.escaped = False; s.returned = False; s.outargs = set()
        s.leaks = []; s.double = []; s.wrong = []; s.uaf = []; s.relost = []
        s.gave_up = False; s.retonly = True
    def interesting(s):
        """branch conditions tested more than once (for correlation)"""
        f = s.f; n = {}
        for b in f.reach:
            T = f.blocks[b].term
            if T.op == 'br' and T.ops:
                c = f.expr(T.ops[0]); k = c if c[0] == 'cmp' and c[1] in ('eq', 'slt', 'sle', 'ult', 'ule') else neg(c) if c[0] in ('cmp', 'not') else c
                if inv(f, k): n[k] = n.get(k, 0) + 1
        return {k for k, v in n.items() if v > 1}
    def run(s):
        s.conds = s.interesting(); s.explore()
        if s.gave_up and s.conds:
            # too many combinations of branch outcomes: following fewer conditions covers more paths, so a clean result stands; what is found whichever
            # one or two conditions are followed is not an effect of ignoring them
            every = sorted(s.conds, key=str)
            for sub in itertools.chain([()], ((c,) for c in every), itertools.combinations(every, 2)):
                s.reset(); s.conds = set(sub); s.explore()
                if s.gave_up: return
                if not (s.leaks or s.double or s.wrong or s.uaf or s.relost): return
            s.reset(); s.conds = set(every[:1]); s.explore()
    def explore(s):
        f = s.f
        if s.arg is not None:
            st0 = ('O', frozenset(['a%d' % s.arg]), frozenset(), frozenset())
        else:
            st0 = ('N', frozenset(), frozenset(), frozenset())
        work = [(f.entry, None, st0)]; seen = set(); n = 0
        # blocks from which the site is reachable / relevant: skip precision, explore all
        while work:
            b, pred, st = work.pop()
            st = s.phis(b, pred, st)
            if (b, st) in seen: continue
            seen.add((b, st)); n += 1
            if n > CAP: s.gave_up = True; return
            B = f.blocks[b]; T = B.term
            sts = [st]
            for i in B.ins:
                nx = []
                for q in sts:
                    q = s.one(i, q)
                    nx += q if isinstance(q, list) else [q]
                sts = nx
            for st in sts: s.leave(b, B, T, st, work)
    def leave(s, b, B, T, st, work):
            f = s.f
            own, al, cells, cs = st
            if T.op == 'ret':
                s.at_ret(T, st); return
            if T.op == 'br' and T.ops and len(T.tgt or []) == 2:
                c = f.expr(T.ops[0])
                for k, t in enumerate(T.tgt):
                    cc = c if k == 0 else neg(c)
                    if s.contradicts(cc, st): continue
                    work.append((t, b, s.assume(cc, st)))
            else:
                for t in set(B.succ): work.append((t, b, st))
    def norm(s, c):
        pol = True
        while c[0] == 'not': c = c[1]; pol = not pol
        if c[0] == 'cmp' and c[1] not in ('eq', 'slt', 'sle', 'ult', 'ule'): c = neg(c); pol = not pol
        return c, pol
    def contradicts(s, c, st):
        own, al, cells, cs = st
        k, pol = s.norm(c)
        if (k, not pol) in cs: return True
        if own in ('O', 'R', 'E') and k[0] == 'cmp' and k[1] == 'eq' and pol:
            for a, z in ((k[2], k[3]), (k[3], k[2])):
                if not s.is_alias_expr(a, al, cells): continue
                if (z in (('null',), C(0)) or z[0] == 'ld' and z[1][0] == 'g'): return True
                # two different live pointers never compare equal; two names of one block always do
                if z[0] in ('heap', 'call', 'arg') and not s.is_alias_expr(z, al, cells): return True
        if own in ('O', 'R', 'E') and k[0] == 'cmp' and k[1] == 'eq' and not pol and s.is_alias_expr(k[2], al, cells) and s.is_alias_expr(k[3], al, cells): return True
        return False
    def is_alias_expr(s, e, al, cells):
        for v in al:
            if s.f.expr(v) == e: return True
        return e[0] == 'ld' and e[1] in cells
    def assume(s, c, st):
        k, pol = s.norm(c)
        if k in s.conds: return (st[0], st[1], st[2], st[3] | {(k, pol)})
        return st
    def phis(s, b, pred, st):
        own, al, cells, cs = st
        if own == 'N' or pred is None: return st
        al = set(al)
        new = []
        for i in s.f.blocks[b].ins:
            if i.op != 'phi': break
            for o, p in zip(i.ops, i.inc):
                if p == pred: new.append((i.id, isinstance(o, str) and o in al))
        for k, v in new:
            if v: al.add(k)
            else: al.discard(k)
        # conditions over values redefined here no longer hold
        return (own, frozenset(al), cells, cs)
    def one(s, i, st):
        f = s.f; own, al, cells, cs = st
        if s.site is not None and i is s.site:
            if own == 'O': s.relost.append(i)
            if s.how == 'ret': return ('O', frozenset([i.id]), frozenset(), cs)
            cell = f.expr(i.ops[s.how[1]])
            if cell[0] == 'arg': s.outargs.add(cell[1])
            if cell[0] == 'alloca': return ('O', frozenset(), frozenset([cell]), cs)
            s.escaped = True
            return ('E', frozenset(), frozenset([cell]), cs)
        if own == 'N': return st
        return s.step(i, st)
    def step(s, i, st):
        f = s.f; own, al, cells, cs = st; op = i.op
        def A(o): return isinstance(o, str) and o in al
        if op == 'phi': return st
        if op in ('bitcast', 'addrspacecast', 'freeze') and A(i.ops[0]): return (own, al | {i.id}, cells, cs)
        if op == 'getelementptr' and A(i.ops[0]):
            # interior pointers: uses count, escapes of interior pointers do not transfer ownership
            return st
        if op == 'select' and (A(i.ops[1]) or A(i.ops[2])): return (own, al | {i.id}, cells, cs)
        if op == 'load':
            if f.expr(i.ops[0]) in cells: return (own, al | {i.id}, cells, cs)
            if i.id in al: return (own, al - {i.id}, cells, cs)     # reloaded: another object
            s.use(i, i.ops[0], st); return st
        if op == 'store':
            if A(i.ops[0]):
                addr = f.expr(i.ops[1]); r = root_of(addr)
                if addr[0] == 'alloca': return (own, al, cells | {addr}, cs)
                if addr[0] == 'arg': s.outargs.add(addr[1])
                if r[0] == 'alloca' or True:
                    if own == 'O':
                        s.retonly = False; s.escaped = True; return ('E', al, cells | {addr}, cs)
                return (own, al, cells | {addr}, cs)
            addr = f.expr(i.ops[1])
            if addr in cells:
                cells = cells - {addr}
                return (own, al, cells, cs)
            s.use(i, i.ops[1], st)
            return st
        if op == 'ptrtoint': return st
        if is_call(i):
            c = i.callee or ''
            if c.startswith(('llvm.dbg', 'llvm.lifetime')): return st
            if c in RELK:
                o = i.ops[0]
                if A(o):
                    if own == 'R': s.double.append(i)
                    s.rel_kinds.add(RELK[c])
                    if s.kind and RELK[c] != s.kind: s.wrong.append((i, RELK[c]))
                    return ('R', al, cells, cs)
                return st
            if c in s.O.frees or c in s.O.P.fns:
                rets = False
                for k, o in enumerate(i.ops):
                    if A(o):
                        fr = s.O.frees.get(c, {}).get(k)
                        if own == 'R' : s.uaf.append(i)
                        if fr:
                            if own == 'R': s.double.append(i)
                            s.rel_kinds |= fr[0]
                            if s.kind and fr[0] != {s.kind}: s.wrong.append((i, sorted(fr[0])[0]))
                            return ('R' if fr[1] else 'E', al, cells, cs)
                        if k in s.O.rets.get(c, ()): rets = True
                        if k in s.O.caps.get(c, ()) and own == 'O':
                            s.retonly = False; s.escaped = True; return ('E', al, cells, cs)
                    elif isinstance(o, str) and f.expr(o) in cells and f.expr(o)[0] == 'alloca':
                        # address of the variable that holds the pointer
                        if k in s.O.fresh_out.get(c, {}) : return (own, al, cells - {f.expr(o)}, cs)
                return [st, (own, al | {i.id}, cells, cs)] if rets else (own, al, cells, cs)
            if c in ('strcpy', 'strncpy', 'strcat', 'memcpy', 'memset', 'memmove') and A(i.ops[0]):
                if own == 'R': s.uaf.append(i)
                return (own, al | {i.id}, cells, cs)
            # external
            dm = i.cdem or ''
            for k, o in enumerate(i.ops):
                if A(o) and own == 'R': s.uaf.append(i)
                if isinstance(o, str) and f.expr(o) in cells and f.expr(o)[0] == 'alloca' and own == 'O' and 'std::' in dm and short_of(dm) in ('push_back', 'emplace_back', 'insert', 'unique_ptr', 'shared_ptr', 'pair', 'make_pair', 'vector', 'resize', 'assign'):
                    s.escaped = True; return ('E', al, cells, cs)
                if A(o) and own == 'O' and ('unique_ptr' in dm or 'shared_ptr' in dm): s.escaped = True; return ('E', al, cells, cs)
            return st
        return st
    def use(s, i, addr, st):
        own, al, cells, cs = st
        if own != 'R': return
        o = addr; n = 0
        while isinstance(o, str) and o not in al and o in s.f.vals and s.f.vals[o].op in ('getelementptr', 'bitcast') and n < 20:
            o = s.f.vals[o].ops[0]; n += 1
        if isinstance(o, str) and o in al: s.uaf.append(i)
    def at_ret(s, T, st):
        own, al, cells, cs = st
        if own == 'N': return
        if T.ops and isinstance(T.ops[0], str) and T.ops[0] in al:
            s.returned = True
            if own == 'R': s.uaf.append(T)
            if own == 'O': s.escaped = True; own = 'E'
        s.ends.add(own)
        if own == 'O': s.leaks.append(T)

def inv(f, c):
    """condition over arguments / loop-free values only"""
    return not mentions(c, lambda x: x[0] in ('iv', 'phi', 'bphi', 'rf') and f.vals.get(x[1]) is not None and f.loop(f.vals[x[1]].blk) is not None or x[0] in ('rec',)
                        or x[0] == 'ld' or x[0] in ('call', 'op', 'rmw', 'size') and f.vals.get(x[-1] if isinstance(x[-1], str) else '') is not None and f.loop(f.vals[x[-1]].blk) is not None)

def check(ctx, r):
    for cfg in ('ser', 'omp'):
        P = ctx.prog(cfg); O = Own(P)
        for f in P.fns.values():
            n = {}
            for i in f.instrs():
                for kind, how in sources(O, i):
                    if cfg == 'ser': r.n('acquisitions')
                    e = Explore(O, f, i, kind=kind, how=how); e.run()
                    what = label(f, i, how)
                    if e.gave_up: r.n('too many paths'); continue
                    base = '%s:%s' % (fname(f), what)
                    if e.leaks: r.v(base + ':leak', i.where(), '%s acquired here (%s) is still owned when the routine returns at line %s: it is never released on that path' % (what, kind, e.leaks[0].line))
                    if e.relost: r.v(base + ':leak', i.where(), '%s acquired here (%s) is acquired again in the next iteration without having been released' % (what, kind))
                    if e.double: r.v(base + ':double', e.double[0].where(), '%s is released twice on one path' % what)
                    if e.wrong: r.v(base + ':form', e.wrong[0][0].where(), '%s was acquired with %s but is released with %s' % (what, kind, RELNAME[e.wrong[0][1]]))
                    if e.uaf: r.v(base + ':use-after-release', e.uaf[0].where(), '%s is used after its release' % what)
        classes(P, O, r, cfg)
    r.need('acquisitions', 100)

def fname(f): return re.sub(r'\.omp_outlined.*', '', f.dem.split('(')[0])
def label(f, i, how):
    """the variable or field the block is kept in"""
    if how != 'ret':
        e = f.expr(i.ops[how[1]]); return pretty(f, e)
    st = [i.id]; seen = set()
    while st:
        v = st.pop(0)
        if v in seen: continue
        seen.add(v)
        for u in f.users.get(v, []):
            if u.op == 'store' and u.ops[0] == v:
                e = f.expr(u.ops[1])
                while e[0] == 'elem': e = e[1]
                if e[0] == 'fld': return e[3]
                return pretty(f, e)
            if u.op in ('bitcast', 'phi'): st.append(u.id)
    if i.n: return i.n
    return 'block from ' + short_of(i.cdem or i.callee)

def classes(P, O, r, cfg):
    """fields given a fresh block in a method or function must be released by the destructor"""
    rel = {}; has = set()
    for f in P.fns.values():
        if f.short.startswith('~'):
            cls = f.short[1:]; has.add(cls)
            for i in f.instrs():
                if is_call(i) and i.callee in RELK:
                    e = f.expr(i.ops[0])
                    if e[0] == 'ld' and e[1][0] == 'fld':
                        rel.setdefault((cls, e[1][3]), []).append((RELK[i.callee], i))
    dangling(P, O, r)
    for (cls, fld), l in rel.items():
        r.n('destructor releases')
        for a in range(len(l)):
            for b in range(a + 1, len(l)):
                fa, fb = l[a][1], l[b][1]
                if fa.fn is fb.fn and reaches(fa.fn, fa, fb): r.v('~%s:%s:double' % (cls, fld), fb.where(), 'the destructor of %s can release %s twice' % (cls, fld))
    for f in P.fns.values():
        for i in f.instrs():
            if i.op != 'store': continue
            a = f.expr(i.ops[1])
            if a[0] != 'fld': continue
            src = f.vals.get(i.ops[0]) if isinstance(i.ops[0], str) else None
            n = 0
            while src is not None and src.op == 'bitcast': src = f.vals.get(src.ops[0])
            if src is None or not is_call(src): continue
            kinds = [k for k, h in sources(O, src) if h == 'ret']
            if not kinds: continue
            cls, fld = a[2], a[3]
            if cls.startswith('_') : continue
            r.n('fields given a fresh block')
            if cls not in has:
                r.v('%s:%s:no-destructor' % (cls, fld), i.where(), '%s::%s is given a fresh block (%s) but the class has no destructor that releases it' % (cls, fld, kinds[0])); continue
            l = rel.get((cls, fld))
            if not l: r.v('%s:%s:not-released' % (cls, fld), i.where(), '%s::%s is given a fresh block (%s) but the destructor does not release it' % (cls, fld, kinds[0])); continue
            for k, w in l:
                if k != kinds[0]: r.v('%s:%s:form' % (cls, fld), i.where(), '%s::%s is acquired with %s but the destructor releases it with %s' % (cls, fld, kinds[0], RELNAME[k]))

def dangling(P, O, r):
    """a block released through a place that outlives the call (a static, a global, a field of an argument) must be replaced there before the call returns"""
    for f in P.lib():
        if f.short.startswith('~') or f.short.startswith('operator delete'): continue
        for i in f.instrs():
            if not is_call(i): continue
            ks = [0] if i.callee in RELK else [k for k, (kinds, always) in O.frees.get(i.callee, {}).items() if kinds and not P.fns[i.callee].short.startswith('~')]
            for k in ks:
                if k >= len(i.ops) : continue
                e = f.expr(i.ops[k])
                if e[0] != 'ld': continue
                L = e[1]; rt = root_of(L)
                if not (L[0] == 'g' or L[0] == 'fld' and rt[0] in ('arg', 'g')): continue
                r.n('blocks released in lasting places')
                if not always_then(f, i, lambda x: x.op == 'store' and f.expr(x.ops[1]) == L or is_call(x) and x is not i and gone(P, O, f, x, rt)):
                    r.v('%s:%s:dangling' % (f.short, show(L)), i.where(), '%s releases what %s holds and can return without replacing it, so the next use finds a released block' % (f.short, show(L)))

def show(L): return L[3] if L[0] == 'fld' else str(L[1])
def gone(P, O, f, x, rt):
    """the call releases the object itself, or hands it to a routine that sets it up again"""
    return any(f.expr(o) == rt for o in x.ops if isinstance(o, str)) and (x.callee in RELK or x.callee in P.fns and P.fns[x.callee].short.startswith('~'))
def always_then(f, i, test):
    B = f.blocks[i.blk]
    if any(x.pos > i.pos and test(x) for x in B.ins): return True
    seen = set(); st = list(B.succ)
    if not st: return False
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); X = f.blocks[b]
        if any(test(x) for x in X.ins): continue
        if any(x.op == 'ret' for x in X.ins): return False
        st += X.succ
    return True

def reaches(f, a, b):
    if a.blk == b.blk and a.pos < b.pos: return True
    seen = set(); st = list(f.blocks[a.blk].succ)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == b.blk: return True
        st += f.blocks[x].succ
    return False
