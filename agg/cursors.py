"""Running positions (cursors). A cursor is a header phi web or an incremented memory cell.
Path-sensitive walk over the acyclic structure between web points."""
from ir import *
from lib import *

def lin_of(f, r, web):
    """(phi id, const) if value r is  webphi + const  through add/sub/casts, else None"""
    d = 0; n = 0
    while isinstance(r, str) and r[0] != 'a' and n < 20:
        n += 1
        if r in web: return (r, d)
        i = f.vals[r]
        if i.op in ('sext', 'zext', 'trunc'): r = i.ops[0]; continue
        if i.op == 'add':
            if not isinstance(i.ops[1], str) and i.ops[1][0] == 'c': d += i.ops[1][1]; r = i.ops[0]; continue
            if not isinstance(i.ops[0], str) and i.ops[0][0] == 'c': d += i.ops[0][1]; r = i.ops[1]; continue
            return None
        if i.op == 'sub' and not isinstance(i.ops[1], str) and i.ops[1][0] == 'c': d -= i.ops[1][1]; r = i.ops[0]; continue
        return None
    return None

def strip(f, r):
    while isinstance(r, str) and r[0] != 'a' and f.vals[r].op in ('sext', 'zext', 'trunc'): r = f.vals[r].ops[0]
    return r

def chain(f, r):
    """peel + const and casts: (core value, const)"""
    d = 0; n = 0
    while isinstance(r, str) and r[0] != 'a' and n < 30:
        n += 1; i = f.vals[r]
        if i.op in ('sext', 'zext', 'trunc'): r = i.ops[0]
        elif i.op == 'add' and not isinstance(i.ops[1], str) and i.ops[1][0] == 'c': d += i.ops[1][1]; r = i.ops[0]
        elif i.op == 'add' and not isinstance(i.ops[0], str) and i.ops[0][0] == 'c': d += i.ops[0][1]; r = i.ops[1]
        elif i.op == 'sub' and not isinstance(i.ops[1], str) and i.ops[1][0] == 'c': d -= i.ops[1][1]; r = i.ops[0]
        else: break
    return r, d

def webs(f):
    """groups of integer phis connected by  phi (+ const)  with at least one loop header phi and a positive step"""
    phis = [i for i in f.instrs() if i.op == 'phi' and i.ty in ('i32', 'i64')]
    par = {i.id: i.id for i in phis}
    def find(x):
        while par[x] != x: par[x] = par[par[x]]; x = par[x]
        return x
    edges = []
    for i in phis:
        for o in i.ops:
            c, d = chain(f, o)
            if isinstance(c, str) and c in par:
                par[find(c)] = find(i.id); edges.append((i.id, c, d))
    g = {}
    for i in phis: g.setdefault(find(i.id), []).append(i.id)
    out = []
    for r, m in g.items():
        ms = set(m)
        if not any(f.vals[x].blk in f.hdr for x in m): continue
        ds = [d for a, c, d in edges if a in ms]
        if not any(d > 0 for d in ds): continue
        out.append((ms, min(ds) < 0))
    return out

def addr_parts(f, r):
    """(base expr without the index, [index value refs]) of an element address"""
    idx = []
    n = 0
    while isinstance(r, str) and r[0] != 'a' and n < 12:
        n += 1; i = f.vals[r]
        if i.op == 'bitcast': r = i.ops[0]; continue
        if i.op == 'getelementptr':
            p = i.path
            if all(x[0] == 'idx' for x in p):
                idx += [i.ops[x[1]] for x in p if i.ops[x[1]] != ['c', 0]]
                r = i.ops[0]; continue
            break
        if i.op in ('call', 'invoke') and short_of(i.cdem or '') == 'operator[]' and len(i.ops) == 2:
            idx.append(i.ops[1])
            return ('data', f.expr(i.ops[0])), idx
        break
    return f.expr(r), idx

def lin_ref(f, r, depth=0):
    """linear combination over SSA refs: (const, {ref: coeff})"""
    r0 = r
    if not isinstance(r, str): return (r[1], {}) if r[0] == 'c' else (0, {repr(r): 1})
    if r[0] == 'a': return (0, {r: 1})
    i = f.vals[r]
    if depth < 14:
        if i.op in ('sext', 'zext', 'trunc'): return lin_ref(f, i.ops[0], depth + 1)
        if i.op in ('add', 'sub'):
            ka, a = lin_ref(f, i.ops[0], depth + 1); kb, b = lin_ref(f, i.ops[1], depth + 1)
            s = 1 if i.op == 'add' else -1
            d = dict(a)
            for t, c in b.items(): d[t] = d.get(t, 0) + s * c
            return ka + s * kb, {t: c for t, c in d.items() if c}
        if i.op == 'mul' and not isinstance(i.ops[1], str) and i.ops[1][0] == 'c':
            ka, a = lin_ref(f, i.ops[0], depth + 1); k = i.ops[1][1]
            return ka * k, {t: c * k for t, c in a.items()}
    return 0, {r: 1}

def index_lin(f, idx):
    k = 0; d = {}
    for r in idx:
        a, b = lin_ref(f, r); k += a
        for t, c in b.items(): d[t] = d.get(t, 0) + c
    return k, {t: c for t, c in d.items() if c}

def is_rmw(f, st):
    """the stored value is computed from the old value at the same address"""
    a = f.expr(st.ops[1])
    return mentions(f.expr(st.ops[0]), lambda e: e == ('ld', a))

def guarded_optional(f, st, L):
    """the store depends on a test of an optional array / pattern flag / loop-invariant switch"""
    for a, k in f.cdeps(st.blk):
        T = f.blocks[a].term
        if not T.ops: continue
        c = f.expr(T.ops[0])
        if a in L.blocks:
            if mentions(c, lambda e: e[0] == 'null'): return True
            if not _varies(f, c, L): return True
    return False

def _varies(f, e, L):
    if not isinstance(e, tuple) or not e: return False
    if e[0] in ('iv', 'phi', 'bphi'):
        return f.vals[e[1]].blk in L.blocks
    if e[0] == 'call': return f.vals[e[2]].blk in L.blocks
    if e[0] == 'bphi': return True
    return any(_varies(f, x, L) for x in e if isinstance(x, tuple))

class WebWalk:
    """all paths between web points; yields (kind, info)"""
    CAP = 6000
    push = False
    extra = {}
    def __init__(s, f, web):
        s.f = f; s.web = web
        s.hdrs = {f.vals[x].blk for x in web if f.vals[x].blk in f.hdr}
        s.stores = {}   # store id -> (array expr, rest terms key, phi, const, ins)
        for st in f.stores():
            base, idx = addr_parts(f, st.ops[1])
            if not idx: continue
            k, d = index_lin(f, idx)
            ph = [t for t in d if t in web]
            if len(ph) != 1 or d[ph[0]] != 1: continue
            rest = tuple(sorted((t, c) for t, c in d.items() if t != ph[0]))
            s.stores[st.id] = (base, rest, ph[0], k, st)
    def run(s, on_header):
        """on_header(H, pred block, delta, written {array: set(offsets)}, path stores)"""
        f = s.f
        for H in s.hdrs:
            s.cur = H
            hp = [i.id for i in f.blocks[H].ins if i.op == 'phi' and i.id in s.web]
            if len(hp) != 1: return False
            start = (H, ((hp[0], 0),), ())
            seen = {start}; st = [start]; n = 0
            while st:
                b, offs, wr = st.pop(); n += 1
                if n > s.CAP: return False
                o = dict(offs); w = {a: set(x) for a, x in wr}
                for i in f.blocks[b].ins:
                    if i.op in ('call', 'invoke') and s.push and i.cdem and short_of(i.cdem) in ('push_back', 'emplace_back') and 'std::vector<' in i.cdem:
                        v = f.expr(i.ops[0]); x = w.setdefault(('push', v), set()); x.add((len(x), i.id) if (len(x), i.id) not in x else (len(x), i.id))
                    if i.id in s.extra: w.setdefault(s.extra[i.id], set()).add((0, i.id))
                    if i.op == 'store' and i.id in s.stores:
                        base, rest, ph, k, _ = s.stores[i.id]
                        if ph in o: w.setdefault((base, rest), set()).add((o[ph] + k, i.id))
                for t in f.blocks[b].succ:
                    no = dict(o); ok = True; hit = None
                    for i in f.blocks[t].ins:
                        if i.op != 'phi': break
                        if i.id not in s.web: continue
                        v = i.ops[i.inc.index(b)]
                        c, d = chain(f, v)
                        if isinstance(c, str) and c in s.web and c in o:
                            no[i.id] = o[c] + d
                            if t in s.hdrs: hit = (i.id, no[i.id])
                        else: ok = False
                    if not ok: continue      # restart of the cursor: segment ends here
                    if hit:
                        on_header(t, b, hit[1], w); continue
                    # forget phis that no longer matter: keep all (bounded)
                    ns = (t, tuple(sorted(no.items())), tuple(sorted(((a, tuple(sorted(x))) for a, x in w.items()), key=repr)))
                    if ns not in seen: seen.add(ns); st.append(ns)
        return True
