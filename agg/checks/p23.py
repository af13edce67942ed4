"""Every iteration of a data-driven loop makes progress."""
from ir import *
from lib import *
from checks import p06, p07, p20
LEVEL = 'other'
RULE = ("For every loop of the analysed routines: the header variables and the memory its exit tests look at are collected, then the control-flow paths from the loop header back to it are explored with "
        "the values carried as offsets of the header variables; no feasible path may come back with every looked-at variable unchanged and no looked-at memory written. A path that moves its variables only "
        "away from the exit (a push) must use something up: it writes memory or advances a position that one of the branches it took looks at. A loop that steps by a variable amount needs that amount known non-zero. A list walked through successors reads an entry's successor before linking the entry elsewhere, and nothing comes round a loop that reads input once the input has ended.")
ASSUME = ["following a link (parent, next) changes the position: links of the structures walked do not point back to themselves",
          "a write to looked-at memory changes it"]
CAP = 20000
is_call = p20.is_call
GROW = ('push_back', 'push', 'emplace_back', 'emplace', 'push_front', 'insert')
SHRINK = ('pop_back', 'pop', 'pop_front', 'erase', 'clear', 'resize', 'swap', 'assign')
CONST = ('size', 'empty', 'begin', 'end', 'back', 'front', 'top', 'at', 'operator[]', 'data', 'cbegin', 'cend', 'count', 'find', 'capacity', 'c_str', 'length', 'rbegin', 'rend', 'base', 'operator*', 'operator->')

def mname(i):
    d = (i.cdem or i.callee or '').split('(')[0]
    while d.endswith('>') and 'operator' not in d.rsplit('::', 1)[-1]:
        n = 0
        for k in range(len(d) - 1, -1, -1):
            n += d[k] == '>'; n -= d[k] == '<'
            if n == 0: break
        d = d[:k]
    return d.rsplit('::', 1)[-1]

class Tested:
    def __init__(s): s.phis = set(); s.mem = set(); s.calls = set()

def looked(f, L, ops, T, seen=None):
    """what the values ops depend on, within one iteration of L"""
    seen = set() if seen is None else seen
    for o in ops:
        if not isinstance(o, str) or o in seen: continue
        seen.add(o); i = f.vals.get(o)
        if i is None or i.blk not in L.blocks: continue
        if i.op == 'phi':
            if i.blk == L.header: T.phis.add(i.id)
            else: looked(f, L, i.ops, T, seen)
        elif i.op == 'load':
            T.mem.add(f.expr(i.ops[0])); looked(f, L, i.ops, T, seen)
        elif is_call(i):
            for a in i.ops:
                e = bits(f, a)
                if isinstance(a, str): T.mem.add(e)
            T.calls.add(i.id)
            looked(f, L, i.ops, T, seen)
        else: looked(f, L, i.ops or [], T, seen)
    return T

def same_cell(a, b):
    """may the two address expressions name the same memory (same root object)"""
    return rt(a) == rt(b) and not (a[0] == 'fld' and b[0] == 'fld' and a[1] == b[1] and a[2:] != b[2:])

def std_call(i):
    d = i.cdem or ''
    return d.startswith('std::') or d.startswith('__gnu_cxx::') or ' std::' in d.split('(')[0] or '__gnu_cxx::' in d.split('(')[0]

def pure_call(P, i):
    c = i.callee or ''
    if c.startswith('llvm.'): return not c.startswith(('llvm.mem', 'llvm.stack'))
    g = P.fns.get(c)
    if std_call(i):
        n = mname(i)
        return n not in GROW + SHRINK and n in CONST or n.startswith('operator') and n[8:] in ('==', '!=', '<', '>', '<=', '>=', '-', '+', '*', '->', '[]') or n.startswith('operator ') and 'bool' in n or n in ('min', 'max', 'abs', 'sqrt', 'floor', 'ceil', 'pow', 'fabs')
    if g is not None: return p20.pure(P, g)
    return c in ('strcmp', 'strlen', 'strncmp', 'isspace', 'isdigit', 'tolower', 'toupper', 'sqrt', 'pow', 'floor', 'ceil', 'fabs', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'abs', 'log2', 'log')

class Walk:
    """paths from the header of L back to it that change nothing"""
    def __init__(s, P, f, L, T, wants, lenient):
        s.P = P; s.f = f; s.L = L; s.T = T; s.wants = wants; s.bad = []; s.n = 0; s.gave_up = False; s.lenient = lenient; s.W = None; s.stacks = set(); s.bitvecs = set()
        s.slots = {e for e in T.mem if e[0] == 'alloca'}
    def val(s, o, env):
        """(header phi or slot, offset) or ('x', expr)"""
        if isinstance(o, str):
            if o in env: return env[o]
            i = s.f.vals.get(o)
            if i is not None and i.blk in s.L.blocks:
                if i.op in ('sext', 'zext', 'trunc', 'freeze'): return s.val(i.ops[0], env)
                if i.op in ('add', 'sub', 'or'):
                    a, b = s.val(i.ops[0], env), s.val(i.ops[1], env)
                    for x, y, k in ((a, b, 1), (b, a, 1 if i.op == 'add' else 0)):
                        if y is not None and y[0] == 'x' and y[1][0] == 'c' and x is not None and x[0] == 'h' and k:
                            return ('h', x[1], x[2] + (-y[1][1] if i.op == 'sub' else y[1][1]))
                if i.op in ('add', 'sub', 'getelementptr', 'mul', 'icmp'): return ('x', s.sub(i, env))
                if i.op == 'phi': return ('x', ('v', o))
            return ('x', s.f.expr(o))
        return ('x', s.f.expr(o))
    def keep(s, facts, M, k, o):
        """a constant written to a cell, until something else may be written to the same object"""
        c = o[1] if not isinstance(o, str) and o[0] == 'c' else None
        facts = {x: v for x, v in facts.items() if x[0] != 'cell' or x[1] != M or v == c}
        if c is not None and M[0] != 'alloca' or c is not None and M in s.bitvecs: facts[('cell', M, k)] = c
        return facts
    def bitkey(s, o, env):
        f = s.f; e = f.expr(o)
        if e[0] != 'alloca': return None, None
        for u in f.users.get(e[1], []):
            for w in [u] + (f.users.get(u.id, []) if u.op == 'getelementptr' else []):
                if w.op == 'store' and isinstance(w.ops[0], str):
                    i = f.vals.get(w.ops[0])
                    if i is not None and i.op == 'extractvalue': i = f.vals.get(i.ops[0])
                    if i is not None and is_call(i) and 'vector<bool' in (i.cdem or '') and len(i.ops) == 2:
                        M = rt(f.expr(i.ops[0])); s.bitvecs.add(M)
                        return s.val(i.ops[1], env), M
        return None, None
    def sub(s, i, env):
        out = [i.op, i.pred if i.op == 'icmp' else None]
        for o in i.ops:
            out.append(s.val(o, env))
        return tuple(out) if nest(out) < 5 else ('v', i.id)
    def cond(s, o, env):
        """(key, polarity) of a branch condition under env"""
        i = s.f.vals.get(o) if isinstance(o, str) else None
        if i is None: return None
        if o in env: return env[o], 1
        if i.op == 'xor' and not isinstance(i.ops[1], str) and i.ops[1][0] == 'c':
            c = s.cond(i.ops[0], env)
            return None if c is None else (c[0], 1 - c[1])
        if i.op == 'icmp':
            a, b = s.val(i.ops[0], env), s.val(i.ops[1], env)
            p = i.pred
            if a[0] == 'x' and b[0] == 'x' and a[1][0] == 'c' and b[1][0] == 'c': return ('k', icmp(p, a[1][1], b[1][1])), 1
            if a[0] == b[0] == 'h' and a[1] == b[1]: return ('k', icmp(p, a[2], b[2])), 1
            pol = 1
            N = {'ne': 'eq', 'sge': 'slt', 'sle': 'sgt', 'uge': 'ult', 'ule': 'ugt'}
            if p in N: p = N[p]; pol = 0
            if p in ('sgt', 'ugt'): p = p[0] + 'lt'; a, b = b, a
            if p == 'eq' and repr(b) < repr(a): a, b = b, a
            # keep the offset on one side
            return (p, a, b), pol
        v = s.val(o, env)
        if v[0] == 'x' and v[1][0] == 'c': return ('k', v[1][1] & 1), 1
        return ('b', v), 1
    def run(s):
        f, L = s.f, s.L
        env0 = {p: ('h', p, 0) for p in s.T.phis}
        mem0 = {e: ('h', e, 0) for e in s.slots}
        st = [(L.header, None, env0, mem0, {}, (), frozenset(), frozenset())]; seen = set()
        while st:
            b, prev, env, mem, facts, trail, away, used = st.pop(); s.n += 1
            if s.n > CAP: s.gave_up = True; return
            B = f.blocks[b]
            env = dict(env); mem = dict(mem); facts = dict(facts); ok = True
            if b in f.hdr and b != L.header:
                l2 = f.loops[f.hdr[b]]
                if prev in l2.blocks:
                    inner = {i.id for x in l2.blocks for i in f.blocks[x].ins}
                    env = {k: v for k, v in env.items() if k not in inner}
                    facts = {k: v for k, v in facts.items() if not names(k, inner)}
                    mem = {k: v if v[0] == 'h' and v[2] == 0 else ('x', ('m', k)) for k, v in mem.items()}
            if prev is not None:
                new = {}
                for i in B.ins:
                    if i.op != 'phi': break
                    o = i.ops[i.inc.index(prev)]
                    new[i.id] = s.val(o, env)
                    if i.ty == 'i1' and isinstance(o, str) and o not in env:
                        c = s.cond(o, env)
                        if c is not None and c[0][0] != 'k':
                            t = facts.get(c[0])
                            if t is not None: new[i.id] = ('x', C(int(t == c[1])))
                if b in f.hdr and b != L.header and prev in f.loops[f.hdr[b]].blocks:
                    # a later round of an inner loop: anything
                    new = {k: v if v == env.get(k) else ('x', ('v', k)) for k, v in new.items()}
                env.update(new)
            if s.lenient:
                env = {k: v for k, v in env.items() if v[0] == 'h' or v[1][0] == 'c' and f.vals[k].ty in ('i1', 'i8')}
                facts = {k: v for k, v in facts.items() if k[0] == 'cell' or mentions(k, lambda t: t[0] == 'h')}
            key = (b, frozenset((k, v) for k, v in env.items()), frozenset(mem.items()), frozenset(facts.items()), away, used)
            if key in seen: continue
            seen.add(key)
            for i in B.ins:
                if i.op == 'load':
                    e = f.expr(i.ops[0])
                    if e in mem: env[i.id] = mem[e]
                    else:
                        k = facts.get(('cell', rt(e), s.val(i.ops[0], env)))
                        if k is not None: env[i.id] = ('x', C(k))
                        else: env.pop(i.id, None)
                elif i.op == 'store':
                    e = f.expr(i.ops[1])
                    facts = s.keep(facts, rt(e), s.val(i.ops[1], env), i.ops[0])
                    if e in s.slots:
                        v = s.val(i.ops[0], env)
                        mem[e] = v
                    else:
                        if any(same_cell(e, t) for t in s.T.mem): ok = False; break
                        used = used | {root_of(e)}
                    facts = {k: v for k, v in facts.items() if k[0] in ('cell', 'filled') or not has_ld(k)}
                elif i.op in ('cmpxchg', 'atomicrmw'):
                    e = f.expr(i.ops[0])
                    if any(same_cell(e, t) for t in s.T.mem): ok = False; break
                elif is_call(i) and not (i.callee or '').startswith('llvm.dbg'):
                    if p06.ends(i.callee or '') or (i.callee or '') in p20.FATAL: ok = False; break
                    if (i.callee or '').startswith(('__kmpc_single', '__kmpc_master', '__kmpc_masked')): env[i.id] = ('x', C(1)); continue   # one of the threads does it
                    if 'Bit_reference::operator bool' in (i.cdem or ''):
                        k, M = s.bitkey(i.ops[0], env)
                        k = facts.get(('cell', M, k))
                        if k is not None: env[i.id] = ('x', C(k))
                        else: env.pop(i.id, None)
                    if 'Bit_reference::operator=' in (i.cdem or '') and len(i.ops) == 2:
                        k, M = s.bitkey(i.ops[0], env)
                        if k is not None: facts = s.keep(facts, M, k, i.ops[1])
                    if pure_call(s.P, i): continue
                    facts = {k: v for k, v in facts.items() if k[0] in ('cell', 'filled') or not has_ld(k)}
                    touched = [bits(f, a) for a in targets(i)]
                    hit = [t for t in s.T.mem if any(same_cell(t, e) for e in touched)]
                    if i.id in s.tested_calls(): ok = False; break
                    for t in hit:
                        if t in mem: mem[t] = ('x', ('call', i.id))
                    hit = [t for t in hit if t not in s.slots or t in s.T.mem]
                    if hit:
                        if std_call(i) and mname(i) in GROW: away = away | {root_of(hit[0])}
                        else: ok = False; break
                    else:
                        for e in touched: used = used | {root_of(e)}
                    hs = {rt(e) for e in touched}
                    if std_call(i) and mname(i) in GROW and len(i.ops) > 1 and mname(i) != 'insert': facts = dict(facts); facts[('filled', rt(f.expr(i.ops[0])))] = 1
                    elif not (std_call(i) and mname(i) in GROW): facts = {k: v for k, v in facts.items() if k[0] != 'filled' or k[1] not in hs}
                    if 'Bit_reference' not in (i.cdem or ''): facts = {k: v for k, v in facts.items() if k[0] != 'cell' or k[1] not in hs}
            if not ok: continue
            t = B.term
            if t.op in ('ret', 'unreachable', 'resume'): continue
            succ = [(x, None) for x in B.succ]
            if t.op == 'invoke': succ = succ[:1]
            if t.op == 'br' and len(B.succ) == 2 and t.ops and B.succ[0] != B.succ[1]:
                c = s.cond(t.ops[0], env); o = t.ops[0]
                if isinstance(o, str) and o in env and env[o][0] == 'x' and env[o][1][0] == 'c': succ = [(B.succ[0 if env[o][1][1] & 1 else 1], None)]
                elif c is not None and c[0][0] == 'k':
                    v = bool(c[0][1]) == bool(c[1])
                    succ = [(B.succ[0 if v else 1], None)]
                elif s.filled(t.ops[0], facts) is not None: succ = [(B.succ[0 if s.filled(t.ops[0], facts) else 1], None)]
                elif c is not None:
                    kn = facts.get(c[0])
                    if kn is not None: succ = [(B.succ[0 if kn == c[1] else 1], None)]
                    else: succ = [(B.succ[0], (c[0], c[1])), (B.succ[1], (c[0], 1 - c[1]))]
            if s.width_test(b, t, prev): succ = [x for x in succ if x[0] in f.loops[f.hdr[b]].blocks]
            for x, fact in succ:
                if x not in L.blocks: continue
                k = B.succ.index(x)
                fc = facts
                if fact is not None: fc = dict(facts); fc[fact[0]] = fact[1]; imply(fc, fact)
                if x == L.header:
                    s.arrive(b, env, mem, trail + ((t, k),), away, used)
                    continue
                st.append((x, b, env, mem, fc, trail + ((t, k),) if t.op == 'br' and len(B.succ) == 2 else trail, away, used))
    def filled(s, o, facts):
        """the outcome of a test for an empty container that something was just put into"""
        i = s.f.vals.get(o) if isinstance(o, str) else None; pol = 0
        while i is not None and i.op == 'xor': pol ^= 1; i = s.f.vals.get(i.ops[0]) if isinstance(i.ops[0], str) else None
        if i is None: return None
        if is_call(i) and std_call(i) and mname(i) == 'empty':
            return bool(pol) if ('filled', rt(s.f.expr(i.ops[0]))) in facts else None
        if i.op == 'icmp' and s.f.expr(i.ops[1]) == C(0) and i.pred in ('eq', 'ne', 'ugt'):
            e = s.f.expr(i.ops[0])
            if e[0] == 'size' and ('filled', rt(e[1])) in facts: return bool(pol) if i.pred == 'eq' else not pol
        return None
    def width_test(s, b, t, prev):
        """the first test of a counted inner loop that runs over the current size of a container found non-empty"""
        f = s.f
        if b not in f.hdr or b == s.L.header or prev in f.loops[f.hdr[b]].blocks or t.op != 'br' or not t.ops: return False
        L2 = f.loops[f.hdr[b]]
        for i in f.blocks[b].ins:
            if i.op != 'phi': break
            v = f.iv(i)
            if v and v[1] == -1 and s.size_like(v[0]) and any(T is t and bnd == C(0) and p in ('sgt', 'ugt', 'ne') for p, bnd, T in f.bound(i.id)): return True
            if not v or v[0] != C(0) or v[1] != 1: continue
            for p, bnd, T in f.bound(i.id):
                if T is t and p in ('slt', 'ult', 'ne') and s.size_like(bnd): return True
        return False
    def size_like(s, e):
        f = s.f
        if e[0] == 'size' or e[0] == 'call' and e[1] == 'size': return any(root_of(m) == root_of(x) for m in s.T.mem for x in sized(f, e))
        if e[0] == 'phi' and f.vals[e[1]].blk == s.L.header:
            i = f.vals[e[1]]
            return all(s.size_like(f.expr(o)) for o, b in zip(i.ops, i.inc) if b not in s.L.blocks)
        return False
    def tested_calls(s):
        return s.T.calls
    def arrive(s, b, env, mem, trail, away, used):
        f, L = s.f, s.L; moved = set()
        for p in s.T.phis:
            i = f.vals[p]; v = s.val(i.ops[i.inc.index(b)], env)
            if v == ('h', p, 0): continue
            if v[0] == 'h' and v[1] == p:
                d = 1 if v[2] > 0 else -1
                if d in s.wants.get(p, (1, -1)): return
                moved.add(p); continue
            if s.no_step(p, b, v): moved.add(p); continue
            return
        for e, v in mem.items():
            if v == ('h', e, 0): continue
            if v[0] == 'h' and v[1] == e:
                d = 1 if v[2] > 0 else -1
                if d in s.wants.get(e, (1, -1)): return
                moved.add(e); continue
            return
        moved |= away
        if s.has_next(trail): return
        if moved and s.uses_up(trail, moved): return
        s.bad.append((trail, moved))
    def has_next(s, trail):
        """the node's count of waiting children was found non-zero and its list of children gone through: one of them was taken"""
        f = s.f; left = []; lists = set()
        for t, k in trail:
            if not t.ops: continue
            i = f.vals.get(t.ops[0]) if isinstance(t.ops[0], str) else None
            if i is None or i.op != 'icmp': continue
            e = f.expr(i.ops[0])
            if i.pred in ('eq', 'ne') and f.expr(i.ops[1]) == C(0) and e[0] == 'ld' and e[1][0] == 'elem' and (i.pred == 'eq') == (k == 1): left.append(e[1][2])
            L2 = f.loop(t.blk)
            if L2 is not None and L2 is not s.L:
                for h in f.blocks[L2.header].ins:
                    if h.op != 'phi': break
                    v = f.iv(h)
                    if v and v[0][0] == 'ld' and v[0][1][0] == 'elem': lists.add(v[0][1][2])
        return any(x in lists for x in left)
    def no_step(s, p, b, v):
        """the variable moves by an amount that nothing shows to be above zero"""
        if v[1][0] not in ('add', 'sub') or len(v[1]) != 4: return False
        f = s.f; i = f.vals[p]; o = i.ops[i.inc.index(b)]
        n = 0
        while isinstance(o, str) and f.vals.get(o) is not None and f.vals[o].op in ('sext', 'zext', 'trunc') and n < 5: o = f.vals[o].ops[0]; n += 1
        q = f.vals.get(o) if isinstance(o, str) else None
        if q is None or q.op not in ('add', 'sub'): return False
        for x, y in ((0, 1), (1, 0)):
            if v[1][2 + x] == ('h', p, 0) and v[1][2 + y][0] == 'x':
                a = q.ops[y]
                if isinstance(a, str) and not (a in f.vals and f.vals[a].blk in s.L.blocks):
                    s.P.steps.add((f.short, p))
                    return not above_zero(f, a, b)
        return False
    def uses_up(s, trail, moved):
        if s.W is None: s.W = writes(s.P, s.f, s.L)
        skip = {rt(m) for m in moved if isinstance(m, tuple)}
        return any(uses_up(s.f, s.L, s.W, t, k, skip | s.stacks) for t, k in trail)

def icmp(p, a, b):
    if p[0] == 'u' and (a < 0 or b < 0): a %= 1 << 64; b %= 1 << 64
    return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])

def above_zero(f, o, b, d=0):
    """o > 0 wherever block b runs (or o divides something there, so that it is not zero)"""
    if not isinstance(o, str): return o[0] == 'c' and o[1] > 0
    if d > 6: return False
    i = f.vals.get(o)
    if i is not None:
        if i.op in ('sext', 'trunc', 'freeze'): return above_zero(f, i.ops[0], b, d + 1)
        if i.op == 'phi' and not any(f.bdom(i.blk, x) for x in i.inc): return all(above_zero(f, x, p, d + 1) or edge_shows(f, x, p, i.blk) for x, p in zip(i.ops, i.inc))
        if i.op == 'select':
            c = f.vals.get(i.ops[0])
            return all(above_zero(f, x, b, d + 1) or c is not None and shows(f.expr(i.ops[0]), k == 0, f.expr(x)) for k, x in enumerate(i.ops[1:]))
        if is_call(i) and 'max' in mname(i): return True
        if i.op == 'load':
            e = f.expr(i.ops[0])
            if e[0] == 'alloca':
                st = [u for u in f.users.get(e[1], []) if u.op == 'store' and u.ops[1] == e[1]]
                if st and all(above_zero(f, u.ops[0], u.blk, d + 1) for u in st): return True
    e = f.expr(o)
    if any(shows(c, t, e) for c, t, _ in f.guards(b)): return True
    return any(u.op in ('sdiv', 'udiv', 'srem', 'urem') and u.ops[1] == o and f.bdom(u.blk, b) for u in f.users.get(o, []))

def shows(c, t, e):
    if c[0] != 'cmp': return False
    p, a, b = c[1], c[2], c[3]
    if not t: p = NEG.get(p, '')
    if b == e: a, b, p = b, a, SWAP.get(p, p)
    if a != e or b[0] != 'c': return False
    return p == 'sgt' and b[1] >= 0 or p == 'sge' and b[1] >= 1 or p == 'ugt' and b[1] >= 0 or p == 'ne' and b[1] == 0 or p == 'eq' and b[1] > 0

def edge_shows(f, o, p, to):
    T = f.blocks[p].term; e = f.expr(o)
    if T.op == 'br' and len(T.tgt or []) == 2 and T.ops and T.tgt[0] != T.tgt[1]:
        return shows(f.expr(T.ops[0]), T.tgt[0] == to, e)
    return False

def sized(f, e):
    if e[0] == 'size': return [e[1]]
    return [f.expr(o) for o in f.vals[e[2]].ops]

def names(e, ids): return any(names(x, ids) if isinstance(x, tuple) else isinstance(x, str) and x in ids for x in e)

def nest(e): return 1 + max([nest(x) for x in e if isinstance(x, (tuple, list))], default=0)

def has_ld(k): return mentions(k, lambda t: t and t[0] in ('ld', 'call', 'size', 'b', 'vb', 'bitref', 'elem', 'data'))

def imply(facts, fact):
    (p, a, b), v = fact if len(fact[0]) == 3 else ((None, None, None), 0)
    if p in ('slt', 'ult') and v:                                # a < b: not b < a, not equal
        facts[(p, b, a)] = 0
        facts[('eq',) + ((a, b) if repr(a) <= repr(b) else (b, a))] = 0
    if p == 'eq' and v:
        for q in ('slt', 'ult'): facts[(q, a, b)] = facts[(q, b, a)] = 0

def bits(f, a):
    """the container a bit reference kept in a temporary was taken from"""
    e = f.expr(a)
    if e[0] == 'alloca':
        for u in f.users.get(e[1], []):
            src = None
            if u.op == 'store' and u.ops[1] == e[1]: src = u.ops[0]
            elif u.op == 'getelementptr':
                for w in f.users.get(u.id, []):
                    if w.op == 'store' and w.ops[1] == u.id: src = w.ops[0]
            i = f.vals.get(src) if isinstance(src, str) else None
            if i is not None and i.op == 'extractvalue': i = f.vals.get(i.ops[0])
            if i is not None and is_call(i) and 'vector<bool' in (i.cdem or '') and i.ops: return f.expr(i.ops[0])
    return e

def drivers(f, L, T):
    """a loop run by a flag: what decides the changes of the flag is looked at as well"""
    def flag(p):
        i = f.vals[p]
        if i.ty == 'i1' or i.ty == 'i8': return True
        vs = [o for o, b in zip(i.ops, i.inc) if b in L.blocks and o != p]
        return bool(vs) and all(consts(o, set(), p) for o in vs)
    def consts(o, seen, p):
        if not isinstance(o, str): return o[0] == 'c'
        i = f.vals.get(o)
        if o in seen or o == p: return True
        seen.add(o)
        return i is not None and i.op in ('phi', 'select') and all(consts(x, seen, p) for x in (i.ops if i.op == 'phi' else i.ops[1:]))
    if T.mem and any(e[0] != 'alloca' for e in T.mem) or T.calls or not T.phis or not all(flag(p) for p in T.phis): return
    done = set(); work = [o for p in T.phis for o in f.vals[p].ops]
    blks = set()
    while work:
        o = work.pop()
        i = f.vals.get(o) if isinstance(o, str) else None
        if i is None or o in done or i.blk not in L.blocks: continue
        done.add(o)
        if i.op == 'phi' and i.blk != L.header:
            for x, b in zip(i.ops, i.inc): work.append(x); blks.add(b)
        elif i.op == 'select': work += list(i.ops[1:]); looked(f, L, i.ops[:1], T)
    for p in list(T.phis):
        for b in f.vals[p].inc:
            if b in L.blocks: blks.add(b)
    for b in blks:
        for d, k in f.cdeps(b):
            if d in L.blocks and f.blocks[d].term.ops: looked(f, L, f.blocks[d].term.ops[:1], T)

def exits(f, L):
    out = []
    for b, k, t in f.loop_exits(L):
        T = f.blocks[b].term
        if T.op == 'invoke' and k == 1: continue
        if f.blocks[t].term.op == 'unreachable' and all(i.op != 'landingpad' for i in f.blocks[t].ins) and not any(is_call(i) for i in f.blocks[t].ins): continue
        out.append((b, k, T))
    return out

def wants_of(w, f, L, ex):
    out = {}
    def put(v, d):
        if v[0] == 'h': out.setdefault(v[1], set()).update(d)
    env = {p: ('h', p, 0) for p in w.T.phis}
    for b in L.blocks:
        for i in f.blocks[b].ins:
            if i.op == 'load':
                e = f.expr(i.ops[0])
                if e in w.slots: env[i.id] = ('h', e, 0)
    def cond(o, k, seen):
        i = f.vals.get(o) if isinstance(o, str) else None
        if i is None or o in seen: return
        seen.add(o)
        if i.op == 'xor': return cond(i.ops[0], 1 - k, seen)
        if i.op == 'phi' and i.ty == 'i1':
            for x in i.ops: cond(x, k, seen)
            return
        if i.op in ('and', 'or', 'select', 'freeze'):
            for x in i.ops: cond(x, k, seen)
            return
        if i.op != 'icmp':
            for p in looked(f, L, [o], Tested()).phis: put(('h', p), (1, -1))
            return
        p = i.pred if k == 1 else NEG.get(i.pred, i.pred)         # k: successor that leaves; continue when the other holds
        a, b = w.val(i.ops[0], env), w.val(i.ops[1], env)
        for v, o2, q in ((a, i.ops[0], p), (b, i.ops[1], SWAP.get(p, p))):
            if v[0] == 'h': put(v, (1,) if q in ('slt', 'sle', 'ult', 'ule') else (-1,) if q in ('sgt', 'sge', 'ugt', 'uge') else (1, -1))
            else:
                for x in looked(f, L, [o2], Tested()).phis: put(('h', x), (1, -1))
                # a variable inside an expression: either direction may count
    for b, k, T in ex:
        if T.op == 'br' and T.ops: cond(T.ops[0], k, set())
        elif T.ops:
            for x in looked(f, L, T.ops[:1], Tested()).phis: put(('h', x), (1, -1))
    return out

def rt(e):
    """the object an address belongs to; the elements of a container belong to the container"""
    while True:
        e = root_of(e)
        if e[0] in ('data', 'begin', 'end', 'vb', 'bitref', 'size') and isinstance(e[1], tuple): e = e[1]
        else: return e

def slice_has(f, L, o, M, d=0, seen=None):
    seen = set() if seen is None else seen
    i = f.vals.get(o) if isinstance(o, str) else None
    if i is None or o in seen or i.blk not in L.blocks: return False
    seen.add(o)
    if i.op == 'load' and rt(f.expr(i.ops[0])) == M: return True
    if is_call(i) and any(rt(bits(f, a)) == M for a in i.ops if isinstance(a, str)): return True
    return any(slice_has(f, L, x, M, d + 1, seen) for x in (i.ops or []))

def advances(f, L, o, M):
    """a stored value that is M's own, moved on"""
    i = f.vals.get(o) if isinstance(o, str) else None
    if i is None: return False
    if i.op in ('sext', 'zext', 'trunc', 'freeze'): return advances(f, L, i.ops[0], M)
    if i.op in ('phi',): return False
    if i.op == 'select': return any(advances(f, L, x, M) for x in i.ops[1:])
    if i.op == 'load': return rt(f.expr(i.ops[0])) != M and slice_has(f, L, i.ops[0], M)
    return slice_has(f, L, o, M)

def writes(P, f, L):
    """what the loop writes: object -> constants written, or 'moved' for a value moved on"""
    out = {}
    def put(e, v): out.setdefault(rt(e), set()).add(v)
    for b in L.blocks:
        for i in f.blocks[b].ins:
            if i.op == 'store':
                e = f.expr(i.ops[1]); o = i.ops[0]
                if not isinstance(o, str) and o[0] == 'c': put(e, o[1])
                elif advances(f, L, o, rt(e)): put(e, 'moved')
            elif i.op in ('atomicrmw', 'cmpxchg'): put(f.expr(i.ops[0]), 'moved')
            elif is_call(i) and not pure_call(P, i):
                if 'Bit_reference::operator=' in (i.cdem or '') and len(i.ops) == 2:
                    o = i.ops[1]
                    put(bits(f, i.ops[0]), o[1] & 1 if not isinstance(o, str) and o[0] == 'c' else 'moved')
                    continue
                for a in targets(i):
                    if isinstance(a, str): put(bits(f, a), 'moved')
    return out

def with_value(f, o, M, c, d=0):
    """value of a condition when what is read from M is c"""
    if not isinstance(o, str): return o[1] if o[0] == 'c' else None
    i = f.vals.get(o)
    if i is None or d > 12: return None
    if i.op == 'load': return c if rt(f.expr(i.ops[0])) == M else None
    if i.op in ('sext', 'zext', 'trunc', 'freeze'): return with_value(f, i.ops[0], M, c, d + 1)
    if is_call(i) and 'ool' in (i.cdem or ''): return c if any(rt(bits(f, a)) == M for a in i.ops[:1]) else None
    a = [with_value(f, x, M, c, d + 1) for x in (i.ops or [])]
    if len(a) != 2 or None in a: return None
    if i.op == 'icmp': return icmp(i.pred, a[0], a[1])
    if i.op == 'xor': return (a[0] ^ a[1]) & 1 if i.ty == 'i1' else a[0] ^ a[1]
    return None

def uses_up(f, L, W, t, k, skip=()):
    """taking successor k of t depends on an object the loop changes so that it is not taken for ever"""
    if t.op != 'br' or not t.ops: return t.op == 'switch'
    for M in {rt(m) for m in looked(f, L, t.ops[:1], Tested()).mem}:
        if M in skip: continue
        for v in W.get(M, ()):
            if v == 'moved': return True
            x = with_value(f, t.ops[0], M, v)
            if x is None or bool(x) != (k == 0): return True
    return False

def worklists(P, f, L, w, r, key, where):
    """what is added to a container the loop runs on must be bounded by something the addition uses up"""
    W = None
    for b in sorted(L.blocks):
        for i in f.blocks[b].ins:
            if not (is_call(i) and std_call(i) and mname(i) in GROW and i.ops): continue
            c = f.expr(i.ops[0])
            if not any(same_cell(c, m) for m in w.T.mem): continue
            r.n('worklist additions')
            W = writes(P, f, L) if W is None else W
            ok = False
            for d, k in f.cdeps(b):
                t = f.blocks[d].term
                if d not in L.blocks or not t.ops or d in (x for x, _, _ in exits(f, L)): continue
                q = f.vals.get(t.ops[0]) if isinstance(t.ops[0], str) else None
                if uses_up(f, L, W, t, k, {rt(c)}): ok = True
                # a number taken from the container, bounded from one side, and put back changed
                elif q is not None and q.op == 'icmp' and q.pred not in ('eq', 'ne') and any(taken(f, L, o, rt(c)) for o in q.ops): ok = True
            # one element replaced by what it links to
            if not ok and f.loop(b) is L and any(is_call(q) and std_call(q) and mname(q) in SHRINK and q.ops and same_cell(f.expr(q.ops[0]), c) and f.dom(q, i) for x in L.blocks for q in f.blocks[x].ins): ok = True
            if not ok:
                r.v(key + ':add', i.where(), '%s: the loop at %s adds to the container it runs on under no condition that the loop uses up' % (f.short, where))

def targets(i):
    """arguments a call may write through"""
    return i.ops[:1] if std_call(i) and mname(i) in GROW + SHRINK and mname(i) != 'swap' else i.ops

def taken(f, L, o, M, d=0):
    """arithmetic on an element of container M"""
    i = f.vals.get(o) if isinstance(o, str) else None
    if i is None or d > 12: return False
    if i.op == 'load': return rt(f.expr(i.ops[0])) == M or stdref(f, i.ops[0], M)
    if i.op in ('sext', 'zext', 'trunc', 'freeze', 'add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'shl'): return any(taken(f, L, x, M, d + 1) for x in i.ops)
    return False

def stdref(f, o, M):
    i = f.vals.get(o) if isinstance(o, str) else None
    return i is not None and is_call(i) and std_call(i) and bool(i.ops) and rt(f.expr(i.ops[0])) == M

def stack_arrays(f, L, w):
    """arrays written at the position the loop runs on"""
    out = set(); pos = {p for p, d in w.wants.items() if p in w.T.phis and d == {-1}}
    def at(o, d=0):
        i = f.vals.get(o) if isinstance(o, str) else None
        if i is None or d > 8: return False
        if i.op == 'phi' and o in pos: return True
        if i.op in ('sext', 'zext', 'add', 'sub', 'trunc', 'freeze'): return any(at(x, d + 1) for x in i.ops)
        if i.op == 'phi' and i.blk != L.header: return any(at(x, d + 1) for x in i.ops)
        return False
    for b in L.blocks:
        for i in f.blocks[b].ins:
            if i.op != 'store': continue
            g = f.vals.get(i.ops[1]) if isinstance(i.ops[1], str) else None
            if g is not None and g.op == 'getelementptr' and any(at(x) for x in g.ops[1:]): out.add(rt(f.expr(i.ops[1])))
    return out

def counted(f, L, w):
    for p in w.T.phis:
        v = f.iv(p)
        if v and (1 if v[1] > 0 else -1) in w.wants.get(p, ()): return True
    return False

def name_of(f, L):
    for b in [L.header] + sorted(L.blocks):
        for i in f.blocks[b].ins:
            if i.loc and i.op != 'phi': return i.where()
    return f.short

READS = re.compile(r'(^|::)(getline|get|read|operator>>|ignore|readsome)(<.*>)?\(|^(fgets|fscanf|__isoc\w*_fscanf|fgetc|getc|fread|getchar|scanf|__isoc\w*_scanf|getline)$')
ENDED = [(re.compile(p), v) for p, v in ((r'::(operator bool|good|operator void\*)\(', 0), (r'::(operator!|eof|fail)\(', 1), (r'::bad\(|^ferror$', 0), (r'^feof$', 1),
         (r'^fgets$|^fread$', 0), (r'^(fscanf|__isoc\w*_fscanf|fgetc|getc|getchar|scanf|__isoc\w*_scanf|getline|__getdelim|getdelim)$|istream<.*>::(get|peek)\(\)', -1))]
def input_ends(P, f, L, ex):
    """None: the loop reads no input; else a way round the loop (block lines) that is open when the input has ended, or []"""
    def reads(i): return is_call(i) and i.callee not in P.fns and READS.search(i.cdem or i.callee or '')
    if not any(reads(i) for b in L.blocks for i in f.blocks[b].ins): return None
    def val(o, env):
        if not isinstance(o, str): return o[1] if o[0] == 'c' else 0 if o[0] in ('null', 'zero') else None
        return env.get(o)
    def step(i, env):
        if is_call(i):
            n = i.cdem or i.callee or ''
            for p, v in ENDED:
                if p.search(n): env[i.id] = v; return
            if n.startswith('llvm.expect'): env[i.id] = val(i.ops[0], env); return
            env.pop(i.id, None); return
        x = [val(o, env) for o in i.ops]; v = None
        if i.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'): v = x[0]
        elif i.op == 'icmp' and None not in x:
            A, B = x; v = int({'eq': A == B, 'ne': A != B, 'slt': A < B, 'sle': A <= B, 'sgt': A > B, 'sge': A >= B, 'ult': A % 2**64 < B % 2**64, 'ule': A % 2**64 <= B % 2**64, 'ugt': A % 2**64 > B % 2**64, 'uge': A % 2**64 >= B % 2**64}[i.pred])
        elif i.op == 'and' and 0 in x: v = 0
        elif i.op == 'or' and i.ty == 'i1' and (1 in x or -1 in x): v = 1
        elif i.op in ('and', 'or', 'xor') and None not in x and i.ty == 'i1': v = {'and': x[0] & x[1], 'or': x[0] | x[1], 'xor': (x[0] ^ x[1]) & 1}[i.op]
        elif i.op == 'select':
            if x[0] is not None: v = x[1] if x[0] else x[2]
            elif x[1] == x[2]: v = x[1]
        elif i.op == 'store':
            env[f.expr(i.ops[1])] = x[0]; return
        elif i.op == 'load': v = env.get(f.expr(i.ops[0]))
        if v is None: env.pop(i.id, None)
        else: env[i.id] = v
    H = L.header; seen = set(); work = [(H, None, {}, ())]; n = 0
    while work:
        b, pred, env, trail = work.pop(); env = dict(env)
        if b == H and pred is not None: return list(trail) or ['?']
        B = f.blocks[b]; new = {}
        for i in B.ins:
            if i.op != 'phi': break
            v = None
            for o, q in zip(i.ops, i.inc):
                if q == pred: v = val(o, env)
            new[i.id] = v
        for k, v in new.items():
            if v is None: env.pop(k, None)
            else: env[k] = v
        for i in B.ins:
            if i.op != 'phi': step(i, env)
        key = (b, pred, tuple(sorted((str(k), v) for k, v in env.items() if v is not None)))
        n += 1
        if key in seen or n > 4000: continue
        seen.add(key); T = B.term; nx = list(B.succ)
        if T.op == 'br' and T.ops and len(T.tgt or []) == 2:
            v = val(T.ops[0], env)
            if v is not None: nx = [T.tgt[0] if v else T.tgt[1]]
        elif T.op == 'invoke': nx = nx[:1]
        for t in nx:
            if t in L.blocks: work.append((t, b, env, trail + ((T.line,) if len(B.succ) > 1 else ())))
    return []

def relinked(f, L, r):
    """a list walked through an array of successors: an entry's successor is read before the entry is linked elsewhere"""
    for q in f.blocks[L.header].ins:
        if q.op != 'phi': continue
        me = f.expr(q.id)
        for o, b in zip(q.ops, q.inc):
            if b not in L.blocks or not isinstance(o, str): continue
            x = f.vals.get(o) if hasattr(f.vals, 'get') else None
            while x is not None and x.op in ('sext', 'zext', 'trunc') and isinstance(x.ops[0], str): x = f.vals.get(x.ops[0])
            if x is None or x.op != 'load': continue
            base, k = split_elem(f.expr(x.ops[0]))
            if lin_parts(k)[1].get(me) != 1: continue
            r.n('lists walked')
            for st in f.stores():
                if st.blk not in L.blocks or split_elem(f.expr(st.ops[1])) != (base, k) or not f.dom(st, x): continue
                yield st, base

def check(ctx, r):
    for prog in ('ser', 'omp'):
        P = ctx.prog(prog); P.steps = set()
        for f in P.fns.values():
            if not (p07.repo(f) or prog == 'omp' and f.file and f.file.startswith(P.root)): continue
            r.n('routines')
            for L in f.loops.values():
                ex = exits(f, L); key = '%s:loop' % f.short
                where = name_of(f, L)
                if not ex:
                    r.v(key + ':noexit', where, '%s has a loop that nothing leaves' % f.short); continue
                T = Tested()
                for b, k, t in ex:
                    looked(f, L, t.ops[:1] if t.op in ('br', 'switch') else t.ops, T)
                drivers(f, L, T)
                w = Walk(P, f, L, T, {}, False)
                w.wants = wants_of(w, f, L, ex)
                w.stacks = stack_arrays(f, L, w)
                r.n('loops')
                for st, base in relinked(f, L, r):
                    r.v('%s:%s:relinked' % (f.short, pretty(f, base).lstrip('*')), st.where(), '%s: the entry at hand is linked elsewhere in %s before its successor is read from it' % (f.short, pretty(f, base).lstrip('*')))
                if counted(f, L, w): r.n('counted'); continue
                q = input_ends(P, f, L, ex)
                if q is not None:
                    r.n('loops that read input')
                    if q: r.v('%s:input' % f.short, where, '%s: at the end of the input the loop can come round again with nothing read; path: %s' % (f.short, ' '.join(str(x) for x in q)))
                worklists(P, f, L, w, r, key, where)
                r.n('followed')
                w.run()
                if w.gave_up:
                    w2 = Walk(P, f, L, T, w.wants, True); w2.stacks = w.stacks; w2.run(); w = w2
                if w.gave_up: r.n('gave up'); print('GAVEUP', where)
                for trail, moved in w.bad[:1]:
                    r.v(key, where, '%s: the loop can come round with %s; path: %s' % (f.short, 'nothing its exit looks at changed' if not moved else 'a step that may be zero' if any(p in f.vals and not w.f.iv(p) and (f.short, p) in P.steps for p in moved if isinstance(p, str)) else 'its position only moved away from the exit and nothing used up', ' '.join(str(t.line) for t, k in trail)))
