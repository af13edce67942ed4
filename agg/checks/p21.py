"""Value arrays that may be absent are never dereferenced unguarded."""
import os, re
from ir import *
from lib import *
from checks import p06, p07, p20
LEVEL = 'other'
RULE = ("For every routine that takes a matrix, and for every pointer parameter that the routine itself, its declaration, one of its callers or agg/optional.txt treats as optional, all control-flow paths are explored with exactly that "
        "array absent (null, and the matrix's pattern flag set), following the null pointer through variables, fields, calls (callees are explored with the same arguments) and constructors: it may not be read, "
        "written or handed to something that does. Every matrix object a routine builds and returns must then say is_pattern exactly when it has no value array, and an object that says it has values must be given "
        "some on a path of the routine. What is written only when an optional output array is there is that array. Where an optional index map is replaced by something, the replacement is the index itself.")
ASSUME = ["matrices explored have at least one row, column and entry", "routines listed in agg/values.txt (and the parts only they call) compute with the values and require them; handing them a pattern matrix is a violation at the caller; a routine's own optional output of values is absent too when its matrix has none",
          "library routines that are given a null array and a length read it"]
CAP = 30000
is_call = p20.is_call
MAT = ('CSC', 'CSR')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
READERS = re.compile(r'^(memcpy|memmove|memset|memcmp|strlen|strcpy|strcmp)$|^llvm\.mem')
STDREADERS = ('copy', 'copy_n', 'fill', 'fill_n', 'sort', 'accumulate', 'equal', 'find', 'max_element', 'min_element', 'transform', 'iota', 'reverse', 'swap_ranges', 'inner_product', 'stable_sort', 'unique', 'lower_bound', 'upper_bound', 'is_sorted')

def needs_values():
    out = {}
    for l in open(os.path.join(HERE, 'values.txt')):
        l = l.split('#')[0].strip()
        if l: n, _, why = l.partition(' '); out[n] = why
    return out

def optional():
    out = {}
    for l in open(os.path.join(HERE, 'optional.txt')):
        l = l.split('#')[0].split(None, 2)
        if l: out.setdefault(l[0], []).append((int(l[1]), l[2].strip().replace('const ', '')))
    return out
def xfld(X, c=None): return ('fld', X, 'CSC', 'x')
def pfld(X, c=None): return ('fld', X, 'CSC', 'is_pattern')
def norm(e):
    """the compiler folds the two matrix layouts into one"""
    if not isinstance(e, tuple): return e
    if len(e) == 4 and e[0] == 'fld' and e[2] == 'CSR': e = ('fld', e[1], 'CSC', e[3])
    return tuple(norm(y) for y in e) if any(isinstance(y, tuple) for y in e) else e
def ex(f, o):
    c = f.__dict__.setdefault('_p21', {})
    k = o if isinstance(o, str) else tuple(map(str, o))
    if k not in c: c[k] = norm(f.expr(o))
    return c[k]

class Out:
    def __init__(s): s.derefs = {}; s.rets = []; s.written = set(); s.gave_up = False; s.handed = []

class Explorer:
    def __init__(s, P, NEED): s.P = P; s.NEED = NEED; s.memo = {}
    def ctor_class(s, i):
        m = re.search(r'(?:^|::)(CSC|CSR)::\1\(', i.cdem or '')
        return m[1] if m else None
    def explore(s, f, args, mem, depth=0):
        key = (f.name, tuple(sorted(args.items(), key=repr)), tuple(sorted(mem.items(), key=repr)))
        if key in s.memo: return s.memo[key]
        s.memo[key] = Out()                     # recursion
        o = Out(); s.memo[key] = o
        s.run(f, args, mem, depth, o)
        return o
    def ev(s, f, r, env, d=0):
        if not isinstance(r, str):
            return r[1] if r[0] == 'c' else 'null' if r[0] == 'null' else 'nn' if r[0] in ('g', 'fn') else None
        if r in env: return env[r]
        i = f.vals.get(r)
        if i is None or d > 25: return None
        op = i.op
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            v = s.ev(f, i.ops[0], env, d + 1)
            if isinstance(v, int) and op == 'trunc' and i.ty == 'i1': return v & 1
            if isinstance(v, int) and op == 'zext' and v < 0: return v & 1 if v == -1 else None
            return v
        if op == 'getelementptr':
            b = s.ev(f, i.ops[0], env, d + 1)
            return b if b in ('null', 'nn') else None
        if op == 'alloca': return 'nn'
        if op == 'icmp':
            a, b = s.ev(f, i.ops[0], env, d + 1), s.ev(f, i.ops[1], env, d + 1)
            if a is None or b is None: return None
            if isinstance(a, str) or isinstance(b, str):
                if i.pred not in ('eq', 'ne') or a == b == 'nn': return None
                if isinstance(a, int) or isinstance(b, int): return None
                return int((a == b) == (i.pred == 'eq'))
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[i.pred if i.pred in ('eq', 'ne') else i.pred[1:]])
        if op in ('xor', 'and', 'or'):
            a, b = s.ev(f, i.ops[0], env, d + 1), s.ev(f, i.ops[1], env, d + 1)
            if op == 'and' and (a == 0 or b == 0): return 0
            if op == 'or' and i.ty == 'i1' and (a == 1 or b == 1 or a == -1 or b == -1): return 1
            if not isinstance(a, int) or not isinstance(b, int): return None
            v = {'xor': a ^ b, 'and': a & b, 'or': a | b}[op]
            return v & 1 if i.ty == 'i1' else v
        if op == 'select':
            c = s.ev(f, i.ops[0], env, d + 1)
            if c is not None: return s.ev(f, i.ops[1 if c & 1 else 2], env, d + 1)
            a, b = s.ev(f, i.ops[1], env, d + 1), s.ev(f, i.ops[2], env, d + 1)
            return a if a == b else None
        if is_call(i) and ((i.callee or '').startswith(('_Zna', '_Znw')) or i.callee in ('malloc', 'calloc', 'realloc')): return 'nn'
        return None
    def refine(s, f, o, truth, env, mem, d=0):
        """what a branch on o being truth tells"""
        i = f.vals.get(o) if isinstance(o, str) else None
        if i is None and isinstance(o, str) and any(a['id'] == o for a in f.args): env.setdefault(o, int(truth))
        if i is None or d > 8: return
        def learn(r, v):
            q = f.vals.get(r) if isinstance(r, str) else None
            n = 0
            while q is not None and q.op in ('zext', 'trunc', 'freeze') and n < 6: r = q.ops[0]; q = f.vals.get(r) if isinstance(r, str) else None; n += 1
            if isinstance(r, str) and (r not in env):
                env[r] = v
                if q is not None and q.op == 'load': mem.setdefault(ex(f, q.ops[0]), v)
        if i.op == 'load': learn(o, int(truth))
        elif i.op in ('trunc', 'zext', 'freeze'): s.refine(f, i.ops[0], truth, env, mem, d + 1)
        elif i.op == 'xor' and not isinstance(i.ops[1], str) and i.ops[1][0] == 'c' and i.ops[1][1] & 1: s.refine(f, i.ops[0], not truth, env, mem, d + 1)
        elif i.op == 'icmp' and i.pred in ('eq', 'ne'):
            a, b = i.ops
            if isinstance(a, str) and not isinstance(b, str):
                eq = truth == (i.pred == 'eq')
                if b[0] == 'null': learn(a, 'null' if eq else 'nn')
                elif b[0] == 'c' and b[1] == 0 and s.boolean(f, a):
                    if eq: learn(a, 0)
                    else: learn(a, 1)
        elif i.op == 'phi' and i.ty == 'i1': env[o] = int(truth)
        elif is_call(i) and i.ty == 'i1': env[o] = int(truth)
    def boolean(s, f, r, d=0):
        i = f.vals.get(r) if isinstance(r, str) else None
        return i is not None and d < 6 and (i.ty == 'i8' or i.ty == 'i1' or i.op in ('zext', 'freeze') and s.boolean(f, i.ops[0], d + 1))
    def touch(s, f, o, i, v, what):
        if v == 'null': o.derefs.setdefault((f, i.id or (i.blk, i.pos)), (i, what))
    def run(s, f, args, mem0, depth, o):
        n = 0; seen = set()
        env0 = {}
        for a in f.args:
            if a['id'] in args: env0[a['id']] = args[a['id']]
        st = [(f.entry, None, env0, dict(mem0))]
        while st:
            b, prev, env, mem = st.pop(); n += 1
            if n > CAP: o.gave_up = True; return
            env = dict(env); mem = dict(mem); B = f.blocks[b]
            if prev is not None:
                new = {}
                for i in B.ins:
                    if i.op != 'phi': break
                    if not (i.ty in ('i1', 'i8', 'ptr') or b not in f.hdr): continue
                    v = s.ev(f, i.ops[i.inc.index(prev)], env)
                    new[i.id] = v
                for k, v in new.items():
                    if v is None: env.pop(k, None)
                    else: env[k] = v
            key = (b, frozenset(env.items()), frozenset(mem.items()))
            if key in seen: continue
            seen.add(key)
            end = False
            for i in B.ins:
                if i.op == 'load':
                    if s.ev(f, i.ops[0], env) == 'null': s.touch(f, o, i, 'null', 'read'); end = True; break
                    e = ex(f, i.ops[0])
                    if mem.get(e) is not None: env[i.id] = mem[e]
                    else: env.pop(i.id, None)
                elif i.op == 'store':
                    if s.ev(f, i.ops[1], env) == 'null': s.touch(f, o, i, 'null', 'written'); end = True; break
                    e = ex(f, i.ops[1]); v = s.ev(f, i.ops[0], env)
                    if e[0] == 'alloca' or e[0] == 'fld' or e in mem:
                        if v is not None and (not isinstance(v, int) or s.tracked(f, i)): mem[e] = v
                        else: mem.pop(e, None)
                    rt = root_of(e)
                    if rt[0] == 'ld': o.written.add(rt[1])
                    if e[0] == 'fld' and e[3] == 'x': o.written.add(e) if v != 'null' and not s.fresh(f, i.ops[0]) else None
                elif is_call(i):
                    r = s.call(f, i, env, mem, depth, o)
                    if r == 'end': end = True; break
            if end: continue
            T = B.term
            if T.op in ('unreachable', 'resume'): continue
            if T.op == 'ret':
                rv = s.ev(f, T.ops[0], env) if T.ops else None
                re_ = ex(f, T.ops[0]) if T.ops and isinstance(T.ops[0], str) else None
                if re_ is not None and re_[0] == 'phi' and prev is not None:
                    q = f.vals[re_[1]]
                    if q.blk == b and prev in q.inc: re_ = ex(f, q.ops[q.inc.index(prev)])
                o.rets.append((rv, re_, mem, T)); continue
            succ = [(x, None) for x in B.succ]
            if T.op == 'invoke': succ = succ[:1]
            elif T.op == 'br' and len(B.succ) == 2 and T.ops:
                c = s.ev(f, T.ops[0], env)
                succ = [(B.succ[0 if c & 1 else 1], None)] if isinstance(c, int) else [(B.succ[0], True), (B.succ[1], False)]
            for x, truth in succ:
                if truth is None: st.append((x, b, env, mem))
                else:
                    e2 = dict(env); m2 = dict(mem)
                    s.refine(f, T.ops[0], truth, e2, m2)
                    st.append((x, b, e2, m2))
    def tracked(s, f, st):
        e = ex(f, st.ops[1])
        return e[0] == 'fld' and e[3] in ('is_pattern', 'pre_alloc') or e[0] == 'alloca' and f.vals[e[1]].j.get('aty') in ('i8', 'i1')
    def fresh(s, f, o):
        i = f.vals.get(o) if isinstance(o, str) else None
        return i is not None and is_call(i) and (i.callee or '').startswith(('_Zna', '_Znw'))
    def call(s, f, i, env, mem, depth, o):
        c = i.callee or ''
        if p06.ends(c) or c in p20.FATAL: return 'end'
        if c.startswith('llvm.') and not c.startswith('llvm.mem'): return None
        vals = [s.ev(f, a, env) for a in i.ops]
        cc = s.ctor_class(i)
        if cc is not None and len(i.ops) >= 4:
            s.construct(f, i, cc, vals, mem, o); return None
        g = s.P.fns.get(c)
        if g is not None and p07.repo(g):
            n = g.dem.split('(')[0].split(' ')[-1].split('::')[-1]
            if n.startswith('~'): return None
            args = {}; m2 = {}; back = []
            for k, (a, v) in enumerate(zip(i.ops, vals)):
                if k >= len(g.args): break
                if v is not None and (isinstance(v, str) or g.args[k].get('ty') in ('i1', 'i8')): args[g.args[k]['id']] = v
                if not isinstance(a, str): continue
                e = ex(f, a)
                back.append((k, e))
                for x, v in mem.items():
                    if x == e: m2[('arg', k)] = v
                    elif mentions(x, lambda y: y == e): m2[subst(x, e, ('arg', k))] = v
                if e[0] == 'fld' and e in mem: m2[('arg', k)] = mem[e]
            known = any(v == 'null' for v in args.values()) or any(v == 'null' or x[0] == 'fld' and x[3] == 'is_pattern' for x, v in m2.items())
            if n in s.NEED:
                for k, e in back:
                    if mem.get(xfld(e)) == 'null' or mem.get(pfld(e)) == 1: o.handed.append((f, i, n))
                s.wrote(f, i, back, o)
                return None
            if not known or depth > 4:
                s.wrote(f, i, back, o)
                if g.ret == 'ptr' or 'ptr' in str(g.ret): env.pop(i.id, None)
                return None
            q = s.explore(g, args, m2, depth + 1)
            for k, v in q.derefs.items(): o.derefs.setdefault(k, v)
            o.handed += q.handed
            for e in q.written:
                for k, x in back:
                    if e == ('arg', k): o.written.add(x)
                    elif mentions(e, lambda y: y == ('arg', k)): o.written.add(subst(e, ('arg', k), x))
                for rv, re_, m3, T in q.rets:
                    if re_ is not None and i.id and mentions(e, lambda y: y == re_): o.written.add(subst(e, re_, ex(f, i.id)))
            if q.gave_up: o.gave_up = True; return None
            if not q.rets: return None if not g.reach else 'end' if not q.derefs else None
            # what is the same on every return
            outs = []
            for rv, re_, m3, T in q.rets:
                d = {}
                for e, v in m3.items():
                    if re_ is not None and i.id and re_[0] != 'arg' and (e == re_ or mentions(e, lambda y: y == re_)): d[subst(e, re_, ex(f, i.id))] = v
                    for k, x in back:
                        if e == ('arg', k): d[x] = v
                        elif mentions(e, lambda y: y == ('arg', k)): d[subst(e, ('arg', k), x)] = v
                if rv is not None: d['ret'] = rv
                if rv == 'null' and len(q.rets) > 1: continue      # a refusal
                outs.append(d)
            if not outs: env[i.id] = 'null'; return None
            for e in set().union(*outs):
                vs = {d.get(e) for d in outs}
                v = vs.pop() if len(vs) == 1 else None
                if e == 'ret':
                    if v is not None and i.id: env[i.id] = v
                elif v is None: mem.pop(e, None)
                else: mem[e] = v
            return None
        # outside the repository
        nm = short_of(i.cdem or '') if i.cdem else c
        if READERS.match(c) or (i.cdem or '').startswith(('std::', 'void std::')) and re.sub(r'<.*', '', nm) in STDREADERS or re.search(r'^std::vector<.*::(vector|assign|insert)', i.cdem or '') and len(i.ops) > 2:
            for a, v in zip(i.ops, vals):
                if v == 'null': s.touch(f, o, i, 'null', 'handed to ' + (nm or c))
        s.wrote(f, i, [(k, ex(f, a)) for k, a in enumerate(i.ops) if isinstance(a, str)], o)
        return None
    def wrote(s, f, i, back, o):
        """a call that was not followed may fill what it is given"""
        if (i.callee or '').startswith('_Zd') or i.callee == 'free': return
        for k, e in back:
            o.written.add(e)
            if e[0] == 'ld': o.written.add(e[1])
            o.written.add(xfld(e))
    def construct(s, f, i, cc, vals, mem, o):
        g = s.P.fns.get(i.callee); X = ex(f, i.ops[0])
        args = {a['id']: v for a, v in zip(g.args, vals) if v is not None and (isinstance(v, str) or a.get('ty') in ('i1', 'i8'))}
        q = s.explore(g, args, {}, 3)
        xs = {m.get(xfld(('arg', 0), cc)) for _, _, m, _ in q.rets}; ps = {m.get(pfld(('arg', 0), cc)) for _, _, m, _ in q.rets}
        x = 'nn' if 'nn' in xs else 'null' if xs == {'null'} else None
        p = ps.pop() if len(ps) == 1 else None
        if p is None and any(a.get('ty') == 'i1' for a in g.args): x = None
        if any(a.get('dty') == 'double *' for a in g.args): o.written.add(xfld(X, cc))
        for e, v in ((xfld(X, cc), x), (pfld(X, cc), p)):
            if v is None: mem.pop(e, None)
            else: mem[e] = v

def subst(x, a, b):
    if x == a: return b
    return tuple(subst(y, a, b) if isinstance(y, tuple) else y for y in x)

def mats(f):
    out = []
    for k, a in enumerate(f.args):
        m = re.match(r'^(?:const )?(?:sym_lib::)?(CSC|CSR) (?:const )?\*$', (a.get('dty') or '').strip())
        if m and a['n'] != 'this': out.append((k, m[1]))
    return out

def tested_args(P, f):
    """pointer parameters the routine compares with null"""
    out = set()
    for i in f.instrs():
        if i.op != 'icmp' or i.pred not in ('eq', 'ne') or isinstance(i.ops[1], str) or i.ops[1][0] != 'null': continue
        e = ex(f, i.ops[0])
        e = single(f, e)
        if e[0] == 'arg': out.add(e[1])
        # the test that guards a delete is no statement about the rest
    return out

def passed_null(P):
    out = {}
    for f in P.fns.values():
        for i in f.instrs():
            if not is_call(i): continue
            g = P.fns.get(i.callee or '')
            if g is None or not p07.repo(g): continue
            for k, a in enumerate(i.ops):
                if not isinstance(a, str) and a[0] == 'null': out.setdefault(g.name, set()).add(k)
    return out

def header_defaults(ctx):
    """(routine, parameter position) declared with a null default"""
    out = set()
    for d in ('include', 'utils', 'src'):
        for dp, _, fs in os.walk(os.path.join(ctx.root, d)):
            for fn in fs:
                if not fn.endswith('.h'): continue
                t = open(os.path.join(dp, fn), errors='replace').read()
                t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
                for m in re.finditer(r'(\w+)\s*\(([^()]*=\s*(?:nullptr|NULL|NULLPNTR|0)\b[^()]*)\)', t):
                    for k, a in enumerate(m[2].split(',')):
                        if '*' in a and re.search(r'=\s*(nullptr|NULL|NULLPNTR|0)\s*$', a): out.add((m[1], k))
    return out

def only_frees(f, k):
    return all(u.op == 'icmp' or is_call(u) and ((u.callee or '').startswith('_Zd') or u.callee == 'free') for u in f.users.get(f.args[k]['id'], []))

def what(f, k): return f.args[k].get('n') or 'parameter %d' % k

def objects(q, C=MAT):
    for rv, re_, mem, T in q.rets:
        for e, v in mem.items():
            if e[0] == 'fld' and e[2] in C and e[3] == 'is_pattern' and e[1][0] != 'arg': yield e[1], e[2], rv, re_, mem, T

def leaves(f, e, d=0):
    if e is None or e[0] != 'phi' or d > 6: return {e}
    q = f.vals[e[1]]
    return set().union(*[leaves(f, ex(f, o), d + 1) for o in q.ops]) if q.op == 'phi' else {e}

def consistent(r, f, q, who, src):
    seen = set()
    for X, cc, rv, re_, mem, T in objects(q):
        # only objects that leave the routine
        if not (rv != 'null' and X in leaves(f, re_) or X[0] == 'ld'): continue
        ip, x = mem.get(pfld(X, cc)), mem.get(xfld(X, cc))
        r.n('result objects')
        bad = None
        if ip == 0 and x == 'null': bad = 'says it has values and has no array for them'
        elif ip == 1 and x == 'nn': bad = 'has a value array and says it has none'
        elif ip == 0 and xfld(X) not in q.written and ('fld', X, 'CSC', 'i') in q.written: bad = 'says it has values and is given none'
        if bad: r.v('%s:result:%s' % (f.short, who or 'always'), T.where(), 'the matrix %s returns%s %s' % (f.short, ' when %s is absent' % who if who else '', bad))

def index_maps(P, f, k, r):
    """an absent index map stands for the identity"""
    for i in f.instrs():
        if i.op not in ('phi', 'select') or i.op == 'phi' and i.blk in f.hdr: continue
        vs = list(i.ops if i.op == 'phi' else i.ops[1:])
        got = []
        for v in vs:
            e = ex(f, v) if isinstance(v, str) else None
            if e is not None and e[0] == 'ld' and e[1][0] == 'elem' and e[1][1] == ('arg', k): got.append(e[1][2])
        if not got or len(got) == len(vs): continue
        if not indexes(f, i.id): continue
        alt = [v for v in vs if not (isinstance(v, str) and ex(f, v)[0] == 'ld' and ex(f, v)[1][0] == 'elem' and ex(f, v)[1][1] == ('arg', k))]
        r.n('index maps')
        for v in alt:
            e = ex(f, v)
            if e not in got and e[0] != 'c': r.v('%s:map:%s' % (f.short, what(f, k)), i.where(), '%s: without %s the index %s is replaced by %s' % (f.short, what(f, k), pretty(f, got[0]), pretty(f, e)))

def indexes(f, v, d=0):
    for u in f.users.get(v, []):
        if u.op == 'getelementptr' and v in u.ops[1:]: return True
        if u.op in ('sext', 'zext', 'phi', 'add', 'sub') and d < 4 and indexes(f, u.id, d + 1): return True
        if u.op == 'store' and u.ops[0] == v and (u.ops[0] and f.vals[v].ty in ('i32', 'i64')): return True
    return False

def refuses(f, b):
    """nothing is done from here on"""
    st = [b]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for i in f.blocks[x].ins:
            if i.op == 'store' or is_call(i) and not ((i.callee or '').startswith('llvm.') or p06.ends(i.callee or '')): return False
        st += f.blocks[x].succ
    return True

def extras(P, f, r):
    """what is done only when an optional array is there fills that array and nothing else"""
    reg = {}
    for i in f.instrs():
        if i.op != 'store': continue
        for c, truth, T in f.guards(i.blk):
            q = f.vals.get(T.ops[0]) if T.op == 'br' and T.ops and isinstance(T.ops[0], str) else None
            if q is None or q.op != 'icmp' or q.pred not in ('eq', 'ne') or isinstance(q.ops[1], str) or q.ops[1][0] != 'null': continue
            if refuses(f, T.tgt[0 if q.pred == 'eq' else 1]): continue
            if truth == (q.pred == 'ne'): reg.setdefault(ex(f, q.ops[0]), []).append(i)
    for e, sts in reg.items():
        base = lambda i: ex(f, i.ops[1])[1] if ex(f, i.ops[1])[0] == 'elem' else None
        if not any(base(i) == e for i in sts): continue
        r.n('optional outputs')
        for i in sts:
            b = ex(f, i.ops[1])
            if base(i) == e or root_of(b)[0] in ('alloca', 'heap'): continue
            r.v('%s:extra:%s' % (f.short, pretty(f, b)), i.where(), '%s: %s is written only when the optional array %s is there' % (f.short, pretty(f, b), pretty(f, e)))

def check(ctx, r):
    P = ctx.prog('ser'); NEED = needs_values()
    pn = passed_null(P); hd = header_defaults(ctx); op = optional()
    callers = {}
    for f in P.fns.values():
        for i in f.instrs():
            if is_call(i) and i.callee in P.fns: callers.setdefault(i.callee, set()).add(f.short)
    for _ in range(4):                # parts of a listed routine
        for f in P.fns.values():
            if f.short not in NEED and p07.repo(f) and callers.get(f.name) and all(c in NEED for c in callers[f.name]) and mats(f): NEED[f.short] = 'only called by ' + ', '.join(sorted(callers[f.name]))
    EX = Explorer(P, NEED)
    for f in P.fns.values():
        if not p07.repo(f) or f.short.startswith('~'): continue
        r.n('routines'); extras(P, f, r)
        m = re.search(r'::(CSC|CSR)::\1\(', '::' + f.dem)
        if m:
            for rv, re_, mem, T in EX.explore(f, {}, {}).rets:
                X = ('arg', 0); ip, x = mem.get(pfld(X)), mem.get(xfld(X))
                r.n('constructor paths')
                if ip == 1 and x == 'nn' or ip == 0 and x == 'null' and mem.get(('fld', X, 'CSC', 'i')) != 'null':
                    r.v('%s:ctor:%d' % (m[1], len(f.args)), T.where(), 'a constructor of %s makes a matrix that %s' % (m[1], 'has a value array and says it has none' if ip else 'says it has values and has no array for them'))
        jobs = []
        if f.short not in NEED:
            off = {f.args[k]['id']: 'null' for k in tested_args(P, f) if f.args[k].get('dty') == 'double *'}
            for k, c in mats(f): jobs.append((what(f, k) + '->x', off, {xfld(('arg', k), c): 'null', pfld(('arg', k), c): 1}, None))
        opt = {k for k in tested_args(P, f) | pn.get(f.name, set()) | {k for n, k in hd if n == f.short} | {k for k, ty in op.get(f.short, ()) if k < len(f.args) and (f.args[k].get('dty') or '').replace('const ', '').strip() == ty} if k < len(f.args) and f.args[k].get('ty') == 'ptr' and '*' in (f.args[k].get('dty') or '*') and f.args[k].get('n') != 'this' and not only_frees(f, k)}
        for k in sorted(opt):
            if any(k == m for m, _ in mats(f)): continue
            jobs.append((what(f, k), {f.args[k]['id']: 'null'}, {}, k))
        if any(EX.ctor_class(i) for i in f.instrs() if is_call(i)) and not EX.ctor_class(type('X', (), {'cdem': f.dem})()): jobs.append((None, {}, {}, None))
        for who, args, mem, k in jobs:
            q = EX.explore(f, args, mem)
            r.n('explorations')
            if who: r.n('absent arrays')
            if q.gave_up: r.n('gave up'); r.n('gave up: ' + f.short)
            if who:
                for (g, _), (i, w) in q.derefs.items():
                    r.v('%s:%s:%s' % (f.short, who, g.short), i.where(), '%s: when %s is absent, %s' % (f.short, who, 'it is %s here' % w if g is f else 'it reaches %s, where it is %s' % (g.short, w)))
                for g, i, n in q.handed:
                    if g.short not in NEED: r.v('%s:%s:%s' % (f.short, who, n), i.where(), '%s: when %s is absent, the matrix is handed to %s, which needs values' % (f.short, who, n))
            consistent(r, f, q, who, k)
            if k is not None: index_maps(P, f, k, r)
