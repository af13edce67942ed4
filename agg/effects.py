"""Interprocedural write effects. Tokens are (base, path): base = ('arg',k) | ('g',name) | ('obj',expr);
path lists the fields ('.f') and pointer dereferences ('*') below the base; a vector's elements are one '*' below it."""
from ir import *
from lib import *

CONST_EXT = re.compile(r'^(fopen|llvm\.(dbg|lifetime|fabs|fmuladd|smax|smin|umax|umin|assume|expect|abs|sqrt|trap|stacksave|stackrestore|floor|ceil|log2|pow)|'
    r'printf|fprintf|dprintf|puts|putchar|strlen|strcmp|strncmp|isspace|tolower|isnan|exit|abort|fclose|fflush|ferror|feof|clearerr|fputs|fputc|putc|fwrite|rewind|ftell|fseek|fileno|perror|strchr|strstr|strncmp|memcmp|atoi|atof|isalpha|isdigit|toupper|log2|floor|ceil|pow|sqrt|fabs|'
    r'__cxa_|omp_|__kmpc_|free|malloc|calloc|_Zn[wa]|_Zd[la]|rand|srand|time|clock|getenv|atoi|atof|strtol|strtod|__assert_fail|fputs|fputc|fwrite|remove|rename|_ZSt\d*(terminate|__throw))')
FIRST_ARG = re.compile(r'^(llvm\.mem(cpy|move|set)|memcpy|memmove|memset|strcpy|strncpy|strcat|sprintf|snprintf|fgets|fread)')

def callee_name(i): return i.callee or ''

class Effects:
    def __init__(s, P):
        s.P = P; s.sum = {n: {} for n in P.fns}; s.ret = {n: set() for n in P.fns}; s.flow = {n: set() for n in P.fns}
        s._tok = {}; s._busy = set(); s._stores = {}
        changed = True; rounds = 0
        while changed and rounds < 12:
            changed = False; rounds += 1; s._tok = {}
            for f in P.fns.values():
                w = {}
                for toks, ins, how in s.writes(f):
                    for b, d in toks:
                        if b[0] in ('arg', 'g'): w.setdefault((b, d), (ins, how))
                rt = set()
                for i in f.instrs():
                    if i.op == 'ret' and i.ops: rt |= {t for t in s.tok(f, f.expr(i.ops[0])) if t[0][0] != 'obj'} if f.ret == 'ptr' else set()
                fl = set()
                for i in f.instrs():
                    if i.op == 'store' and s.isptr(f, i.ops[0]):
                        dst = [t for t in s.tok(f, f.expr(i.ops[1])) if t[0][0] == 'arg']
                        if dst:
                            for v in s.tok(f, f.expr(i.ops[0])):
                                if v[0][0] == 'arg':
                                    for dd in dst:
                                        if dd[0] != v[0]: fl.add((dd, v))
                if set(w) != set(s.sum[f.name]) or rt != s.ret[f.name] or fl != s.flow[f.name]: changed = True
                s.sum[f.name] = w; s.ret[f.name] = rt; s.flow[f.name] = fl
    def isptr(s, f, r):
        if not isinstance(r, str): return r[0] in ('g', 'ce')
        if r[0] == 'a': return f.argbyid[r]['ty'] == 'ptr' if r in f.argbyid else False
        return f.vals[r].ty == 'ptr'
    # stores of pointers into local objects: obj -> [(shape, value ref)]
    def objstores(s, f):
        k = f.name
        if k not in s._stores:
            d = {}
            for i in f.instrs():
                if i.op == 'store' and s.isptr(f, i.ops[0]):
                    a = f.expr(i.ops[1]); r = base_of(a)
                    d.setdefault(r, []).append((shape(a), i.ops[0]))
            s._stores[k] = d
        return s._stores[k]
    def contents(s, f, obj, shp):
        """tokens of pointers stored in local object obj (an alloca/heap expr)"""
        out = set()
        for sh, v in s.objstores(f).get(obj, []):
            if shp is None or sh == shp or sh[:len(shp)] == shp or shp[:len(sh)] == sh: out |= s.tok(f, f.expr(v))
        # calls that store an argument into this object
        for i in s.objcalls(f).get(obj, []):
            g = i.callee
            for (db, dd), (sb, sd) in s.flow.get(g, ()):
                if db[1] < len(i.ops) and base_of(f.expr(i.ops[db[1]])) == obj and sb[1] < len(i.ops):
                    out |= s.deref(f, s.tok(f, f.expr(i.ops[sb[1]])), sd, i.ops[sb[1]])
        return out
    def objcalls(s, f):
        k = ('c', f.name)
        if k not in s._stores:
            d = {}
            for i in f.instrs():
                if i.op in ('call', 'invoke') and i.callee in s.P.fns:
                    for o in i.ops:
                        e = f.expr(o)
                        if e[0] in ('alloca', 'heap') or base_of(e)[0] in ('alloca', 'heap'): d.setdefault(base_of(e), []).append(i)
            s._stores[k] = d
        return s._stores[k]
    def deref(s, f, toks, path, ref=None):
        """apply a callee's path below the tokens of the actual argument"""
        cur = {(b, d, ()) for b, d in toks}
        for st in path:
            nx = set()
            for b, d, flds in cur:
                if b[0] in ('arg', 'g'): nx.add(ext(b, d, st) + ((),))
                elif st == '*':
                    c = s.contents(f, b[1], flds or None)
                    nx |= {(x, y, ()) for x, y in c} or {(b, d, ())}
                else: nx.add((b, d, flds + (st[1:],)))
            cur = nx
        return {(b, d) for b, d, _ in cur}
    def tok(s, f, e):
        k = (f.name, e)
        if k in s._tok: return s._tok[k]
        if k in s._busy: return set()
        s._busy.add(k)
        r = s._t(f, e)
        s._busy.discard(k)
        if not s._busy: s._tok[k] = r
        return r
    def _t(s, f, e):
        k = e[0]
        if k == 'arg': return {(e, ())}
        if k == 'g': return {(e, ())}
        if k in ('alloca', 'heap'): return {(('obj', e), ())}
        if k in ('elem', 'arr'): return s.tok(f, e[1])
        if k == 'fld': return {ext(b, d, '.' + str(e[3])) for b, d in s.tok(f, e[1])}
        if k in ('data', 'begin', 'end'):
            return {ext(b, d, '*') for b, d in s.tok(f, e[1])}
        if k == 'ld':
            out = set()
            for b, d in s.tok(f, e[1]):
                if b[0] in ('arg', 'g'): out.add(ext(b, d, '*'))
                else: out |= s.contents(f, b[1], shape(e[1]) if base_of(e[1]) == b[1] else None) or {(b, d)}
            return out
        if k in ('phi', 'bphi', 'iv', 'rec') :
            i = f.vals.get(e[1])
            out = set()
            if i is not None and i.op == 'phi':
                for o in i.ops:
                    if o != i.id: out |= s.tok(f, f.expr(o))
            return out
        if k == 'sel': return s.tok(f, e[2]) | s.tok(f, e[3])
        if k == 'lin':
            out = set()
            for a, c in e[2]: out |= s.tok(f, a)
            return out
        if k == 'ce':
            m = re.search(r"\['g', '([^']+)'\]", repr(e)); return {(('g', m.group(1)), ())} if m else set()
        if k == 'xv': return s.tok(f, e[1])
        if k == 'call':
            i = f.vals[e[2]]
            if i.callee in s.P.fns:
                out = set()
                for (b, d) in s.ret[i.callee]:
                    if b[0] == 'arg' and b[1] < len(i.ops): out |= s.deref(f, s.tok(f, f.expr(i.ops[b[1]])), d)
                    elif b[0] == 'g': out.add((b, d))
                return out or {(('obj', ('heap', e[2])), ())}
            if i.ty == 'ptr' or i.ty.startswith('{'):
                out = set()
                for o in i.ops:
                    if s.isptr(f, o):
                        t = s.tok(f, f.expr(o))
                        # an iterator object held in a local: what it points to
                        for b, d in t:
                            if b[0] == 'obj' and b[1][0] == 'alloca':
                                c = s.contents(f, b[1], None); out |= c or {(b, d)}
                            else: out.add((b, d))
                return out or {(('obj', ('heap', e[2])), ())}
        return set()
    # ---- all writes of one function (own stores, calls)
    def writes(s, f):
        for i in f.instrs():
            if i.op == 'store': yield s.tok(f, f.expr(i.ops[1])), i, 'store'
            elif i.op in ('atomicrmw', 'cmpxchg'): yield s.tok(f, f.expr(i.ops[0])), i, i.op
            elif i.op in ('call', 'invoke'):
                yield from s.callwrites(f, i)
    def callwrites(s, f, i):
        c = callee_name(i)
        if c.startswith('__kmpc_fork_call'):
            g = fork_target(i)
            if g in s.P.fns:
                for (b, d) in s.sum[g]:
                    if b[0] == 'arg' and b[1] >= 2 and b[1] + 1 < len(i.ops):
                        yield s.deref(f, s.tok(f, f.expr(i.ops[b[1] + 1])), d), i, 'parallel region'
                    elif b[0] == 'g': yield {(b, d)}, i, 'parallel region'
            return
        if c in s.P.fns:
            for (b, d) in list(s.sum[c]):
                if b[0] == 'arg' and b[1] < len(i.ops):
                    yield s.deref(f, s.tok(f, f.expr(i.ops[b[1]])), d), i, 'call to ' + short_of(i.cdem or c)
                elif b[0] == 'g': yield {(b, d)}, i, 'call to ' + short_of(i.cdem or c)
            return
        yield from s.extwrites(f, i)
    def ptrcontent(s, f, o):
        """what an iterator / pointer argument points at"""
        t = s.tok(f, f.expr(o)); out = set()
        for b, d in t:
            if b[0] == 'obj' and b[1][0] == 'alloca': out |= s.contents(f, b[1], None) or {(b, d)}
            else: out.add((b, d))
        return out
    def extwrites(s, f, i):
        c = callee_name(i); d = i.cdem or c; n = short_of(d)
        if not i.ops: return
        if FIRST_ARG.match(c): yield s.tok(f, f.expr(i.ops[0])), i, n; return
        if CONST_EXT.match(c) and not c.startswith('_Zn'): return
        if re.search(r'(^|_)(f|s)scanf$', c):
            for o in i.ops[2:]:
                if s.isptr(f, o): yield s.tok(f, f.expr(o)), i, n
            return
        if c.startswith('METIS_'):
            sig = {'METIS_NodeND': (5, 6, 4), 'METIS_PartGraphKway': (11, 12), 'METIS_SetDefaultOptions': (0,)}.get(c)
            for k in (sig if sig is not None else range(len(i.ops))):
                if k < len(i.ops) and s.isptr(f, i.ops[k]): yield s.tok(f, f.expr(i.ops[k])), i, n
            return
        if n == '' and i.callee is None: pass
        if d.endswith(' const') or n.startswith('~') or 'operator<<' in d: return
        if n in ('operator[]', 'begin', 'end', 'data', 'size', 'front', 'back', 'empty', 'at', 'rbegin', 'rend', 'c_str', 'base', 'length', 'top', 'tellg', 'lower_bound', 'upper_bound', 'find', 'distance', 'accumulate',
                 'max_element', 'min_element', 'count', 'all_of', 'any_of', 'is_sorted', 'binary_search', 'operator!=', 'operator==', 'operator-', 'operator+', 'operator<', 'operator|', 'operator bool', 'isnan', 'now', 'abs', 'make_pair', 'max', 'min', 'equal', 'move', 'forward', 'is_open', 'close', 'compare', 'get'):
            return
        if n in ('sort', 'stable_sort', 'partial_sort', 'nth_element', 'fill', 'fill_n', 'iota', 'reverse', 'rotate', 'unique', 'shuffle', 'random_shuffle', 'inplace_merge', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap', 'replace', 'generate', 'remove', 'remove_if', 'next_permutation', 'partition', 'for_each', 'stable_partition'):
            yield s.ptrcontent(f, i.ops[0]), i, n; return
        if n in ('copy', 'transform', 'partial_sum', 'adjacent_difference', 'copy_if', 'move_backward', 'copy_backward', 'merge', 'set_union', 'set_difference', 'set_intersection', 'exclusive_scan', 'inclusive_scan', 'copy_n'):
            k = {'merge': 4, 'set_union': 4, 'set_difference': 4, 'set_intersection': 4}.get(n, 2)
            if n == 'transform' and len(i.ops) == 5: k = 3
            if k < len(i.ops): yield s.ptrcontent(f, i.ops[k]), i, n
            return
        if n in ('swap', 'iter_swap', 'swap_ranges'):
            for o in i.ops[:3]:
                if s.isptr(f, o): yield s.tok(f, f.expr(o)), i, n
            return
        if n == 'endl': return
        if 'operator>>' in d or n == 'getline':
            for o in i.ops[1:] or i.ops:
                if s.isptr(f, o): yield s.tok(f, f.expr(o)), i, n
            return
        # member function of an object: writes *this (constructor, push_back, assignment...)
        if s.isptr(f, i.ops[0]):
            t = s.tok(f, f.expr(i.ops[0]))
            deep = set(t)
            if 'std::' in d and n in ('push_back', 'insert', 'emplace_back', 'erase', 'resize', 'clear', 'pop_back', 'operator=', 'assign', 'reserve'):
                deep |= {ext(b, dd, '*') for b, dd in t}
            yield deep, i, n
        if i.callee is None:
            for o in i.ops:
                if s.isptr(f, o): yield s.tok(f, f.expr(o)), i, 'indirect call'

def ext(b, path, st):
    if b[0] not in ('arg', 'g') or len(path) >= 7: return (b, path)
    return (b, path + (st,))
def fork_target(i):
    for o in i.ops:
        if not isinstance(o, str) and o[0] == 'g' and 'omp_outlined' in str(o[1]): return o[1]
    return None
def base_of(e):
    while e[0] in ('elem', 'fld', 'arr'): e = e[1]
    return e
def shape(e):
    out = []
    while e[0] in ('elem', 'fld', 'arr'):
        if e[0] == 'fld': out.append(e[3])
        e = e[1]
    return tuple(reversed(out))
