from ir import *
from lib import *
from effects import Effects
RULE = ("Who-may-call and data-flow rules on LLVM IR, both configurations: no library routine outside the test-data generators calls a clock, random, environment or "
        "process-state function (the timing structure's own methods may read the clock, and its values never reach a branch or a stored result); no mutable global or "
        "function-local static is read; the identity of a thread is only used to select a per-thread slot; pointer values are never ordered, hashed or turned into integers.")
ASSUME = ["std::sort/METIS are deterministic for equal inputs", "the random test-data generators in utils/test_utils.cpp are outside the property"]
IMPURE = re.compile(r'^(rand|random|srand|drand48|lrand48|erand48|time|clock|gettimeofday|clock_gettime|getenv|secure_getenv|getpid|gettid|getrandom|pthread_self|sched_getcpu|rdtsc|getcwd|uname|gethostname|_ZNSt13random_device|_ZNSt6chrono.*3nowEv|_ZNSt11this_thread|llvm\.readcyclecounter|_ZSt14random_shuffle|get_nprocs|sysconf|mktemp|tmpnam|getuid)')
THREAD = re.compile(r'^omp_(get_thread_num|get_num_threads|get_max_threads|get_num_procs|get_wtime|in_parallel|get_team_num|get_level|get_dynamic|get_nested)$')

def test_file(f): return (f.file or '').endswith('utils/test_utils.cpp')
def cls(f): return f.dem.split('(')[0]

def stream(name): return bool(re.match(r'_ZSt\d+(w?cout|w?cerr|w?cin|w?clog)|^std(in|out|err)$|_ZStL8__ioinit|__dso_handle|\.gomp_critical', name))

def check(ctx, r):
    r.need('functions', 400); r.need('clock calls', 2); r.need('global references', 2)
    for cfg in ('ser', 'omp'):
        P = ctx.prog(cfg)
        written, read = {}, {}
        for f in P.lib():
            r.n('functions')
            for i in f.instrs():
                for k, o in enumerate(i.ops):
                    if isinstance(o, str): continue
                    for g in gnames(o):
                        G = P.globals.get(g)
                        if not G or G.get('const') or stream(g) or g.startswith(('llvm.', '_ZTV', '_ZTI', '_ZTS', '_ZGV')): continue
                        r.n('global references')
                        if i.op == 'store' and k == 1: written.setdefault(g, []).append((f, i))
                        elif i.op in ('load', 'getelementptr'): read.setdefault(g, []).append((f, i)); 
                        else: read.setdefault(g, []).append((f, i)); written.setdefault(g, []).append((f, i))
                        if i.op in ('getelementptr',): written.setdefault(g, []).append((f, i))
                if i.op in ('call', 'invoke'):
                    c = i.callee or ''; d = i.cdem or c
                    if c in P.fns: continue
                    if IMPURE.match(c) or 'random_device' in d or ('chrono' in d and short_of(d) == 'now'):
                        if 'chrono' in d and 'timing_measurement::' in cls(f): r.n('clock calls'); continue
                        if test_file(f): r.n('generator calls'); continue
                        r.v('%s:%s' % (f.short, short_of(d)), i.where(), '%s depends on %s' % (f.short, short_of(d)))
                    if THREAD.match(c):
                        r.n('thread queries')
                        if c == 'omp_get_thread_num' and not slot_only(f, i.id):
                            r.v('%s:thread-identity' % f.short, i.where(), 'the thread number is used for more than selecting a per-thread slot, so the result depends on which thread does the work')
                        elif c == 'omp_get_num_threads' and not slot_only(f, i.id):
                            r.v('%s:team-size' % f.short, i.where(), 'the result depends on the number of threads the region happens to get')
                    if re.search(r'std::(unordered_)?(multi)?(map|set)<[^,<>]*\*|std::(less|greater|hash)<[^<>]*\*>', d):
                        r.v('%s:pointer-keys' % f.short, i.where(), 'a container ordered or hashed by pointer value')
                if i.op == 'ptrtoint' and not ptrdiff(f, i):
                    r.v('%s:pointer-value' % f.short, i.where(), 'a memory address is used as a number')
                if i.op == 'icmp' and i.pred not in ('eq', 'ne') and ptr_operand(f, i.ops[0]) and ptr_operand(f, i.ops[1]):
                    if root_of(f.expr(i.ops[0])) != root_of(f.expr(i.ops[1])) and not same_root(f, i):
                        r.v('%s:pointer-order' % f.short, i.where(), 'memory addresses of different objects are ordered')
        for g in sorted(set(read) & set(written)):
            for f, i in read[g]:
                r.v('%s:static:%s' % (f.short, g), i.where(), '%s reads %s, which keeps its value between calls' % (f.short, P.globals[g].get('dem') or g))
        r.n('mutable globals', len(set(written)))
        # clock values
        for f in P.lib():
            if 'timing_measurement' in cls(f) or f.short in ('time_cmp', 'time_median') or 'FusionDemo' in cls(f): continue
            for i in f.instrs():
                src = None
                if i.op in ('call', 'invoke') and short_of(i.cdem or '') == 'measure_elapsed_time': src = i
                elif i.op == 'load':
                    e = f.expr(i.ops[0])
                    if e[0] == 'fld' and e[2] == 'timing_measurement': src = i
                if src is None: continue
                r.n('clock values')
                u = influences(f, src.id, read)
                if u: r.v('%s:clock-value' % f.short, u.where(), 'a measured time influences the result')
        r.ok('%s: %d functions, mutable globals written: %s' % (cfg, len(P.lib()), sorted(P.globals[g].get('dem') or g for g in written)))

def gnames(o):
    if o[0] == 'g': yield o[1]
    elif o[0] == 'ce':
        for x in o[2:]:
            if isinstance(x, list): yield from gnames(x)
def ptr_operand(f, o):
    if not isinstance(o, str): return o[0] in ('g', 'ce')
    if o[0] == 'a': return f.argbyid[o]['ty'] == 'ptr'
    return f.vals[o].ty == 'ptr'
def roots(f, e, seen=()):
    e = root_of(e)
    if e[0] in ('phi', 'iv', 'bphi', 'rec') and e[1] in f.vals and e[1] not in seen:
        out = set()
        for o in f.vals[e[1]].ops:
            if o != e[1]: out |= roots(f, f.expr(o), seen + (e[1],))
        return out
    if e[0] == 'lin': 
        return {x for a, c in e[2] for x in roots(f, a, seen)}
    return {e} if e[0] not in ('phi', 'iv', 'rec', 'c') else set()
def same_root(f, i):
    a, b = roots(f, f.expr(i.ops[0])), roots(f, f.expr(i.ops[1]))
    return bool(a & b)
def ptrdiff(f, i):
    us = f.users.get(i.id, [])
    return all(u.op == 'sub' and all(isinstance(o, str) and o in f.vals and f.vals[o].op == 'ptrtoint' for o in u.ops) for u in us)
def slot_only(f, vid, depth=0, seen=None):
    """value used only as an index (address computation) or in assertions"""
    seen = seen or set()
    if vid in seen or depth > 10: return True
    seen.add(vid)
    for u in f.users.get(vid, []):
        if u.op in ('sext', 'zext', 'trunc', 'phi', 'freeze'):
            if not slot_only(f, u.id, depth + 1, seen): return False
        elif u.op == 'getelementptr' and u.ops[0] != vid: continue
        elif u.op in ('call', 'invoke') and ('operator[]' in (u.cdem or '')) and u.ops[0] != vid: continue
        elif u.op in ('call', 'invoke') and (u.callee or '').startswith('llvm.dbg'): continue
        else: return False
    return True
def influences(f, vid, readglobals, depth=0, seen=None):
    seen = seen or set()
    if vid in seen or depth > 12: return None
    seen.add(vid)
    for u in f.users.get(vid, []):
        if u.op in ('icmp', 'fcmp', 'br', 'switch', 'getelementptr', 'select', 'fptosi', 'fptoui'): return u
        if u.op == 'store':
            if u.ops[0] != vid: continue
            a = f.expr(u.ops[1])
            if a[0] == 'g' and a[1] not in readglobals: continue
            if a[0] == 'fld' and a[2] == 'timing_measurement': continue
            return u
        if u.op in ('call', 'invoke', 'ret'):
            d = u.cdem or ''
            if 'operator<<' in d or 'llvm.' in (u.callee or '') or u.op == 'ret' or 'printf' in d: continue
            return u
        if u.ty != 'void':
            x = influences(f, u.id, readglobals, depth + 1, seen)
            if x: return x
    return None
