import os
from ir import *
from effects import *
RULE = ("Interprocedural write-effect analysis over LLVM IR (both configurations): for every library entry point, the set of argument-rooted locations "
        "it or anything it calls may write, including through aliases held in local objects and iterators, must stay within the arguments listed as its outputs "
        "or scratch in agg/outputs.txt; arrays a class merely borrowed in its constructor are inputs.")
ASSUME = ["external functions write only what agg/effects.py lists for them (std:: by declaration, C library and METIS by table)",
          "distinct arguments do not alias unless the interface says so"]

def table():
    t = {}
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'outputs.txt')) as fh:
        for l in fh:
            w = l.split()
            t[w[0]] = {int(x.split('.')[0]) for x in w[1:]}
    return t

def check(ctx, r):
    T = table()
    r.need('functions', 200); r.need('input arguments', 250)
    for cfg in ('ser', 'omp'):
        P = ctx.prog(cfg); E = Effects(P)
        borrowed = {}
        for f in P.lib():
            for (db, dd), (sb, sd) in E.flow[f.name]:
                # constructor: this.<field> := pointer argument
                if is_ctor(f) and db == ('arg', 0) and len(dd) == 1 and dd[0][0] == '.' and sb[0] == 'arg' and not sd:
                    borrowed.setdefault(class_of(f), set()).add(dd[0])
        for f in P.lib():
            if 'omp_outlined' in f.name or '.omp.' in f.name: continue
            if f.name not in T: continue
            r.n('functions')
            ptr = [k for k, a in enumerate(f.args) if a['ty'] == 'ptr']
            r.n('input arguments', len([k for k in ptr if k not in T[f.name]]))
            for (b, d), (ins, how) in E.sum[f.name].items():
                if b[0] != 'arg': continue
                r.n('write effects')
                a = f.args[b[1]]
                if b[1] in T[f.name]:
                    bf = borrowed.get(class_of(f), ())
                    if a['n'] == 'this' and d and d[0] in bf and '*' in d and not is_ctor(f) and not f.short.startswith('~'):
                        r.v('%s:this%s' % (f.short, ''.join(d)), ins.where(), '%s writes the caller\'s array borrowed as %s' % (f.short, d[0][1:]))
                    continue
                r.v('%s:%d%s' % (f.short, b[1], ''.join(d)), ins.where(), '%s (input of %s) is written by %s' % ((a['n'] or 'argument %d' % b[1]) + ''.join(d), f.dem.split('(')[0], how))
    r.ok('inputs of %d entry points checked against agg/outputs.txt' % len(T))

def class_of(f):
    d = f.dem.split('(')[0]
    return d.rsplit('::', 1)[0] if '::' in d else ''
def is_ctor(f):
    c = class_of(f).rsplit('::', 1)[-1]
    return c and f.short == c
