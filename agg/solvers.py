"""The triangular solvers and, per argument position, the part each argument plays.
chain: from the row back to the outermost loop:  ind = indirection through that argument,
seg = contiguous segment [P[e], P[e+1]) of that pointer argument, all = 0..argument-1."""
S = [
 # name, nargs -> roles
 ('sptrsv_csr', 5, dict(n=0, Lp=1, Li=2, Lx=3, x=4), [('all', 0)]),
 ('sptrsv_csr_levelset', 8, dict(n=0, Lp=1, Li=2, Lx=3, x=4), [('ind', 7), ('seg', 6), ('all', 5)]),
 ('sptrsv_csr_levelset', 8, dict(n=0, Lp=1, Li=2, Lx=3, x=7), [('ind', 6), ('seg', 5), ('all', 4)]),
 ('sptrsv_csr_levelset_seq', 8, dict(n=0, Lp=1, Li=2, Lx=3, x=4), [('ind', 7), ('seg', 6), ('all', 5)]),
 ('sptrsv_csr_lbc', 9, dict(n=0, Lp=1, Li=2, Lx=3, x=4), [('ind', 8), ('seg', 7), ('seg', 6), ('all', 5)]),
 ('sptrsv_csr_lbc_seq', 9, dict(n=0, Lp=1, Li=2, Lx=3, x=4), [('ind', 8), ('seg', 7), ('seg', 6), ('all', 5)]),
 ('sptrsv_csr_group_lbc', 11, dict(n=0, Lp=1, Li=2, Lx=3, x=4), [('ind', 10), ('seg', 9), ('ind', 8), ('seg', 7), ('seg', 6), ('all', 5)]),
 ('sptrsv_csr_group_levelset', 9, dict(Lp=0, Li=1, Lx=2, x=3), [('ind', 8), ('seg', 7), ('ind', 6), ('seg', 5), ('all', 4)]),
 ('fs_csr_executor_sgroup', 12, dict(n=0, Lp=1, Li=2, Lx=3, x=5), [('ind', 7), ('seg', 6), ('ind', 11), ('seg', 10), ('all', 9)]),
]
def find(P):
    out = []
    for name, na, roles, chain in S:
        c = [f for f in P.get(name) if len(f.args) == na and f.args[roles['x']]['ty'] == 'ptr' and (f.args[roles['x']].get('dty') or 'double').startswith('double')]
        if len(c) > 1:   # overloads with equal arity: tell them apart by the type of the x argument
            c = [f for f in c if is_dbl(f, roles['x'])]
        out.append((name, na, roles, chain, c))
    return out
def is_dbl(f, k):
    sig = f.dem[f.dem.index('(') + 1:f.dem.rindex(')')].split(', ')
    return 'double*' in sig[k]
