from ir import *
from lib import *
import solvers
RULE = ("From the row index written by each solver's division, the chain of loops and indirections is derived backwards "
        "(indirection through a schedule array, contiguous segment [P[e],P[e+1]) of a pointer array, full range 0..count) and must "
        "consist of exactly the schedule arguments of the solver, each once and in order, with every loop complete (single counting exit, "
        "no continue/condition), and no further loop around the row update.")
ASSUME = ["the schedule's pointer arrays describe every row once (properties P12-P14)"]

def derive(f, R):
    """list of steps and list of (loop, ascending)"""
    steps = []; loops = []; e = R
    for _ in range(20):
        if e[0] == 'ld':
            b, k = split_elem(e[1])
            if b[0] != 'arg': return steps, loops, 'row index comes from %s' % pretty(f, b)
            steps.append(('ind', b[1])); e = k; continue
        t = iv_interval(f, e)
        if not t: return steps, loops, 'index %s is not a counted loop variable' % pretty(f, e)
        lo, hi, asc, L, iv = t
        loops.append((L, asc, iv))
        if lo[0] == 'ld':
            b, k = split_elem(lo[1])
            if b[0] != 'arg': return steps, loops, 'segment starts at %s' % pretty(f, lo)
            if hi != ('ld', elem(b, add(k, C(1)))):
                return steps, loops, 'segment loop runs over [%s, %s), not over one complete segment' % (pretty(f, lo), pretty(f, hi))
            steps.append(('seg', b[1])); e = k; continue
        if lo == C(0) and hi[0] == 'arg':
            steps.append(('all', hi[1])); return steps, loops, None
        return steps, loops, 'loop runs over [%s, %s)' % (pretty(f, lo), pretty(f, hi))
    return steps, loops, 'no outermost loop found'

def check(ctx, r):
    r.need('loops', 20)
    P = ctx.prog('ser')
    for name, na, ro, chain, fs in solvers.find(P):
        if not fs:
            from build import AnalysisError
            raise AnalysisError('solver %s/%d not found' % (name, na))
        for f in fs:
            tag = f.short + '/%d' % ro['x']; x = ('arg', ro['x'])
            D = [i for i in f.instrs() if i.op == 'store' and split_elem(f.expr(i.ops[1]))[0] == x and f.expr(i.ops[0])[0] == 'fdiv']
            U = [i for i in f.instrs() if i.op == 'store' and split_elem(f.expr(i.ops[1]))[0] == x]
            if len(D) != 1:
                r.v(tag + ':completions', f.short, 'a row is completed at %d places instead of one' % len(D)); continue
            D = D[0]; R = split_elem(f.expr(D.ops[1]))[1]
            steps, loops, err = derive(f, R)
            r.n('solvers'); r.n('loops', len(loops)); r.n('indirections', sum(1 for s in steps if s[0] == 'ind'))
            an = lambda s: '%s(%s)' % (s[0], f.args[s[1]]['n'])
            if err: r.v(tag + ':chain', D.where(), err); continue
            if steps != chain:
                r.v(tag + ':chain', D.where(), 'the rows visited are %s, the schedule is %s' % (' <- '.join(map(an, steps)), ' <- '.join(map(an, chain)))); continue
            lc = f.loop_chain(D.blk)
            if len(lc) != len(loops) or {l.id for l in lc} != {l[0].id for l in loops}:
                r.v(tag + ':nest', D.where(), 'the row update sits in %d loops, the schedule accounts for %d' % (len(lc), len(loops))); continue
            for L, asc, iv in loops:
                if not clean_exits(f, L, iv):
                    r.v(tag + ':exit', f.vals[iv].where(), 'loop over %s can be left before its last element' % (pretty(f, ('iv', iv))))
            for u in U:
                for T, k in extra_conditions(f, u.blk):
                    r.v(tag + ':skip', T.where(), 'a scheduled row is only processed under the condition %s' % pretty(f, f.expr(T.ops[0])))
            r.ok('%s: %s' % (tag, ' <- '.join(map(an, steps))))
