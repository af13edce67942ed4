"""muts: list of (props, file, old, new[, occurrence]) ; runs the checks on each mutated copy, in parallel"""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
def run(muts, jobs=6):
    def one(k):
        props, f, a, b, *occ = muts[k]
        d = '/tmp/m/%d' % k
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for x in ('include','src','utils','example'): shutil.copytree('/repo/'+x, d+'/'+x)
        s = open(d+'/'+f).read(); c = s.count(a)
        if c == 0 or (c > 1 and not occ): return '%d NOEDIT count=%d %r' % (k, c, a[:50])
        if occ and occ[0] is not None:
            i = -1
            for _ in range(occ[0]): i = s.index(a, i+1)
            s = s[:i] + b + s[i+len(a):]
        else: s = s.replace(a, b)
        open(d+'/'+f,'w').write(s)
        out = '%d %s' % (k, b.strip().split('\n')[0][:60])
        for p in props.split():
            r = subprocess.run(['python3','/verif/agg/run.py',p], capture_output=True, text=True, cwd='/tmp/m/%d'%k, env=dict(os.environ, AGG_ROOT=d, AGG_CACHE='/tmp/m/cache%d'%k))
            ls = [l for l in r.stdout.split('\n') if l and not l.startswith(('KNOWN','VIOL'))]
            out += '\n     %s rc=%d %s' % (p, r.returncode, (' ;; '.join(ls[:-1]))[:300] if r.returncode else '') + ('' if r.returncode < 2 else r.stderr[-300:])
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree('/tmp/m/cache%d'%k, ignore_errors=True)
        return out
    with ThreadPoolExecutor(jobs) as ex:
        for o in ex.map(one, range(len(muts))): print(o, flush=True)
