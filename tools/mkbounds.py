"""One-time derivation (frozen) of agg/boundaries.txt: parameters documented as arrays of segment boundaries."""
import sys, os, re, pickle, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'agg'))
import ir; P = ir.Program(pickle.load(open(max(glob.glob('/tmp/cache/ser-*'), key=os.path.getmtime), 'rb')), '/repo')
from checks import p06, p07
PTR = re.compile(r'^(level_?[pP]tr_?\d*|LevelPtr|levelptr|fina_?l?_?[lL]evel_?[pP]tr|coarse_level_ptr|final_?[pP]art_?[pP]tr|coarse_part_ptr|part_?[pP]tr|group_?[pP]tr|supernode_ptr|group_DAG_ptr|DAG_ptr|h?_?level_ptr|nGp|Lp|Ap|lC)$')
api = set(open('/verif/agg/api.txt').read().split())
with open('/verif/agg/boundaries.txt', 'w') as fh:
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if f.name in api and p07.repo(f):
            pt = p06.params(f)
            for k, a in enumerate(f.args):
                if a['ty'] == 'ptr' and pt[k] and PTR.match(a['n']): fh.write('%s %d\n' % (f.name, k))
