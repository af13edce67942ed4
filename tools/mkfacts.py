"""One-time derivation (reviewed, then frozen) of agg/facts.txt and agg/extents.txt from the tree as delivered:
documented value ranges and sizes of the public routines' parameters. Not run by the checks."""
import sys, os, re, pickle, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'agg'))
import ir; from ir import *
P = ir.Program(pickle.load(open(max(glob.glob('/tmp/cache/ser-*'), key=os.path.getmtime), 'rb')), '/repo')
from checks import p06, p07, p08
from extents import Ext
PTR = re.compile(r'^(level_?[pP]tr_?|LevelPtr|levelPtr\d*|fina_?l?_?(L|l)evel_?(P|p)tr|finaLevelPtr|final_level_ptr|coarse_level_ptr|fina_level_ptr|final_?[pP]art_?[pP]tr|coarse_part_ptr|part_?[pP]tr|group_?[pP]tr|supernode_ptr|sup2col)$')
IDS = re.compile(r'^(level_?[sS]et|levelset_?|final_?[nN]ode_?[pP]tr|node_ptr|coarse_node_ptr|group_?[sS]et|i?perm|post|order|Li|lR|DAG_set|node2[lL]evel|node_to_level|node2partition|group_?[iI]nv|post_order|set)$')
CNT = re.compile(r'^(finaLevelNo|nlevels|coarse_level_no|final_level_no|ngroups|nLevels|part_no|partNo)$')
RET = re.compile(r'^(build_level_?[sS]et_?\w*|level_set_bn|build_levelSet\w*|buildLevelSet\w*|build_level_set\w*|levelset\w*)$')
def size_n(f, pt):
    for k, a in enumerate(f.args):
        if a['n'] in ('n', 'num_nodes', 'num_nodes_') and pt[k] is not None:
            return ('ld', ('arg', k)) if a['ty'] == 'ptr' else ('arg', k)
    for k, a in enumerate(f.args):
        if pt[k] and re.match(r'^(sym_lib::)?CS[CR]( const)?\*$', pt[k]): return ('ld', ('fld', ('arg', k), 'CSC', 'n'))
out = []
for f in sorted(P.fns.values(), key=lambda f: f.name):
    if not p07.repo(f): continue
    pt = p06.params(f); n = size_n(f, pt)
    if 'multi_graphs' in f.short or f.short == 'level_set_bn': continue
    if f.short.startswith('height_partitioning'):
        k = f.argidx('levelNo')
        if k is not None: out.append((f.name, 'ret', ('arg', k)))
        k2 = f.argidx('partition2Level')
        if k is not None and k2 is not None: out.append((f.name, str(k2), ('arg', k)))
        continue
    if n is None: continue
    if RET.match(f.short): out.append((f.name, 'ret', n))
    for k, a in enumerate(f.args):
        if a['ty'] != 'ptr' or pt[k] is None: continue
        if PTR.match(a['n']): out.append((f.name, str(k), n))
        elif IDS.match(a['n']): out.append((f.name, str(k), add(n, C(-1))))
        elif CNT.match(a['n']) and pt[k].endswith('&') and 'const' not in pt[k]: out.append((f.name, str(k), n))
if sys.argv[1:] == ['facts']:
    with open('/verif/agg/facts.txt', 'w') as fh:
        fh.write('# largest value of a routine\'s result or of the entries of its parameter k: function k expression\n')
        for t in out: fh.write('%s %s %r\n' % t)
else:
    X = Ext(P); req, _, _ = p08.infer(P, X)
    api = set(open('/verif/agg/api.txt').read().split())
    with open('/verif/agg/extents.txt', 'w') as fh:
        fh.write('# elements a caller must provide in parameter k: function k expression\n')
        for (fn, k), needs in sorted(req.items()):
            if fn not in api: continue
            keep = [n for n in needs if not any(m != n and p08.settled(n, m) and p08.over(n, m) is None for m in needs)]
            for n in sorted(keep, key=repr): fh.write('%s %d %r\n' % (fn, k, n))
