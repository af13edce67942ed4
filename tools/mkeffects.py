"""Writes agg/outputs.txt: per function the arguments it may write (reviewed by hand; see DESIGN.md)."""
import sys; sys.path.insert(0, '/verif/agg')
import build, ir
from effects import *
def main():
    out = {}
    for cfg in ('ser', 'omp'):
        P = ir.Program(build.dump(cfg), build.REPO); E = Effects(P)
        for f in P.lib():
            if 'omp_outlined' in f.name or '.omp.' in f.name: continue
            w = set()
            for b, d in E.sum[f.name]:
                if b[0] == 'arg':
                    nm = f.args[b[1]]['n']
                    w.add('%d%s' % (b[1], ('.' + d[0][1:]) if nm == 'this' and f.short in RESTRICT and d else ''))
            out.setdefault(f.name, set()).update(w)
    with open('/verif/agg/outputs.txt', 'w') as fh:
        for n in sorted(out): fh.write('%s %s\n' % (n, ' '.join(sorted(out[n]))))
RESTRICT = {'inspection_spicocsc_v1', 'inspection_spicocsc_v2', 'inspection_sptrsvcsr_v1', 'inspection_sptrsvcsr_v2', 'NaiveGrouping'}
main()
