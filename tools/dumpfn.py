import sys,pickle,glob; sys.path.insert(0,'/verif/agg')
import ir,os; from ir import *; from lib import *
P=ir.Program(pickle.load(open(max(glob.glob('/tmp/cache/ser-*'),key=os.path.getmtime),'rb')),'/repo')
def show(name):
    for f in P.fns.values():
        if f.short==name and 'outlined' not in f.name:
            print(f.dem, f.args)
            for b in f.order:
                print(b, '->', f.blocks[b].succ)
                for i in f.blocks[b].ins: print('   ',i.id,i.op,i.ty,i.callee or '',i.ops,i.pred if i.op!='br' else i.tgt, i.line)
if __name__=='__main__': show(sys.argv[1])
