import sys, pickle, os; sys.path.insert(0,'/verif/agg')
import build, ir
from ir import *
def load(cfg='ser'):
    return ir.Program(build.dump(cfg), build.REPO)
