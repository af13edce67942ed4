"""Front end: compiles /repo's current sources to LLVM IR in a scratch directory,
links the library translation units, normalises the program (unwind edges removed,
non-API helpers inlined, SSA form, canonical loops) and dumps it as JSON."""
import sys, os, glob, json, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AGG_ROOT', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
PLUGIN_DIRS = [os.path.join(VERIF, 'build')]

class AnalysisError(Exception):
    pass

def plugin():
    so = os.path.join(VERIF, 'build', 'aggdump.so')
    src = os.path.join(VERIF, 'tools/aggdump/aggdump.cpp')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        fl = subprocess.check_output([LLVM + '/llvm-config', '--cxxflags'], text=True).split()
        tmp = so + '.%d.tmp' % os.getpid()
        r = subprocess.run(['clang++-18', '-O1', '-fPIC', '-shared'] + fl + ['-fexceptions', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot build the dump plugin: ' + r.stderr[-2000:])
        os.replace(tmp, so)
    return so

# translation units that make up the shipped libraries and the solver sources
def lib_units():
    pats = ['src/*.cpp', 'src/hdagg/*.cpp', 'utils/*.cpp', 'utils/external/*.cpp', 'example/sptrsv_src/*.cpp']
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    skip = {os.path.join(REPO, 'utils/SuperNodalTools.cpp')}   # never part of the build; needs MKL headers
    return [f for f in out if f not in skip]

def flags(cfg):
    f = ['-std=gnu++11', '-DMETIS', '-DNDEBUG', '-I' + REPO + '/include', '-I' + REPO + '/example/sptrsv_src/include',
         '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-Xclang', '-fno-use-ctor-homing', '-ffp-contract=off', '-fno-discard-value-names', '-w']
    if cfg == 'omp':
        f += ['-fopenmp', '-DENABLE_OPENMP', '-D__OPENMP__', '-isystem', os.path.join(VERIF, 'agg/stubs')]
    return f

def compile_all(cfg, units, d):
    def one(f):
        o = os.path.join(d, cfg + '-' + os.path.relpath(f, REPO).replace('/', '_') + '.bc')
        r = subprocess.run(['clang++-18'] + flags(cfg) + ['-emit-llvm', '-c', f, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('%s does not compile in configuration %s:\n%s' % (f, cfg, r.stderr[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))

PIPE = 'function(lowerinvoke),agg-prep,always-inline,function(sroa<preserve-cfg>,mem2reg),agg-thread,function(loop-simplify),agg-dump'
RAW = 'function(lowerinvoke),agg-dump'

def dump(cfg='ser', units=None, api=True, pipe=PIPE):
    if cfg == 'raw': cfg, pipe, api = 'ser', RAW, False      # before inlining and promotion of variables
    so = plugin()
    d = tempfile.mkdtemp(prefix='agg-')
    try:
        us = units or lib_units()
        if not us:
            raise AnalysisError('no sources found under ' + REPO)
        bcs = compile_all(cfg, us, d)
        wit = os.path.join(d, cfg + '-witness.bc')
        w = subprocess.run(['clang++-18'] + flags(cfg) + ['-emit-llvm', '-c', os.path.join(VERIF, 'agg/witness.cpp'), '-o', wit], capture_output=True, text=True)
        if w.returncode == 0 and not units: bcs.append(wit)
        elif not units: sys.stderr.write('note: header witness does not compile: ' + w.stderr[:400] + '\n')
        linked = os.path.join(d, 'all.bc')
        r = subprocess.run([LLVM + '/llvm-link'] + bcs + ['-o', linked], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('link failed: ' + r.stderr[-3000:])
        out = os.path.join(d, 'out.json')
        env = dict(os.environ, AGGDUMP_OUT=out, AGG_ROOT=REPO, AGG_API=os.path.join(VERIF, 'agg/api.txt') if api else '')
        r = subprocess.run([LLVM + '/opt', '-load-pass-plugin=' + so, '-passes=' + pipe, '-disable-output', linked],
                           capture_output=True, text=True, env=env)
        if r.returncode:
            raise AnalysisError('opt failed: ' + r.stderr[-3000:])
        with open(out) as fh:
            j = json.load(fh)
        j['units'] = [os.path.relpath(u, REPO) for u in us]
        return j
    finally:
        shutil.rmtree(d, ignore_errors=True)
