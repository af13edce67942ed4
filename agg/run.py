#!/usr/bin/env python3
"""Driver: python3 agg/run.py Pxx [...]   (run in /verif)"""
import os, sys, json, time, importlib, pickle, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, ir
from build import AnalysisError
VERIF = os.path.dirname(HERE)

class Ctx:
    def __init__(s, tier, seed):
        s.tier = tier; s.seed = seed; s._p = {}; s.root = build.REPO
    def prog(s, cfg='ser'):
        if cfg not in s._p:
            s._p[cfg] = ir.Program(s._dump(cfg), build.REPO)
        return s._p[cfg]
    def _dump(s, cfg):
        cache = os.environ.get('AGG_CACHE')      # development only
        if not cache: return build.dump(cfg)
        h = hashlib.sha1()
        import glob
        for r in ('include', 'src', 'utils', 'example'):
            for d, _, fs in sorted(os.walk(os.path.join(build.REPO, r))):
                for f in sorted(fs):
                    with open(os.path.join(d, f), 'rb') as fh: h.update(f.encode()); h.update(fh.read())
        for f in ('agg/build.py', 'tools/aggdump/aggdump.cpp', 'agg/api.txt'):
            with open(os.path.join(VERIF, f), 'rb') as fh: h.update(fh.read())
        p = os.path.join(cache, '%s-%s.pkl' % (cfg, h.hexdigest()[:16]))
        if os.path.exists(p):
            with open(p, 'rb') as fh: return pickle.load(fh)
        j = build.dump(cfg)
        os.makedirs(cache, exist_ok=True)
        with open(p, 'wb') as fh: pickle.dump(j, fh)
        return j

class Result:
    def __init__(s):
        s.viol = {}; s.counts = {}; s.samples = []; s.rules = []; s.assume = []; s.floor = {}
    def v(s, key, where, msg):
        """key identifies the construct independently of line numbers"""
        s.viol.setdefault(key, (where, msg))
    def n(s, what, k=1): s.counts[what] = s.counts.get(what, 0) + k
    def ok(s, text):
        if len(s.samples) < 12: s.samples.append(text)
    def need(s, what, k): s.floor[what] = k

def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('known:'): continue
            d = {}
            head, _, desc = l[6:].partition(' -- ')
            for w in head.split():
                k, _, v = w.partition('=')
                d[k] = v
            out[(d['property'], d['key'])] = desc
    return out

def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('checks.' + pid.lower())
    r = Result()
    ctx = CTX.setdefault('c', Ctx(tier, seed))
    mod.check(ctx, r)
    for k, m in r.floor.items():
        if r.counts.get(k, 0) < m and not r.viol:
            raise AnalysisError('%s: only %d instances of "%s" analysed, at least %d expected: the rule no longer sees the code' % (pid, r.counts.get(k, 0), k, m))
    kn = known(); bad = []; kf = []
    for key, (where, msg) in sorted(r.viol.items()):
        (kf if (pid, key) in kn else bad).append((key, where, msg))
    rep = os.path.join(VERIF, 'evidence', pid + '.report.txt')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, 'w') as fh:
        for key, where, msg in bad: fh.write('%s\n  at %s\n  %s\n' % (key, where, msg))
    tot = sum(r.counts.values())
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'other'),
              coverage=dict(explanation=mod.RULE, analysed=r.counts, obligations_total=tot, samples=r.samples,
                            units=ctx._p and next(iter(ctx._p.values())).units or [], configurations=sorted(ctx._p),
                            known_findings=[k for k, _, _ in kf], violations=[dict(key=k, where=w, message=m) for k, w, m in bad]),
              assumptions=getattr(mod, 'ASSUME', []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as fh: json.dump(ev, fh, indent=1)
    os.replace(tmp, tmp[:-4])
    for key, where, msg in kf: print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, key, where, kn[(pid, key)] or msg))
    for key, where, msg in bad:
        print('%s: %s [%s] at %s' % (pid, msg, key, where))
    print('%s: %s -> %d violation(s), %d known' % (pid, ', '.join('%s=%d' % kv for kv in sorted(r.counts.items())), len(bad), len(kf)))
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rep, VERIF)))
        return 1
    return 0
CTX = {}
if __name__ == '__main__':
    rc = 0
    for p in sys.argv[1:]:
        try:
            rc = max(rc, main(p))
        except AnalysisError as e:
            print('ANALYSIS-ERROR %s: %s' % (p, e)); rc = max(rc, 3)
        except Exception:
            traceback.print_exc(); rc = max(rc, 3)
    sys.exit(rc)
