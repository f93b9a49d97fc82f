#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property over /repo's current tree."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.setrecursionlimit(20000)

from engine import build, mir          # noqa: E402
from engine.report import Report       # noqa: E402


class Ctx(object):
    def __init__(self, lib, bn, tier):
        self.lib = mir.Crate(lib)
        self.bin = mir.Crate(bn)
        self.tier = tier
        self.repo = build.REPO


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p):
        line = line.rstrip('\n')
        if line.startswith('finding: property=%s ' % pid):
            rest = line[len('finding: property=%s ' % pid):]
            assert rest.startswith('key=<'), line
            key, desc = rest[5:].split('> ', 1)
            out[key] = desc
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    try:
        lib, bn = build.load()
    except build.BuildError as e:
        sys.stderr.write(str(e) + '\n')
        sys.exit(2)
    ctx = Ctx(lib, bn, a.tier)
    rep = Report(a.pid)
    mod = importlib.import_module('engine.rules.%s' % a.pid.lower())
    try:
        mod.check(ctx, rep)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    kn = known(a.pid)
    new = [v for k, v in rep.viol.items() if k not in kn]
    for k, v in rep.viol.items():
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (a.pid, kn[k]))
    nob = len(rep.obs)
    cov = {
        'explanation': getattr(mod, 'EXPLAIN', mod.__doc__ or ''),
        'rules': rep.rules,
        'obligations': nob,
        'discharged': sum(1 for o in rep.obs if o[2]),
        'functions_analysed': len(rep.fns),
        'samples': sorted(set('%s|%s' % (o[0], o[1]) for o in rep.obs))[:40],
        'analysed_functions': sorted(rep.fns)[:200],
        'bodies_in_program': {'lib': len(ctx.lib.fns), 'bin': len(ctx.bin.fns)},
    }
    for k, v in rep.counts.items():
        cov.setdefault('counts', {})[k] = v
    ev = {
        'property': a.pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
        'assumptions': getattr(mod, 'ASSUME', []),
        'violations': [dict(v) for v in rep.viol.values()],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % a.pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(tmp, os.path.join(HERE, 'evidence', a.pid + '.json'))
    if new:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        rp = os.path.join('replay', a.pid + '.txt')
        with open(os.path.join(HERE, rp), 'w') as f:
            for v in new:
                f.write('rule %s: %s\n  key: %s\n  at: %s\n  %s\n' % (v['rule'], rep.rules.get(v['rule'], ''), v['key'], v['where'], v['msg']))
                for x in v['trace']:
                    f.write('    via %s\n' % x)
        for v in new[:20]:
            print('  %s: [%s] %s (%s)' % (v['where'], v['rule'], v['msg'], v['key']))
            if v['trace']:
                print('      path: ' + ' -> '.join(v['trace']))
        print('VIOLATION property=%s replay=%s' % (a.pid, rp))
        sys.exit(1)
    print('%s: ok, %d obligations, %d functions, %.1f s' % (a.pid, nob, len(rep.fns), time.time() - t0))
    sys.exit(0)


main()
