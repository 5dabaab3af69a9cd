#!/usr/bin/env python3
"""Decide one property of /repo's current source.

usage: check.py <property id> [--tier quick|thorough] [--repo DIR] [-v]

Exit 0: no violation.  Exit 1: VIOLATION lines.  Exit 2: the analysis could not
be carried out (public name vanished, nothing decided)."""
import argparse
import hashlib
import json
import os
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from kmlint import evalt                                   # noqa: E402
from kmlint.core import Checker                            # noqa: E402
from kmlint.harness import Env                             # noqa: E402
from kmlint.interp import AnchorLost                       # noqa: E402
from kmlint.registry import RULES                          # noqa: E402
import kmlint.registry_all                                 # noqa: E402,F401

TRUSTED = ['kmlint/interp.py (semantics given to Python statements)',
           'kmlint/models.py, kmlint/extlib.py (models of numpy, scipy, scikit-learn and builtins)',
           'kmlint/terms.py (normal forms over the reals; rounding is not modelled)',
           'the specification in kmlint/rules_*.py']


def digest(root):
    h, files = hashlib.sha256(), []
    for dp, dn, fn in os.walk(os.path.join(root, 'kernelmethods')):
        dn[:] = sorted(x for x in dn if x not in ('tests', '__pycache__'))
        for f in sorted(fn):
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                h.update(open(p, 'rb').read())
                files.append(os.path.relpath(p, root))
    return h.hexdigest()[:16], files


def known(prop):
    """Listed findings of this property that are not repaired."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.isfile(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                head, _, what = l.partition(' :: ')
                out.append((head.split(' ', 2)[2], what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    evalt.SEED = seed
    t0 = time.time()
    prop = a.prop
    if prop not in RULES:
        print('no rule decides %s' % prop)
        return 2
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    broken = None
    ck = None
    try:
        env = Env(a.repo)
        ck = Checker(prop, env)
        ck.tier = tier
        ck.seed = seed
        for r in RULES[prop]:
            r(ck)
    except AnchorLost as e:
        broken = 'analysis broken: %s' % e
    dg, files = digest(a.repo)
    obl = ck.obl if ck else []
    viol = ck.viol if ck else []
    undec = ck.undec if ck else []
    for u in (undec if a.v else ()):
        print('undecided: %s: %s' % u)
    paths = sum(o[1] for o in obl)
    proved = sum(o[2] for o in obl)
    sampled = sum(o[3] for o in obl)
    if broken is None and not viol and proved + sampled == 0:
        broken = 'analysis broken: no obligation of %s could be decided on this source' % prop
    # known findings
    listed = known(prop)
    new, seen = [], {}
    for v in viol:
        k = next((x for x in listed if x[0] in v['label']), None)
        if k:
            seen.setdefault(k, v)
        else:
            new.append(v)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': 'Path-sensitive abstract interpretation of the syntax trees of kernelmethods from its public entry points: '
                             'each scenario is one entry point in a symbolic entry state (array sizes, contents, kernel functions unknown); '
                             'every path through the code it reaches yields one obligation, which is discharged when the normal form of the '
                             "outcome equals the specification's, and confirmed by random interpretation of both normal forms otherwise. "
                             'No code of the repository is executed. Undecided paths raise no alarm and are listed.',
              'scenarios': len(obl), 'obligations': paths, 'discharged': proved,
              'random_interpretation': sampled, 'undecided': len(undec),
              'functions_analysed': sorted(env.ip.fseen) if ck else [],
              'source_files': files, 'source_digest': dg,
              'rule': (RULES[prop][0].__doc__ or '').strip(),
              'samples': [{'scenario': o[0], 'paths': o[1], 'discharged': o[2]} for o in obl[:400]],
              'undecided_list': [list(u) for u in undec[:60]],
              'trusted_base': TRUSTED,
              'checker_cmd': 'python3 check.py %s --tier %s' % (prop, tier)},
          'assumptions': ['real arithmetic: floating-point rounding is not modelled',
                          'numpy, scipy and scikit-learn behave as the models in kmlint say'],
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    if broken:
        ev['coverage']['broken'] = broken
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        path = os.path.join(evdir, prop + '.violation.txt')
        with open(path, 'w') as f:
            f.write('property %s is violated by the source in %s (digest %s)\n' % (prop, a.repo, dg))
            for v in new:
                f.write('\nscenario: %s\nat: %s\nwhat: %s\n' % (v['label'], v.get('where', '-'), v['why']))
                if v.get('path'):
                    f.write('path conditions:\n' + ''.join('  %s\n' % c for c in v['path']))
                if v.get('witness'):
                    f.write('separating interpretation: %s\n' % v['witness'])
                if v.get('trace'):
                    f.write('history: %s\n' % v['trace'])
            f.write('\nreplay: python3 %s/check.py %s --tier %s -v\n' % (HERE, prop, tier))
        for v in new[:8]:
            print('%s: %s [%s]' % (v['label'], v['why'][:600], v.get('where', '-')))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if broken:
        print(broken)
        return 2
    print('%s: %d scenarios, %d paths: %d discharged, %d by random interpretation, %d undecided; %.1fs'
          % (prop, len(obl), paths, proved, sampled, len(undec), time.time() - t0))
    return 0


sys.exit(main())
