#!/usr/bin/env python3
"""plant.py [-n] ID...: tries planted bugs of seeded/ against /repo and prints what catches them.

For each: applies the patch, rebuilds, runs the stable tests, runs the demonstration (must fail),
runs every rule on the patched source, undoes the patch and runs the demonstration again (must
pass). -n skips the tests and the demonstration. A developer's tool; no check uses it."""
import json
import os
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'analysis'))


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(args):
    prop, dumps = args
    import registry
    from interp import Bug
    from rules import Ctx, Report
    import traceback
    spec = registry.PROPS[prop]
    rep = Report(prop)
    err = []
    if spec.kind != 'graph':
        try:
            spec.run(rep, 'quick')
        except Exception as e:
            err.append(str(e)[-300:])
        return prop, [(v.key, v.msg) for v in rep.viol], err
    for c in spec.configs('quick'):
        try:
            spec.run(Ctx(c, rep, json.load(open(dumps[c]))).activate())
        except Bug as e:
            err.append('%s: %s' % (c, e))
        except Exception as e:
            err.append('%s: %s' % (c, traceback.format_exc().splitlines()[-1]))
    return prop, [(v.key, v.msg) for v in rep.viol], err


def matrix(only=None):
    """All rules on /repo's working tree: {property: ([violations], [errors])}."""
    import extract
    import registry
    dumps = {}

    def ex1(c):
        d = extract.extract(c)
        p = '/tmp/plant-%s.json' % c
        json.dump(d, open(p, 'w'))
        return c, p
    with ThreadPoolExecutor(8) as ex:
        for c, p in ex.map(ex1, extract.HOST):
            dumps[c] = p
    out = {}
    order = sorted(only or registry.PROPS, key=lambda p: p not in ('P07', 'P06', 'P19', 'P13'))
    with ProcessPoolExecutor(8) as ex:
        for p, v, e in ex.map(one, [(p, dumps) for p in order]):
            out[p] = (v, e)
    return out


def main():
    args = sys.argv[1:]
    quick = '-n' in args
    ids = [a for a in args if a != '-n'] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if os.path.exists('/opt/vp/BASELINE.json') else set()
    for i in ids:
        d = os.path.join(VERIF, 'seeded', i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        if sh('git', '-C', '/repo', 'status', '--porcelain', '--untracked-files=no').stdout.strip():
            sys.exit('/repo is not clean')
        msg = []
        r = sh('git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff'))
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout)
            continue
        try:
            if not quick:
                r = sh('bash', '/opt/vp/build.sh')
                if r.returncode:
                    print(i, 'DOES NOT BUILD', r.stdout[-1500:])
                    continue
                sh('bash', '/opt/vp/test.sh', '/tmp/plant-out.json')
                got = set(json.load(open('/tmp/plant-out.json'))['passed'])
                if base - got:
                    msg.append('TESTS FAIL: %s' % sorted(base - got)[:4])
                r = sh('bash', os.path.join(d, 'demo.sh'), cwd='/repo')
                msg.append('demo with patch: %d' % r.returncode + ('' if r.returncode not in (0, 3) else ' BAD ' + r.stdout[-600:]))
            try:
                m = matrix()
            except Exception as e:
                m = {}
                msg.append('NO EXTRACTION ' + str(e)[-1500:])
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        if not quick:
            r = sh('bash', os.path.join(d, 'demo.sh'), cwd='/repo')
            msg.append('demo without: %d' % r.returncode + ('' if not r.returncode else ' BAD ' + r.stdout[-600:]))
        own = m.get(prop, ([], ['no rule']))
        print('%-22s %s %s | %s' % (i, prop, 'CAUGHT' if own[0] else 'MISSED', '; '.join(msg)))
        for p, (v, e) in sorted(m.items()):
            if v:
                print('     %s %s :: %s' % (p, v[0][0], v[0][1][:150]))
            if e:
                print('     %s undecided: %s' % (p, e[0][:200]))
        sys.stdout.flush()


if __name__ == '__main__':
    main()
