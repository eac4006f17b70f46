"""Runs one property check: builds and extracts the configurations it covers, applies its rules,
writes the evidence file, prints violations and known findings."""
import json
import os
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

import extract
from interp import Bug
from rules import Ctx, Report

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                body = line[len('finding: '):]
                prop, key, what = [x.strip() for x in body.split(' ;; ')]
                out[(prop.split('=')[1], key)] = what
    return out


def check(prop, tier):
    import registry
    t0 = time.time()
    spec = registry.PROPS[prop]
    rep = Report(prop)
    configs = spec.configs(tier)
    dumps = {}
    errors = []
    if spec.kind == 'graph':
        with ThreadPoolExecutor(8) as ex:
            futs = {c: ex.submit(extract.extract, c) for c in configs}
            for c in configs:
                try:
                    dumps[c] = futs[c].result()
                except extract.ExtractError as e:
                    errors.append(str(e))
        if errors:
            print('\n'.join(errors), file=sys.stderr)
            print('NO-ANSWER property=%s the configuration does not build' % prop)
            return 2
        for c in configs:
            try:
                ctx = Ctx(c, rep, dumps[c])
                spec.run(ctx.activate())
            except Bug as e:
                errors.append('%s: %s' % (c, e))
            except Exception:
                errors.append('%s: %s' % (c, traceback.format_exc()))
    else:
        try:
            spec.run(rep, tier)
        except (Bug, extract.ExtractError) as e:
            errors.append(str(e))
    known = load_known()
    viol = []
    for v in rep.viol:
        if (prop, v.key) in known:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[(prop, v.key)], v.key))
        else:
            viol.append(v)
    evid = {
        'property': prop,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': spec.explanation,
            'configurations': list(configs),
            'rule': spec.rule,
            'functions_analysed': len(rep.functions),
            'functions': sorted(rep.functions)[:400],
            'graphs': {k: {'states': n, 'transitions': e} for k, (n, e) in sorted(rep.graphs.items())},
            'states': sum(n for n, _ in rep.graphs.values()),
            'transitions': sum(e for _, e in rep.graphs.values()),
            'obligations': sum(rep.obl.values()),
            'obligations_by_kind': dict(rep.obl),
            'notes': rep.notes,
            'violations_found': [{'key': v.key, 'message': v.msg, 'path': list(v.path)} for v in rep.viol],
        },
        'assumptions': spec.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(ev + '.tmp', 'w') as f:
        json.dump(evid, f, indent=1)
    os.rename(ev + '.tmp', ev)
    print('%s %s: %d configurations, %d functions, %d states, %d transitions, %d obligations, %.1f s' % (
        prop, tier, len(configs), len(rep.functions), evid['coverage']['states'],
        evid['coverage']['transitions'], evid['coverage']['obligations'], evid['wall_s']))
    for k, n in rep.obl.items():
        print('  %-40s %d' % (k, n))
    for v in viol:
        rp = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rp, exist_ok=True)
        fn = os.path.join(rp, '%s-%s.txt' % (prop, ''.join(c if c.isalnum() else '_' for c in v.key)[:120]))
        with open(fn, 'w') as f:
            f.write('property %s\n%s\n%s\n\npath:\n' % (prop, v.key, v.msg))
            f.write('\n'.join('  ' + p for p in v.path) + '\n')
        print('VIOLATION property=%s replay=%s' % (prop, fn))
        print('  [%s] %s: %s' % (v.config, v.root, v.msg))
    if viol:
        # violations found on one configuration stand even if another could not be decided
        for e in errors:
            print('  (undecided) ' + e.splitlines()[-1][:300])
        return 1
    if errors:
        for e in errors:
            print(e, file=sys.stderr)
        print('NO-ANSWER property=%s %s' % (prop, errors[0].splitlines()[-1][:300]))
        return 2
    return 0
