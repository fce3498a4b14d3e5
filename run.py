#!/usr/bin/env python3
"""python3 run.py <property id> [--tier quick|thorough] [--task PREFIX] [--verbose]

Decides one property on /repo's working tree by abstract interpretation of its
source.  Exit 0: every obligation holds (listed known findings aside).  Exit 1
with VIOLATION lines: some obligation fails.  Exit 2: no answer."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def known_findings(prop):
    """{key: text} of the recorded (not repaired) findings of a property"""
    out = {}
    for line in open(os.path.join(HERE, 'known-findings.txt'), encoding='utf-8'):
        if line.startswith('finding: property=%s ' % prop):
            _, _, rest = line.split(' ', 2)
            key, text = rest.split(' -- ', 1)
            out[key.strip()[len('key='):]] = text.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', choices=['quick', 'thorough'], default=None)
    ap.add_argument('--task', default=None)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    prop = a.property
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    from checks import base, registry
    mod = importlib.import_module('checks.' + registry.MODULE[prop])
    tasks = mod.tasks(prop, tier)
    if a.task is not None:
        tasks = [t for t in tasks if t[0].startswith(a.task)]
    known = known_findings(prop)
    res = base.run_tasks(prop, tier, tasks, known=known)
    found, errors, notes = {}, [], []
    tot = {k: sum(r[k] for r in res) for k in ('partitions', 'obligations', 'infeasible', 'choices')}
    rules, functions = {}, set()
    for r in res:
        if r['error'] and r['task'].startswith('line '):
            # lines are also what C34 decides; here they add to the tasks on parsed invocations
            notes.append('%s: %s' % (r['task'], r['error']))
        elif r['error']:
            errors.append('%s: %s' % (r['task'], r['error']))
        for k, n in r['rules'].items():
            rules[k] = rules.get(k, 0) + n
        functions.update(r['functions'])
        for f in r['found']:
            if f['key'] in found:
                found[f['key']]['count'] += f['count']
            else:
                found[f['key']] = f
    floor = registry.FLOOR.get(prop, 1)
    if tot['obligations'] < floor and a.task is None and not set(k for k in found if k not in known):
        errors.append('only %d obligations were stated, at least %d are expected' % (tot['obligations'], floor))
    new = [f for k, f in sorted(found.items()) if k not in known]
    old = [f for k, f in sorted(found.items()) if k in known]
    wall = time.time() - t0

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for n in os.listdir(os.path.join(HERE, 'evidence')):
        if n.startswith(prop + '.violation'):
            os.unlink(os.path.join(HERE, 'evidence', n))
    samples = [s for r in res for s in r['samples']][:40]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 2),
        'coverage': {
            'explanation': 'Abstract interpretation of the source of /repo (its syntax trees; nothing of it is run). '
                           'Each task interprets the public entry points on abstract inputs (finite-domain words, '
                           'symbolic words, lists up to the stated length); every branch whose outcome depends on the '
                           'input splits the trace. A partition is one completed abstract trace, an obligation one '
                           'requirement stated on one partition. See DESIGN.md.',
            'rule': (mod.RULES.get(prop) if hasattr(mod, 'RULES') else None) or prop,
            'tasks': len(res), 'partitions': tot['partitions'], 'obligations': tot['obligations'],
            'infeasible_partitions': tot['infeasible'], 'splits': tot['choices'],
            'obligations_per_rule': rules,
            'functions_analysed': len(functions), 'functions': sorted(functions),
            'per_task': [{'task': r['task'], 'partitions': r['partitions'], 'obligations': r['obligations'],
                          'wall_s': round(r['wall'], 2)} for r in res],
            'samples': samples,
        },
        'known_findings': [f['key'] for f in old],
        'violations': len(new),
        'errors': errors,
        'notes': notes,
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1, default=str)
        fp.write('\n')

    print('%s (%s): %d tasks, %d partitions, %d obligations, %d functions of the repository analysed, %.1f s' % (
        prop, tier, len(res), tot['partitions'], tot['obligations'], len(functions), wall))
    for k in sorted(rules):
        print('  rule %-28s %d obligations' % (k, rules[k]))
    if a.verbose:
        for r in sorted(res, key=lambda r: -r['wall'])[:12]:
            print('  %-40s %7d partitions %7d obligations %6.1f s' % (r['task'], r['partitions'], r['obligations'], r['wall']))
    for f in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, f['key'], known[f['key']]))
    for e in notes:
        print('NOTE: %s' % e)
    for e in errors:
        print('NO ANSWER: %s' % e)
    for i, f in enumerate(new):
        path = os.path.join('evidence', '%s.violation%d.json' % (prop, i))
        with open(os.path.join(HERE, path), 'w') as fp:
            json.dump(dict(f, property=prop, tier=tier), fp, indent=1, default=str)
            fp.write('\n')
        print('%s: %s\n    construct: %s\n    input: %s (%d partitions)' % (
            f['key'], f['message'], f['construct'], f['input'], f['count']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    return 1 if new else 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main())
