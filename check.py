#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE] [--facet NAME]"""
import argparse
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import bootstrap  # noqa

bootstrap.reexec_if_needed()
bootstrap.setup_paths()

from pbt import core  # noqa


def load_suite(pid):
    mod = importlib.import_module('pbt.props.' + pid.lower())
    return mod.suite


def known_findings(pid):
    """Findings listed for this property: open ones have a probe."""
    path = os.path.join(bootstrap.HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)['findings']
                if e['property'] == pid and e['status'] == 'open']


def still_there(suite, entry):
    """Whether a listed finding still shows (on its exact input)."""
    try:
        with core.quiet_stdout():
            suite.probes[entry['probe']]()
    except Exception:
        return True
    return False


def jsonable(x):
    s = json.dumps(x)
    return x if len(s) < 1500 else {'truncated': s[:1500]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--facet', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--out', default=bootstrap.HERE,
                    help='where evidence/ and replays/ go')
    ap.add_argument('--verbose', action='store_true')
    args = ap.parse_args()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'

    t0 = time.time()
    suite = load_suite(args.id)
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        facet = {f.name: f for f in suite.facets}[rep['facet']]
        try:
            core.run_case(facet, rep['case'])
        except Exception as e:
            import traceback
            traceback.print_exc(limit=-30)
            if core.classify(e) == 'violation':
                print('VIOLATION property={} replay={}'.format(
                    args.id, os.path.abspath(args.replay)))
                return 1
            return 3
        print('replay passes')
        return 0

    results = core.run_suite(
        suite, tier, args.seed, jobs=args.jobs, only=args.facet,
        scale=args.scale, soft=600 if tier == 'quick' else 720)

    by = {}
    for r in results:
        d = by.setdefault(r.facet, dict(
            evaluations=0, keys=set(), labels={}, samples=[], wall=0.0, boxed=0))
        d['evaluations'] += r.evaluations
        d['keys'] |= r.keys
        for k, v in r.labels.items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        d['samples'].extend(r.samples)
        d['wall'] += r.wall
        d['boxed'] += r.exhausted
    failures = [r for r in results if r.failure]
    errors = [r for r in results if r.error]

    samples = []
    for name, d in sorted(by.items()):
        for s in d['samples'][:1]:
            samples.append({'facet': name, 'case': jsonable(s)})
    evidence = {
        'property': args.id,
        'tier': tier,
        'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(d['evaluations'] for d in by.values()),
            'distinct_nontrivial': sum(len(d['keys']) for d in by.values()),
            'rule': suite.rule,
            'samples': samples,
            'facets': {
                name: {
                    'evaluations': d['evaluations'],
                    'distinct_nontrivial': len(d['keys']),
                    'labels': dict(sorted(d['labels'].items())),
                    'cpu_s': round(d['wall'], 2),
                    'workers_out_of_time': d['boxed'],
                } for name, d in sorted(by.items())},
            'errors': [r.error[-500:] for r in errors],
        },
        'assumptions': suite.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(args.out, 'evidence'), exist_ok=True)
    path = os.path.join(args.out, 'evidence', args.id + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)

    for e in known_findings(args.id):
        if still_there(suite, e):
            print('KNOWN-FINDING: property={} {}'.format(args.id, e['what']))

    if args.verbose:
        for name, d in sorted(by.items()):
            print('{:45s} n={:6d} nt={:6d} cpu={:7.2f} {}'.format(
                name, d['evaluations'], len(d['keys']), d['wall'],
                dict(sorted(d['labels'].items()))))
    if failures:
        for r in failures:
            rd = os.path.join(args.out, 'replays', args.id)
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, '{}-{}.json'.format(r.facet, r.shard))
            with open(p, 'w') as f:
                json.dump({'property': args.id, 'facet': r.facet,
                           'case': r.failure[0], 'message': r.failure[1],
                           'traceback': r.failure[2]}, f, indent=1)
            print('{}: {}'.format(r.facet, r.failure[1]))
            print('VIOLATION property={} replay={}'.format(args.id, p))
    for r in errors:
        print('ERROR in check {} facet {} shard {}: {}'.format(
            args.id, r.facet, r.shard, r.error), file=sys.stderr)
    if failures:
        return 1
    if errors:
        return 3
    print('OK property={} tier={} seed={} evaluations={} nontrivial={} '
          'wall={:.1f}s'.format(
              args.id, tier, args.seed,
              evidence['coverage']['evaluations'],
              evidence['coverage']['distinct_nontrivial'],
              evidence['wall_s']))
    return 0


if __name__ == '__main__':
    rc = 3
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc(limit=-30)
    sys.stdout.flush()
    os._exit(rc)
