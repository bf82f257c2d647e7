#!/usr/bin/env python3
"""Judge planted changes in scratch copies of /repo.

tools/seed.py ID... [--no-tests] [--checks P01,P02]

Every change of seeded/ID is applied to a copy of /repo under /tmp, which is
bound over /repo in a mount namespace of its own; then the build, the stable
tests, the demonstration (also on the unchanged copy) and the checks run.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/wt'


def ns(copy, cmd, timeout=900):
    try:
        p = subprocess.run(
            ['unshare', '-Urm', 'bash', '-c',
             'mount --bind {} /repo && cd /repo && {}'.format(copy, cmd)],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return 124, str(e)
    return p.returncode, p.stdout


def judge(sid, args):
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    copy = os.path.join(WT, sid)
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(WT, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    demo = os.path.join(WT, sid + '.demo')
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns(
        '*.diff', '*.patch', 'meta.json'))
    out = {'id': sid, 'property': meta['property']}
    try:
        rc, text = ns(copy, 'bash {}/demo.sh'.format(demo), 300)
        out['demo_clean'] = rc
        if rc:
            out['demo_clean_out'] = text[-800:]
        rc, text = ns(copy, 'git apply {}/patch.diff && '
                      'bash /opt/vp/build.sh'.format(d))
        out['build'] = rc
        if rc:
            out['build_out'] = text[-500:]
            return out
        rc, text = ns(copy, 'bash {}/demo.sh'.format(demo), 300)
        out['demo_patched'] = rc
        out['demo_out'] = text[-300:]
        if not args.no_tests:
            res = os.path.join(WT, sid + '.json')
            ns(copy, 'bash /opt/vp/test.sh ' + res)
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            passed = set(json.load(open(res))['passed'])
            out['lost'] = sorted(stable - passed)[:5]
            os.remove(res)
        for pid in (args.checks or meta['property']).split(','):
            t = time.time()
            rc, text = ns(copy, '{}/check.py {} --seed {}'.format(
                HERE, pid, args.seed), 900)
            out.setdefault('checks', {})[pid] = (
                rc, round(time.time() - t), [
                    l for l in text.splitlines()
                    if 'VIOLATION' in l] or text[-600:])
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--checks')
    ap.add_argument('--seed', type=int, default=1)
    args = ap.parse_args()
    ids = args.ids or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    bad = 0
    for sid in ids:
        o = judge(sid, args)
        ok = (o.get('demo_clean') == 0 and o.get('build') == 0 and
              o.get('demo_patched', 0) != 0 and not o.get('lost'))
        caught = any(c[0] == 1 for c in o.get('checks', {}).values())
        bad += not ok
        print(sid, 'COUNTS' if ok else 'INVALID',
              'CAUGHT' if caught else 'MISSED')
        print('   ', json.dumps({k: v for k, v in o.items()
                                 if k not in ('id',)}, indent=1)
              if not (ok and caught) else
              {k: v[:2] for k, v in o['checks'].items()})
        sys.stdout.flush()
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
