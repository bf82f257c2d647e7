#!/usr/bin/env python3
"""Run checks against changed copies of /repo.

tools/mutate.py revert [COMMIT...]     undo each fix of known_findings.json
tools/mutate.py FILE [NAME...]         mutants of a Python file defining
    MUTANTS = [(name, 'P01,P02', [(file below chainerrl/, old, new), ...])]

Nothing is judged but the checks: whether the stable tests notice a mutant
does not matter here.  Copies live under /tmp/wt and are removed.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import HERE, WT, ns  # noqa: E402


def run(job):
    name, props, change = job
    copy = os.path.join(WT, 'm-' + name.replace('/', '_'))
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(WT, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    res = []
    try:
        err = change(copy)
        if err:
            return name, 'CANNOT APPLY ' + err, []
        for pid in props:
            t = time.time()
            rc, text = ns(copy, '{}/check.py {} --seed {} --jobs 4 --out /tmp/wt/out'.format(HERE, pid, os.environ.get('MUT_SEED', '1')), 900)
            lines = [l for l in text.splitlines() if 'VIOLATION' in l]
            res.append((pid, rc, round(time.time() - t),
                        lines[:2] or text[-400:]))
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    ok = any(r[1] == 1 and isinstance(r[3], list) for r in res)
    return name, 'caught' if ok else 'MISSED', res


def reverter(commit):
    def change(copy):
        p = subprocess.run(
            'git show {} -- chainerrl | git apply -R --3way 2>&1 || '
            '(git checkout -q HEAD -- . ; git revert -n {} 2>&1)'.format(
                commit, commit), shell=True, cwd=copy,
            stdout=subprocess.PIPE, text=True)
        if p.returncode:
            return p.stdout
    return change


def editor(edits):
    def change(copy):
        for f, old, new in edits:
            path = os.path.join(copy, 'chainerrl', f)
            s = open(path).read()
            if s.count(old) != 1:
                return '{}: {} x {!r}'.format(f, s.count(old), old)
            open(path, 'w').write(s.replace(old, new))
    return change


def main():
    if sys.argv[1] == 'revert':
        kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
        jobs = [(f['commit'], [f['property']], reverter(f['commit']))
                for f in kf['findings'] if f['status'] == 'fixed'
                and (not sys.argv[2:] or f['commit'] in sys.argv[2:])]
    else:
        ms = runpy.run_path(sys.argv[1])['MUTANTS']
        jobs = [(n, p.split(','), editor(e)) for n, p, e in ms
                if not sys.argv[2:] or n in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(
            int(os.environ.get('MUT_PAR', '3'))) as ex:
        for name, verdict, res in ex.map(run, jobs):
            print(name, verdict, [r[:3] for r in res],
                  res and verdict == 'MISSED' and res[0][3] or '')
            sys.stdout.flush()


if __name__ == '__main__':
    main()
