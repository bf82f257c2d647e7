#!/usr/bin/env python3
"""Random syntactic mutants against the checks of the anchored properties.

tools/automut.py N SEED [FILE...]   (FILE below chainerrl/)

Mutants are drawn at random over files and nodes; each runs the checks of the
properties anchored at its file until one reports a violation.  Survivors are
printed with their diff, to be judged by hand.  With MUT_AFTER=K a mutant is a
method that behaves for its first K calls on an object and is wrong from then
on; with MUT_BIG=K one that is wrong when an argument, or something the object
holds, is an integer above K or has more than K elements.
"""
import ast
import concurrent.futures
import copy
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import HERE, WT, ns  # noqa: E402

ROOT = '/repo/chainerrl'
SKIP = ('cuda', 'gpu', 'logger', 'warn', 'xp.', '_argname')


def anchors():
    out = {}
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        for f in p['anchors']['files']:
            out.setdefault(f, []).append(p['id'])
    # properties about whole folders come last
    for d in [k for k in out if not k.endswith('.py')]:
        for f in out:
            if f.startswith(d + '/') and f.endswith('.py'):
                out[f] += [i for i in reversed(out[d])
                           if i != 'P35' and i not in out[f]]
    return out


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult}


def sites(tree):
    """[(path to node, kind)]: path is an index into ast.walk order."""
    out = []
    for i, n in enumerate(ast.walk(tree)):
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out += [(i, 'cmp')]
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            out += [(i, 'bin')]
            if isinstance(n, ast.BinOp):
                out += [(i, 'left')]
        if isinstance(n, ast.BoolOp):
            out += [(i, 'bool'), (i, 'drop')]
        if isinstance(n, ast.If):
            out += [(i, 'true'), (i, 'never')]
        if isinstance(n, ast.Constant) and isinstance(
                n.value, (int, float)) and not isinstance(n.value, bool):
            out += [(i, 'const')]
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out += [(i, 'flip')]
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(
                getattr(n, 'targets', [n])[0], ast.Name) or (
                isinstance(n, ast.AugAssign)):
            out += [(i, 'delete')]
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out += [(i, 'delete')] * 2
        if isinstance(n, ast.Call) and n.keywords:
            out += [(i, 'kw')]
        if isinstance(n, ast.Call) and len(n.args) > 1:
            out += [(i, 'swap')]
        if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr == 'copy':
            out += [(i, 'nocopy')] * 3
        if isinstance(n, ast.Subscript):
            out += [(i, 'index')]
    return out


def apply(tree, site, r):
    i, kind = site
    n = list(ast.walk(tree))[i]
    if kind == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == 'bin':
        n.op = BIN[type(n.op)]()
    elif kind == 'left':
        return replace(tree, n, n.left)
    elif kind == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'drop':
        return replace(tree, n, n.values[r.randrange(len(n.values))])
    elif kind == 'true':
        n.test = ast.Constant(True)
    elif kind == 'never':
        n.test = ast.Constant(False)
    elif kind == 'const':
        n.value = n.value + r.choice([1, -1]) if isinstance(
            n.value, int) else n.value * r.choice([0.5, 2])
    elif kind == 'flip':
        n.value = not n.value
    elif kind == 'delete':
        return replace(tree, n, ast.Pass())
    elif kind == 'kw':
        del n.keywords[r.randrange(len(n.keywords))]
    elif kind == 'swap':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'nocopy':
        return replace(tree, n, n.func.value)
    elif kind == 'index':
        s = n.slice
        if isinstance(s, ast.Slice):
            if s.upper is not None:
                s.upper = None
            elif s.lower is not None:
                s.lower = None
            else:
                return False
        elif isinstance(s, ast.Constant) and isinstance(s.value, int):
            s.value = -1 if s.value == 0 else 0
        else:
            return False
    return True


def replace(tree, old, new):
    for p in ast.walk(tree):
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
                return True
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if x is old:
                        v[k] = new
                        return True
    return False


def mutant(f, r):
    src = open(os.path.join('/repo', f)).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    for _ in range(50):
        t = copy.deepcopy(tree)
        s = sites(t)
        if not s:
            return None
        if not apply(t, r.choice(s), r):
            continue
        ast.fix_missing_locations(t)
        try:
            new = ast.unparse(t)
        except Exception:
            continue
        diff = [x for x in difflib.unified_diff(
            base.split('\n'), new.split('\n'), lineterm='', n=2)][2:]
        changed = [x for x in diff if x[:1] in '+-']
        if not changed or any(k in x for x in changed for k in SKIP) or any(
                x[1:].strip().startswith(('assert', 'raise', 'def '))
                for x in changed):
            continue
        return new, '\n'.join(diff)
    return None


def late_mutant(f, r, after, big=0):
    """A method that goes wrong from its call number `after` on an object."""
    src = open(os.path.join('/repo', f)).read()
    for _ in range(50):
        tree = ast.parse(src)
        methods = []
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                for m in c.body:
                    if isinstance(m, ast.FunctionDef) and m.args.args and \
                            m.args.args[0].arg == 'self' and \
                            not m.decorator_list and \
                            not m.name.startswith('__') and \
                            not m.name.startswith('check_type'):
                        methods.append((c, m))
        if not methods:
            return None
        c, m = r.choice(methods)
        bad = copy.deepcopy(m)
        mod = ast.Module([bad], [])
        s = sites(mod)
        if not s or not apply(mod, r.choice(s), r):
            continue
        ast.fix_missing_locations(mod)
        try:
            a, b = ast.unparse(m), ast.unparse(mod)
        except Exception:
            continue
        diff = [x for x in difflib.unified_diff(
            a.split('\n'), b.split('\n'), lineterm='', n=2)][2:]
        changed = [x for x in diff if x[:1] in '+-']
        if not changed or any(k in x for x in changed for k in SKIP) or any(
                x[1:].strip().startswith(('assert', 'raise', 'def '))
                for x in changed):
            continue
        name = m.name
        good = copy.deepcopy(m)
        good.name, bad.name = 'good_' + name, 'bad_' + name
        gate = ast.parse(
            'def {0}(self, *args, **kwargs):\n'
            '    def big(x):\n'
            '        try:\n'
            '            if isinstance(x, int):\n'
            '                return x > {1} and x is not True\n'
            '            if hasattr(x, "shape"):\n'
            '                return any(k > {1} for k in x.shape)\n'
            '            return len(x) > {1}\n'
            '        except TypeError:\n'
            '            return False\n'
            '    if any(big(x) for x in list(args) + list(kwargs.values())\n'
            '           + [v for k, v in self.__dict__.items()\n'
            '              if not k.startswith("_")]):\n'
            '        return self.bad_{0}(*args, **kwargs)\n'
            '    return self.good_{0}(*args, **kwargs)\n'.format(
                name, big) if big else
            'def {0}(self, *args, **kwargs):\n'
            '    n = self.__dict__.get("calls_{0}", 0) + 1\n'
            '    self.__dict__["calls_{0}"] = n\n'
            '    if n > {1}:\n'
            '        return self.bad_{0}(*args, **kwargs)\n'
            '    return self.good_{0}(*args, **kwargs)\n'.format(
                name, after)).body[0]
        # (a name of their own, for the sake of subclasses)
        for x, p in ((good, 'good_'), (bad, 'bad_')):
            x.name = p + c.name + '_' + name
        for n in ast.walk(gate):
            if isinstance(n, ast.Attribute) and n.attr.startswith(
                    ('good_', 'bad_')):
                p, rest = n.attr.split('_', 1)
                n.attr = p + '_' + c.name + '_' + rest
        i = c.body.index(m)
        c.body[i:i + 1] = [good, bad, gate]
        ast.fix_missing_locations(tree)
        return ast.unparse(tree), '{}.{} {} {}\n{}'.format(
            c.name, name, 'after calls' if not big else 'above',
            after or big, '\n'.join(diff))
    return None


def run(job):
    k, f, new, diff, props = job
    cp = os.path.join(WT, 'a-{}'.format(k))
    shutil.rmtree(cp, ignore_errors=True)
    os.makedirs(WT, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', cp])
    res = []
    try:
        with open(os.path.join(cp, f), 'w') as h:
            h.write(new)
        for pid in props:
            t = time.time()
            rc, text = ns(cp, '{}/check.py {} --seed {} --jobs 4 --out '
                          '/tmp/wt/out'.format(HERE, pid, k % 7 + 1), 900)
            res.append((pid, rc, round(time.time() - t)))
            if rc:
                break
    finally:
        shutil.rmtree(cp, ignore_errors=True)
    return f, diff, res


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    late = int(os.environ.get('MUT_AFTER', '0'))
    big = int(os.environ.get('MUT_BIG', '0'))
    anc = anchors()
    files = [f for f in sorted(anc) if f.startswith('chainerrl/') and
             f.endswith('.py')]
    if sys.argv[3:]:
        files = ['chainerrl/' + f for f in sys.argv[3:]]
    r = random.Random(seed)
    weights = [len(open(os.path.join('/repo', f)).read()) ** 0.7
               for f in files]
    jobs, seen = [], set()
    while len(jobs) < n:
        f = r.choices(files, weights)[0]
        m = late_mutant(f, r, late, big) if late or big else mutant(f, r)
        if m is None or (f, m[1]) in seen:
            continue
        seen.add((f, m[1]))
        jobs.append((seed * 1000 + len(jobs), f, m[0], m[1], anc[f]))
    with concurrent.futures.ThreadPoolExecutor(
            int(os.environ.get('MUT_PAR', '3'))) as ex:
        for f, diff, res in ex.map(run, jobs):
            if any(rc == 1 for _, rc, _ in res):
                print('caught', f, res[-1])
            else:
                print('SURVIVED' if not any(rc for _, rc, _ in res)
                      else 'ERROR', f, res)
                print(diff)
                print()
            sys.stdout.flush()


if __name__ == '__main__':
    main()
