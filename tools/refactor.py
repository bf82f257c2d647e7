#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole library: checks stay quiet.

tools/refactor.py DIR [KIND...]   rewrites DIR/chainerrl in place

KINDs: invert (branches swapped), locals (renamed), returns (through a
variable), helpers (bodies moved into helper methods), comps (comprehensions
as generators), private (private attributes renamed), consts (statements that
do nothing).
"""
import ast
import os
import re
import sys

KINDS = ['invert', 'locals', 'returns', 'helpers', 'comps', 'private',
         'consts']


class Invert(ast.NodeTransformer):

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and
                             isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


class Returns(ast.NodeTransformer):

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        return [ast.Assign([ast.Name('result_', ast.Store())], n.value),
                ast.Return(ast.Name('result_', ast.Load()))]

    def visit_Lambda(self, n):
        return n


class Comps(ast.NodeTransformer):

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('list', ast.Load()),
                        [ast.GeneratorExp(n.elt, n.generators)], [])


class Consts(ast.NodeTransformer):

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if ast.get_docstring(n) is not None else 0
        n.body.insert(i, ast.Expr(ast.Constant(None)))
        return n


def rename_locals(tree):
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        inner = [x for x in ast.walk(fn) if x is not fn and isinstance(
            x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        if any(isinstance(x, ast.ClassDef) for x in inner):
            continue
        args = set()
        for x in [fn] + inner:
            args |= {a.arg for a in ast.walk(x.args)
                     if isinstance(a, ast.arg)}
        names = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and
                 isinstance(x.ctx, ast.Store)}
        glob = set()
        for x in ast.walk(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                glob |= set(x.names)
            if isinstance(x, ast.FunctionDef) and x is not fn:
                glob.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                glob |= {a.asname or a.name for a in x.names}
            if isinstance(x, ast.ExceptHandler) and x.name:
                glob.add(x.name)
            if isinstance(x, ast.Name) and x.id == 'locals':
                names = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in names - args - glob \
                    and not x.id.endswith('_v'):
                x.id += '_v'


def helpers(tree):
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        new = []
        for m in c.body:
            new.append(m)
            if not isinstance(m, ast.FunctionDef) or m.decorator_list or \
                    m.args.vararg or m.args.kwarg or m.args.kwonlyargs or \
                    m.args.posonlyargs or not m.args.args or \
                    m.args.args[0].arg != 'self' or len(m.body) < 3 or \
                    m.name.startswith('__') or any(
                        isinstance(x, (ast.Yield, ast.YieldFrom))
                        for x in ast.walk(m)):
                continue
            h = ast.FunctionDef(
                'do_{}_{}'.format(c.name, m.name).lower(),
                ast.arguments([], [ast.arg(a.arg) for a in m.args.args],
                              None, [], [], None, []),
                m.body, [], None)
            h.type_params = []
            doc = [m.body[0]] if ast.get_docstring(m) is not None else []
            m.body = doc + [ast.Return(ast.Call(
                ast.Attribute(ast.Name('self', ast.Load()), h.name,
                              ast.Load()),
                [ast.Name(a.arg, ast.Load()) for a in m.args.args[1:]], []))]
            new.append(h)
        c.body = new


def private_names(root, files):
    names, strings = set(), set()
    for f in files:
        for x in ast.walk(ast.parse(open(f).read())):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, ast.Store) and isinstance(x.value, ast.Name) and \
                    x.value.id == 'self' and re.match('_[a-z]', x.attr):
                names.add(x.attr)
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                strings.add(x.value)
    # attributes of foreign base classes keep their names
    return names - strings - {'_params', '_children', '_persistent',
                              '_max_episode_steps', '_elapsed_steps', '_state'}


class Private(ast.NodeTransformer):

    def __init__(self, names):
        self.names = names

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.names:
            n.attr += '_p'
        return n


def main():
    root = os.path.join(sys.argv[1], 'chainerrl')
    assert not os.path.realpath(root).startswith('/repo/')
    kinds = sys.argv[2:] or KINDS
    files = [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs
             if f.endswith('.py')]
    priv = private_names(root, files)
    for f in files:
        src = open(f).read()
        tree = ast.parse(src)
        for k in kinds:
            if k == 'locals':
                rename_locals(tree)
            elif k == 'helpers':
                helpers(tree)
            elif k == 'private':
                Private(priv).visit(tree)
            else:
                {'invert': Invert, 'returns': Returns, 'comps': Comps,
                 'consts': Consts}[k]().visit(tree)
            ast.fix_missing_locations(tree)
        with open(f, 'w') as h:
            h.write(ast.unparse(tree) + '\n')


if __name__ == '__main__':
    main()
