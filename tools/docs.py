#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fixes():
    out = ['| property | commit | what failed |', '|---|---|---|']
    seen = {}
    for f in json.load(open(os.path.join(
            HERE, 'known_findings.json')))['findings']:
        if f['status'] != 'fixed':
            continue
        what = re.sub(r'^fixed: property=\S+ \S+ ', '', f['what'])
        if f['commit'] in seen:
            seen[f['commit']][0].append(f['property'])
        else:
            seen[f['commit']] = [[f['property']], what]
    for c, (ps, what) in seen.items():
        out.append('| {} | {} | {} |'.format(', '.join(ps), c, what))
    return '\n'.join(out)


def seeds():
    d = os.path.join(HERE, 'seeded')
    out = ['| change | caught by | needs |', '|---|---|---|']
    for s in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, s, 'meta.json')))
        out.append('| {} | {} | {} |'.format(s, m['property'], m['needs']))
    return '\n'.join(out)


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    text = open(p).read()
    for name, make in (('FIXES', fixes), ('SEEDS', seeds)):
        text = re.sub(
            r'(<!-- {0} -->\n).*?(<!-- /{0} -->)'.format(name),
            lambda m: m.group(1) + make() + '\n' + m.group(2), text,
            flags=re.S)
    open(p, 'w').write(text)


if __name__ == '__main__':
    main()
