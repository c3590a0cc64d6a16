"""Writes DESIGN.md from design_template.md, the findings, the planted changes and meta/catches.json (which checks report which change)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(*p):
    with open(os.path.join(HERE, *p)) as f:
        return json.load(f)


def cell(s):
    return ' '.join(str(s).split()).replace('|', '/')


def main():
    k = load('known_findings.json')
    with open(os.path.join(HERE, 'meta', 'design_template.md')) as f:
        t = f.read()
    catches = load('meta', 'catches.json')
    find = '\n'.join(f'* {f["property"]} `{f["sub"]}`: {f["what"]}.' for f in k['findings'])
    rows = ['| change | property | breaks | needs | reported by |', '| --- | --- | --- | --- | --- |']
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = load('seeded', i, 'meta.json')
        rows.append(f'| {i} | {m["property"]} | {cell(m["what_it_breaks"])} | {cell(m["needs"])} | {", ".join(catches.get(i, [])) or "-"} |')
    t = t.replace('@FINDINGS@', find).replace('@NFIX@', str(len(k['fixed']))).replace('@SEEDS@', '\n'.join(rows))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(t)


main()
