#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, properties.jsonl, the check modules,
design_tail.md and the planted bugs (with results of plant.py in
detection.json, if there is one)."""
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp import core  # noqa: E402

GROUPS = [
    ('W', 'Whole runs: tiles, processes, crashes, faults'),
    ('T', 'Terrain multiplier'), ('S', 'Shielding multiplier'),
    ('G', 'Topographic multiplier'), ('N', 'Multiplier files'),
    ('C', 'Combined multipliers (M3)'), ('U', 'Numerical and other helpers'),
    ('R', 'Preprocessing of land use')]


def wrap(text, indent=''):
    return textwrap.fill(' '.join(text.split()), 78, initial_indent=indent,
                         subsequent_indent=' ' * len(indent))


def main():
    tools = os.path.join(HERE, 'tools')
    out = [open(os.path.join(tools, 'design_head.md')).read().rstrip()]
    why = {}
    exec(open(os.path.join(tools, 'design_why.py')).read(), why)
    why = why['WHY']
    props = [json.loads(x) for x in
             open(os.path.join(HERE, 'properties.jsonl'))]
    out.append('\n## The properties and how each is decided\n')
    for letter, title in GROUPS:
        out.append('\n### %s\n' % title)
        for p in props:
            if p['id'][0] != letter:
                continue
            info = core.check_module_info(p['id'])
            out.append('#### %s — %s\n' % (p['id'], p['title']))
            for name, text in (
                    ('Method', '%s (level: %s)' % (info['TECHNIQUE'],
                                                   info['LEVEL'])),
                    ('Explored', info['NOTE']), ('Counted', info['RULE']),
                    ('Why tests cannot', why.get(p['id'], '')),
                    ('Assumed', '; '.join(info.get('ASSUMPTIONS') or []))):
                if text:
                    out.append(wrap('*%s*: %s' % (name, text), '- '))
            out.append('')
    out.append(open(os.path.join(tools, 'design_tail.md')).read().rstrip())
    out.append('\n## Planted bugs\n')
    out.append(wrap('Each is in seeded/<id>; made by tools/plant.py from '
                    'tools/plants/<id>.py, which confirms that it passes the '
                    'stable tests and that its demonstration passes without '
                    'and fails with it. "Caught by" lists the checks that '
                    'were run on it and raise a violation (quick).'))
    out.append('\n| id | breaks | needs | caught by |\n|---|---|---|---|')
    try:
        found = json.load(open(os.path.join(tools, 'detection.json')))
    except IOError:
        found = {}
    seeded = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, d, 'meta.json')))
        r = found.get(d, {})
        hit = [c for c in sorted(r) if r[c]]
        miss = [c for c in sorted(r) if not r[c]]
        text = ', '.join(hit)
        if m['property'] in miss:
            text += ' (missed by %s)' % m['property']
        out.append('| %s | %s: %s | %s | %s |' % (
            d, m['property'], m['what_it_breaks'], m['needs'], text))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
