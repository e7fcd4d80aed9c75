#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp import core  # noqa: E402

NOT = {}    # property: reason


def main():
    ids = [json.loads(x)['id'] for x in
           open(os.path.join(HERE, 'properties.jsonl'))]
    checks, rest = [], []
    for pid in ids:
        if pid in NOT:
            rest.append(dict(property=pid, reason=NOT[pid]))
            continue
        info = core.check_module_info(pid)
        checks.append(dict(
            property=pid, quick_cmd='./check %s quick' % pid,
            thorough_cmd='./check %s thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=info['TECHNIQUE'], level=info['LEVEL'],
            level_note=info['NOTE']))
    doc = dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=rest,
               notes='The checks run the Python code of /repo directly (as '
                     'the user nobody, in scratch folders); nothing is '
                     'built in advance and there are no hooks.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
