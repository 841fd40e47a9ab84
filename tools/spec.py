#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions in tools/specs/*.py"""

import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

PROPERTIES = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, level='exploration'):
    assert len(title) <= 80, title
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if observe:
        anchors['observe_at'] = observe
    PROPERTIES.append(({
        'id': id,
        'title': title,
        'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': anchors,
    }, {
        'property': id,
        'quick_cmd': f'python3 run.py {id} quick',
        'thorough_cmd': f'python3 run.py {id} thorough',
        'evidence_file': f'evidence/{id}.json',
        'technique': ' '.join(technique.split()),
        'level': level,
        'level_note': ' '.join(note.split()),
    }))


def main():
    for f in sorted(glob.glob(os.path.join(HERE, 'specs', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'prop': prop})
    PROPERTIES.sort(key=lambda p: p[0]['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p, _ in PROPERTIES:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 build.py',
        'checks': [c for _, c in PROPERTIES],
        'not_applicable': [],
        'notes': 'All checks are property-based tests on a common engine (pbt/); run.py builds from /repo, runs, replays and writes evidence.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    sys.exit(main())
