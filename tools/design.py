#!/usr/bin/env python3
"""Assembles DESIGN.md from design_head.md, one section per property (check modules, notes below, seeds) and design_tail.md."""
import importlib
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'analyzer')]
import meta
from design_notes import NOTES
from checks.common import BASE_EXPL
seeds = {}
for d in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    m = json.load(open(os.path.join(VERIF, 'seeded', d, 'meta.json')))
    seeds.setdefault(m['property'], []).append((d, m))


def section(p):
    i = p['id']
    out = ['### %s – %s' % (i, p['title']), '']
    if i in [x['property'] for x in meta_na()]:
        return out + ['Not applicable: ' + next(x['reason'] for x in meta_na() if x['property'] == i), '']
    m = importlib.import_module('checks.' + i.lower())
    e = m.EXPLANATION
    e = 'Value-graph comparison (section 2).' + e[len(BASE_EXPL):] if e.startswith(BASE_EXPL) else e
    out += ['*Decided by* (`analyzer/checks/%s.py`): %s' % (i.lower(), e), '', '*Rule*: %s.' % m.RULE.rstrip('.'), '']
    if getattr(m, 'ASSUMPTIONS', None):
        out += ['*Assumes*: ' + '; '.join(m.ASSUMPTIONS) + '.', '']
    if NOTES.get(i):
        out += ['*Bounds, cost, reach*: ' + NOTES[i], '']
    s = seeds.get(i, [])
    out += ['*Planted bugs caught by this check*: ' + (', '.join('`%s`' % d for d, _ in s) or 'none planted') + '.', '']
    return out


def meta_na():
    return json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['not_applicable']


body = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '', '## 5. Properties', '']
for p in [json.loads(x) for x in open(os.path.join(VERIF, 'properties.jsonl'))]:
    body += section(p)
body += ['## 6. Planted bugs', '', 'All were confirmed with `tools/seedtest.py`: the patch compiles, the 160 tests pass, the demonstration passes before and fails after, and the '
         'check of the property reports a violation.', '', '| bug | property | what it breaks | needs |', '|---|---|---|---|']
for i in sorted(seeds):
    for d, m in seeds[i]:
        f = lambda x: re.sub(r'\s+', ' ', x).replace('|', '\\|')
        body.append('| %s | %s | %s | %s |' % (d, i, f(m['what_it_breaks']), f(m['needs'])))
body += ['', open(os.path.join(HERE, 'design_tail.md')).read().rstrip(), '']
open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(body))
