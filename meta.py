#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
B = 'nisaba/scripts/brahmic/'
A = 'nisaba/scripts/abjad_alphabet/'
U = 'nisaba/scripts/utils/'
N = 'nisaba/scripts/natural_translit/'

PROPS = []
CHECKS = {}
NA = []
REL = ('contract-based deductive verification: postconditions on the grammar-building functions as relations between '
       'input and output text, discharged for all texts by decision procedures on rational relations (rrv)')
RNOTE = ('every obligation is about all texts of any length; the contracts are on the transducers that the functions of /repo '
         'build on this run; trusted: rrv, OpenFst composition and shortest path, the build stand-in')


def prop(pid, title, statement, text, why, files, mech, over=('inputs',), state=None, observe=None):
  p = {'id': pid, 'title': title, 'statement': statement,
       'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
       'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
  if state:
    p['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
  if observe:
    p['anchors']['observe_at'] = list(observe)
  assert len(title) <= 80, pid
  PROPS.append(p)


def check(pid, technique=REL, level='proof', note=RNOTE, theorems=None):
  c = {'property': pid, 'quick_cmd': './check.py %s --tier quick' % pid,
       'thorough_cmd': './check.py %s --tier thorough' % pid,
       'evidence_file': 'evidence/%s.json' % pid, 'technique': technique, 'level': level, 'level_note': note}
  if theorems:
    c['theorems'] = theorems
  CHECKS[pid] = c


exec(open(HERE + '/meta_entries.py', encoding='utf8').read())  # pylint: disable=exec-used

with open(HERE + '/properties.jsonl', 'w', encoding='utf8') as f:
  for p in sorted(PROPS, key=lambda p: p['id']):
    f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [CHECKS[k] for k in sorted(CHECKS)],
     'not_applicable': NA}
with open(HERE + '/MANIFEST.json', 'w', encoding='utf8') as f:
  json.dump(m, f, indent=1, ensure_ascii=False)
  f.write('\n')
