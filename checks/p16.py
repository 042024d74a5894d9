"""English letters spelt out in South Asian languages."""

import os
import string
import unicodedata

import common
import real
import rrv
import spec
from run import Task

N = 'natural_translit/'
FILES = [N + f for f in ('brahmic/en_spellout.py', 'deromanization/en_spellout.py', 'utils/inventory.py', 'utils/fst_list.py',
                         'utils/type_op.py')]
TRUSTED, ASSUMPTIONS = common.TRUSTED, common.ASSUME
ZWNJ = '\u200c'


def names():
  """Names of the letters, from the table of the module."""
  with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'letters.tsv'), encoding='utf8') as f:
    head, *rows = [l.rstrip('\n').split('\t') for l in f]
  return {k: {r[0]: r[i] for r in rows} for i, k in enumerate(head) if i}


def speller(key, table):
  """Name by name; Arabic-script names have a space between them, and a final virama is kept apart by a non-joiner."""
  space = key.endswith('arab')
  apart = key.split('_')[1] in ('knda', 'mlym', 'telu')

  def step(s, c):
    n = table[c.lower()]
    pend = ' ' if space else ZWNJ if apart and unicodedata.combining(n[-1]) == 9 else ''
    return pend, s + n
  return spec.machine('', step, lambda s: '', set(string.ascii_letters), other=False)


def spellout(key, table):
  def fn(out):
    dom = spec.over(string.ascii_letters)
    for utf8 in (False, True):
      g = real.grammar(N + 'deromanization:en_spellout' + '_utf8' * utf8, key.upper(), utf8)
      out.equals('%s, %s: name by name' % (key, 'utf8' if utf8 else 'byte'), g, speller(key, table), dom)
  return fn


def tasks(tier):
  real.prebuild([N + 'deromanization:en_spellout', N + 'deromanization:en_spellout_utf8'])
  return [Task(k, spellout(k, t)) for k, t in names().items()]
