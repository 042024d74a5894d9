"""Reading normalization of abjads and alphabets."""

import abjad
import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['abjad_alphabet/reading_norm.py', 'abjad_alphabet/reading_norm_utf8.py', 'abjad_alphabet/util.py',
         'utils/rule.py', 'utils/char.py', 'utils/rewrite.py', 'utils/file.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME


def one(lang, utf8):
  def fn(out):
    g = real.grammar('abjad_alphabet:reading_norm' + '_utf8' * utf8, lang.upper(), utf8)
    n = 'reading_norm[%s,%s]' % (lang, 'utf8' if utf8 else 'byte')
    out.equals(n, g, abjad.reading(lang), spec.over(abjad.sigma()))
    rules = data.rules(abjad.PKG + '/' + lang, 'reading_norm')
    lets = {c for a, b in rules for c in a + b}
    erase = spec.machine('', lambda s, c: ('', '' if c in lets else c), lambda s: '', lets)
    ok, w = rrv.agree((g.rel @ erase).trim(), erase)
    out.check(n + ': characters of no rule stay, in order', ok, w, lambda w: {
        'input': rrv.show(w[0]), 'got': g.apply(rrv.show(w[0])), 'expected': 'all other characters kept'})
  return fn


def tasks(tier):
  return [Task('reading_norm[%s,%d]' % (l, u), one(l, u)) for l in abjad.LANGS for u in (False, True)]
