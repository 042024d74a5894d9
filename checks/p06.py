"""Brahmic reading normalization."""

import brahmic
import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['brahmic/reading_norm.py', 'utils/rule.py', 'brahmic/util.py', 'brahmic/sigma.py', 'brahmic/char_util.py',
         'utils/char.py', 'utils/rewrite.py', 'utils/file.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME
NORMS = (('BENG', 'Beng', ''), ('HI', 'Deva', 'hi'), ('LEPC', 'Lepc', ''), ('MLYM', 'Mlym', ''))


def one(key, script, lang, utf8):
  def fn(out):
    parts = []
    for pkg in ['brahmic/data/' + script] + ['brahmic/data/%s/%s' % (script, lang)] * bool(lang):
      if data.has(pkg, 'reading_norm'):
        parts.append(spec.cascade(spec.layers(data.rules(pkg, 'reading_norm'))))
    sp = brahmic.compose(parts)
    g = real.grammar('brahmic:reading_norm' + '_utf8' * utf8, key, utf8)
    n = 'reading_norm[%s,%s]' % (key, 'utf8' if utf8 else 'byte')
    if utf8:
      out.equals(n, g, sp, spec.over(data.sigma(script)))
    else:
      out.equals(n, g, sp, rrv.ustar(), only=False)
    # Without any table: what no rule mentions stays.
    lets = {c for pkg in ['brahmic/data/' + script] + ['brahmic/data/%s/%s' % (script, lang)] * bool(lang)
            if data.has(pkg, 'reading_norm') for a, b in data.rules(pkg, 'reading_norm') for c in a + b}
    erase = spec.machine('', lambda s, c: ('', '' if c in lets else c), lambda s: '', lets)
    ok, w = rrv.agree((g.rel @ erase).trim(), erase)
    out.check(n + ': characters of no rule stay, in order', ok, w, lambda w: {
        'input': rrv.show(w[0]), 'got': g.apply(rrv.show(w[0])), 'expected': 'all other characters kept'})
    if key != 'MLYM':
      common.idempotent(out, n, g)
  return fn


def tasks(tier):
  return [Task('reading_norm[%s,%s]' % (k, 'utf8' if u else 'byte'), one(k, s, l, u))
          for k, s, l in NORMS for u in (False, True)]
