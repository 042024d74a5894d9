"""Brahmic visual normalization."""

import brahmic
import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['brahmic/visual_norm.py', 'utils/rule.py', 'brahmic/util.py', 'brahmic/sigma.py', 'brahmic/char_util.py', 'utils/char.py', 'utils/rewrite.py', 'utils/file.py', 'brahmic/__init__.py', 'utils/far.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME
LANGS = (('Beng', 'as'), ('Beng', 'bn'))


def one(script, lang, utf8):
  def fn(out):
    parts = brahmic.visual_parts(script)
    if lang:
      parts += brahmic.lang_parts(script, lang)
    sp = brahmic.compose(parts)
    key = (lang or script).upper()
    if utf8:
      g = real.grammar('brahmic:visual_norm_utf8', key, True)
      out.equals('visual_norm[%s,utf8]' % key, g, sp, spec.over(data.sigma(script)))
    else:
      real.api('//nisaba/scripts/brahmic:py')
      from nisaba.scripts import brahmic as api
      n = 'VisualNorm(%s)' % key
      out.equals(n, real.wrapped(n, api.VisualNorm(lang or script)), sp, rrv.ustar(), only=False)
  return fn


def tasks(tier):
  real.api('//nisaba/scripts/brahmic:py')
  big = ('Deva', 'Beng', 'Mlym', 'Sinh', 'Telu')
  return [Task('visual_norm[%s%s,%s]' % (s, l, 'utf8' if u else 'byte'), one(s, l, u), first=s in big)
          for s, l in [(s, '') for s in data.SCRIPTS] + list(LANGS) for u in (False, True)]
