"""Visual normalization of abjads and alphabets."""

import abjad
import common
import real
import spec
from run import Task

FILES = ['abjad_alphabet/visual_norm.py', 'abjad_alphabet/visual_norm_common.py', 'abjad_alphabet/util.py',
         'utils/rule.py', 'utils/char.py', 'utils/rewrite.py', 'utils/file.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME


def one(lang, utf8):
  def fn(out):
    g = real.grammar('abjad_alphabet:visual_norm%s.Arab.%s' % ('_utf8' * utf8, lang), lang.upper(), utf8)
    n = 'visual_norm[%s,%s]' % (lang, 'utf8' if utf8 else 'byte')
    out.equals(n, g, abjad.compose(abjad.visual_parts(lang)), spec.over(abjad.sigma()))
  return fn


def tasks(tier):
  big = ('ur', 'ks', 'sd', 'pa', 'bal', 'ug', 'ckb')
  real.prebuild(['abjad_alphabet:visual_norm%s.Arab.%s' % (u, l) for l in abjad.LANGS for u in ('', '_utf8')])
  return [Task('visual_norm[%s,%d]' % (l, u), one(l, u), mem=3, first=l in big) for l in abjad.LANGS for u in (False, True)]
