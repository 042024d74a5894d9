"""The UTF-8 grammars give what the byte grammars give."""

import abjad
import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['brahmic/nfc.py', 'brahmic/visual_norm.py', 'brahmic/reading_norm.py', 'brahmic/wellformed.py', 'brahmic/iso.py',
         'brahmic/fixed.py', 'brahmic/sigma.py', 'brahmic/util.py', 'abjad_alphabet/nfc.py',
         'abjad_alphabet/reading_norm.py', 'abjad_alphabet/reversible_roman.py', 'abjad_alphabet/visual_norm.py',
         'abjad_alphabet/util.py', 'utils/file.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME
FARS = set()


def pair(far, key, sigma, weighted=False, suffix=''):
  """sigma: the alphabet of the UTF-8 grammar; None: its domain is compared as it is."""
  FARS.update((far + suffix, far + '_utf8' + suffix))

  def fn(out):
    b = real.grammar(far + suffix, key)
    u = real.grammar(far + '_utf8' + suffix, key, True)
    n = '%s[%s]' % (far, key)
    rb, ru = b.rel, u.rel
    if weighted:
      rb, ru = (r.minpair().best() for r in (rb, ru))
      out.check(n + ': the cheapest outputs are unique', rb[1] == ru[1] == 0, (rb[2], ru[2]))
      rb, ru = rb[0].minpair(), ru[0].minpair()

    def differs(w):
      t = rrv.show(w[0] if isinstance(w, tuple) else w)
      x, y = b.apply(t), u.apply(t)
      return {'input': t, 'expected': 'byte: %r' % x, 'got': 'utf8: %r' % y, 'replayed': x != y}
    ok, w = rrv.agree(rb, ru)
    out.check(n + ': the outputs agree', ok, w, differs)
    ok, w = rrv.included(ru, rb)
    out.check(n + ': what the UTF-8 grammar takes, the byte grammar takes', ok, w, differs)
    if sigma is not None:
      rb = (spec.over(sigma()) @ rb).trim()
    ok, w = rrv.included(rb, ru)
    out.check(n + ': what the byte grammar takes over the alphabet, the UTF-8 grammar takes', ok, w, differs)
  return fn


def tasks(tier):
  ts = []
  for s in data.SCRIPTS:
    sg = lambda s=s: data.sigma(s)
    for f in ('nfc', 'visual_norm'):
      ts.append(Task('%s[%s]' % (f, s), pair('brahmic:' + f, s.upper(), sg)))
    ts.append(Task('wellformed[%s]' % s, pair('brahmic:wellformed', s.upper(), None)))
    for d in ('FROM_', 'TO_'):
      ts.append(Task('iso[%s%s]' % (d, s), pair('brahmic:iso', d + s.upper(), None, True), mem=2, first=True))
  every = lambda: set().union(*map(data.sigma, data.SCRIPTS))
  ts.append(Task('nfc[all]', pair('brahmic:nfc', 'BRAHMIC', every)))
  for k, s in (('AS', 'Beng'), ('BN', 'Beng')):
    ts.append(Task('visual_norm[%s]' % k, pair('brahmic:visual_norm', k, lambda s=s: data.sigma(s))))
  for k, s in (('BENG', 'Beng'), ('HI', 'Deva'), ('LEPC', 'Lepc'), ('MLYM', 'Mlym')):
    ts.append(Task('reading_norm[%s]' % k, pair('brahmic:reading_norm', k, lambda s=s: data.sigma(s))))
  ts.append(Task('fixed[Mlym]', pair('brahmic:fixed', 'MLYM', None, True), mem=3, first=True))
  for f, k in (('nfc', 'ARAB'), ('reversible_roman', 'FROM_ARAB'), ('reversible_roman', 'TO_ARAB')):
    ts.append(Task('%s[%s]' % (f, k), pair('abjad_alphabet:' + f, k, None)))
  for l in abjad.LANGS:
    ts.append(Task('abjad reading_norm[%s]' % l, pair('abjad_alphabet:reading_norm', l.upper(), None)))
    ts.append(Task('abjad visual_norm[%s]' % l, pair('abjad_alphabet:visual_norm', l.upper(), None, suffix='.Arab.' + l),
                   mem=4, first=True))
  real.prebuild(sorted(FARS))
  return ts
