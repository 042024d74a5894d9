"""Reversible romanization of Arabic-script text."""

import abjad
import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['abjad_alphabet/reversible_roman.py', 'abjad_alphabet/__init__.py', 'abjad_alphabet/nfc.py', 'abjad_alphabet/util.py', 'utils/rule.py',
         'utils/char.py', 'utils/rewrite.py', 'utils/file.py', 'utils/far.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME


def _pair(utf8):
  u = '_utf8' * utf8
  return [real.grammar('abjad_alphabet:reversible_roman' + u, k, utf8) for k in ('FROM_ARAB', 'TO_ARAB')]


def both(utf8):
  def fn(out):
    f, t = _pair(utf8)
    n = 'utf8' if utf8 else 'byte'
    nfc = abjad.nfc()
    sp = (nfc @ abjad.romanization()).trim().minpair()
    dom = sp.dom().min()
    out.equals('FROM_ARAB[%s]' % n, f, sp, dom)
    ok, w = rrv.functional(t.rel)
    out.check('TO_ARAB[%s]: one output at most' % n, ok, w, lambda w: {
        'input': rrv.show(w[0]), 'expected': 'one output', 'got': t.rel.apply(rrv.show(w[0]))})
    trip = (f.rel @ t.rel).trim()

    def lossy(w):
      x = rrv.show(w[0] if isinstance(w, tuple) else w)
      r = f.apply(x)
      b = r if r is None else t.apply(r)
      want = nfc.apply(x)
      return {'input': x, 'expected': want, 'got': b, 'detail': 'romanized as %r' % r, 'replayed': b not in want}
    ok, w = rrv.agree(trip, nfc)
    out.check('FROM_ARAB, TO_ARAB [%s]: romanization is read back as the NFC of the text' % n, ok, w, lossy)
    ok, w = rrv.included(f.rel, trip)
    out.check('FROM_ARAB, TO_ARAB [%s]: every romanization can be read back' % n, ok, w, lossy)
    # Every single letter of the table is in the domain.
    lets = {c for a, _ in data.rules(abjad.PKG, 'reversible_roman') for c in a}
    ok, w = rrv.included((spec.over(lets) @ nfc).trim(), f.rel)
    out.check('FROM_ARAB[%s]: every text of romanizable letters has an output' % n, ok, w,
              lambda w: {'input': rrv.show(w), 'expected': 'an output', 'got': f.apply(rrv.show(w)),
                         'replayed': f.apply(rrv.show(w)) is None})
  return fn


def _wrapper():
  from nisaba.scripts import abjad_alphabet as m
  return real.wrapped('ToReversibleRoman()', m.ToReversibleRoman())


def api(out):
  g = _wrapper()
  f, t = _pair(False)
  out.total('ToReversibleRoman(): every text has an output', g, rrv.ustar())
  dom = f.rel.dom().min()
  chars = {c for a, b in data.rules(abjad.PKG, 'reversible_roman') for c in a} | abjad.sigma() | common.named(['ARABIC'])
  trip = (dom @ g.rel @ t.rel).trim()

  def differs(w):
    x = rrv.show(w[0])
    r = g.apply(x)
    return {'input': x, 'got': r, 'detail': 'read back as %r' % t.apply(r), 'expected': f.apply(x)}
  for c in common.classes(chars):
    h = common.projection(chars, c)
    ok, w = rrv.agree((trip @ h).trim(), h)
    out.check('ToReversibleRoman(): any output for romanizable text is read back as canonically equivalent text '
              '(combining class %d)' % c, ok, w, differs)
  ok, w = rrv.included(dom, trip)
  out.check('ToReversibleRoman(): for romanizable text some output can be read back', ok, w,
            lambda w: differs((w,)))
  used = {c for n in ('reversible_roman', 'nfc') for a, _ in data.rules(abjad.PKG, n) for c in a}
  plain = rrv.ustar().minus(rrv.ustar() + rrv.strings(sorted(used)) + rrv.ustar()).min()
  ok, w = rrv.agree((plain @ g.rel).trim(), plain)
  out.check('ToReversibleRoman(): text without romanizable characters is unchanged', ok, w, differs)


def tasks(tier):
  abjad.api()
  return [Task('roman[%d]' % u, both(u)) for u in (False, True)] + [Task('roman[API]', api, mem=3)]
