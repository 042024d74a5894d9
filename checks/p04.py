"""ISO 15919 romanization of one script, and back."""

import brahmic
import common
import data
import real
import rrv
from run import Task

FILES = ['brahmic/iso.py', 'brahmic/nfc.py', 'utils/rule.py', 'brahmic/util.py', 'utils/rewrite.py', 'utils/file.py',
         'brahmic/__init__.py', 'utils/far.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME + [
    'the arc weights of the romanizers are small integers, so that path weights are exact in single precision']


def _unique(out, name, g):
  """The cheapest output as a function; an obligation that it is unique."""
  f, n, ties = g.rel.minpair().best()

  def replay(w):
    t = rrv.show(w[0])
    return {'input': t, 'expected': 'one cheapest output', 'got': g.apply(t),
            'detail': '%d ties' % n}
  out.check(name + ': the cheapest output is unique', n == 0, ties, replay)
  return f.minpair()


def one(script, utf8):
  def fn(out):
    u = '_utf8' * utf8
    k = script.upper()
    n = '%s,%s' % (script, 'utf8' if utf8 else 'byte')
    f = real.grammar('brahmic:iso' + u, 'FROM_' + k, utf8)
    nfc = brahmic.nfc(script)
    bf = _unique(out, 'FROM[%s]' % n, f)
    table = brahmic.romanization(script)
    want = (nfc @ table).trim().minpair()
    ok, w = rrv.included(want, bf)
    out.check('FROM[%s]: every text of letters, signs and marks has an output' % n, ok, w,
              lambda w: {'input': rrv.show(w), 'expected': 'an output', 'got': f.apply(rrv.show(w)),
                         'replayed': f.apply(rrv.show(w)) is None})
    ok, w = rrv.included(bf, want)
    out.check('FROM[%s]: no other text has one' % n, ok, w,
              lambda w: {'input': rrv.show(w), 'expected': 'no output', 'got': f.apply(rrv.show(w)),
                         'replayed': f.apply(rrv.show(w)) is not None})
    wb, ties, _ = want.best()
    if ties:
      raise RuntimeError('ambiguous specification')

    def differs(w):
      t = rrv.show(w[0])
      got, exp = f.apply(t), wb.apply(t)
      return {'input': t, 'expected': exp, 'got': got, 'replayed': got not in exp}
    ok, w = rrv.agree(bf, wb.minpair())
    out.check('FROM[%s]: the output is the specified romanization' % n, ok, w, differs)
    b = real.grammar('brahmic:iso' + u, 'TO_' + k, utf8)
    bt = _unique(out, 'TO[%s]' % n, b)
    trip = (bf @ bt).trim()

    def lossy(w):
      t = rrv.show(w[0] if isinstance(w, tuple) else w)
      iso = f.apply(t)
      got = iso if iso is None else b.apply(iso)
      exp = nfc.apply(t)
      return {'input': t, 'expected': exp, 'got': got, 'detail': 'romanized as %r' % iso,
              'replayed': got not in exp}
    ok, w = rrv.included(bf, trip)
    out.check('FROM[%s], TO: every romanization can be read back' % n, ok, w, lossy)
    ok, w = rrv.agree(trip, nfc)
    out.check('FROM[%s], TO: it is read back as the NFC of the text' % n, ok, w, lossy)
  return fn


def api(out):
  """IsoTo(script) is TO_SCRIPT of the byte archive, as proved above."""
  from nisaba.scripts import brahmic as m
  for s in data.SCRIPTS:
    g = real.wrapped('IsoTo', m.IsoTo(s)).fst
    h = real.grammar('brahmic:iso', 'TO_' + s.upper()).fst
    out.check('IsoTo(%s) is the archived transducer' % s, g.write_to_string() == h.write_to_string())


def tasks(tier):
  real.api('//nisaba/scripts/brahmic:py')
  big = ('Deva', 'Knda', 'Sinh', 'Mlym', 'Beng', 'Tirh')
  ts = [Task('iso[%s,byte]' % s, one(s, False), mem=3 if s in big else 1, first=s in big) for s in data.SCRIPTS]
  ts += [Task('iso[%s,utf8]' % s, one(s, True), mem=3 if s in big else 1, first=s in big) for s in data.SCRIPTS]
  return ts + [Task('iso[API]', api)]
