"""The well-formedness acceptor."""

import unicodedata

import brahmic
import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['brahmic/wellformed.py', 'brahmic/util.py', 'utils/file.py', 'utils/far.py', 'brahmic/__init__.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME


def one(script):
  def fn(out):
    sp = brahmic.wellformed(script)
    real.api('//nisaba/scripts/brahmic:py')
    from nisaba.scripts import brahmic as api
    n = 'WellFormed(%s)' % script
    obj = api.WellFormed(script)
    g = real.wrapped(n, obj)
    h = real.grammar('brahmic:wellformed_utf8', script.upper(), True)
    for n, g in ((n, g), ('wellformed[%s,utf8]' % script, h)):
      accepts = (lambda t: obj.AcceptText(t)) if not g.utf8 else (lambda t, g=g: g.apply(t) is not None)

      def replay(w, want, accepts=accepts):
        t = rrv.show(w)
        got = accepts(t)
        return {'input': t, 'expected': 'accepted: %s' % want, 'got': got, 'replayed': got != want}
      ok, w = rrv.included(sp, g.rel)
      out.check(n + ': every sequence of aksharas is accepted', ok, w, lambda w: replay(w, True))
      ok, w = rrv.included(g.rel, sp)
      out.check(n + ': nothing else is accepted', ok, w, lambda w: replay(w, False))
      ok, w = rrv.agree(g.rel, spec.over())
      out.check(n + ': it is an acceptor', ok, w, lambda w: {'input': rrv.show(w[0])})
      # Facts that need no table.
      u = rrv.ustar()
      chars = [c for c in common._assigned()]
      vowel = rrv.strings([c for c in chars if 'VOWEL SIGN' in unicodedata.name(c, '')])
      virama = rrv.strings([c for c in chars if any(
          x in unicodedata.name(c, '') for x in ('VIRAMA', 'SIGN AL-LAKUNA'))])
      mark = rrv.strings([c for c in chars if unicodedata.category(c) in ('Mn', 'Mc')])
      facts = [('no two viramas in a row', u + virama + virama + u)]
      if script != 'Mlym':
        facts += [('no vowel sign after a virama', u + virama + vowel + u)]
        if script != 'Mtei':
          facts += [('no two vowel signs in a row', u + vowel + vowel + u),
                    ('no mark at the start', mark + u)]
      for what, bad in facts:
        out.empty('%s: %s' % (n, what), (g.rel @ bad).trim(), lambda w: replay(w[0], False))
  return fn


def tasks(tier):
  real.api('//nisaba/scripts/brahmic:py')
  return [Task('wellformed[%s]' % s, one(s)) for s in data.SCRIPTS]
