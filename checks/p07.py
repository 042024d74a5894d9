"""Fixed-rule romanization (Mozhi for Malayalam) to native text."""

import string

import brahmic
import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['brahmic/fixed.py', 'brahmic/iso.py', 'utils/rule.py', 'brahmic/util.py', 'utils/char.py', 'utils/rewrite.py',
         'utils/file.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME
ASCII = set(string.printable) - set('[]')


def to_iso(script):
  """The declared rules, each over the whole text, in the declared order."""
  rules = data.rules(*data.brahmic(script, 'fixed'))
  sg = data.chars(both=[data.brahmic(script, 'fixed')]) | ASCII | set(data.JOINERS)
  t = spec.over(ASCII)
  for r in rules:
    t = (t @ spec.rewrite([r], sigma=sg)).trim().minpair()
  return t


def one(script, utf8):
  def fn(out):
    g = real.grammar('brahmic:fixed' + '_utf8' * utf8, script.upper(), utf8)
    to = real.grammar('brahmic:iso' + '_utf8' * utf8, 'TO_' + script.upper(), utf8)
    n = 'fixed[%s,%s]' % (script, 'utf8' if utf8 else 'byte')
    iso = to_iso(script)
    ok, w = rrv.agree(iso, iso)
    if not ok:
      raise RuntimeError('ambiguous specification')
    want, ties, _ = (iso @ to.rel).trim().minpair().best()
    if ties:
      raise RuntimeError('ambiguous specification')
    got, ties, tw = g.rel.minpair().best()
    out.check(n + ': the cheapest output is unique', ties == 0, tw, lambda w: {'detail': repr(w)[:500]})

    def differs(w):
      t = rrv.show(w[0] if isinstance(w, tuple) else w)
      a, b = g.apply(t), want.apply(t)
      return {'input': t, 'expected': b, 'got': a, 'replayed': (a not in b) if a is not None else bool(b)}
    ok, w = rrv.included(want, got)
    out.check(n + ': every ASCII text that spells one has an output', ok, w, differs)
    ok, w = rrv.included(got, want)
    out.check(n + ': no other text has one', ok, w, differs)
    ok, w = rrv.agree(got.minpair(), want.minpair())
    out.check(n + ': the output is what the spelled ISO text stands for', ok, w, differs)
    ok, w = rrv.included(g.rel, spec.over(ASCII))
    out.check(n + ': the input is ASCII', ok, w, differs)
  return fn


def tasks(tier):
  return [Task('fixed[Mlym,%s]' % ('utf8' if u else 'byte'), one('Mlym', u), mem=3) for u in (False, True)]
