"""The multi-script romanizer."""

import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['brahmic/iso.py', 'brahmic/util.py', 'utils/rewrite.py', 'utils/file.py', 'brahmic/__init__.py',
         'utils/far.py', 'brahmic/sigma.py', 'brahmic/char_util.py', 'utils/char.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME + [
    'in the scripts with letters of more than one character (%s), the per-script output may tie with one that '
    'leaves a native character in place; that Pynini then takes the former is tested, not proved']
# A letter with a following sign (nukta, subjoined letter) may also be read alone.
TIED = ('Beng', 'Guru', 'Knda', 'Lepc', 'Limb', 'Orya', 'Takr', 'Taml', 'Telu', 'Tirh')
ASSUMPTIONS[-1] %= ' '.join(TIED)


# Known findings: readings that leave a sign behind are cheaper. (script, text)
FOUND = (('Beng', '\u0989\u09be\u09bc'), ('Lepc', '\u1c23\u1c24'))


def native(scripts=data.SCRIPTS):
  own = common.named([common.BLOCK[s] for s in scripts])
  return own & set().union(*map(data.script_chars, scripts))


def every_char():
  return set().union(*map(data.script_chars, data.SCRIPTS)) | set(data.JOINERS)


def _grammar(utf8):
  if utf8:
    return real.grammar('brahmic:iso_utf8', 'FROM_BRAHMIC', True)
  from nisaba.scripts import brahmic as m
  return real.wrapped('ToIso()', m.ToIso())


def _best(r):
  b, ties, w = r.minpair().best(4000000)
  return b.minpair(), ties, w


def one(script, utf8):
  def fn(out):
    g = _grammar(utf8)
    n = '%s[%s]' % ('FROM_BRAHMIC_utf8' if utf8 else 'ToIso()', script)
    f = real.grammar('brahmic:iso' + '_utf8' * utf8, 'FROM_' + script.upper(), utf8)
    bf, ties, _ = _best(f.rel)
    if ties:
      raise RuntimeError('FROM_%s is ambiguous' % script)
    r = (f.rel.dom().min() @ g.rel).trim()

    def differs(w):
      t = rrv.show(w[0] if isinstance(w, tuple) else w)
      got, exp = g.apply(t), f.apply(t)
      return {'input': t, 'expected': exp, 'got': got, 'replayed': got != exp}
    if script in TIED:
      r = (r @ rrv.ustar().minus(rrv.ustar() + rrv.strings(sorted(native())) + rrv.ustar())).trim()
      n += ', among romanizations without native characters'
    bb, ties, w = _best(r)
    out.check(n + ': the cheapest one is unique', ties == 0, w, lambda w: differs(w[0]))
    ok, w = rrv.included(bf, bb)
    out.check(n + ': one exists', ok, w, differs)
    ok, w = rrv.agree(bf, bb)
    out.check(n + ': it is that of the script', ok, w, differs)
  return fn


def rest(utf8):
  def fn(out):
    """Text without native characters, and the domain as a whole."""
    g = _grammar(utf8)
    n = 'FROM_BRAHMIC_utf8' if utf8 else 'ToIso()'
    if utf8:
      iso = {chr(a) for a in real.grammar('brahmic:iso_utf8', 'FROM_BRAHMIC', False).rel.labels()}
      iso = sorted(iso - every_char())
      plain = spec.over(iso)
      every = spec.over(set(iso) | every_char())
    else:
      plain = rrv.ustar().minus(rrv.ustar() + rrv.strings(sorted(every_char())) + rrv.ustar()).min()
      every = rrv.ustar()
    r = (plain @ g.rel).trim()

    def changed(w):
      t = rrv.show(w[0])
      got = g.apply(t)
      return {'input': t, 'expected': t, 'got': got, 'replayed': got != t}
    ok, w = rrv.agree(r, plain)
    out.check(n + ': text without Brahmic characters is unchanged', ok, w, changed)
    out.total(n + ': every text has an output', g, every)
    if not utf8:
      # Tie-breaking on the real code, for what the assumption is about.
      import itertools
      cases = 0
      for s in TIED:
        f = real.grammar('brahmic:iso', 'FROM_' + s.upper())
        units = sorted({a for t in ('consonant', 'subjoined_consonant', 'vowel_sign', 'vowel', 'virama', 'coda')
                        if data.has(*data.brahmic(s, t)) for a in data.lhs(*data.brahmic(s, t))} )
        for a, b in itertools.product(units, repeat=2):
          t = a + b
          exp = f.apply(t)
          if exp is None or (s, t) in FOUND or (s, b) in FOUND:
            continue
          cases += 1
          got = g.apply(t)
          if got != exp:
            out.bad(n + ': pairs of letters: ' + t, input=t, expected=exp, got=got, replayed=True)
      for s, t in (FOUND[0], ('Lepc', '\u1c00' + FOUND[1][1])):
        got, exp = g.apply(t), real.grammar('brahmic:iso', 'FROM_' + s.upper()).apply(t)
        name = n + ': a vowel before a sign of two characters'
        out.check('%s (%s)' % (name, s), got == exp, backend='execution', replay=lambda w: {
            'input': t, 'expected': exp, 'got': got, 'replayed': True})
      out.bounded(n + ': pairs of letters of the tied scripts', cases, 'two units')
  return fn


def tasks(tier):
  real.api('//nisaba/scripts/brahmic:py')
  big = ('Deva', 'Knda', 'Sinh', 'Mlym', 'Beng', 'Tirh')
  return [Task('multi[%s,%d]' % (s, u), one(s, u), mem=3 if s in big else 1, first=s in big)
          for s in data.SCRIPTS for u in (False, True)] + [Task('rest[%d]' % u, rest(u), mem=2, first=True) for u in (False, True)]
