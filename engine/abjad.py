"""Specifications of the abjad / alphabet grammars, from documentation and tables."""

import functools
import string

import data
import rrv
import spec

PKG = 'abjad_alphabet/data/Arab'
LANGS = 'ar azb bal ckb fa ks ms pa prs ps sd ug ur uz'.split()


@functools.lru_cache(None)
def sigma():
  files = [(PKG, n) for n in ('nfc', 'presentation_forms', 'reversible_roman')]
  files += [(PKG + '/' + l, n) for l in LANGS for n in (
      'reading_norm', 'visual_norm', 'visual_norm_final_isolated', 'visual_norm_isolated',
      'visual_norm_nonfinal')]
  return frozenset(data.chars(both=files) | set(string.printable) - set('[]') | set(data.JOINERS))


def unordered(pkg, name):
  return spec.cascade(spec.layers(data.rules(pkg, name)), sigma())


def nfc():
  return unordered(PKG, 'nfc')


def reading(lang):
  return unordered(PKG + '/' + lang, 'reading_norm')


def visual_parts(lang):
  p = PKG + '/' + lang
  sg = sigma()
  fin = data.maps(p, 'visual_norm_final_isolated')
  iso = data.maps(p, 'visual_norm_isolated')
  return [
      unordered(PKG, 'presentation_forms'), unordered(PKG, 'nfc'), unordered(PKG, 'visual_norm'),
      unordered(p, 'visual_norm'),
      spec.rewrite(data.maps(p, 'visual_norm_nonfinal'), right=spec.ANY, sigma=sg),
      spec.rewrite(fin, left=spec.ANY, right=spec.EDGE, sigma=sg),
      spec.rewrite(fin + iso, left=spec.EDGE, right=spec.EDGE, sigma=sg)]


def romanization():
  """Letter by letter (or by declared sequence), in any way."""
  return rrv.pairs(data.maps(PKG, 'reversible_roman')).star()


def compose(parts):
  t = parts[0]
  for p in parts[1:]:
    t = (t @ p).trim().minpair()
  return t


def api():
  """The Python API, without the archive of all visual normalizers (1.5 GB)."""
  import real
  a = '//nisaba/scripts/abjad_alphabet:'
  real.api([a + 'py_api'], skip=[a + 'visual_norm.far'])
