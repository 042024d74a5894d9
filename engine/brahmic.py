"""Specifications of the Brahmic grammars, from their documentation and declared tables."""

import functools
import unicodedata

import data
import rrv
import spec

JOIN = data.JOINERS


def nfc(script, sg=None):
  return spec.cascade(spec.layers(data.rules(*data.brahmic(script, 'nfc'))), sg)


def marks(script):
  return {c for c in data.script_chars(script) if unicodedata.category(c) == 'Mn'} | set(JOIN)


def consonants(script):
  return set(data.lhs(*data.brahmic(script, 'consonant')))


def joiners(script, sg=None):
  """Joiners go, except in the declared sequences between two consonants."""
  keep = data.lhs(*data.brahmic(script, 'preserve'))
  cons = consonants(script)
  return spec.keep_between(keep, cons, JOIN, sg)


def visual_parts(script, sg=None):
  return [nfc(script, sg), spec.dedup(marks(script), sg),
          spec.cascade(spec.layers(data.rules(*data.brahmic(script, 'visual_rewrite'))), sg),
          joiners(script, sg)]


def lang_parts(script, lang, sg=None):
  cons = consonants(script)
  pkg = 'brahmic/data/%s/%s' % (script, lang)
  return [spec.rewrite(data.maps(pkg, 'before_consonant'), right=cons, sigma=sg),
          spec.rewrite(data.maps(pkg, 'after_consonant'), left=cons, sigma=sg)]


def compose(parts):
  t = parts[0]
  for p in parts[1:]:
    t = (t @ p).trim().minpair()
  return t


# --- Well-formedness ---


def _lang(script, *names):
  items = [a for n in names if data.has(*data.brahmic(script, n)) for a in data.lhs(*data.brahmic(script, n))]
  return rrv.strings(items) if items else rrv.empty()


def needs_vowel(script):
  """Whether the script has no inherent vowel, by its declared configuration."""
  import os
  p = '%s/nisaba/scripts/brahmic/data/%s/script_config.textproto' % (data.REPO, script)
  if not os.path.exists(p):
    return False
  with open(p, encoding='utf8') as f:
    return ('no_inherent_vowel', 'true') in data.textproto(f.read())


def wellformed(script):
  """The aksharas of a script, one after another.

  A text is cut into: vowel letters or consonant clusters with their signs; clusters
  that end in a virama; stand-alone letters; and declared exceptions."""
  g = lambda *n: _lang(script, *n)
  letter = g('consonant') + g('subjoined_consonant').ques()
  cluster = (letter + g('virama', 'preserve')).star() + letter
  sign = g('vowel_sign') if needs_vowel(script) else g('vowel_sign').ques()
  body = (g('vowel') | (cluster + sign)) + g('vowel_length_sign').ques() + g('coda').ques()
  killed = cluster + g('virama')
  unit = ((body | killed) + g('dead_consonant').ques()) | g('standalone') | g('accept')
  return unit.star().min()


# --- ISO 15919 ---


def weight(w):
  return rrv.make(1, 0, [], {0: w})


def _map(script, *names):
  return rrv.pairs(data.maps(*data.brahmic(script, *names))) if data.has(*data.brahmic(script, *names)) else rrv.empty()


def romanization(script):
  """Native text to ISO, as a weighted relation: of its readings the cheapest counts.

  A syllable with its sign is free, every other unit costs 1, and a stray virama 2."""
  m = lambda n: _map(script, n)
  ins, dele = (lambda s: rrv.cross('', s)), (lambda s: rrv.cross(s, ''))
  vow = m('vowel')
  letter = m('consonant') + m('subjoined_consonant').ques()
  inherent = rrv.union(*[ins(x) for x in data.lhs(*data.brahmic(script, 'inherent_vowel'))])
  kill = rrv.union(*[dele(x) for x in data.lhs(*data.brahmic(script, 'virama'))])
  stray = rrv.union(*[rrv.cross(x, '˘') for x in data.lhs(*data.brahmic(script, 'virama'))])
  dot = ins('.') + vow
  one = weight(1)
  syllable = letter + (m('vowel_sign') | inherent | kill)
  free = [letter + m('vowel_sign'), syllable + dot.plus(), m('dead_consonant'), m('vowel_length_sign'),
          rrv.pairs(data.maps('brahmic/data', 'symbol'))]
  cheap = [letter + (inherent | kill), vow + dot.star(), m('coda'), m('standalone'),
           ins('-') + m('vowel_sign') + dot.star()]
  return rrv.union(*free, *[x + one for x in cheap], stray + weight(2)).star().minpair()
