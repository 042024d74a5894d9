"""Deromanization of Latin text, to ISO 15919 and to the native script."""

import string

import common
import real
import rrv
import spec
from run import Task

N = 'natural_translit/'
FILES = [N + f for f in (
    'brahmic/derom_inventory.py', 'brahmic/deromanizer.py', 'brahmic/grapheme_inventory.py', 'latin/ltn_inventory.py',
    'language_params/hi.py', 'language_params/ta.py', 'script/char.py', 'utils/alignment.py', 'utils/fst_list.py',
    'utils/inventory.py', 'utils/rewrite_functions.py', 'utils/type_op.py', 'deromanization/hi_deva.py',
    'deromanization/hi_iso.py', 'deromanization/ta_iso.py', 'deromanization/ta_taml.py')] + ['utils/rewrite.py']
TRUSTED, ASSUMPTIONS = common.TRUSTED, common.ASSUME

LOWER = string.ascii_lowercase
GRAMMARS = {('hi', 'iso'): 'hi_iso:ISO', ('hi', 'deva'): 'hi_deva:DEVA', ('ta', 'iso'): 'ta_iso:ISO', ('ta', 'taml'): 'ta_taml:TAML'}
# Letters of the native scripts: ISO, Devanagari, Tamil.
CONSONANTS = {c: (d, t) for c, d, t in (
    ('b', 'ब', ''), ('bʰ', 'भ', ''), ('c', 'च', 'ச'), ('cʰ', 'छ', ''), ('d', 'द', ''), ('dʰ', 'ध', ''), ('f', 'फ़', 'ஃப'),
    ('g', 'ग', ''), ('gʰ', 'घ', ''), ('h', 'ह', 'ஹ'), ('j', 'ज', 'ஜ'), ('jʰ', 'झ', ''), ('k', 'क', 'க'), ('kʰ', 'ख', ''),
    ('l', 'ल', 'ல'), ('ḻ', '', 'ழ'), ('m', 'म', 'ம'), ('n', 'न', 'ந'), ('p', 'प', 'ப'), ('pʰ', 'फ', ''), ('r', 'र', 'ர'),
    ('ṟ', '', 'ற'), ('s', 'स', 'ஸ'), ('ś', 'श', 'ஶ'), ('t', 'त', 'த'), ('tʰ', 'थ', ''), ('v', 'व', 'வ'), ('y', 'य', 'ய'),
    ('z', 'ज़', 'ஃஜ'))}
VOWELS = {c: (d, t) for c, d, t in (
    ('a', ('', 'अ'), ('', 'அ')), ('ā', ('ा', 'आ'), ('ா', 'ஆ')), ('e', ('ॆ', 'ऎ'), ('ெ', 'எ')), ('ē', ('े', 'ए'), ('ே', 'ஏ')),
    ('i', ('ि', 'इ'), ('ி', 'இ')), ('ī', ('ी', 'ई'), ('ீ', 'ஈ')), ('o', ('ॊ', 'ऒ'), ('ொ', 'ஒ')), ('ō', ('ो', 'ओ'), ('ோ', 'ஓ')),
    ('u', ('ु', 'उ'), ('ு', 'உ')), ('ū', ('ू', 'ऊ'), ('ூ', 'ஊ')), ('ai', ('ै', 'ऐ'), ('ை', 'ஐ')), ('au', ('ौ', 'औ'), ('ௌ', 'ஔ')))}
_pua = iter(map(chr, range(0xe000, 0xe100)))
C = {c: next(_pua) for c in CONSONANTS}
SIGN = {c: next(_pua) for c in VOWELS}
LETTER = {c: next(_pua) for c in VOWELS}
VIRAMA, ANUSVARA = next(_pua), next(_pua)
SIGMA = set(LOWER) | set(C.values()) | set(SIGN.values()) | set(LETTER.values()) | {VIRAMA, ANUSVARA}
CONS, LATIN_VOWEL = sorted(C.values()), list('aeiou')
LONG = dict(zip('aeiou', 'āēīōū'))


def rw(rules, left=None, right=None):
  return spec.rewrite(rules, left=left, right=right, sigma=SIGMA)


class Language:
  """Rules in order: each applies throughout the text, from left to right."""

  def __init__(self, schwas, letters, aspirated, unaspirated, doubled, long, diphthongs):
    self.schwas = schwas  # whether a consonant may be without virama before a consonant
    self.ms = []
    if schwas:
      self.ms += [rw([('m', ANUSVARA)], LATIN_VOWEL, ['b', 'p']),
                  rw([('n', ANUSVARA)], LATIN_VOWEL, [c for c in LOWER if c not in 'aeioumn'] + [spec.END])]
    first = [k for k in letters if k == 'zh']  # before all other letters
    for k in first:
      self.plain(k, letters[k])
    for k in 'fz':
      self.cons([(k + k, [k, k])])
      self.cons([(k, [k])])
    for n in (2, 1):
      for k, c in unaspirated.items():
        if len(k) == n:
          self.cons([(k + 'h' + k + 'h', [c, c])])
      for k, c in unaspirated.items():
        if len(k) == n:
          self.cons([(k + 'h', [c])])
    for n in (2, 1):
      for k, c in aspirated.items():
        if len(k) == n:
          self.cons([(d + 'h', [c, c + 'ʰ']) for d in self.double(k)])
      for k, c in aspirated.items():
        if len(k) == n:
          self.cons([(k + 'h' + k + 'h', [c + 'ʰ', c + 'ʰ'])])
      for k, c in aspirated.items():
        if len(k) == n:
          self.cons([(k + 'h', [c + 'ʰ'])])
    for k, c in doubled.items():
      self.cons([(d, [c, c]) for d in self.double(k)])
    for n in (2, 1):
      now = {k: c for k, c in letters.items() if len(k) == n and k not in first}
      self.cons([(d, self.as_list(c) * 2) for k, c in now.items() for d in self.double(k)])
      self.cons([(k, self.as_list(c)) for k, c in now.items()])
    self.vowels([(v + v, LONG[v]) for v in 'aeiou'])
    self.vowels(diphthongs)
    self.vowels([(v, LONG[v]) for v in long])
    self.vowels([(v, v) for v in 'aeiou' if v not in long])
    if schwas:
      self.ms += [
          rw([(c, c + VIRAMA) for c in CONS], spec.EDGE, CONS),
          rw([(SIGN['a'], SIGN['ā'])], right=spec.EDGE),
          rw([(c, c + VIRAMA) for c in CONS], right=[c + spec.END for c in CONS]),
      ]

  def as_list(self, c):
    return ['k', 's'] if c == 'ks' else [c]

  def double(self, k):
    return [k + k, k[0] + k] if len(k) > 1 else [k + k]

  def plain(self, k, c):
    self.cons([(d, [c, c]) for d in self.double(k)])
    self.cons([(k, [c])])

  def cons(self, rules):
    """Consonants: viramas stand between them, and in Tamil at the end unless a vowel follows."""
    if not rules:
      return
    out = [(a, VIRAMA.join(C[x] for x in b)) for a, b in rules]
    if self.schwas:
      self.ms.append(rw(out))
    else:
      self.ms += [rw(out, right=LATIN_VOWEL), rw([(a, b + VIRAMA) for a, b in out])]

  def vowels(self, rules):
    if rules:
      self.ms += [rw([(a, SIGN[b]) for a, b in rules], left=CONS), rw([(a, LETTER[b]) for a, b in rules])]

  def tokens(self):
    t = spec.over(LOWER)
    for m in self.ms:
      t = (t @ m).trim()
    return t.minpair()

  def iso(self):
    """Inherent vowels are written; letters for vowels have a dot except at the start."""
    def step(s, c):
      pre = 'a' if s == 2 and c not in SIGN.values() and c != VIRAMA else ''
      if c in names:
        return 2, pre + names[c]
      if c in letters:
        return 1, pre + ('.' if s else '') + letters[c]
      return 1, pre + {VIRAMA: '', ANUSVARA: 'ṁ'}.get(c, signs.get(c, '?'))
    names = {t: c for c, t in C.items()}
    letters = {t: c for c, t in LETTER.items()}
    signs = {t: c for c, t in SIGN.items()}
    return spec.machine(0, step, lambda s: 'a' if s == 2 else '', SIGMA, other=False)

  def native(self, i):
    t = {C[c]: x[i] for c, x in CONSONANTS.items()}
    for c, x in VOWELS.items():
      t[SIGN[c]], t[LETTER[c]] = x[i]
    t[VIRAMA], t[ANUSVARA] = ('्', '்')[i], ('ं', '')[i]
    return spec.machine(0, lambda s, c: (0, t[c]) if t.get(c, '') or c in (SIGN['a'],) else None, lambda s: '', SIGMA, other=False)


SAME = {c: c for c in 'chlmnrsvy'}
SAME.update(q='k', w='v', sh='ś', x='ks')


def languages():
  hi = dict(SAME, b='b', ch='c', d='d', g='g', j='j', k='k', p='p', t='t', f='f', z='z')
  ta = dict(SAME, b='p', ch='c', d='t', g='k', j='j', k='k', p='p', t='t', f='f', z='z', zh='ḻ')
  return {
      'hi': Language(True, hi, {k: hi[k] for k in ('b', 'ch', 'd', 'g', 'j', 'k', 'p', 't')}, {}, {}, 'eo',
                     [('ai', 'ai'), ('au', 'au')]),
      'ta': Language(False, ta, {}, {k: ta[k] for k in ('b', 'ch', 'd', 'g', 'j', 'k', 'p', 't')}, {'tr': 'ṟ'}, '',
                     [('ai', 'ai'), ('au', 'au'), ('ae', 'ē'), ('oa', 'ō')]),
  }


def grammar(l, s, utf8=False):
  far, key = GRAMMARS[l, s].split(':')
  return real.grammar('%sderomanization:%s%s' % (N, far, '_utf8' * utf8), key, utf8)


def deromanizer(l, script):
  def fn(out):
    lang = languages()[l]
    t = lang.tokens()
    dom = spec.over(LOWER)
    for s, m in (('iso', lang.iso()), (script, lang.native(0 if l == 'hi' else 1))):
      want = (t @ m).trim().minpair()
      ok, w = rrv.covers(dom, want)
      if not ok:
        raise spec.SpecError('no output is specified for %r' % rrv.show(w))
      for utf8 in (False, True):
        g = grammar(l, s, utf8)
        out.equals('%s: letters, doubled letters, aspirates and vowels' % g.name, g, want, dom)
  return fn


def romanized(out):
  """The Devanagari and ISO deromanizations agree under the romanization of Devanagari."""
  iso, deva, f = grammar('hi', 'iso'), grammar('hi', 'deva'), real.grammar('brahmic:iso', 'FROM_DEVA')
  r, lossy, w = (deva.rel @ f.rel).trim().minpair().best()
  out.check('hi: the romanization of the Devanagari text is unique', lossy == 0, w)

  def replay(w):
    x = rrv.show(w[0] if isinstance(w, tuple) else w)
    a, b = iso.apply(x), f.apply(deva.apply(x) or '')
    return {'input': x, 'expected': a, 'got': b, 'replayed': a != b}
  ok, w = rrv.agree(r.minpair(), iso.rel)
  out.check('hi: the ISO text is the romanization of the Devanagari text', ok, w, replay)
  ok, w = rrv.covers(spec.over(LOWER), r)
  out.check('hi: every Devanagari text has a romanization', ok, w, replay)


def tasks(tier):
  real.prebuild([N + 'deromanization:' + g.split(':')[0] + u for g in GRAMMARS.values() for u in ('', '_utf8')])
  return [Task('hi', deromanizer('hi', 'deva')), Task('ta', deromanizer('ta', 'taml')), Task('romanized', romanized)]
