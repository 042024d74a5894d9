"""Which schwas of an ISO text are silent: syllables over a table of sounds.

A token stands for a letter of the script (one or more ISO letters); it has a list of phones, named by their IPA signs.
"""

import rrv
import spec

ISO_VOWELS = {
    'a': ['ə'], 'ā': ['aː'], 'æ': ['æ'], 'ạ': ['ə'], 'e': ['e'], 'ē': ['eː'], 'ê': ['æ'], 'i': ['i'], 'ī': ['iː'],
    'o': ['o'], 'ō': ['oː'], 'ô': ['ɔ'], 'u': ['u'], 'ū': ['uː'],
}
CONSONANTS = {
    'b': 'b', 'c': 't͡ʃ', 'd': 'd̪', 'ḍ': 'ɖ', 'f': 'f', 'g': 'ɡ', 'ġ': 'ɣ', 'h': 'h', 'j': 'd͡ʒ', 'k': 'k', 'l': 'l',
    'ḷ': 'ɭ', 'ḻ': 'ɻ', 'm': 'm', 'n': 'n̪', 'ñ': 'ɲ', 'ṅ': 'ŋ', 'ṇ': 'ɳ', 'ṉ': 'n', 'p': 'p', 'q': 'q', 'r': 'ɾ',
    'ṛ': 'ɽ', 'ṟ': 'r', 's': 's', 'ś': 'ʃ', 'ṣ': 'ʂ', 't': 't̪', 'ṭ': 'ʈ', 'ṯ': 't', 'v': 'ʋ', 'x': 'x', 'y': 'j', 'z': 'z',
    'ḥ': 'h', 'ḫ': 'h', 'ẖ': 'h', 'ḵ': 'ɡ',
}
_pua = iter(map(chr, range(0xe100, 0xe700)))
LONG_MARK, TENTATIVE = next(_pua), next(_pua)
SPOKEN, MUTE = next(_pua), next(_pua)  # schwas
RV, LV, RVL, LVL, AI, AU, AAN, CND, OM = [next(_pua) for _ in range(9)]
ASPIRATED = {c: next(_pua) for c in 'bcdḍgjkpṛtṭ'}
DEAD = {c: next(_pua) for c in 'klḷnṇṟr'}
EYE = next(_pua)  # r with an eyelash
INDEPENDENT = {c: next(_pua) for c in list(ISO_VOWELS) + [AI, AU, RV, LV, RVL, LVL]}
AM, AN, ANY, ANN, ANG, AT = [next(_pua) for _ in range(6)]  # assimilated anusvaras
J1, J2, FF, HASP = [next(_pua) for _ in range(4)]
W, AO, AON, CCH, CHH, SSH, AAI, DEL = [next(_pua) for _ in range(8)]
GEMINATE = {c: next(_pua) for c in list(CONSONANTS) + list(DEAD.values()) + [
    EYE, RV, RVL, LV, LVL] + [INDEPENDENT[c] for c in (RV, RVL, LV, LVL)]}
UN = {c: next(_pua) for c in ASPIRATED.values()}  # aspirated letters that lost their aspiration
AUM, OAUM, AVA = [next(_pua) for _ in range(3)]
BHV, OOYY, YV, TNY, TNG = [next(_pua) for _ in range(5)]
VOICE = {c: next(_pua) for c in list('kptcṭṯ') + [ASPIRATED[c] for c in 'kptcṭ'] + [DEAD['k']]}
SC, SCH, JC, JCH = [next(_pua) for _ in range(4)]  # Tamil c as s, and after ñ
RRTT, NDR, EEN, OON, EEAE, OOOA, TH, TTH, TTR, NYN, NYGN, DIPH = [next(_pua) for _ in range(12)]
TOKENS = set(map(chr, range(0xe100, ord(next(_pua)))))
ISO = set('+-.|abcdefghijklmnopqrstuvxyzæêñôõāēġīōśūʰˑ˖ḍḥḫḵḷḻṁṃṅṇṉṛṟṣṭṯẏẖạ’ⸯ') | {'\u0304', '\u0306', '\u0310', '\u0325'}
SIGMA = ISO | TOKENS
SILENT = set('+-.|ˑ˖’ⸯ') | {'\u0304', '\u0306', '\u0310'}
CODA = set('’ˑḥḵṁḫẖ˖ṃ') | {TNY, TNG, '\u0310', CND, AM, AN, ANY, ANN, ANG, AT}
STOPS = set('pqkbɡʈɖ') | {'t̪', 't', 'd̪', 'd'}
NASALS = {'m', 'n̪', 'n', 'ɳ', 'ɲ', 'ŋ'}
FRICATIVES = set('fsʃʂxhzɣ')
VOICED = {'b', 'd̪', 'd', 'ɖ', 'ɡ', 'z', 'ɣ', 'd͡ʒ'}
SIBILANTS = set('szʃʂ')
RHOTICS = set('rɾɽɻ')
LIQUIDS = RHOTICS | {'l', 'ɭ'}
AFFRICATES = {'t͡ʃ', 'd͡ʒ'}


def onset(c, d):
  """Clusters that a syllable may begin with."""
  return (c, d) in {('k', 'ʃ'), ('s', 't'), ('s', 'ɾ'), ('s', 'n̪'), ('s', 'j'), ('s', 'ʋ'), ('ʋ', 'j'), ('n̪', 'j'),
                    ('k', 'ɾ'), ('p', 'ɾ'), ('ɡ', 'ɾ'), ('d̪', 'ɾ'), ('ʃ', 'ɾ')}


def coda(c, d):
  """Clusters that a syllable may end with."""
  return (d.rstrip('ʰ') in STOPS or c in VOICED and d in NASALS or c in FRICATIVES - {'h'} and d in NASALS - {'m'} or
          c in SIBILANTS and d == 'm' or c in LIQUIDS | NASALS and d in NASALS or c in RHOTICS and d in RHOTICS)


def phones():
  """Phones of each token; V marks a vowel."""
  t = {c: ['V'] for c in ISO_VOWELS}
  t.update({c: ['V'] for c in (AI, AU, AAN, 'õ', '\u0325', SPOKEN, TENTATIVE)})
  t[OM] = ['V', 'm']
  t.update({c: [p] for c, p in CONSONANTS.items()})
  t['ẏ'] = ['jʰ']
  t.update({a: [CONSONANTS[c] + 'ʰ'] for c, a in ASPIRATED.items()})
  t.update({a: [CONSONANTS[c] if c != 'n' else 'n'] for c, a in DEAD.items()})
  t[EYE] = ['ɾ']
  for a, l in ((RV, 'r'), (RVL, 'r'), (LV, 'l'), (LVL, 'l')):
    t[a] = [l, 'V']
  for c, a in INDEPENDENT.items():
    t[a] = t[c]
  t.update({AM: ['m'], AN: ['n̪'], ANY: ['ɲ'], ANN: ['ɳ'], ANG: ['ŋ'], TNY: ['ɲ'], TNG: ['ŋ']})
  return {c: t.get(c, ['-']) for c in SIGMA}


def sequence(ms):
  t = None
  for m in ms:
    t = m if t is None else (t @ m).trim()
  return t.minpair()


def rw(rules, left=None, right=None):
  return spec.rewrite(rules, left=left, right=right, sigma=SIGMA)


def read():
  """From ISO text to tokens."""
  vowels = sorted(set(ISO_VOWELS) | {AI, AU, RV, LV, RVL, LVL})

  def initial(s, c):
    return (1, ('.' if s == 0 and c in vowels else '') + c)
  return (spec.over(ISO) @ sequence([
      rw([('r̥̄', RVL), ('l̥̄', LVL)]),
      rw([('r̥', RV), ('l̥', LV), ('ai', AI), ('au', AU), ('ạ̄', AAN)]),
      spec.machine(0, initial, lambda s: '', SIGMA, other=False),
      rw([('.' + c, a) for c, a in INDEPENDENT.items()]),
      rw([(c + 'ʰ', a) for c, a in ASPIRATED.items()] + [(c + 'ⸯ', a) for c, a in DEAD.items()] + [('r\u0306', EYE)]),
      rw([('õm', OM), ('m̐', CND)]),
  ])).trim().minpair()


PLACES = [(AM, {'m', 'b', 'p'}), (AN, {'n̪', 'd̪', 't̪'}), (ANY, {'n', 'd', 't'}), (ANY, {'ɲ', 'j'}),
          (ANN, {'ɳ', 'ɖ', 'ʈ'}), (ANG, {'ŋ', 'ɡ', 'k'})]


def stop(p):
  """A phone without aspiration; an affricate by its stop."""
  return p[0] if p.rstrip('ʰ') in AFFRICATES else p.rstrip('ʰ')


def assimilate(t, sign='ṁ'):
  """Anusvara before a consonant is the nasal of its place."""
  out = []
  for a, place in PLACES:
    following = [c for c in sorted(SIGMA) if stop(t[c][0]) in place]
    out.append(rw([(sign, {ANY: TNY, ANG: TNG}.get(a, a) if sign == 'ṃ' else a)], right=following))
  return sequence(out)


def coda_bn(c, d):
  return coda(c, d) or d.rstrip('ʰ') in AFFRICATES


def fold(s, ps, coda=coda):
  """After a vowel: 'V', a vowel and consonant, or a vowel and cluster; '' otherwise."""
  for p in ps:
    if p == 'V':
      s = 'V'
    elif p == '-':
      s = ''
    elif s == 'V':
      s = 'V' + p
    elif s.startswith('V') and s != 'V+' and coda(s[1:], p):
      s = 'V+'
    else:
      s = ''
  return s


def final(t, coda):
  """The last schwa of the text is silent after a legal coda."""
  def step(s, c):
    f, held = s
    if held:
      f = 'V'
    pre = 'a' if held else ''
    if c == 'a' and f:
      return (f, True), pre
    return (fold(f, t[c], coda), False), pre + c
  return spec.machine(('', False), step, lambda s: MUTE if s[1] else '', SIGMA, other=False)


def between(t, coda):
  """A schwa between a legal coda and a legal onset is silent."""
  def back(s, c):
    out = TENTATIVE if c == 'a' and s[:1] == 'C' else c
    for p in reversed(t[c]):
      if p == 'V':
        s = 'V'
      elif p == '-':
        s = ''
      elif s == 'V':
        s = 'C' + p
      elif s[:1] == 'C' and s != 'C+' and onset(p, s[1:]):
        s = 'C+'
      else:
        s = ''
    return s, out
  mark = spec.machine('', back, lambda s: '', SIGMA, other=False, backward=True)

  def step(s, c):
    if c == TENTATIVE:
      c = MUTE if s else 'a'
    return fold(s, t[c], coda), c
  return (mark @ spec.machine('', step, lambda s: '', SIGMA, other=False)).trim()


def process(t, front, coda=coda):
  """Decides on every schwa. front: tokens that end in a front vowel."""
  return sequence([
      rw([('a', SPOKEN)], right=sorted(CODA | set(INDEPENDENT.values()))),
      rw([('a', SPOKEN)], left=[c + 'y' for c in front]),
      final(t, coda),
      between(t, coda),
      rw([('a', SPOKEN)]),
  ])


VOCALICS = {'\u0325': ('', 0), RV: ('r', 0), LV: ('l', 0), RVL: ('r', 1), LVL: ('l', 1)}


def pronounce(vocalic, ai, au, jny):
  """IPA of each token. vocalic: vowel of vocalic letters; jny: sound of j before ñ, and of ñ after it."""
  t = {c: v[0] for c, v in ISO_VOWELS.items()}
  t.update({AI: ai, AU: au, AAN: 'aː', 'õ': 'oː', OM: 'oːm', SPOKEN: 'ə', MUTE: '', CND: '~', 'ṃ': '~', AT: '~',
            'ẏ': 'jʰ', 'ʰ': 'ʰ', EYE: 'ɾ', AM: 'm', AN: 'n̪', ANY: 'ɲ', ANN: 'ɳ', ANG: 'ŋ', TNY: 'ɲ', TNG: 'ŋ', J1: jny[0], J2: jny[1], FF: 'ff',
            HASP: 'ʰ'})
  t.update(CONSONANTS)
  t.update({a: CONSONANTS[c] + 'ʰ' for c, a in ASPIRATED.items()})
  t.update({a: CONSONANTS[c] if c != 'n' else 'n' for c, a in DEAD.items()})
  t.update({c: l + vocalic + 'ː' * n for c, (l, n) in VOCALICS.items()})
  t.update({a: t[c] for c, a in INDEPENDENT.items()})
  t.update({c: '' for c in SILENT | {DEL}})
  return t


LATIN = {
    'ā': 'aa', 'æ': 'ae', 'ạ': 'a', 'ē': 'ee', 'ê': 'ae', 'ī': 'ii', 'ō': 'oo', 'ô': 'o', 'ū': 'uu', AAN: 'aa', 'õ': 'oo',
    OM: 'oom', AI: 'ai', AU: 'au', 'c': 'ch', 'ḍ': 'd', 'ġ': 'g', 'ḷ': 'l', 'ḻ': 'zh', 'ñ': 'ny', 'ṅ': 'ng', 'ṇ': 'n',
    'ṉ': 'n', 'q': 'k', 'ṛ': 'rd', 'ṟ': 'r', 'ś': 'sh', 'ṣ': 'sh', 'ṭ': 't', 'ṯ': 't', 'x': 'kh', 'ḥ': 'h', 'ḫ': 'h', 'ẖ': 'h',
    'ḵ': 'g', 'ẏ': 'yh', 'ʰ': 'h', SPOKEN: 'a', MUTE: '', CND: 'n', 'ṃ': 'n', AT: 'n', EYE: 'r', AM: 'm', AN: 'n',
    ANY: 'n', ANN: 'n', ANG: 'n', TNY: 'ny', TNG: 'ng', FF: 'ff', HASP: 'h',
}
SHORT = {'ā': 'a', 'ē': 'e', 'ī': 'i', 'ō': 'o', 'ū': 'u', AAN: 'a', 'õ': 'o', OM: 'om'}


def romanize(vocalic, jny, fine):
  """Pan-South-Asian romanization of each token. fine: long vowels are doubled."""
  t = {c: c for c in 'aeioubdfghjklmnprstvyz'}
  t.update(LATIN)
  if not fine:
    t.update(SHORT)
  t.update({J1: jny[0], J2: jny[1]})
  t.update({a: t[c] + 'h' for c, a in ASPIRATED.items()})
  t[ASPIRATED['ṛ']] = 'dh'
  t.update({a: t[c] for c, a in DEAD.items()})
  t.update({c: l + vocalic * (2 if n and fine else 1) for c, (l, n) in VOCALICS.items()})
  t.update({a: t[c] for c, a in INDEPENDENT.items()})
  t.update({c: '' for c in SILENT | {DEL}})
  return t


def spell(table):
  """Letter by letter."""
  return spec.machine(0, lambda s, c: (0, table[c]) if c in table else None, lambda s: '', SIGMA, other=False)


def machine_end(rules):
  """Rewrites at the end of the text."""
  return rw(rules, right=spec.EDGE)


def later(c, d):
  """Rewrites a letter except at the start of the text."""
  return spec.machine(0, lambda s, x: (1, d if s and x == c else x), lambda s: '', SIGMA, other=False)


def unaspirate(letters, aspirates):
  """An aspirated letter, or a lone sign of aspiration, loses its aspiration before an aspirated letter."""
  rules = [(c, YV if c == 'ẏ' else UN[c]) for c in letters]
  return rw(rules + [('ʰ', DEL)], right=sorted(aspirates))
