"""The sound and the romanization of each ISO letter, in context."""

import common
import p13
import real
import rrv
import sounds
import spec
from p13 import ISO, LOWER, grammar
from run import Task

FILES, TRUSTED, ASSUMPTIONS = p13.FILES, common.TRUSTED, common.ASSUME

# Private-use letters for ISO letters of more than one character, and for assimilated anusvaras.
RV, LV, RVL, LVL, AI, AU, AAN, RDH, CND, OM, NCH, GN = map(chr, range(0xe100, 0xe10c))
AM, AN, ANY, ANN, ANG, AT = map(chr, range(0xe110, 0xe116))
TOKENS = {RV, LV, RVL, LVL, AI, AU, AAN, RDH, CND, OM, NCH, GN, AM, AN, ANY, ANN, ANG, AT}
SIGMA = ISO | TOKENS

SILENT = p13.SILENT
IPA = {
    'a': 'a', 'ạ': 'a', 'ā': 'aː', AAN: 'aː', 'i': 'i', 'ī': 'iː', 'u': 'u', 'ū': 'uː', 'e': 'e', 'ē': 'eː', 'o': 'o',
    'ō': 'oː', 'õ': 'oː', OM: 'oːm', 'æ': 'æ', 'ê': 'æ', 'ô': 'ɔ', AI: 'a͡i', AU: 'a͡u',
    'b': 'b', 'c': 't͡ʃ', 'd': 'd̪', 'ḍ': 'ɖ', 'f': 'f', 'g': 'ɡ', 'ġ': 'ɣ', 'h': 'h', 'j': 'd͡ʒ', 'k': 'k', 'l': 'l',
    'ḷ': 'ɭ', 'ḻ': 'ɻ', 'm': 'm', 'n': 'n̪', 'ñ': 'ɲ', 'ṅ': 'ŋ', 'ṇ': 'ɳ', 'ṉ': 'n', NCH: 'n', 'p': 'p', 'q': 'q',
    'r': 'ɾ', 'ṛ': 'ɽ', RDH: 'ɽʰ', 'ṟ': 'r', 's': 's', 'ś': 'ʃ', 'ṣ': 'ʂ', 't': 't̪', 'ṭ': 'ʈ', 'ṯ': 't', 'v': 'ʋ', 'x': 'x',
    'y': 'j', 'ẏ': 'jʰ', 'z': 'z', 'ʰ': 'ʰ', 'ḥ': 'h', 'ḫ': 'h', 'ẖ': 'h', 'ḵ': 'ɡ', 'ṃ': '~', CND: '~',
    AM: 'm', AN: 'n̪', ANY: 'ɲ', ANN: 'ɳ', ANG: 'ŋ', AT: '~', GN: 'ɡɲ',
}
PSA = {
    'a': 'a', 'ạ': 'a', 'ā': 'aa', AAN: 'aa', 'i': 'i', 'ī': 'ii', 'u': 'u', 'ū': 'uu', 'e': 'e', 'ē': 'ee', 'o': 'o',
    'ō': 'oo', 'õ': 'oo', OM: 'oom', 'æ': 'ae', 'ê': 'ae', 'ô': 'o', AI: 'ai', AU: 'au',
    'b': 'b', 'c': 'ch', 'd': 'd', 'ḍ': 'd', 'f': 'f', 'g': 'g', 'ġ': 'g', 'h': 'h', 'j': 'j', 'k': 'k', 'l': 'l',
    'ḷ': 'l', 'ḻ': 'zh', 'm': 'm', 'n': 'n', 'ñ': 'ny', 'ṅ': 'ng', 'ṇ': 'n', 'ṉ': 'n', NCH: 'n', 'p': 'p', 'q': 'k',
    'r': 'r', 'ṛ': 'rd', RDH: 'dh', 'ṟ': 'r', 's': 's', 'ś': 'sh', 'ṣ': 'sh', 't': 't', 'ṭ': 't', 'ṯ': 't', 'v': 'v', 'x': 'kh',
    'y': 'y', 'ẏ': 'yh', 'z': 'z', 'ʰ': 'h', 'ḥ': 'h', 'ḫ': 'h', 'ẖ': 'h', 'ḵ': 'g', 'ṃ': 'n', CND: 'n',
    AM: 'm', AN: 'n', ANY: 'n', ANN: 'n', ANG: 'n', AT: 'n', GN: 'gny',
}
LONG = {'ā', 'ī', 'ū', 'ē', 'ō', 'õ', AAN, OM}
VOCALIC = {RV: ('r', False), LV: ('l', False), RVL: ('r', True), LVL: ('l', True)}
# Letters before which the anusvara becomes the nasal of their place; in order.
PLACES = [
    (AM, ['m', 'b', 'p']),
    (AN, ['n', 'd', 't']),
    (ANY, ['ṉ', NCH, 'ṯ', 'c', 'j']),
    (ANY, ['ñ', 'y', 'ẏ', ANY]),
    (ANN, ['ṇ', 'ḍ', 'ṭ']),
    (ANG, ['ṅ', 'g', 'k', 'ḵ']),
]
DIGRAPHS = ('ae', 'ai', 'au', 'ch', 'dh', 'kh', 'ng', 'ny', 'rd', 'sh', 'th', 'zh')


def sequence(ms):
  t = None
  for m in ms:
    t = m if t is None else (t @ m).trim()
  return t.minpair()


def letters(anusvara=AM):
  """From ISO text to tokens."""
  rw = lambda rules, right=None: spec.rewrite(rules, right=right, sigma=SIGMA)
  o = [
      rw([('r̥̄', RVL), ('l̥̄', LVL)]),
      rw([('r̥', RV), ('l̥', LV), ('ai', AI), ('au', AU), ('ạ̄', AAN)]),
      rw([('ṛʰ', RDH), ('nⸯ', NCH)]),
      rw([('õm', OM), ('m̐', CND)]),
  ]
  for a, following in PLACES:
    o.append(rw([('ṁ', a)], right=following))
  o += [rw([('ṁ', anusvara)]), rw([('jñ', GN)])]
  return (spec.over(ISO) @ sequence(o)).trim().minpair()


def each(table):
  """Letter by letter."""
  return spec.machine(0, lambda s, c: (0, table[c]) if c in table else None, lambda s: '', SIGMA, other=False)


def ipa(r, vocalic):
  t = dict(IPA, r=r, **{c: '' for c in SILENT})
  t['\u0325'] = vocalic
  for c, (l, long) in VOCALIC.items():
    t[c] = {'r': 'r', 'l': 'l'}[l] + vocalic + 'ː' * long
  return t


def roman(vocalic, fine):
  t = dict(PSA, **{c: '' for c in SILENT})
  t['\u0325'] = vocalic
  for c, (l, long) in VOCALIC.items():
    t[c] = l + vocalic * (2 if long and fine else 1)
  if not fine:
    for c in LONG:
      t[c] = t[c][1:]
  return t


def once():
  """Drops repeated digraphs, and then repeated letters."""
  return sequence([
      spec.rewrite([(d + d, d) for d in DIGRAPHS], sigma=LOWER),
      spec.rewrite([(c + c, c) for c in sorted(LOWER)], sigma=LOWER)])


def compare(out, name, g, want, dom, part=False):
  ok, w = rrv.covers(dom, want)
  if not ok:
    raise spec.SpecError('no output is specified for %r' % rrv.show(w))
  out.equals(name, g, want, dom, not part)


def direct(l, r, vocalic):
  def fn(out):
    t = letters()
    for kind in p13.KINDS:
      g = grammar(l, kind)
      if kind == 'ipa':
        want = (t @ each(ipa(r, vocalic))).trim()
      else:
        want = (t @ each(roman(vocalic, kind == 'psaf'))).trim()
        if kind == 'psac':
          want = (want @ once()).trim()
      compare(out, '%s_iso_%s: letter by letter' % (l, kind), g, want, spec.over(ISO))
  return fn


S = sounds
ROUND = {'i': ['i', 'ī', S.INDEPENDENT['i'], S.INDEPENDENT['ī']],
         'vocalic': ['\u0325', S.RV, S.LV, S.RVL, S.LVL] + [S.INDEPENDENT[c] for c in (S.RV, S.LV, S.RVL, S.LVL)],
         'ai': [S.AI, S.INDEPENDENT[S.AI]]}
SHWA = {
    # vowel of vocalics, ai, au, (j before ñ, ñ after it) in IPA and Latin, vowels before a spoken ya
    'hi': ('i', 'ɛː', 'ɔː', ('ɡ', 'j'), ('g', 'y'), ('i', 'vocalic')),
    'mr': ('u', 'ɛː', 'ɔː', ('d̪', 'ɲ'), ('d', 'ny'), ('i',)),
    'gu': ('u', 'a͡i', 'a͡u', ('d̪', 'ɲ'), ('d', 'ny'), ('i', 'ai')),
    'pa': ('i', 'ɛː', 'ɔː', ('d͡ʒ', 'ɲ'), ('j', 'ny'), ('i', 'vocalic')),
    'bn': ('i', 'a͡i', 'a͡u', ('ɡ', 'ɡ'), ('g', 'g'), ('i', 'vocalic', 'ai')),
}
ANUSVARA = (S.AM, S.AN, S.ANY, S.ANN, S.ANG)
ASP = S.ASPIRATED


def northern(l):
  """Tokens of the text after the decisions on schwas, anusvaras, etc., and IPA of new tokens."""
  vocalic, _, _, _, _, front = SHWA[l]
  t = S.phones()
  front = [c for k in front for c in ROUND[k]]
  if l == 'pa':
    front += [S.GEMINATE[c] for c in front if c in S.GEMINATE]
  ms = [S.read()]
  if l == 'mr':
    t[S.HASP] = ['-']
    ms.append(S.rw([('h', S.HASP)], left=['m', 'n', 'v', 'l', 'ṟ', S.OM, S.DEAD['l'], S.DEAD['ṟ']]))
  if l == 'pa':
    ms.append(S.rw(sorted(S.GEMINATE.items()), left=sorted(S.SILENT)))
    for c, a in S.GEMINATE.items():
      t[a] = [t[c][0]] + t[c]
    t[S.AUM] = ['V']
    t[S.OAUM] = ['V']
    t[S.AVA] = ['V']
  if l != 'bn':
    ms.append(S.assimilate(t))
  if l == 'pa':
    ms += [
        S.assimilate(t, 'ṃ'),
        S.machine_end([(S.INDEPENDENT['u'] + 'ṁ', S.AUM + 'ṁ')]),
        S.machine_end([('ō' + S.INDEPENDENT['ā'] + 'ṁ', S.OAUM + 'ṁ')]),
        S.machine_end([('ṁva', S.AVA + 'a')]),
    ]
  ms.append(S.process(t, front, S.coda_bn if l == 'bn' else S.coda))
  p = ASP['p']
  if l == 'bn':
    ms.append(S.rw([('ṁ', S.ANG)]))
  elif l != 'pa':
    ms.append(S.rw([('ṁ', S.AN)]))
  if l == 'hi':
    ms.append(S.rw([(c, S.AT) for c in ANUSVARA], right=spec.EDGE))
  if l != 'pa':
    ms.append(S.rw([('jñ', S.J1 + S.J2)]))
  if l == 'bn':
    oo, b = S.INDEPENDENT['ō'], ASP['b']
    ms += [S.rw([(oo + 'ẏ', S.OOYY)]), S.rw([(S.SPOKEN, S.MUTE)], right=[S.OOYY]),
           S.rw([('ẏ', S.YV)]), S.later(b, S.BHV)]
    t[S.OOYY] = t[S.BHV] = ['ʋ']
    t[S.YV] = ['j']
    t[S.J1] = t[S.J2] = ['ɡ']
    t[S.MUTE] = ['-']
    ms.append(S.rw([('b', S.BHV)], left=[c for c in sorted(S.SIGMA) if t[c][-1] not in ('V', '-')]))
  ms.append(S.rw([(p + p, S.FF)]) if l == 'hi' else S.rw([(p, 'f')]))
  if l == 'pa':
    # An aspirate before an aspirate loses its aspiration.
    a = sorted(ASP.values()) + ['ẏ']
    a.remove(p)
    ms.append(S.unaspirate([c for c in a], a))
  return S.sequence(ms)


def tables(l):
  """IPA, fine and coarse romanization of each token."""
  vocalic, ai, au, j, jl, _ = SHWA[l]
  ipa, fine, coarse = S.pronounce(vocalic, ai, au, j), S.romanize(vocalic, jl, True), S.romanize(vocalic, jl, False)
  if l == 'pa':
    ipa[S.AUM], fine[S.AUM], coarse[S.AUM] = 'o', 'o', 'o'
    ipa[S.OAUM], fine[S.OAUM], coarse[S.OAUM] = 'əo', 'ao', 'ao'
    ipa[S.AVA], fine[S.AVA], coarse[S.AVA] = 'o~', 'on', 'on'
    ipa['ṁ'], fine['ṁ'], coarse['ṁ'] = '~', 'n', 'n'
    for c, a in S.GEMINATE.items():
      if len(ipa[c]) > 1 and ipa[c][:1] in ('r', 'l'):
        x = ipa[c][0]
        ipa[a], fine[a], coarse[a] = x + ipa[c], x + fine[c], x + coarse[c]
      else:
        ipa[a], fine[a], coarse[a] = ipa[c] * 2, fine[c] * 2, coarse[c] * 2
    for c, a in S.UN.items():
      ipa[a], fine[a], coarse[a] = (x[c][:-1] for x in (ipa, fine, coarse))
    fine[S.UN[ASP['ṛ']]] = coarse[S.UN[ASP['ṛ']]] = 'rd'
    ipa[S.YV], fine[S.YV], coarse[S.YV] = 'j', 'y', 'y'
  if l == 'bn':
    ipa[S.INDEPENDENT['a']], ipa['ạ'], ipa[S.INDEPENDENT['ạ']], ipa[S.SPOKEN] = 'æ', 'a', 'a', 'ɔ'
    ipa[S.YV], ipa[S.BHV], ipa[S.OOYY] = 'j', 'ʋ', 'ʋ'
    for x in (fine, coarse):
      x.update({S.YV: 'y', S.BHV: 'v', S.OOYY: 'v', 'æ': 'a', 'ê': 'a', S.INDEPENDENT['æ']: 'a', S.INDEPENDENT['ê']: 'a',
                'ṛ': 'r', S.DEAD['ṛ'] if 'ṛ' in S.DEAD else 'ṛ': 'r', ASP['ṛ']: 'rdh', S.ANG: 'ng'})
  return ipa, fine, coarse


def names():
  """Texts of names of English letters, which Hindi writes in capitals."""
  I = S.INDEPENDENT
  vowels = {'A': ['a', 'ā'], 'E': [I['e'], I['ē']], 'e': ['e', 'ē'], 'I': [I['i'], I['ī']], 'i': ['i', 'ī'],
            'N': [I['a'], I['ā']], 'O': [I['o'], I['ō']], 'u': ['u', 'ū'], 'F': ['f', ASP['p']], 'Z': ['j', 'z']}
  o = rrv.empty()
  for name in ('E', 'bi', 'si', 'ḍi', 'I', 'EFa', 'ji', 'Eca', 'NI', 'je', 'ke', 'Ela', 'Ema', 'Ena', 'O', 'pi', 'kyu', 'Nra',
               'Esa', 'ṭi', 'yu', 'vi', 'ḍablu', 'ḍablyu', 'ḍabalyu', 'ḍablayu', 'Eksa', 'vAI', 'Zeḍa'):
    o = o | rrv.cat(*[rrv.strings(vowels.get(c, [c])) for c in name])
  return (S.read() @ o.trim().plus()).trim().dom().min()


def natural(l):
  """From the tokens of the text to those of the natural transliteration."""
  vocalic = SHWA[l][0]
  I = S.INDEPENDENT
  hiss = ['s', 'z', 'ś', 'ṣ', 'c', 'j']
  hiss += [S.GEMINATE[c] for c in hiss]
  ms = [S.rw([(c, S.W) for c in ('v', S.BHV)], left=hiss)]
  if l == 'hi':
    ms.append(S.rw([(I['ā'], S.AAI)], left=spec.EDGE))
  if l in ('mr', 'gu'):
    ms.append(S.rw([('ō', S.AO)], right=sorted(ANUSVARA)))
    ms.append(S.rw([('āv', S.AON)], left=['g']))
  if l == 'bn':
    m = S.CND
    ms += [
        S.rw([('ñ', S.NYN)], right=['j', ASP['j']]),
        S.machine_end([('ā' + m, S.AO + m), ('ā' + m + 'ō', S.AO + m + 'ō')]),
        S.machine_end([(m + 'ō', m)]),
        S.rw([(S.YV, S.DEL)], left=[c for k in ('i', 'vocalic', 'ai') for c in ROUND[k]] + ['u', 'ū', I['u'], I['ū'], S.AU, I[S.AU]]),
    ]
  ms += [S.rw([('cc', S.CCH)]), S.rw([('c' + ASP['c'], S.CHH)]), S.rw([('ṣṣ', S.SSH), ('śś', S.SSH)])]
  return S.sequence(ms)


def natural_table(l):
  t = tables(l)[2]
  t.update({S.W: 'w', S.AO: 'ao', S.AON: 'aon', S.CCH: 'cch', S.CHH: 'chh', S.SSH: 'ssh', S.AAI: 'aa', S.NYN: 'n'})
  if l == 'hi':
    t[ASP['ṛ']] = 'rh'
  if l == 'pa':
    t['ṛ'] = 'r'
  if l == 'bn':
    t[S.OOYY] = 'w'
  return t


def deleting(l):
  def fn(out):
    t = northern(l)
    dom = spec.over(ISO)
    if l == 'pa':
      dom = dom.minus(p13.addak())
      t = (dom @ t).trim()
    for kind, table in zip(('ipa', 'psaf', 'psac'), tables(l)):
      want = (t @ S.spell(table)).trim()
      if kind == 'psac':
        want = (want @ once()).trim()
      g = grammar(l, kind)
      compare(out, '%s_iso_%s: letters, syllables and silent schwas' % (l, kind), g, want, dom, l == 'pa')
    n = '%s_iso_nat: letters, syllables and silent schwas' % l
    if l == 'hi':
      dom = dom.minus(names())
      n += ', without names of English letters'
    if l == 'pa':
      u = rrv.ustar()
      dom = dom.minus((u + rrv.strings([c + 'ṛ' for c in S.SILENT]) + u).min())
      n += ', without a silent letter before ṛ'
    want = (dom @ t @ natural(l) @ S.spell(natural_table(l))).trim()
    compare(out, n, grammar(l, 'nat'), want, dom, l in ('hi', 'pa'))
  return fn


# Malayalam and Tamil: stops are voiced between vowels, approximants and nasals.

LETTERS = sorted(set(S.CONSONANTS) - set('ḥḫẖḵ')) + ['ẏ'] + sorted(ASP.values())  # with an inherent vowel
TOVOICE = {'k': 'ɡ', 'p': 'b', 't': 'd̪', 'ṭ': 'ɖ', 'ṯ': 'd', 'c': 'd͡ʒ'}
APPROXIMANTS = {'ʋ', 'ɻ', 'j', 'l', 'ɭ'}
RHOTICS = {'r', 'ɾ', 'ɽ', 'ɻ'}


def voiced(c):
  """IPA of a voiced letter."""
  base = {DEADK: 'k'}.get(c) or next((b for b, a in ASP.items() if a == c), c)
  return TOVOICE[base] + ('ʰ' if c in ASP.values() else '')


DEADK = S.DEAD['k']
SOFT = S.FF  # the c of ñc in Tamil


def southern(l):
  """Tokens of the text with letters that change their sound, and IPA of new tokens."""
  ms = [S.read()]
  t = S.phones()
  t[S.RRTT] = ['t', 't']
  if l == 'ml':
    ms.append(S.machine_end([(c, c + 'u') for c in LETTERS]))
  t[S.NDR] = ['n', 'd', 'r']
  ms += [S.assimilate(t), S.rw([('ṁ', S.AM)]), S.rw([('ṟṟ', S.RRTT)])]
  tokens = sorted(S.SIGMA)
  if l == 'ta':
    ms.append(S.rw([('ṉṟ', S.NDR)]))
  around = APPROXIMANTS | S.NASALS | (RHOTICS if l == 'ta' else set())
  side = [c for c in tokens if t[c][-1] == 'V' or t[c][-1] in around]
  start = [c for c in tokens if t[c][0] == 'V' or t[c][0].rstrip('ʰ') in around]
  if l == 'ml':
    ms.append(S.rw(sorted(S.VOICE.items()), left=side, right=start))
    # A sign of aspiration may follow those that do not form a letter with it.
    ms.append(S.rw([(c, S.VOICE[c]) for c in ('ṯ', DEADK)], left=side, right=['ʰ' + c for c in start]))
    nasal = [c for c in tokens if t[c][-1] in S.NASALS]
    ms.append(S.rw([(c, S.VOICE[c]) for c in ('ṭ', ASP['ṭ'])], left=nasal))
  else:
    ms.append(S.rw([('c', SOFT)], left=[c for c in tokens if t[c][-1] == 'ɲ'], right=start))
    ms.append(S.rw([(c, S.VOICE[c]) for c in ('k', 'p', 't', 'c', 'ṭ', 'ṯ', DEADK)], left=side, right=start))
    ms.append(S.rw([('c', S.VOICE['c'])], left=spec.EDGE, right=start))
  ms.append(S.rw([('jñ', S.J1 + S.J2)]))
  return S.sequence(ms)


def southern_tables(l):
  """IPA, fine, coarse and natural romanization of each token."""
  ipa = S.pronounce('ə', 'a͡i', 'a͡u', ('', 'ɲ'))
  for c in ('a', S.INDEPENDENT['a'], 'ạ', S.INDEPENDENT['ạ']):
    ipa[c] = 'a'
  fine, coarse = S.romanize('i', ('', 'ny'), True), S.romanize('a', ('', 'ny'), False)
  fine['\u0325'] = 'a'
  for c, v in ((S.RVL, 'ri'), (S.LVL, 'li')):
    fine[c] = fine[S.INDEPENDENT[c]] = v
  ipa[S.RRTT] = fine[S.RRTT] = coarse[S.RRTT] = 'tt'
  for c, a in S.VOICE.items():
    ipa[a] = voiced(c)
    fine[a] = coarse[a] = {'ɡ': 'g', 'b': 'b', 'd': 'd', 'ɖ': 'd'}[ipa[a][0]] + ('h' if 'ʰ' in ipa[a] else '') if '͡' not in ipa[a] else 'j' + ('h' if 'ʰ' in ipa[a] else '')
  if l == 'ta':
    for x, j in ((ipa, 'd͡ʒ'), (fine, 'j'), (coarse, 'j')):
      x[S.VOICE['c']], x[SOFT], x[S.NDR] = 's', j, 'ndr'
  nat = dict(coarse)
  for c in ('ī', S.INDEPENDENT['ī']):
    nat[c] = 'ee'
  for c in ('ū', S.INDEPENDENT['ū']):
    nat[c] = 'oo'
  nat.update({'t': 'th', S.TTH: 'th', S.VOICE['t']: 'th', S.W: 'w', S.NYN: 'n', S.NYGN: 'gn'})
  if l == 'ta':
    nat.update({'ē': 'ae', S.OOOA: 'oa', S.RRTT: 'ttr'})
  return ipa, fine, coarse, nat


def southern_natural(l):
  t = S.phones()
  t.update({S.RRTT: ['t', 't'], S.W: ['w'], S.J1: ['-'], S.J2: ['ɲ']})
  for c, a in S.VOICE.items():
    t[a] = [voiced(c)]
  written = {'ī', 'ū', S.INDEPENDENT['ī'], S.INDEPENDENT['ū']}
  ms = []
  if l == 'ta':
    written |= {'ē', S.OOOA}
    t[S.NDR], t[S.OOOA], t[SOFT], t[S.VOICE['c']] = ['n', 'd', 'r'], ['V'], ['d͡ʒ'], ['s']
    ms += [S.rw([('ō', S.OOOA)], left=[c for c in sorted(S.SIGMA) if t[c][-1] in APPROXIMANTS]),
           S.rw([('ō', S.OOOA)], right=[c for c in sorted(S.SIGMA) if t[c][0].rstrip('ʰ') in APPROXIMANTS])]
  vowels = lambda at: [c for c in sorted(S.SIGMA) if t[c][at] == 'V' and c not in written]
  # t and v are letters of the transliteration by now.
  consonant = [c for c in sorted(S.SIGMA) if t[c][0] not in ('V', '-') and c not in ('t', S.VOICE['t'], S.TTH, S.W) and not (l == 'ta' and c == S.RRTT)]
  ms += [S.rw([('tt', S.TTH)]), S.rw([('v', S.W)], left=['s', 'z', 'ś', 'ṣ', 'c', 'j', S.VOICE['c'], SOFT])]
  ms += [S.rw([(c, S.NYN) for c in ('ñ', S.J2)], right=consonant)]
  ms += [S.rw([('ñ', S.NYGN)], left=vowels(-1), right=vowels(0))]
  return S.sequence(ms)


def southern_check(l):
  def fn(out):
    t = southern(l)
    for kind, table in zip(('ipa', 'psaf', 'psac', 'nat'), southern_tables(l)):
      want = t @ S.spell(table) if kind != 'nat' else t @ southern_natural(l) @ S.spell(table)
      want = want.trim()
      if kind == 'psac':
        want = (want @ once()).trim()
      compare(out, '%s_iso_%s: letters and voicing' % (l, kind), grammar(l, kind), want, spec.over(ISO))
  return fn


def tasks(tier):
  real.prebuild([p13.far(l, k) for l in p13.LANGS for k in p13.KINDS])
  return [Task('te', direct('te', 'ɾ', 'u')), Task('kn', direct('kn', 'r', 'u'))] + [Task(l, deleting(l)) for l in SHWA] + [Task(l, southern_check(l)) for l in ('ml', 'ta')]
