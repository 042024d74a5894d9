"""Natural transliteration and pronunciation of ISO 15919 text."""

import string

import common
import real
import rrv
import spec
from run import Task

N = 'natural_translit/'
E2E = ('hi', 'kn', 'ml', 'ta', 'te')  # languages with a file of all their grammars
LANGS = ('bn', 'gu', 'hi', 'kn', 'ml', 'mr', 'pa', 'ta', 'te')
KINDS = ('ipa', 'nat', 'psac', 'psaf')
FILES = [N + f for f in (
    'brahmic/acronym.py', 'brahmic/g2p.py', 'brahmic/grapheme_inventory.py', 'brahmic/phoneme_inventory.py',
    'brahmic/romanizer.py', 'latin/ltn_inventory.py', 'phonology/modify_phon.py', 'phonology/phon.py',
    'phonology/phoneme_inventory.py', 'phonology/romanizer.py', 'phonology/transcriptor.py', 'phonology/operations/syllable.py',
    'phonology/operations/voicing.py', 'script/char.py', 'utils/alignment.py', 'utils/concat.py', 'utils/fst_list.py',
    'utils/inventory.py', 'utils/rewrite_functions.py') + tuple('language_params/%s.py' % l for l in LANGS) + tuple(
        'languages/%s_e2e.py' % l for l in E2E) + tuple('%s/%s_iso_%s.py' % ('g2p' if k == 'ipa' else 'romanization', l, k) for l in LANGS for k in KINDS)] + [
        'utils/rewrite.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME

# The letters of the table in grapheme_inventory.py's documentation, and those of the module.
ISO = set('+-.|abcdefghijklmnopqrstuvxyzæêñôõāēġīōśūʰˑ˖ḍḥḫḵḷḻṁṃṅṇṉṛṟṣṭṯẏẖạ’ⸯ') | {'\u0304', '\u0306', '\u0310', '\u0325'}
LOWER = set(string.ascii_lowercase)
IPA = LOWER | set('~æŋ') | {chr(c) for c in range(0x250, 0x370)}
# Letters without a sound of their own, after which Punjabi geminates.
SILENT = set('+-.|ˑ˖’ⸯ') | {'\u0304', '\u0306', '\u0310'}


def far(lang, kind, utf8=False):
  return '%s%s:%s_iso_%s%s' % (N, 'g2p' if kind == 'ipa' else 'romanization', lang, kind, '_utf8' * utf8)


def grammar(lang, kind, utf8=False):
  return real.grammar(far(lang, kind, utf8), 'ISO_TO_' + kind.upper(), utf8)


def squeeze():
  """Drops a letter after the same letter."""
  return spec.machine('', lambda s, c: (c, '' if c == s else c), lambda s: '', LOWER, other=False)


def addak():
  """Punjabi texts with a silent letter before an affricate or an aspirate."""
  u = rrv.ustar()
  asp = rrv.strings([c + 'ʰ' for c in 'bcdgjkpt'] + ['c', 'ḍʰ', 'ṭʰ', 'ṛʰ', 'ẏ'])
  return (u + rrv.strings(sorted(SILENT)) + asp + u).min()


def outputs(g, kind, chars):
  def replay(w):
    t = rrv.show(w[0] if isinstance(w, tuple) else w)
    got = g.apply(t)
    return {'input': t, 'expected': 'characters of ' + kind, 'got': got,
            'replayed': got is None or not set(got) <= chars, 'grammar': g.name}
  return replay


def lang(l, k):
  def fn(out):
    g = grammar(l, k)
    n = '%s_iso_%s' % (l, k)
    dom = spec.over(ISO)
    out.total(n + ': every text of ISO 15919 letters has an output', g, dom)
    out.within(n + ': no other text has one', g, dom)

    def several(w):
      t = rrv.show(w[0] if isinstance(w, tuple) else w)
      return {'input': t, 'expected': 'one output', 'got': sorted(g.rel.apply(t)),
              'replayed': len(set(g.rel.apply(t))) > 1, 'grammar': g.name}
    r = g.rel
    if l == 'pa':
      amb = addak()
      r = (spec.over(ISO).minus(amb) @ r).trim()
      t = '+c'
      if len(set(g.rel.apply(t))) > 1:
        out.bad(n + ': one output after a silent letter', **several(rrv.enc(t)))
      else:
        ok, w = rrv.functional(g.rel)
        out.check(n + ': one output after a silent letter', ok, w, several)
      n += ' (no silent letter before affricate or aspirate)'
    ok, w = rrv.functional(r)
    out.check(n + ': one output at most', ok, w, several)
    chars = {'ipa': IPA, 'nat': LOWER | set(string.ascii_uppercase) if l == 'hi' else LOWER}.get(k, LOWER)
    kind = 'IPA' if k == 'ipa' else 'a-z'
    # The text for the counterexample comes with it.
    ok, w = rrv.included(r.inv(), spec.over(chars))
    out.check(n + ': output in %s only' % kind, ok, w, lambda w: outputs(g, kind, chars)(
        (r @ rrv.acc_labels(w)).trim().dom().shortest()))
    u = grammar(l, k, True)
    ur = u.rel if l != 'pa' else ((spec.over(ISO).minus(addak())) @ u.rel).trim()

    def differs(w):
      t = rrv.show(w[0] if isinstance(w, tuple) else w)
      a, b = g.apply(t), u.apply(t)
      return {'input': t, 'expected': 'byte: %r' % a, 'got': 'utf8: %r' % b, 'replayed': a != b}
    ok, w = rrv.agree(r, ur)
    out.check(n + ': the UTF-8 grammar gives the same', ok, w, differs)
    ok, w = rrv.included(u.rel, dom)
    out.check(n + ': the UTF-8 grammar takes no other text', ok, w, differs)
    ok, w = rrv.covers(dom, u.rel)
    out.check(n + ': the UTF-8 grammar takes every such text', ok, w, differs)
  return fn


def repeated(x, y):
  """Drops xy after xy."""
  def step(s, c):
    if s == 3:
      return (2, '') if c == y else (1, x + x) if c == x else (0, x + c)
    if s == 2 and c == x:
      return 3, ''
    if c == x:
      return 1, c
    return (2 if s == 1 and c == y else 0), c
  return spec.machine(0, step, lambda s: x if s == 3 else '', LOWER, other=False)


def consistent(l):
  def fn(out):
    f, c = grammar(l, 'psaf'), grammar(l, 'psac')
    s = squeeze()
    for t in ('ae', 'ai', 'au', 'ch', 'dh', 'kh', 'ng', 'ny', 'rd', 'sh', 'th', 'zh'):
      s = (s @ repeated(*t)).trim()
    s = (s @ squeeze()).trim().minpair()
    a, b = (f.rel @ s).trim(), (c.rel @ s).trim()
    ok, w = rrv.agree(a, b)

    def differs(w):
      t = rrv.show(w[0])
      x, y = f.apply(t), c.apply(t)
      p, q = s.apply(x), s.apply(y)
      return {'input': t, 'expected': '%r, from PSAF %r' % (p, x), 'got': '%r, from PSAC %r' % (q, y), 'replayed': p != q}
    out.check('%s: PSAF and PSAC differ in repetitions only' % l, ok, w, differs)
  return fn


def together(l):
  return '%slanguages:%s_e2e' % (N, l)


def end_to_end(l):
  """The file with all grammars of a language holds the same ones."""
  def fn(out):
    for utf8 in (False, True):
      name = together(l) + '_utf8' * utf8
      for k in KINDS:
        if k == 'nat' and l in ('kn', 'te'):
          continue  # those files give the other three
        a = grammar(l, k, utf8)
        b = real.grammar(name, 'ISO_TO_' + k.upper(), utf8)

        def differs(w, a=a, b=b):
          t = rrv.show(w[0] if isinstance(w, tuple) else w)
          x, y = a.apply(t), b.apply(t)
          return {'input': t, 'expected': '%r, as %s' % (x, a.name), 'got': y, 'replayed': x != y, 'grammar': b.name}
        n = '%s: the same as the grammar by itself' % b.name
        for r, q in ((a, b), (b, a)):
          ok, w = rrv.covers(r.rel.dom(), q.rel)
          if not ok:
            break
        if ok:
          ok, w = rrv.agree(a.rel, b.rel)
        out.check(n, ok, w, differs)
  return fn


def tasks(tier):
  real.prebuild([far(l, k, u) for l in LANGS for k in KINDS for u in (False, True)] + [
      together(l) + '_utf8' * u for l in E2E for u in (False, True)])
  return [Task(l + '_e2e', end_to_end(l)) for l in E2E] + [Task('%s_%s' % (l, k), lang(l, k)) for l in LANGS for k in KINDS] + [
      Task(l + '_psa', consistent(l)) for l in LANGS if l not in ('ml', 'pa', 'ta')]
