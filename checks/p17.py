"""Python interface: words, lines and accessors."""

import itertools
import os
import string
import sys
import warnings

import pynini

import common
import real
import rrv
from run import Task

FILES = ['utils/far.py', 'utils/file.py', 'brahmic/__init__.py', 'abjad_alphabet/__init__.py', 'brahmic/util.py',
         'abjad_alphabet/util.py']
TRUSTED = common.TRUSTED + ['pynini.escape, composition and shortestpath', 're']
ASSUMPTIONS = common.ASSUME + [
    'lines: the search for words is taken to depend on whether each character is white space, which is enumerated for every character',
    'texts applied to a grammar: each character by itself, and the escaped characters together, stand for all texts']
NAMES = ('nfc', 'iso', 'visual_norm', 'wellformed', 'reversible_roman', 'reading_norm')


def modules():
  real.api(['//nisaba/scripts/brahmic:py', '//nisaba/scripts/abjad_alphabet:py_api'])
  import nisaba.scripts.abjad_alphabet as a
  import nisaba.scripts.brahmic as b
  from nisaba.scripts.utils import far
  return b, a, far


class Term:
  """An opaque word: only its identity can be used."""

  def __init__(self, *of):
    self.of = of

  def __eq__(self, other):
    return isinstance(other, Term) and self.of == other.of

  def __hash__(self):
    return hash(self.of)

  def __repr__(self):
    return '%s(%s)' % (self.of[0], self.of[1]) if len(self.of) == 2 else self.of[0]


class Stub:
  """A grammar known by its contract only."""

  def __init__(self, name, world):
    self.name, self.world = name, world

  def ApplyOnText(self, text):
    if self.name in self.world['fails']:
      raise self.world['error']('no output')
    if isinstance(text, str):
      return '<%s %s>' % (self.name, text)
    return Term(self.name, text)

  def AcceptText(self, text):
    self.world['asked'].append((self.name, text))
    return self.world['accept']


def stubbed(far, known):
  """Replaces the loading of grammars by their names. Returns the world of the stubs."""
  world = {'accept': True, 'fails': (), 'asked': [], 'error': far.FstInputError}

  def fst(self, rule):
    name = str(self.path_to_far).rsplit('/', 1)[1].replace('.far', '') + ':' + rule
    if not known(name):
      raise KeyError(rule)
    return Stub(name, world)
  far.Far.Fst = fst
  return world


def outcome(f, *args):
  try:
    return f(*args)
  except Exception as e:  # pylint: disable=broad-except
    return type(e).__name__


def expect(out, name, cases, **kw):
  """cases: (description, got, want)."""
  n, bad = 0, None
  for what, got, want in cases:
    n += 1
    if bad is None and got != want:
      bad = dict(input=what, expected=repr(want), got=repr(got), replayed=True)
  if bad:
    out.bad(name, backend='symbolic execution', **bad)
  elif 'bound' in kw:
    out.bounded(name, n, kw['bound'])
  else:
    out.ok(name, backend='symbolic execution', cases=n)


def words(out):
  b, a, far = modules()
  # Not all keys exist: what does not must be reported as such.
  scripts = [s.upper() for s in b.SCRIPTS]
  langs = [l.upper() for _, l in b.VISUAL_NORM_LANGS]
  tags = ['UR', 'FA']
  world = stubbed(far, lambda n: n in ('nfc:BRAHMIC', 'nfc:ARAB') or n.split(':')[1] in scripts + langs + tags)
  w = Term('word')

  def acceptor():
    for s in b.SCRIPTS:
      for form in (s, s.upper(), s.lower()):
        k = s.upper()
        vn = Term('visual_norm:' + k, w)
        acc = b.NormalizingAcceptor(form)
        for ok in (True, False):
          world.update(accept=ok, asked=[])
          yield 'NormalizingAcceptor(%r), well-formed: %s' % (form, ok), outcome(acc.ApplyOnWord, w), vn if ok else 'IllFormedError'
          yield 'NormalizingAcceptor(%r): what is asked' % form, set(world['asked']), {('wellformed:' + k, vn)}
        world['accept'] = True
        for f in ('visual_norm', ):
          world['fails'] = (f + ':' + k,)
          yield 'NormalizingAcceptor(%r), %s has no output' % (form, f), outcome(acc.ApplyOnWord, w), 'FstInputError'
          world['fails'] = ()
        yield 'NormalizingAcceptor(%r) once more' % form, outcome(acc.ApplyOnWord, w), vn
    for bad in ('Latn', 'zz', ''):
      yield 'NormalizingAcceptor(%r)' % bad, outcome(b.NormalizingAcceptor, bad), 'ScriptError'
  expect(out, 'NormalizingAcceptor.ApplyOnWord: the visual norm of the word if that is well-formed, or IllFormedError', acceptor())

  def normalizer():
    for t in tags:
      for form in (t, t.lower()):
        n = a.Normalizer(form)
        yield 'Normalizer(%r)' % form, outcome(n.ApplyOnWord, w), Term('visual_norm:' + t, Term('nfc:ARAB', w))
        for f in ('nfc:ARAB', 'visual_norm:' + t):
          world['fails'] = (f,)
          yield 'Normalizer(%r), %s has no output' % (form, f), outcome(n.ApplyOnWord, w), 'FstInputError'
          world['fails'] = ()
    for bad in ('zz', ''):
      yield 'Normalizer(%r)' % bad, outcome(a.Normalizer, bad), 'TagError'
  expect(out, 'Normalizer.ApplyOnWord: the visual norm of the NFC of the word', normalizer())

  errors = [('%s is a ValueError' % e.__name__, issubclass(e, ValueError), True)
            for e in (b.ScriptError, b.IllFormedError, a.TagError, far.FstInputError)]
  expect(out, 'errors are ValueErrors', errors)


def kinds():
  """The two classes that go over lines. Their grammars are stubs, so that each word shows in the output."""
  b, a, _ = modules()
  return {'NormalizingAcceptor': lambda **kw: b.NormalizingAcceptor('Deva', **kw), 'Normalizer': lambda **kw: a.Normalizer('ur', **kw)}


def marked(o, line, ignore):
  return ''.join(o.ApplyOnWord(''.join(g)) if word else ''.join(g) for word, g in itertools.groupby(line, lambda c: c not in ignore))


def lines(kind):
  def fn(out):
    real_world(False)
    make = kinds()[kind]
    o = make()
    ws = set(string.whitespace)

    def chars():
      for c in map(chr, range(sys.maxunicode + 1)):
        if not 0xd800 <= ord(c) < 0xe000:
          for line in (c, 'x' + c + 'x'):
            yield line, o.ApplyOnText(line), marked(o, line, ws)
    expect(out, kind + '.ApplyOnText: white space separates words, no other character does', chars(), bound='each character')

    def patterns():
      for n in range(9):
        for line in itertools.product(' \nxक', repeat=n):
          line = ''.join(line)
          yield line, o.ApplyOnText(line), marked(o, line, ws)
    expect(out, kind + '.ApplyOnText: words in order, white space unchanged', patterns(), bound='lines of up to 8 characters')

    def ignored():
      some = string.punctuation + ' \tazक'
      for ig in [''.join(p) for n in (1, 2, 3) for p in itertools.product(some, repeat=n)]:
        if len(ig) == 3 and not set(ig) & set('-^]\\['):
          continue
        o = make(ignore=ig)
        line = some + 'bm' + some[::-1]
        yield (ig, line), o.ApplyOnText(line), marked(o, line, ig)
    expect(out, kind + '.ApplyOnText: the characters to ignore stand for themselves', ignored(), bound='up to 3 characters to ignore')
  return fn


def real_world(load):
  _, _, far = modules()
  if not load:
    stubbed(far, lambda n: True)


def part(k, n):
  """Every n-th character of all."""
  for i in range(k, sys.maxunicode + 1, n):
    if i and not 0xd800 <= i < 0xe000:
      yield chr(i)


def texts(k, n):
  def fn(out):
    _, _, far = modules()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)  # OpenFst reports every text without output
    byte = pynini.union(*('[%d]' % i for i in range(1, 256))).optimize()
    same = far.Far.FstWrapper(byte.closure().optimize())

    def singles():
      for c in part(k, n):
        yield c, outcome(same.ApplyOnText, c), c
        if k == 0 or ord(c) < 0x20000:
          yield c, outcome(same.AcceptText, c), True
    expect(out, 'FstWrapper: the text itself is looked up (part %d)' % k, singles(), bound='each character')
    if k:
      return

    def pairs():
      for m in range(7):
        for t in itertools.product('[]\\क', repeat=m):
          t = ''.join(t)
          yield t, outcome(same.ApplyOnText, t), t
          yield t, outcome(same.AcceptText, t), True
          one = far.Far.FstWrapper(pynini.accep(pynini.escape(t)))
          for u in (t + '[', '\\' + t, t[1:] + ']'):
            yield (t, u), outcome(one.AcceptText, u), t == u
            yield (t, u), outcome(one.ApplyOnText, u), u if t == u else 'FstInputError'
    expect(out, 'FstWrapper: brackets and backslashes stand for themselves', pairs(), bound='up to 6 characters of 4')

    def best():
      for x, y in itertools.product((0, 1, 2), repeat=2):
        if x == y:
          continue
        f = pynini.union(pynini.cross('a', pynini.accep('x', weight=x)), pynini.cross('a', pynini.accep('y', weight=y)),
                         pynini.cross('b', '[91]\\]'))
        wr = far.Far.FstWrapper(f)
        yield 'a', outcome(wr.ApplyOnText, 'a'), 'x' if x < y else 'y'
        yield 'b', outcome(wr.ApplyOnText, 'b'), '[]'
        with warnings.catch_warnings(record=True) as caught:
          warnings.simplefilter('always')
          yield 'b', outcome(wr.AcceptText, 'b'), True
          yield 'ab', outcome(wr.AcceptText, 'ab'), False
        yield 'warned', [c.category for c in caught], [RuntimeWarning] * 2
        yield 'again', outcome(wr.ApplyOnText, 'a'), 'x' if x < y else 'y'
    expect(out, 'FstWrapper.ApplyOnText: the best output; what is not an acceptor is reported', best(), bound='6 weightings')
  return fn


def accessors(out):
  b, a, far = modules()
  table = [('brahmic.ToIso()', b.ToIso, 'brahmic:iso', 'FROM_BRAHMIC'), ('brahmic.Nfc()', b.Nfc, 'brahmic:nfc', 'BRAHMIC'),
           ('abjad.Nfc()', a.Nfc, 'abjad_alphabet:nfc', 'ARAB'),
           ('abjad.FromReversibleRoman()', a.FromReversibleRoman, 'abjad_alphabet:reversible_roman', 'TO_ARAB'),
           ('abjad.VisualNorm()', a.VisualNorm, 'abjad_alphabet:visual_norm', 'UR'),
           ('abjad.ReadingNorm()', a.ReadingNorm, 'abjad_alphabet:reading_norm', 'UR')]
  for s in b.SCRIPTS:
    for f in (s, s.lower(), s.upper()):
      table += [('brahmic.IsoTo(%r)' % f, lambda f=f: b.IsoTo(f), 'brahmic:iso', 'TO_' + s.upper()),
                ('brahmic.VisualNorm(%r)' % f, lambda f=f: b.VisualNorm(f), 'brahmic:visual_norm', s.upper()),
                ('brahmic.WellFormed(%r)' % f, lambda f=f: b.WellFormed(f), 'brahmic:wellformed', s.upper())]
  for _, l in b.VISUAL_NORM_LANGS:
    table.append(('brahmic.VisualNorm(%r)' % l, lambda l=l: b.VisualNorm(l), 'brahmic:visual_norm', l.upper()))
  for fname, get, label in (('VisualNorm', a.VisualNorm, 'abjad_alphabet:visual_norm'),
                            ('ReadingNorm', a.ReadingNorm, 'abjad_alphabet:reading_norm')):
    for key in real.keys(real.SCR + label + '.far'):
      for f in (key, key.lower()):
        table.append(('abjad.%s(%r)' % (fname, f), lambda get=get, f=f: get(f), label, key))

  files, seen = {}, {}

  def grammar(label, key):
    if (label, key) not in files:
      files[label, key] = real.grammar(label, key).fst
    return files[label, key]

  def held(o):
    return [v for v in vars(o).values() if isinstance(v, pynini.Fst)]

  def cases():
    for turn in 1, 2:  # what was loaded before makes no difference
      for name, get, label, key in table[::1 if turn == 1 else -1]:
        fst = outcome(lambda: held(get()))
        if isinstance(fst, str) or len(fst) != 1:
          yield name, fst, 'the FST %s of %s.far' % (key, label)
        else:
          if (id(fst[0]), label, key) not in seen:
            seen[id(fst[0]), label, key] = fst[0], pynini.isomorphic(fst[0], grammar(label, key))
          yield name, seen[id(fst[0]), label, key][1], True
    for name, get in (('IsoTo', b.IsoTo), ('VisualNorm', b.VisualNorm), ('WellFormed', b.WellFormed), ('abjad.VisualNorm', a.VisualNorm),
                      ('abjad.ReadingNorm', a.ReadingNorm)):
      yield name + "('zz')", outcome(get, 'zz'), 'KeyError'
  expect(out, 'accessors: each returns the grammar of its name', cases())

  roman = real.wrapped('ToReversibleRoman()', a.ToReversibleRoman())
  ok, w = rrv.covers(rrv.ustar(), roman.rel)
  out.check('abjad.ToReversibleRoman(): every text has an output', ok, w, lambda w: {'input': rrv.show(w)})


def tasks(tier):
  real.prebuild(['brahmic:iso', 'brahmic:nfc', 'brahmic:visual_norm', 'brahmic:wellformed', 'abjad_alphabet:nfc', 'abjad_alphabet:reversible_roman',
                 'abjad_alphabet:visual_norm', 'abjad_alphabet:reading_norm'])
  modules()
  n = 6
  return ([Task('words', words), Task('accessors', accessors, first=True)] + [Task('lines of ' + k, lines(k)) for k in ('NormalizingAcceptor', 'Normalizer')] +
          [Task('texts %d' % k, texts(k, n), first=True) for k in range(n)])
