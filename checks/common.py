"""Shared parts of the checks."""

import functools
import unicodedata

import data
import real
import rrv
import spec

TRUSTED = [
    'rrv.cpp: the decision procedures on rational relations (written for this check; every witness it gives is replayed on the real code)',
    'OpenFst/Pynini as the run-time semantics of composition and shortest path, and its FST file format',
    "the sandbox's stand-in for Bazel (/opt/vp/nis/driver.py), which runs the repository's grammar compilers",
    'CPython 3.12 and its unicodedata (UCD 15.0)',
]
ASSUME = [
    'texts are sequences of Unicode scalar values other than NUL (label 0 is epsilon in OpenFst)',
    'memory and stack suffice for composition and shortest path on the text at hand',
]

BLOCK = dict(zip(data.SCRIPTS, (
    'BENGALI BUGINESE DEVANAGARI GUJARATI GURMUKHI KANNADA LEPCHA LIMBU MALAYALAM MEETEI NEWA ORIYA '
    'SINHALA SYLOTI TAKRI TAMIL TELUGU TAGALOG THAANA TIRHUTA').split()))


def _assigned():
  for i in range(1, 0x110000):
    if not 0xD800 <= i < 0xE000 and not 0xAC00 <= i <= 0xD7A3:
      yield chr(i)


@functools.lru_cache(None)
def ucd():
  """(characters that NFC changes, {pair: its primary composite})."""
  bad, comp = [], {}
  for c in _assigned():
    if unicodedata.normalize('NFC', c) != c:
      bad.append(c)
    d = unicodedata.decomposition(c)
    if d and not d.startswith('<') and ' ' in d and unicodedata.normalize('NFC', c) == c:
      comp[''.join(chr(int(x, 16)) for x in d.split())] = c
  return bad, comp


def named(words):
  """Characters whose names start with one of these words."""
  return {c for c in _assigned() if unicodedata.name(c, '').split(' ')[0] in words}


def projection(chars, ccc):
  """The homomorphism that takes each character to its full canonical decomposition
  without the marks of other (non-zero) combining classes than ccc."""
  image = {c: ''.join(x for x in unicodedata.normalize('NFD', c) if unicodedata.combining(x) in (0, ccc))
           for c in chars}
  return spec.machine('', lambda s, c: ('', image.get(c, c)), lambda s: '', set(image))


def classes(chars):
  return sorted({unicodedata.combining(x) for c in chars for x in unicodedata.normalize('NFD', c)} - {0}) or [0]


def canonical(out, name, g, chars, dom=None):
  """g takes each text to a canonically equivalent one.

  Two texts are equivalent iff for each combining class their decompositions agree on
  starters and marks of that class; characters outside `chars` count as themselves."""
  for c in classes(chars):
    h = projection(chars, c)
    ok, w = rrv.agree((g.rel @ h).trim(), h)

    def replay(w):
      t = rrv.show(w[0])
      got = g.apply(t)
      n = lambda s: unicodedata.normalize('NFD', s)
      return {'input': t, 'expected': 'canonically equivalent to %r' % t, 'got': got,
              'replayed': got is None or n(got) != n(t), 'grammar': g.name}
    out.check('%s: output canonically equivalent to input (combining class %d)' % (name, c), ok, w, replay)


def composed(out, name, g, chars):
  """No output has a character of `chars` that NFC decomposes, or a pair it composes to one."""
  bad, comp = ucd()
  pat = [c for c in bad if c in chars] + [p for p, c in comp.items() if c in chars]
  if not pat:
    return

  def replay(w):
    t = rrv.show(w[0])
    got = g.apply(t)
    return {'input': t, 'expected': 'no uncomposed pair or excluded character', 'got': got,
            'replayed': any(p in got for p in pat), 'grammar': g.name}
  out.empty('%s: output fully composed' % name, (g.rel @ (rrv.ustar() + rrv.strings(pat) + rrv.ustar())).trim(),
            replay)


def idempotent(out, name, g, sp=None):
  n = (sp or g.rel).minpair()
  ok, w = rrv.agree((n @ n).trim(), n)

  def replay(w):
    t = rrv.show(w[0])
    a = g.apply(t)
    b = g.apply(a)
    return {'input': t, 'expected': a, 'got': b, 'replayed': a != b, 'grammar': g.name}
  out.check('%s: applying it again changes nothing' % name, ok, w, replay)


def functions(files):
  """The functions that these files of /repo define."""
  import ast
  import os
  out = []
  for f in files:
    f = os.path.normpath('nisaba/scripts/' + f)
    p = '/repo/' + f
    if not os.path.exists(p):
      continue
    with open(p, encoding='utf8') as h:
      tree = ast.parse(h.read())

    def walk(node, prefix, f=f):
      for x in ast.iter_child_nodes(node):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
          out.append('%s:%s%s' % (f, prefix, x.name))
        if isinstance(x, (ast.ClassDef, ast.FunctionDef)):
          walk(x, prefix + x.name + '.')
    walk(tree, '')
  return out
