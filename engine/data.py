"""The declared data tables of /repo, read independently of the code under check.

A table is the .tsv that a grammar loads; it is declared as the concatenation of
some text protos. Which ones is taken from the build files; everything else
(parsing, Unicode names, prefixes) is done here.
"""

import functools
import os
import re
import unicodedata

import build

REPO = '/repo'
SCR = 'nisaba/scripts/'


class DataError(Exception):
  pass


_TOKEN = re.compile(r'''\s+|\#[^\n]*|(?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')|(?P<id>[A-Za-z_0-9.+-]+)|(?P<op>[:{}\[\],;<>])''')
_ESC = {'n': '\n', 't': '\t', 'r': '\r', '"': '"', "'": "'", '\\': '\\', '?': '?'}


def _unescape(s):
  def f(m):
    e = m.group(1)
    if e in _ESC:
      return _ESC[e]
    if e[0] in 'uU':
      return chr(int(e[1:], 16))
    raise DataError('escape in %r' % s)
  return re.sub(r'\\(u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|.)', f, s[1:-1], flags=re.S)


def textproto(text):
  """Text format -> list of (field, value); a value is a string, a word or such a list."""
  toks, i = [], 0
  while i < len(text):
    m = _TOKEN.match(text, i)
    if not m:
      raise DataError('cannot read %r' % text[i:i + 40])
    i = m.end()
    if m.lastgroup:
      toks.append((m.lastgroup, m.group(m.lastgroup)))
  toks.append(('op', 'end'))
  pos = 0

  def peek(x):
    return toks[pos] == ('op', x)

  def value():
    nonlocal pos
    if peek('{') or peek('<'):
      pos += 1
      return fields()
    if toks[pos][0] == 'str':
      s = ''
      while toks[pos][0] == 'str':
        s += _unescape(toks[pos][1])
        pos += 1
      return s
    if toks[pos][0] != 'id':
      raise DataError('value expected')
    pos += 1
    return toks[pos - 1][1]

  def fields():
    nonlocal pos
    out = []
    while not (peek('}') or peek('>') or peek('end')):
      k, name = toks[pos]
      if k != 'id':
        raise DataError('field expected, not %r' % name)
      pos += 1
      if peek(':'):
        pos += 1
      if peek('['):
        pos += 1
        while not peek(']'):
          out.append((name, value()))
          if peek(','):
            pos += 1
        pos += 1
      else:
        out.append((name, value()))
      while peek(',') or peek(';'):
        pos += 1
    if not peek('end'):
      pos += 1
    return out

  return fields()


def resolve(prefixes, name):
  found = {}
  for p in set(prefixes) | {''}:
    try:
      c = unicodedata.lookup((p + ' ' + name).lstrip())
    except KeyError:
      continue
    if unicodedata.category(c[0]) != 'Cc':
      found[(p + ' ' + name).lstrip()] = c
  if len(found) != 1:
    raise DataError('%r with %r: %r' % (name, list(prefixes), found))
  return next(iter(found.values()))


def _side(prefixes, unames, raw):
  if not unames:
    return raw
  s = ''.join(resolve(prefixes, n) for n in unames)
  if raw and raw != s:
    raise DataError('%r is not %r' % (unames, raw))
  return s


def parse(text):
  """Text proto -> list of (source, destination or None)."""
  top = textproto(text)
  up = [v for k, v in top if k == 'uname_prefix']
  tp = [v for k, v in top if k == 'to_uname_prefix']
  out = []
  for k, item in top:
    if k != 'item':
      continue
    get = lambda n, i=item: [v for f, v in i if f == n]
    src = _side(up, get('uname'), ''.join(get('raw')[-1:]))
    if not src:
      raise DataError('item without a source')
    dst = _side(tp or up, get('to_uname'), ''.join(get('to_raw')[-1:]))
    out.append((src, dst or None))
  return out


def sources(label):
  """Text protos that make up //pkg:name.tsv; [] if declared empty; None if undeclared."""
  d = build.driver
  build.actions()
  if label not in d.OUTPUTS:
    return None
  t = d.TARGETS[d.OUTPUTS[label]]
  out = []
  for s in t['srcs']:
    for f in d.files_of(s):
      if f in d.OUTPUTS:
        out += sources(f) or []
      elif f.endswith('.textproto'):
        out.append(f)
  return out


@functools.lru_cache(None)
def table(pkg, name):
  """Rows of the table data/<...>/name.tsv of package pkg (under nisaba/scripts/)."""
  label = '//%s%s:%s.tsv' % (SCR, pkg, name)
  src = sources(label)
  if src is None:
    raise DataError('no table ' + label)
  text = ''
  for f in src:
    with open(os.path.join(REPO, build.driver.logical(f)), encoding='utf8') as h:
      text += h.read() + '\n'
  return tuple(parse(text))


def has(pkg, name):
  return sources('//%s%s:%s.tsv' % (SCR, pkg, name)) is not None


def lhs(pkg, name):
  return [a for a, _ in table(pkg, name)]


def rules(pkg, name):
  return [(a, b or '') for a, b in table(pkg, name)]


def maps(pkg, name):
  return [(a, a if b is None else b) for a, b in table(pkg, name)]


def chars(both=(), left=()):
  """Characters of both sides of some tables and of the input side of others."""
  out = set()
  for pkg, name in both:
    for a, b in table(pkg, name):
      out.update(a + (b or ''))
  for pkg, name in left:
    for a, _ in table(pkg, name):
      out.update(a)
  return out


# --- Brahmic ---

SCRIPTS = ('Beng Bugi Deva Gujr Guru Knda Lepc Limb Mlym Mtei Newa Orya Sinh '
           'Sylo Takr Taml Telu Tglg Thaa Tirh').split()
JOINERS = '\u200b\u200c\u200d'


def brahmic(script, name):
  return 'brahmic/data/' + script, name


@functools.lru_cache(None)
def script_chars(script):
  b = functools.partial(brahmic, script)
  return frozenset(chars(
      left=[b(n) for n in 'accept coda consonant dead_consonant standalone subjoined_consonant '
            'virama vowel vowel_length_sign vowel_sign'.split()],
      both=[b(n) for n in 'nfc reading_norm visual_rewrite'.split()]))


def sigma(script):
  return script_chars(script) | set(JOINERS)
