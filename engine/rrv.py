"""Python face of rrv.cpp: relations over strings, and decision procedures on them.

A relation `R` is a transducer over bytes (UTF-8) unless stated otherwise. Nothing
here uses OpenFst or Pynini except `from_pynini`, which only reads arcs.
"""

import ctypes
import hashlib
import os
import subprocess

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


def _lib():
  src = os.path.join(HERE, 'rrv.cpp')
  with open(src, 'rb') as f:
    key = hashlib.sha256(f.read()).hexdigest()[:16]
  for d in (os.path.join(os.path.dirname(HERE), '.build'), '/tmp/verif-build.%d' % os.getuid()):
    try:
      os.makedirs(d, exist_ok=True)
      so = os.path.join(d, 'librrv-%s.so' % key)
      if not os.path.exists(so):
        tmp = so + '.%d' % os.getpid()
        subprocess.run(['g++', '-O2', '-std=c++17', '-shared', '-fPIC', '-w', '-o', tmp, src], check=True)
        os.replace(tmp, so)
      return ctypes.CDLL(so)
    except OSError:
      continue
  raise RuntimeError('cannot build rrv')


L = _lib()
for _n in ('rr_narcs', 'rr_explored', 'rr_ties'):
  getattr(L, _n).restype = ctypes.c_int64
L.rr_limit.argtypes = [ctypes.c_int64]
L.rr_load.argtypes = [ctypes.c_char_p, ctypes.c_int64]
_I = ctypes.POINTER(ctypes.c_int32)
_F = ctypes.POINTER(ctypes.c_float)
INF = np.float32(1e30)

STATS = {'queries': 0, 'explored': 0}


class Undecided(Exception):
  pass


def _ip(a):
  return a.ctypes.data_as(_I)


def _fp(a):
  return a.ctypes.data_as(_F)


def _wit(k):
  n = L.rr_wlen(k)
  a = np.zeros(max(n, 1), np.int32)
  L.rr_wget(k, _ip(a))
  return [int(x) for x in a[:n]]


def show(labels):
  """Labels (bytes, or code points) as text, for messages."""
  try:
    return bytes(labels).decode('utf-8')
  except (ValueError, UnicodeDecodeError):
    return ''.join(chr(x) if x < 0x110000 else '?' for x in labels)


class R:
  """A rational relation; acceptors are identity relations on their language."""
  __slots__ = ('h', '__weakref__')

  def __init__(self, h):
    if h == -2:
      raise Undecided('state limit')
    self.h = h

  def __del__(self):
    try:
      L.rr_free(self.h)
    except Exception:  # interpreter shutdown
      pass

  @property
  def states(self):
    return L.rr_states(self.h)

  @property
  def arcs(self):
    return L.rr_narcs(self.h)

  def __matmul__(self, o):
    return R(L.rr_compose(self.h, o.h))

  def __or__(self, o):
    return union(self, o)

  def __add__(self, o):
    return R(L.rr_concat(self.h, o.h))

  def star(self):
    return R(L.rr_star(self.h))

  def plus(self):
    return self + self.star()

  def ques(self):
    return union(self, acc(''))

  def inv(self):
    return R(L.rr_invert(self.h))

  def rev(self):
    return R(L.rr_reverse(self.h))

  def dom(self):
    return R(L.rr_project(self.h, 0))

  def ran(self):
    return R(L.rr_project(self.h, 1))

  def trim(self):
    return R(L.rr_trim(self.h))

  def unweight(self):
    return R(L.rr_unweight(self.h))

  def min(self):
    """Minimal deterministic acceptor of the input language."""
    return R(L.rr_min(self.h))

  def minpair(self):
    """The same relation, minimized with (input, output) pairs as letters."""
    return R(L.rr_minpair(self.h))

  def squeeze(self):
    """The same relation with fewer states, if its outputs are written late."""
    h = L.rr_squeeze(self.h)
    return self if h == -3 else R(h)

  def comp(self, labels=None):
    a = np.array(sorted(labels or range(1, 256)), np.int32)
    return R(L.rr_complement(self.h, len(a), _ip(a)))

  def minus(self, o, labels=None):
    return (self @ o.comp(labels)).trim()

  def utf8(self):
    return R(L.rr_utf8(self.h))

  def empty(self):
    return not L.rr_shortest(self.h)

  def shortest(self):
    """(input, output) label lists of a shortest accepted pair, or None."""
    return (_wit(1), _wit(2)) if L.rr_shortest(self.h) else None

  def best(self, maxstates=2000000):
    """The minimum-weight function; second value: tie witnesses (input prefixes)."""
    b = R(L.rr_best(self.h, maxstates))
    n, ties = L.rr_ties(), []
    while L.rr_tie(len(ties)) and len(ties) < 200:
      ties.append(_wit(1))
    return b, n, ties

  def labels(self, out=False):
    d = self.dump()
    return {int(x) for x in d[2 if out else 1]} - {0}

  def dump(self):
    n, m = self.states, self.arcs
    src, il, ol, dst = (np.zeros(max(m, 1), np.int32) for _ in range(4))
    w, fin = np.zeros(max(m, 1), np.float32), np.zeros(max(n, 1), np.float32)
    L.rr_dump(self.h, _ip(src), _ip(il), _ip(ol), _ip(dst), _fp(w), _fp(fin))
    return src[:m], il[:m], ol[:m], dst[:m], w[:m], fin[:n]

  def apply(self, text, limit=8):
    """Some outputs for an input string (or labels)."""
    r = (acc(text) @ self)
    outs = []
    for _ in range(limit):
      p = r.shortest()
      if p is None:
        break
      outs.append(p[1])
      r = (r @ acc_labels(p[1]).comp(set(range(1, 256)) | r.labels(True)))
    return [show(o) for o in outs]


def make(n, start, arcs, finals):
  """arcs: (src, il, ol, dst[, w]); finals: states or {state: weight}."""
  src = np.array([a[0] for a in arcs] or [0], np.int32)
  il = np.array([a[1] for a in arcs] or [0], np.int32)
  ol = np.array([a[2] for a in arcs] or [0], np.int32)
  dst = np.array([a[3] for a in arcs] or [0], np.int32)
  w = np.array([a[4] if len(a) > 4 else 0 for a in arcs] or [0], np.float32)
  fin = np.full(max(n, 1), INF, np.float32)
  for s in finals:
    fin[s] = finals[s] if isinstance(finals, dict) else 0
  return R(L.rr_new(n, start, len(arcs), _ip(src), _ip(il), _ip(ol), _ip(dst), _fp(w), _fp(fin)))


def enc(text):
  if isinstance(text, str):
    return list(text.encode('utf-8', 'surrogatepass'))
  return list(text)


def acc_labels(labels):
  n = len(labels)
  return make(n + 1, 0, [(i, l, l, i + 1) for i, l in enumerate(labels)], [n])


def acc(text):
  return acc_labels(enc(text))


def cross(a, b):
  a, b = enc(a), enc(b)
  n = max(len(a), len(b))
  return make(n + 1, 0, [(i, a[i] if i < len(a) else 0, b[i] if i < len(b) else 0, i + 1) for i in range(n)], [n])


def union(*rs):
  hs = np.array([r.h for r in rs] or [0], np.int32)
  return R(L.rr_union(len(rs), _ip(hs)))


def empty():
  return make(1, 0, [], [])


def cat(*rs):
  out = acc('')
  for r in rs:
    out = out + r
  return out


def strings(items, minimize=True):
  """Acceptor of a finite set of strings, as a trie."""
  arcs, fin, nodes = [], set(), {}
  n = 1
  for s in items:
    c = 0
    for b in enc(s):
      if (c, b) not in nodes:
        nodes[c, b] = n
        arcs.append((c, b, b, n))
        n += 1
      c = nodes[c, b]
    fin.add(c)
  r = make(n, 0, arcs, fin)
  return r.min() if minimize and fin else r


def pairs(items):
  """Finite relation from (input, output) pairs."""
  items = list(items)
  return union(*[cross(a, b) for a, b in items]) if items else empty()


def byte_range(lo, hi):
  return make(2, 0, [(0, b, b, 1) for b in range(lo, hi + 1)], [1])


_C = {}


def uchar():
  """Any Unicode scalar value except NUL, as UTF-8."""
  if 'u' not in _C:
    t = byte_range(0x80, 0xBF)
    b = byte_range
    _C['u'] = union(
        b(1, 0x7F), b(0xC2, 0xDF) + t, b(0xE0, 0xE0) + b(0xA0, 0xBF) + t,
        b(0xE1, 0xEC) + t + t, b(0xED, 0xED) + b(0x80, 0x9F) + t,
        b(0xEE, 0xEF) + t + t, b(0xF0, 0xF0) + b(0x90, 0xBF) + t + t,
        b(0xF1, 0xF3) + t + t + t, b(0xF4, 0xF4) + b(0x80, 0x8F) + t + t).min()
  return _C['u']


def ustar():
  """Every Unicode string."""
  if 's' not in _C:
    _C['s'] = uchar().star().min()
  return _C['s']


def from_pynini(fst, utf8=False):
  """Reads the arcs of a Pynini FST; utf8: its labels are code points."""
  import pynini
  if fst.arc_type() != 'standard':
    raise ValueError('arc type ' + fst.arc_type())
  if fst.input_symbols() or fst.output_symbols():
    fst = fst.copy()
    fst.set_input_symbols(None)
    fst.set_output_symbols(None)
  if type(fst) is not pynini.Fst or fst.fst_type() != 'vector':
    fst = pynini.Fst.from_pywrapfst(fst)
  buf = fst.write_to_string()
  h = L.rr_load(buf, len(buf))
  if h == -1:
    raise ValueError('cannot read the FST')
  r = R(h)
  return r.utf8() if utf8 else r


# --- decisions. Each returns (verdict, witness); a witness is what to replay. ---


def _q(v):
  STATS['queries'] += 1
  STATS['explored'] += max(0, L.rr_explored())
  if v == -2:
    raise Undecided('limit reached')
  return v


def included(a, b):
  """Input language of a within that of b; witness: labels of a string in a only."""
  return (True, None) if _q(L.rr_incl(a.h, b.h)) else (False, _wit(1))


def covers(spec, a):
  """Input language of spec within that of a. Like included(spec, a), but quick if
  the guesses of a follow from those of spec."""
  if _q(L.rr_sim(spec.h, a.h)) == 1:
    return True, None
  return included(spec, a)


def agree(a, b):
  """Any output of a equals any output of b, on every common input."""
  if _q(L.rr_agree(a.h, b.h)):
    return True, None
  return False, (_wit(1), _wit(2), _wit(3))


def functional(a):
  return agree(a, a)


def equiv(a, b):
  """Same domain, and the same single output everywhere."""
  for x, y, side in ((a, b, 'first'), (b, a, 'second')):
    ok, w = included(x, y)
    if not ok:
      return False, (w, side)
  return agree(a, b)


def relincl(a, b, maxdelay=64):
  """Relation a within relation b; witness: a pair of a that is not in b."""
  return (True, None) if _q(L.rr_relincl(a.h, b.h, maxdelay)) else (False, (_wit(1), _wit(2)))
