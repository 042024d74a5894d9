"""Symbolic execution of Python functions on real numbers: every path, every value.

The functions run as they are; numbers are proxies that build terms, and a condition on them forks."""

import sys

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # pylint: disable=g-import-not-at-top

STATS = {'paths': 0, 'queries': 0}


class Exec:
  """The path being executed."""

  def __init__(self, assume=()):
    self.solver = z3.Solver()
    self.solver.add(*assume)
    self.trail, self.pos = [], 0

  def decide(self, cond):
    """A branch on cond."""
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    if self.pos < len(self.trail):
      b = self.trail[self.pos][0]
    else:
      STATS['queries'] += 2
      can = self.solver.check(cond) != z3.unsat
      cannot = self.solver.check(z3.Not(cond)) != z3.unsat
      if not (can and cannot):
        return can
      b = True
      self.trail.append([b, True])  # the other side is to be taken too
    self.pos += 1
    self.solver.add(cond if b else z3.Not(cond))
    return b

  def proves(self, cond):
    """None if cond holds on this path, or a model."""
    STATS['queries'] += 1
    r = self.solver.check(z3.Not(cond))
    if r == z3.unsat:
      return None
    if r == z3.unknown:
      raise RuntimeError('solver: unknown')
    return self.solver.model()


_ex = None


def paths(fn):
  """Runs fn once for each way its conditions can turn out, from the present path; yields its results, each on its path."""
  global _ex
  ex = _ex
  outer, pos = ex.trail, ex.pos
  trail = []
  while True:
    ex.trail, ex.pos = trail, 0
    ex.solver.push()
    try:
      r = fn()
      STATS['paths'] += 1
      yield r
    finally:
      ex.solver.pop()
      trail = ex.trail
      ex.trail, ex.pos = outer, pos
    while trail and not trail[-1][1]:
      trail.pop()
    if not trail:
      return
    trail[-1] = [not trail[-1][0], False]


def start(*assume):
  global _ex
  _ex = Exec(assume)
  return _ex


def here():
  return _ex


def term(x):
  return x.t if isinstance(x, Num) else z3.RealVal(x)


class Cond:
  """A condition on numbers."""

  def __init__(self, t):
    self.t = t

  def __bool__(self):
    return _ex.decide(self.t)


class Num:
  """A real number."""

  def __init__(self, t):
    self.t = t

  def __add__(self, o):
    return Num(self.t + term(o))

  def __sub__(self, o):
    return Num(self.t - term(o))

  def __rsub__(self, o):
    return Num(term(o) - self.t)

  def __mul__(self, o):
    return Num(self.t * term(o))

  def __truediv__(self, o):
    if _ex.decide(term(o) == 0):
      raise ZeroDivisionError
    return Num(self.t / term(o))

  def __rtruediv__(self, o):
    if _ex.decide(self.t == 0):
      raise ZeroDivisionError
    return Num(term(o) / self.t)

  def __neg__(self):
    return Num(-self.t)

  def __abs__(self):
    return Num(z3.If(self.t < 0, -self.t, self.t))

  def __lt__(self, o):
    return Cond(self.t < term(o))

  def __le__(self, o):
    return Cond(self.t <= term(o))

  def __gt__(self, o):
    return Cond(self.t > term(o))

  def __ge__(self, o):
    return Cond(self.t >= term(o))

  def __eq__(self, o):
    return Cond(self.t == term(o))

  def __ne__(self, o):
    return Cond(self.t != term(o))

  def __bool__(self):
    return _ex.decide(self.t != 0)

  def __format__(self, spec):
    return '#'

  def __repr__(self):
    return str(self.t)

  __radd__ = __add__
  __rmul__ = __mul__
  __hash__ = None


def number(name):
  return Num(z3.Real(name))


def least(ts):
  ts = list(ts)
  m = ts[0]
  for t in ts[1:]:
    m = z3.If(t < m, t, m)
  return m


def most(ts):
  ts = list(ts)
  m = ts[0]
  for t in ts[1:]:
    m = z3.If(t > m, t, m)
  return m
