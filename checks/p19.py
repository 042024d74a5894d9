"""Expressions over symbols: what they accept, contain and match."""

import functools
import itertools

import common
import real
from p18 import Failed, attempt, eq, guarded
from run import Task

N = 'natural_translit/utils/'
FILES = [N + 'expression.py', N + 'symbol.py', N + 'type_op.py', N + 'inventory.py', N + 'operation.py']
TRUSTED = ['CPython']
ASSUMPTIONS = ['symbols are told apart by identity only, so that three of them stand for any', 'expressions and pairs up to the stated size stand for all',
               'dead alternatives (an empty Or within a Cat) and ANY within a Cat are left out']
LEVEL = 'exploration'
RULE = 'every expression, pair or context within the bound, once; all are distinct'


@functools.lru_cache(None)
def modules():
  real.api(['//nisaba/scripts/natural_translit/utils:expression'])
  from nisaba.scripts.natural_translit.utils import expression, symbol
  syms = [symbol.Symbol(alias=c, text=c, raw=c) for c in 'abc']
  return expression, symbol, dict(zip('abc', syms))


class Term:
  """What an expression should be. kind: sym, cat, or; items: terms; lists: its texts in order of precedence; states."""

  def __init__(self, kind, items, lists, states, name):
    self.kind, self.items, self.lists, self.states, self.name = kind, items, lists, states, name
    self.texts = frozenset(lists)

  def real(self):
    """The expression, built by the code."""
    e, _, syms = modules()
    if self.kind == 'sym':
      return e.Atomic.get_instance(syms[self.name])
    args = [a.real() for a in self.args]
    return e.Cat(*args) if self.kind == 'cat' else e.Or(*args)


def letter(c):
  return Term('sym', [], [c], 1, c)


def parts(t, kind):
  """What becomes of an argument of Cat or Or: its items if it is of that kind, its item if it has one only."""
  if t.kind == kind:
    return t.items
  if t.kind != 'sym' and len(t.items) == 1:
    return parts(t.items[0], kind)
  return [t]


def cat(*args):
  items = [p for a in args for p in parts(a, 'cat')]
  lists = ['']
  for i in items:
    lists = [x + y for x in lists for y in i.lists]
  t = Term('cat', items, lists, sum(i.states for i in items), 'Cat(%s)' % ', '.join(a.name for a in args))
  t.args = args
  return t


def alt(*args):
  items = []

  def texts():
    return {x for i in items for x in i.lists}

  def states():
    return sum(i.states for i in items)

  def put(t):
    mine = texts()
    if not t.lists:
      return  # accepts nothing
    if mine and mine >= t.texts:
      if not (t.texts >= mine and t.states < states()):
        return
      items.clear()
      put(t)
    elif mine and t.texts > mine:
      items.clear()
      put(t)
    elif t.kind == 'or':
      for i in t.items:
        put(i)
    elif t.kind != 'sym' and len(t.items) == 1:
      put(t.items[0])
    else:
      items.append(t)
  for a in args:
    put(a)
  t = Term('or', items, [x for i in items for x in i.lists], states(), 'Or(%s)' % ', '.join(a.name for a in args))
  t.args = args
  return t


@functools.lru_cache(None)
def pool(deep):
  """Expressions, by size."""
  one = [letter('a'), letter('b'), cat()]
  two = one + [f(x, y) for f in (cat, alt) for x in one for y in one] + [cat(x) for x in one] + [alt(x) for x in one]
  if not deep:
    return two
  more = [f(x, y) for f in (cat, alt) for x in two for y in two]
  more += [f(x, y, z) for f in (cat, alt) for x in one + [letter('c')] for y in one for z in one + [letter('c')]]
  return two + more


def text(symbols):
  return ''.join(s.alias if s.alias != 'eps' else '' for s in symbols)


def alone(t, x):
  """What is made of x shares nothing with it."""
  e, _, syms = modules()
  made = {'copy': x.copy, 'Cat': lambda: e.Cat(x), 'Or': lambda: e.Or(x), 'Cat with a': lambda: e.Cat(x, syms['a']), 'Or with c': lambda: e.Or(syms['c'], x),
          'repeat(2)': lambda: x.repeat(2), 'repeat(1)': lambda: x.repeat(1), 'ques': x.ques, 'ques(False)': lambda: x.ques(False)}

  def show(y):
    return [[s.alias for s in l] for l in y.symbols()]

  def grow(y, done):
    """Adds to the expression and to those in it."""
    for i in list(y):
      if i is not y:
        grow(i, done)
    if isinstance(y, (e.Cat, e.Or)):
      y.add(syms['c'])
      y.add(syms['b'])
      done.append(y)
  before = show(x)
  for how, f in made.items():
    y = f()
    done = []
    grow(y, done)
    eq('%s, after adding to %s of it' % (t.name, how), show(x), before)
    if any(d is x for d in done):
      raise Failed(dict(input='%s of %s' % (how, t.name), expected='another expression', got='the same one'))
  if t.kind != 'sym' and t.lists:
    again = t.real()
    others = {'copy': again.copy(), 'Cat with a': e.Cat(again, syms['a']), 'Or with c': e.Or(syms['c'], again), 'repeat(2)': again.repeat(2), 'ques': again.ques()}
    was = {how: show(y) for how, y in others.items()}
    grow(again, [])
    for how, y in others.items():
      eq('%s of %s, after adding to the latter' % (how, t.name), show(y), was[how])


def built(part, n):
  def fn(out):
    e, s, _ = modules()

    def run():
      k = 0
      for t in pool(True)[part::n]:
        k += 1
        x = t.real()
        got = attempt(lambda: [text(l) for l in x.symbols()])
        if t.lists:
          eq('symbols of ' + t.name, got, t.lists)
          eq('an empty list is that of ε', [l for l in x.symbols() if s.Symbol.CTRL.eps in l and len(l) > 1], [])
        else:
          eq('symbols of ' + t.name, [[y.is_nor() or y.alias for y in l] for l in x.symbols()], [['nor']])
        eq('states of ' + t.name, x.state_count(), t.states)
        eq('items of ' + t.name, len(x), 1 if t.kind == 'sym' else len(t.items))
        c = x.copy()
        eq('copy of ' + t.name, (type(c) is type(x), str(c), [text(l) for l in c.symbols()] if t.lists else None, c is not x),
           (True, str(x), t.lists or None, True))
        eq('is_any, is_eps, is_nor of ' + t.name, (x.is_any(), x.is_eps(), x.is_nor()), (False, False, False))
        for times in range(7 if len(t.lists) < 3 else 4):
          want = cat(*[t] * times)
          eq('%s.repeat(%d)' % (t.name, times), [text(l) for l in x.repeat(times).symbols()] if t.lists else None, want.lists if t.lists else None)
        for pref, want in ((True, alt(t, cat())), (False, alt(cat(), t))):
          eq('%s.ques(%s)' % (t.name, pref), [text(l) for l in x.ques(pref).symbols()], want.lists)
        alone(t, x)
        eq('unchanged: ' + t.name, [text(l) for l in x.symbols()] if t.lists else None, t.lists or None)
        if t.kind == 'cat':
          before = str(x)
          c.add(e.Atomic.CTRL.eps, s.Symbol.CTRL.bos, modules()[2]['c'])
          eq('%s.add(ε, c)' % t.name, ([text(l) for l in c.symbols()], str(x)), ([l + 'c' for l in t.lists], before))
        if t.kind == 'or':
          before = str(x)
          c.add(e.Atomic.CTRL.nor, s.Symbol.CTRL.bos, modules()[2]['c'])
          eq('%s.add(c)' % t.name, (sorted(text(l) for l in c.symbols()), str(x)), (sorted(t.lists + ['c'] * ('c' not in t.lists)), before))
          x.add(e.Expression.ANY, modules()[2]['b'])
          eq('%s.add(ANY)' % t.name, (x.is_any(), len(x)), (True, 1))
      return k
    guarded(out, 'expressions denote their symbol lists, in order (part %d)' % part, 'Cat and Or of two expressions of up to two parts, or of three symbols',
            run, backend='enumeration')
  return fn


def within(w, s, head, tail):
  if head and tail:
    return w == s
  if head:
    return s.startswith(w)
  if tail:
    return s.endswith(w)
  return w in s


def holds(x, y, head, tail):
  """Some text of y is within one of x."""
  return any(not w or within(w, s, head, tail) for w in y.texts for s in x.texts or {''})


def forms(t):
  """The expression, and the symbol if it is one."""
  x = t.real()
  return [x, x.symbol] if t.kind == 'sym' else [x]


def empty(t):
  return t.kind != 'sym' and not t.items


def related(part, n):
  def fn(out):
    def run():
      k = 0
      small = pool(False)
      some = [(x, y) for x in pool(True)[part::n] for y in small] + [(y, x) for x in pool(True)[part::n] for y in small]
      cache = {}

      def of(t):
        if id(t) not in cache:
          cache[id(t)] = forms(t)
        return cache[id(t)]
      for a, b in some:
        for x, y in itertools.product(of(a), of(b)):
          k += 1
          w = '%s %s and %s %s' % (type(x).__name__, a.name, type(y).__name__, b.name)
          eq('accepts: ' + w, x.accepts(y), bool(b.texts) and a.texts >= b.texts)
          eq('is_equivalent: ' + w, x.is_equivalent(y), bool(a.texts) and a.texts == b.texts)
          if not a.texts:
            continue
          for head, tail in itertools.product((False, True), repeat=2):
            want = holds(a, b, head, tail)
            eq('contains, %s %s: %s' % (head, tail, w), x.contains(y, head, tail), want)
            eq('is_contained, %s %s: %s' % (head, tail, w), y.is_contained(x, head, tail), want)
          eq('matches: ' + w, x.matches(y), holds(a, b, True, True))
          needs = empty(b) and not empty(a)
          want = not needs and holds(a, b, True, False)
          eq('head_matches: ' + w, (x.head_matches(y), y.is_prefix(x)), (want, want))
          want = not needs and holds(a, b, False, True)
          eq('tail_matches: ' + w, (x.tail_matches(y), y.is_suffix(x)), (want, want))
      return k
    guarded(out, 'acceptance, containment and matching are those of the symbol lists (part %d)' % part,
            'each expression with each one of up to two parts, both ways', run, backend='enumeration')
  return fn


def lists(out):
  def run():
    e, _, syms = modules()
    k = 0
    words = [''.join(w) for n in range(1, 7) for w in itertools.product('ab', repeat=n)]
    for s in words:
      x = e.Cat(*[syms[c] for c in s])
      for w in words:
        if len(w) <= 4:
          for head, tail in itertools.product((False, True), repeat=2):
            k += 1
            eq('%s in %s, %s %s' % (w, s, head, tail), x.contains_symbol_list([syms[c] for c in w], head, tail), within(w, s, head, tail))
    return k
  guarded(out, 'containment of a symbol list in another one', 'lists of up to 6 symbols of 2', run, backend='enumeration')


def anything(out):
  def run():
    e, s, _ = modules()
    k = 0
    any_ = e.Expression.ANY
    for t in pool(False):
      if not t.texts:
        continue
      for x in forms(t):
        k += 1
        eq('ANY and ' + t.name, [any_.accepts(x), x.accepts(any_), any_.is_equivalent(x), x.is_equivalent(any_)], [True, True, False, False])
        for head, tail in itertools.product((False, True), repeat=2):
          eq('ANY contains ' + t.name, [any_.contains(x, head, tail), x.contains(any_, head, tail)], [True, True])
        eq('ANY matches ' + t.name, [f(y) for p, y in ((any_, x), (x, any_)) for f in (p.matches, p.head_matches, p.tail_matches, p.is_prefix, p.is_suffix)],
           [True] * 10)
    eq('ANY and ANY', [any_.accepts(any_), any_.is_equivalent(any_), any_.contains(any_), any_.is_any(), any_.copy() is any_], [True] * 5)
    for nor in (e.Atomic.CTRL.nor, s.Symbol.CTRL.nor):
      eq('nor', [nor.contains(any_), any_.contains(nor), nor.contains(nor), e.Cat().contains(nor)], [False] * 4)
      eq('is_nor', (nor.is_nor(), nor.is_eps(), nor.is_control()), (True, False, True))
    for c in s.Symbol.CTRL:
      eq('control atoms are one each', e.Atomic.get_instance(c) is e.Atomic.get_instance(e.Atomic.get_instance(c)), True)
      eq('controls are skipped', (len(e.Cat(c)), len(e.Or(c)), len(e.Cat(e.Atomic.get_instance(c)))), (0, 0, 0))
    return k
  guarded(out, 'ANY and controls', 'expressions of up to two parts', run, backend='enumeration')


def contexts(part, n):
  def fn(out):
    def run():
      e, _, syms = modules()
      a, b = letter('a'), letter('b')
      sides = [a, b, cat(a, b), alt(a, b), cat(), alt(cat(), a), None]
      objs = [e.Expression.ANY if t is None else t.real() for t in sides]
      one = [(i, 6) for i in range(7)] + [(6, 0), (0, 1), (6, 3), (2, 0)]
      k = 0

      def fits(rule, given, whole, head):
        for r, g in zip(rule, given):
          r, g = sides[r], sides[g]
          if r is None or g is None:
            continue
          if whole:
            ok = holds(r, g, True, True)
          else:
            ok = not (empty(r) and not empty(g)) and holds(g, r, head, not head)
          if not ok:
            return False
        return True
      made = [objs[l] >> objs[r] for l, r in one]
      base = getattr(e, '_BaseAlignment', None)
      bases = [base(objs[l], objs[r]) for l, r in one] if base else made
      for (i, p), (j, f) in list(itertools.product(enumerate(one), repeat=2))[part::n]:
        for bos, eos in itertools.product((False, True), repeat=2):
          rule = e.Alignment.rule('r', objs[0] >> objs[1], made[i], made[j], bos, eos)
          for (u, gp), (v, gf) in itertools.product(enumerate(one), repeat=2):
            k += 1
            want = fits(p, gp, bos, False) and fits(f, gf, eos, True)
            for given in (made, bases):
              eq('context (%s, %s) of a rule for (%s, %s), from_bos %s, to_eos %s' % tuple(
                  [tuple('ANY' if sides[x] is None else sides[x].name for x in y) for y in (gp, gf, p, f)] + [bos, eos]),
                 rule.context_matches(given[u], given[v]), want)
      return k
    guarded(out, 'the context of a rule matches (part %d)' % part, '11 pairs of expressions on each side', run, backend='enumeration')
  return fn


def alignments(out):
  def run():
    e, _, syms = modules()
    from nisaba.scripts.natural_translit.utils import operation
    k = 0
    a, b, c = [letter(x).real() for x in 'abc']
    ops = operation.Operation.COMMON
    side = lambda x: str(x)

    def fields(r):
      return (r.alias, str(r.left), str(r.right), side(r.preceding), side(r.following), r.from_bos, r.to_eos, r.operation.alias, r.priority,
              r.applied_cost, r.source)
    any_ = e.Alignment.ANY
    eps = str(e.Atomic.CTRL.eps)
    for pre, fol in itertools.product((None, a >> b, c >> e.Expression.ANY), repeat=2):
      for bos, eos in itertools.product((False, True), repeat=2):
        for op, pr, cost, src in ((None, None, None, None), (ops.boundary, 3, None, 'english'), (ops.deletion, -1, .5, 'lexicon'), (None, 2, 2, 'foreign'),
                                  (ops.identity, 1, 0, None), (None, 1, 0., None)):
          kw = {x: y for x, y in (('preceding', pre), ('following', fol), ('operation', op), ('priority', pr), ('applied_cost', cost), ('source', src))
                if y is not None}
          k += 1

          def want(alias, left, right, default):
            o = default if op is None else op
            return (alias, left, right, side(any_ if pre is None else pre), side(any_ if fol is None else fol), bos, eos, o.alias, pr or 0, o.base_cost if cost is None else cost, src or 'native')
          L2R, R2L = e.Alignment.interchangeable('x', a >> b, from_bos=bos, to_eos=eos, **kw)
          made = [('rule', e.Alignment.rule('x', a >> b, from_bos=bos, to_eos=eos, **kw), want('x', 'a', 'b', ops.alignable)),
                  ('deletion', e.Alignment.deletion('x', a, from_bos=bos, to_eos=eos, **kw), want('x', 'a', eps, ops.deletion)),
                  ('insertion', e.Alignment.insertion('x', a, from_bos=bos, to_eos=eos, **kw), want('x', eps, 'a', ops.insertion)),
                  ('interchangeable', L2R, want('x_l2r', 'a', 'b', ops.interchangeable)), ('interchangeable', R2L, want('x_r2l', 'b', 'a', ops.interchangeable))]
          for what, r, w in made:
            eq('%s with %s, from_bos %s, to_eos %s' % (what, {x: str(y) for x, y in kw.items()}, bos, eos), fields(r), w)
            eq('copy of ' + what, fields(r.copy()), w)
            eq('is_assigned', r.is_assigned(), True)
          eq('simple', fields(a >> b)[1:5] + ((a >> b).is_assigned(),), ('a', 'b', str(any_), str(any_), False))
    return k
  guarded(out, 'rules, deletions, insertions and interchanges are as given', 'contexts, flags, operations, costs and sources', run, backend='enumeration')


def pairs(out):
  def run():
    k = 0
    small = [t for t in pool(False) if t.texts][::3]
    one = [(x, y) for x in small for y in (small[0], small[-1], small[4])]
    made = [x.real() >> y.real() for x, y in one]
    for (i, p), (j, q) in itertools.product(enumerate(one), repeat=2):
      k += 1
      both = lambda f: f(p[0], q[0]) and f(p[1], q[1])
      w = '(%s, %s) and (%s, %s)' % (p[0].name, p[1].name, q[0].name, q[1].name)
      eq('accepts: ' + w, made[i].accepts(made[j]), both(lambda a, b: a.texts >= b.texts))
      eq('is_equivalent: ' + w, made[i].is_equivalent(made[j]), both(lambda a, b: a.texts == b.texts))
      for head, tail in itertools.product((False, True), repeat=2):
        want = both(lambda a, b: holds(a, b, head, tail))
        eq('contains: ' + w, made[i].contains(made[j], head, tail), want)
        eq('is_contained: ' + w, made[j].is_contained(made[i], head, tail), want)
      eq('matches: ' + w, made[i].matches(made[j]), both(lambda a, b: holds(a, b, True, True)))
      needs = lambda a, b: empty(b) and not empty(a)
      want = both(lambda a, b: not needs(a, b) and holds(a, b, True, False))
      eq('head: ' + w, (made[i].head_matches(made[j]), made[j].is_prefix(made[i])), (want, want))
      want = both(lambda a, b: not needs(a, b) and holds(a, b, False, True))
      eq('tail: ' + w, (made[i].tail_matches(made[j]), made[j].is_suffix(made[i])), (want, want))
    return k
  guarded(out, 'alignments compare side by side', 'pairs of expressions of up to two parts', run, backend='enumeration')


def tasks(tier):
  modules()
  n = 8
  return ([Task('built %d' % i, built(i, n)) for i in range(2, n)] + [Task('built %d' % i, built(i, n)) for i in range(2)] +
          [Task('related %d' % i, related(i, n)) for i in range(n)] + [Task('contexts %d' % i, contexts(i, 4)) for i in range(4)] +
          [Task(f.__name__, f) for f in (lists, anything, alignments, pairs)])
