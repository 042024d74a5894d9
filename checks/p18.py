"""Feature distances, feature sets and profiles."""

import fractions
import itertools

import common
import real
import symex
from run import Task

N = 'natural_translit/'
FILES = [N + 'utils/feature.py', N + 'utils/inventory.py', N + 'utils/type_op.py', N + 'phonology/features/descriptive.py',
         N + 'phonology/features/language.py', N + 'script/grapheme.py', N + 'utils/symbol.py']
TRUSTED = ['CPython', 'z3'] + [t for t in common.TRUSTED if 'pynini' not in t.lower()]
ASSUMPTIONS = ['floating-point steps are taken as real numbers', 'names of features and lists are distinct within an aspect',
               'lists and histories up to the stated size stand for all']
LEVEL = 'exploration'
RULE = 'every tree, history or pair within the bound, once; all are distinct; the steps of a tree are symbolic, and so stand for all'
FAR = 1_000_000


def modules():
  real.api(['//nisaba/scripts/natural_translit/utils:symbol', '//nisaba/scripts/natural_translit/phonology/features:descriptive',
            '//nisaba/scripts/natural_translit/phonology/features:language', '//nisaba/scripts/natural_translit/script:grapheme'])
  from nisaba.scripts.natural_translit.utils import feature
  return feature.Feature


# Trees: a leaf is a name, a list is (kind, name, [trees]).

KINDS = ('equidistant', 'linear', 'cyclic')


def shapes(leaves, lists):
  """Trees of exactly so many leaves and at most so many lists, as nested tuples."""
  def forest(n, k, first):
    # Sequences of trees with n leaves in all and at most k lists: (sequence, lists used).
    if n == 0:
      yield (), 0
      return
    for m in range(1, n + 1):
      heads = [(0, 0)] if m == 1 else []
      if k and not (first and m == n and False):
        heads += [(t, u + 1) for t, u in forest(m, k - 1, True)]
      for h, u in heads:
        for rest, v in forest(n - m, k - u, False):
          if u + v <= k:
            yield (h,) + rest, u + v
  for t, _ in forest(leaves, lists - 1, True):
    yield t


def named(shape, kinds):
  """Gives names and kinds to the parts of a shape."""
  leaf, sub = itertools.count(), itertools.count()
  kinds = iter(kinds)

  def walk(s):
    if s == 0:
      return 'f%d' % next(leaf)
    i = next(sub)
    return (next(kinds), 'l%d' % i, [walk(c) for c in s])
  return walk(shape)


def lists_of(shape):
  return 0 if shape == 0 else 1 + sum(map(lists_of, shape))


def leaves(t):
  return [t] if isinstance(t, str) else [x for c in t[2] for x in leaves(c)]


def inner(t):
  return [] if isinstance(t, str) else [t] + [x for c in t[2] for x in inner(c)]


def build(F, tree, step, prefix=''):
  """The real lists for a tree."""
  if isinstance(tree, str):
    return F(prefix + tree)
  kind, name, items = tree
  return getattr(F, kind)(prefix + name, *[build(F, i, step, prefix) for i in items], step=step(name))


def between(kind, n, i, j):
  """Steps from one item to another one."""
  if i == j:
    return 0
  d = abs(i - j)
  return {'equidistant': 1, 'linear': d, 'cyclic': min(d, n - d)}[kind]


def apart(tree, x, y):
  """(steps, name of the list) between two different features of a tree."""
  kind, name, items = tree
  at = lambda z: next(i for i, c in enumerate(items) if z in leaves(c))
  i, j = at(x), at(y)
  if i == j:
    return apart(items[i], x, y)
  return between(kind, len(items), i, j), name


class Table:
  """What the distances of an aspect should be. zero, least, most: of the kind of number in use."""

  def __init__(self, tree, step, most, least, times):
    self.tree, self.least = tree, least
    self.d = {}
    for x, y in itertools.permutations(leaves(tree), 2):
      n, name = apart(tree, x, y)
      self.d[x, y] = times(n, step(name))
    self.max = most([times(0, step(tree[1]))] + list(self.d.values()))

  def one(self, x, y):
    if x == y or 'any' in (x, y):
      return 0
    if 'n_a' in (x, y):
      return self.max
    return self.d[x, y]

  def sets(self, xs, ys):
    if not xs or not ys:
      return FAR
    return self.least([self.one(x, y) for x in xs for y in ys])


def subsets(xs, sizes):
  return [c for n in sizes for c in itertools.combinations(xs, n)]


class Failed(Exception):
  pass


def symbolic(F, tree, sizes):
  """Checks one tree for every step. Returns the number of cases."""
  names = [t[1] for t in inner(tree)]
  steps = {n: symex.number('step_' + n) for n in names}
  symex.start(*[symex.z3.And(s.t >= 0, s.t <= 1000) for s in steps.values()])
  table = Table(tree, lambda n: steps[n].t, symex.most, symex.least, lambda n, s: n * s)
  n = 0

  def holds(what, got, want):
    nonlocal n
    n += 1
    got, want = symex.term(got), want if isinstance(want, symex.z3.ExprRef) else symex.z3.RealVal(want)
    if symex.z3.is_true(symex.z3.simplify(got == want)):
      return
    m = symex.here().proves(got == want)
    if m is not None:
      value = lambda t: str(m.eval(t, model_completion=True))
      raise Failed(dict(input='%s of %s with %s' % (what, show(tree), ', '.join('%s=%s' % (k, value(s.t)) for k, s in steps.items())),
                        expected=value(want), got=value(got)))
  for inv in symex.paths(lambda: F.Inventory('inv', F.Aspect(build(F, tree, lambda n: steps[n])))):
    asp = inv.get(tree[1])
    features = {x: asp.get(x) for x in leaves(tree) + ['any', 'n_a']}
    for _ in symex.paths(lambda: holds('max_dist', asp.max_dist, table.max)):
      pass
    for x, y in itertools.product(features, repeat=2):
      for got in symex.paths(lambda: features[x].distance(features[y])):
        holds('%s.distance(%s)' % (x, y), got, table.one(x, y))
    some = subsets(features, sizes)
    for x, ys in itertools.product(features, some):
      for got in symex.paths(lambda: features[x].distance(F.Set([features[y] for y in ys]))):
        holds('%s.distance(Set%s)' % (x, ys), got, table.sets([x], ys))
    for xs, ys in itertools.product(some, repeat=2):
      for got in symex.paths(lambda: F.Set([features[x] for x in xs]).distance(F.Set([features[y] for y in ys]))):
        holds('Set%s.distance(Set%s)' % (xs, ys), got, table.sets(xs, ys))
    for kind, name, items in inner(tree):
      obj = {i: asp.get(i if isinstance(i, str) else i[1]) for i in map(lambda i: i if isinstance(i, str) else i[1], items)}
      vl = asp.get(name)
      for (i, a), (j, b) in itertools.product(enumerate(obj), repeat=2):
        for got in symex.paths(lambda: vl.distance(obj[a], obj[b])):
          holds('%s.distance(%s, %s)' % (name, a, b), got, between(kind, len(items), i, j) * steps[name].t)
      for a in leaves(tree):
        if a not in obj:
          holds('%s.distance(%s, ...)' % (name, a), vl.distance(asp.get(a), next(iter(obj.values()))), FAR)
          holds('%s.distance(..., %s)' % (name, a), vl.distance(next(iter(obj.values())), asp.get(a)), FAR)
  return n


def show(t):
  return t if isinstance(t, str) else '%s %s(%s)' % (t[0], t[1], ' '.join(map(show, t[2])))


def guarded(out, name, bound, fn, backend='symbolic execution (z3)'):
  try:
    n = fn()
  except Failed as e:
    out.bad(name, backend=backend, replayed=True, **e.args[0])
  else:
    out.bounded(name, n, bound, backend=backend)


def eq(what, got, want):
  if got != want:
    raise Failed(dict(input=what, expected=repr(want)[:500], got=repr(got)[:500]))


def attempt(fn):
  try:
    return fn()
  except (Exception, RecursionError) as e:  # pylint: disable=broad-except
    return '!' + type(e).__name__


def trees(most):
  return [(named(s, k), (1, 2) if n <= 3 and (most > 4 or lists_of(s) < 3) else (1,) if most > 4 else ())
            for n in range(1, most + 1) for s in shapes(n, 3) for k in itertools.product(KINDS, repeat=lists_of(s))]


def distances(part, parts, most):
  def fn(out):
    F = modules()
    jobs = trees(most)
    if not part:
      jobs += [(named((0,) * n, [k]), (1,)) for n in range(most + 1, 8) for k in KINDS]
    guarded(out, 'distances are those of the lists, for every step (part %d)' % part,
            'all trees of up to %d features in up to 3 lists; flat lists of up to 7; sets of up to 2 of up to 3 in up to 2 lists' % most,
            lambda: sum(symbolic(F, *j) for j in jobs[part::parts]))
  return fn


def ancestors(tree, x):
  """Names of the lists that hold x, a feature or list, from the inside."""
  if isinstance(tree, str) or tree[1] == x:
    return []
  for c in tree[2]:
    if (c if isinstance(c, str) else c[1]) == x:
      return [tree[1]]
    up = ancestors(c, x)
    if up:
      return up + [tree[1]]
  return []


def membership(F, tree, sizes=None):
  asp_name = tree[1]
  inv = F.Inventory('inv', F.Aspect(build(F, tree, lambda n: 1)), F.Aspect(F.linear('other', F('o0'), F('o1'))))
  asp, n = inv.get(asp_name), 0
  lvs, lsts = leaves(tree), [t[1] for t in inner(tree)]
  obj = {x: asp.get(x) for x in lvs + lsts}
  inverse = {v: k for k, v in obj.items() if k in lvs}
  under = {t[1]: set(leaves(t)) for t in inner(tree)}

  def names(s):
    return {inverse.get(x, '?' + x.alias) for x in s}
  eq('features of ' + show(tree), [inverse.get(x) for x in asp], lvs) if set(lvs) == {inverse.get(x) for x in asp} else eq(
      'features of ' + show(tree), names(asp), set(lvs))
  eq('all of ' + show(tree), names(asp.all), set(lvs))
  for x in lvs:
    eq('aspect of ' + x, obj[x].aspect is asp and obj[x].inventory is inv, True)
    eq('distance from %s to another aspect' % x, (obj[x].distance(inv.other.o0), inv.other.o0.distance(obj[x])), (FAR, FAR))
  for s in subsets(lvs, sizes or range(len(lvs) + 1)):
    fs = F.Set([obj[x] for x in s])
    asp.set('s%d' % n, *[obj[x] for x in s])
    eq('set of %s' % (s,), names(asp.get('s%d' % n)), set(s))
    asp.set_not('t%d' % n, *[obj[x] for x in s], inv.other.o0)
    eq('set_not of %s' % (s,), names(asp.get('t%d' % n)), set(lvs) - set(s))
    asp.set('u%d' % n, fs, inv.other.o1)
    eq('set of %s and another aspect' % (s,), names(asp.get('u%d' % n)), set(s))
    for v in lvs + lsts:
      want = v in s if v in lvs else bool(under[v] & set(s))
      eq('%s.has_feature(%s) in %s' % (s, v, show(tree)), attempt(lambda: fs.has_feature(obj[v])), want)
      eq('%s.is_in(%s) in %s' % (v, s, show(tree)), attempt(lambda: obj[v].is_in(fs)), want)
      if v in lvs:
        eq('%s.is_in(list %s)' % (v, s), attempt(lambda: obj[v].is_in([obj[x] for x in s])), want)
      if s:
        p = F.Profile(inv, 'p', fs)
        eq('profile %s has_feature(%s) in %s' % (s, v, show(tree)), attempt(lambda: p.has_feature(obj[v])), want)
        eq('%s.is_in(profile %s) in %s' % (v, s, show(tree)), attempt(lambda: obj[v].is_in(p)), want)
    n += 1
  for v in lvs + lsts:
    for w in lsts:
      if v in lvs:
        want = v in under[w]
      elif v == w or w in ancestors(tree, v):
        want = bool(under[v])
      elif v not in ancestors(tree, w):
        want = False
      else:
        continue
      eq('%s.has_feature(%s) in %s' % (w, v, show(tree)), attempt(lambda: obj[w].has_feature(obj[v])), want)
      eq('%s.is_in(%s) in %s' % (v, w, show(tree)), attempt(lambda: obj[v].is_in(obj[w])), want or v == w)
    eq('aspect has %s' % v, attempt(lambda: asp.has_feature(obj[v])), True)
    eq('other aspect has %s' % v, attempt(lambda: inv.other.has_feature(obj[v])), False)
    for x in lvs:
      eq('%s.is_in(%s) in %s' % (v, x, show(tree)), attempt(lambda: obj[v].is_in(obj[x])), v == x)
  for t in inner(tree):
    items = [i if isinstance(i, str) else i[1] for i in t[2]]
    vl = obj[t[1]]
    eq('set() of ' + t[1], names(vl.set()), under[t[1]])
    for (i, a), (j, b) in itertools.permutations(enumerate(items), 2):
      picked = items[i:j + 1] if i < j else items[i:] + items[:j + 1]
      want = {x for c in picked for x in ([c] if c in lvs else under[c])}
      eq('%s.range(%s, %s)' % (t[1], a, b), names(vl.range(obj[a], obj[b])), want)
      asp.set_range('r%d' % n, obj[a], obj[b])
      eq('set_range(%s, %s)' % (a, b), names(asp.get('r%d' % n)), want)
      n += 1
    for x in lvs:
      if x not in items:
        eq('%s.range(%s, %s)' % (t[1], x, items[0]), (set(vl.range(obj[x], obj[items[0]])), set(vl.range(obj[items[0]], obj[x]))), (set(), set()))
  return n


def members(part, parts, most):
  def fn(out):
    F = modules()
    jobs = [named(s, itertools.cycle(KINDS)) for n in range(1, most + 1) for s in shapes(n, 3)]
    guarded(out, 'sets, ranges and membership are those of the lists (part %d)' % part, 'all trees of up to %d features in up to 3 lists' % most,
            lambda: sum(membership(F, j) for j in jobs[part::parts]), backend='enumeration')
  return fn


def chain(depth, shift, where):
  """Lists in lists down to a depth, with a feature before and after the list within."""
  tree = (KINDS[shift % 3], 'l%d' % depth, ['f%d' % depth, 'g%d' % depth])
  for i in range(depth - 1, 0, -1):
    items = ['f%d' % i, tree] + (['g%d' % i] if where else [])
    tree = (KINDS[(i + shift) % 3], 'l%d' % i, items if where != 2 else items[1:] + items[:1])
  return tree


def deep(out):
  F = modules()

  def run():
    n = 0
    for depth, shift, where in itertools.product(range(4, 10), range(3), range(3)):
      tree = chain(depth, shift, where)
      n += membership(F, tree, (0, 1))
      step = {'l%d' % i: 1 + (i * 7 + shift) % 11 for i in range(1, depth + 1)}
      table = Table(tree, step.get, max, min, lambda k, s: k * s)
      asp = F.Inventory('inv', F.Aspect(build(F, tree, step.get))).get(tree[1])
      features = {x: asp.get(x) for x in leaves(tree) + ['any', 'n_a']}
      eq('max_dist of ' + show(tree), asp.max_dist, table.max)
      for x, y in itertools.product(features, repeat=2):
        eq('%s.distance(%s) in %s' % (x, y, show(tree)), attempt(lambda: features[x].distance(features[y])), table.one(x, y))
        n += 1
    return n
  guarded(out, 'lists nested deeper: distances and membership are those of the lists', '54 trees of 4 to 9 lists, each within the last, with fixed steps', run,
          backend='enumeration')


# Contracts of single functions, for lists of any length. Where the code no longer fits the proxies, the trees above stand in.

class Items:
  """A list of any length n. Its members know their place."""

  def __init__(self, n, at):
    self.n, self.at = n, at

  def __iter__(self):  # for membership only: the others are not named
    return iter(self.at)

  def index(self, x):
    return self.at[x]


def proved(out, name, fn, replay=None, bound=None):
  """replay: the same on real values, which decides where stand-ins fail."""
  try:
    n = fn()
  except Failed as e:
    if replay:
      try:
        replay()
      except Failed as e2:
        e = e2
      else:
        out.bounded(name + ' (the proxies do not fit the code: on real values)', 1, str(e)[:200])
        return
    out.bad(name, backend='symbolic execution (z3)', replayed=True, **e.args[0])
  except Exception as e:  # pylint: disable=broad-except
    out.bounded(name + ' (the proxies do not fit the code: see the trees)', 1, '%s: %s' % (type(e).__name__, str(e)[:200]))
  else:
    if bound:
      out.bounded(name, n, bound, backend='symbolic execution (z3)')
    else:
      out.ok(name, backend='symbolic execution (z3)', cases=n)


def contracts(out):
  F = modules()
  from nisaba.scripts.natural_translit.utils import feature as module
  z3 = symex.z3

  def in_list(kind):
    def run():
      step, n, i, j = symex.number('step'), symex.Num(z3.Int('n')), symex.Num(z3.Int('i')), symex.Num(z3.Int('j'))
      symex.start(step.t >= 0, i.t >= 0, j.t >= 0, i.t < n.t, j.t < n.t)
      vl = getattr(F, kind)('l', step=step)
      x, y, z = F('x'), F('y'), F('z')
      vl._items = Items(n, {x: i, y: j})
      module.len = lambda o: n if o is vl or o is vl._items else len(o)
      module.abs = lambda o: o if o >= 0 else -o
      d = z3.If(i.t < j.t, j.t - i.t, i.t - j.t)
      steps = {'equidistant': z3.If(d == 0, 0, 1), 'linear': d, 'cyclic': z3.If(d < n.t - d, d, n.t - d)}[kind]
      k = 0
      for got in symex.paths(lambda: vl.distance(x, y)):
        k += 1
        # Products of unknowns: compare the number of steps, by taking the step to be 1 and 2.
        for s in (1, 2):
          m = symex.here().proves(z3.substitute(symex.term(got), (step.t, z3.RealVal(s))) == s * steps)
          if m is not None:
            v = [m.eval(t.t, model_completion=True).as_long() for t in (n, i, j)]
            items = [F('f%d' % c) for c in range(v[0])]
            vl = getattr(F, kind)('l', *items, step=1)
            got, want = vl.distance(items[v[1]], items[v[2]]), between(kind, *v)
            if got == want:
              raise RuntimeError('not replayed')
            raise Failed(dict(input='%s list of %d: items %d and %d' % ((kind,) + tuple(v)), expected=want, got=got))
      vl._items = Items(n, {x: i, y: j})
      eq('not in the list', (vl.distance(x, z), vl.distance(z, x)), (FAR, FAR))
      return k
    def clean():
      try:
        return run()
      finally:
        for g in ('len', 'abs'):
          module.__dict__.pop(g, None)
    return clean
  for kind in KINDS:
    proved(out, 'ValueList.distance, %s: for lists of any length' % kind, in_list(kind))

  def small():
    for j in trees(3):
      symbolic(F, *j)

  def add():
    old, d, e = (symex.number(x) for x in ('old', 'd', 'e'))
    symex.start(d.t >= 0, old.t >= 0)
    k = 0
    for first, second in itertools.product((True, False), repeat=2):
      for pre in (False, True):
        def once():
          asp = F.Aspect(F.linear('l'))
          x, y, z, w = F('x'), F('y'), F('z'), F('w')
          asp.max_dist = old
          for f, known in ((x, first), (y, second), (z, True), (w, True)):
            if known:
              asp.add_feature(f)
          asp.distance_dict[z][w] = asp.distance_dict[w][z] = e
          if pre and first and second:
            asp.distance_dict[x][y] = asp.distance_dict[y][x] = e
          asp.add_distance(x, y, d)
          return asp, x, y, z, w
        for asp, x, y, z, w in symex.paths(once):
          k += 1
          eq('the distance of both', (asp.distance_dict[x][y] is d, asp.distance_dict[y][x] is d), (True, True))
          eq('other distances stay', {(a.alias, b.alias) for a in asp.distance_dict for b in asp.distance_dict[a]}, {('x', 'y'), ('y', 'x'), ('z', 'w'), ('w', 'z')})
          eq('other distances stay', asp.distance_dict[z][w] is e, True)
          eq('features', (set(asp), x.aspect is asp, y.aspect is asp), ({x, y, z, w}, True, True))
          if symex.here().proves(symex.term(asp.max_dist) == z3.If(d.t > old.t, d.t, old.t)) is not None:
            raise Failed(dict(input='Aspect.add_distance', expected='the larger one of max_dist and the distance', got=repr(asp.max_dist)))
    return k
  proved(out, 'Aspect.add_distance: both ways, the others stay, max_dist is the largest', add, small)

  def one():
    d, m = symex.number('d'), symex.number('m')
    symex.start(d.t >= 0, m.t >= d.t)
    inv = F.Inventory('inv', F.Aspect(F.linear('l', F('x'), F('y'), F('z'))), F.Aspect(F.linear('k', F('u'))))
    asp = inv.l
    asp.max_dist = m
    for a in asp.distance_dict:
      for b in asp.distance_dict[a]:
        asp.distance_dict[a][b] = d
    k = 0
    for a, b in itertools.product(('x', 'y', 'any', 'n_a', 'u'), repeat=2):
      fa, fb = [inv.k.u if c == 'u' else asp.get(c) for c in (a, b)]
      want = 0 if a == b or 'any' in (a, b) and 'u' not in (a, b) else FAR if 'u' in (a, b) else m.t if 'n_a' in (a, b) else d.t
      for got in symex.paths(lambda: fa.distance(fb)):
        k += 1
        if symex.here().proves(symex.term(got) == want) is not None:
          raise Failed(dict(input='%s.distance(%s)' % (a, b), expected=str(want), got=repr(got)))
    return k
  proved(out, 'Feature.distance: 0 to itself and any, max_dist to n_a, otherwise as entered', one, small)


# Algebra of sets.

def algebra(out):
  F = modules()

  def run():
    fs = [F('x%d' % i) for i in range(4)]
    n = 0
    for a, b in itertools.product(subsets(range(4), range(5)), repeat=2):
      A, B = [[fs[i] for i in s] for s in (a, b)]
      for form in (lambda s: s, lambda s: [F.Set(s)], lambda s: [list(s)], lambda s: [[F.Set(s)]]):
        def case(what, got, want, left=set(A)):
          nonlocal n
          n += 1
          eq('%s of %s and %s' % (what, a, b), set(got), want)
        for what, want in (('difference', set(A) - set(B)), ('union', set(A) | set(B)), ('intersection', set(A) & set(B))):
          s = F.Set(*A)
          case(what, getattr(s, what)(*form(B)), want)
          case(what + ' leaves the set', s, set(A))
        for what, want in (('add', set(A) | set(B)), ('remove', set(A) - set(B)), ('update', set(B))):
          s = F.Set(*A)
          c = s.copy()
          r = getattr(s, what)(*form(B))
          case(what, s, want)
          case(what + ' leaves copies', c, set(A))
          eq(what + ' returns the set', r is s, True)
        for c in ((), (0,), (1, 2)):
          s = F.Set(*A)
          s.replace(tuple(form(B)), tuple(fs[i] for i in c))
          case('replace with %s' % (c,), s, set(A) - set(B) | {fs[i] for i in c})
        eq('is_equal', F.Set(*A).is_equal(F.Set(*form(B))), set(A) == set(B))
        case('reset', F.Set(*form(A)).reset(), set())
        eq('len', len(F.Set(*form(A))), len(a))
    return n
  guarded(out, 'feature sets are sets', 'all pairs of subsets of 4 features, 4 ways to pass them', run, backend='enumeration')


# Profiles against a model: aspect -> set of names.

def world(F):
  q = fractions.Fraction
  trees = [('linear', 'a', ['a0', 'a1', 'a2']), ('cyclic', 'b', ['b0', 'b1', ('linear', 'd', ['d0', 'd1']), 'b2']), ('equidistant', 'c', ['c0', 'c1'])]
  steps = {'a': q(1, 2), 'b': q(2), 'd': q(1, 4), 'c': q(3, 4)}
  inv = F.Inventory('inv', *[F.Aspect(build(F, t, steps.get)) for t in trees])
  other = F.Inventory('other', *[F.Aspect(build(F, t, steps.get)) for t in trees[:2]])
  tables = {t[1]: Table(t, steps.get, max, min, lambda n, s: n * s) for t in trees}
  return inv, other, tables


def contents(profile):
  return {s.alias: frozenset(x.alias for x in s) for s in profile}


def histories(out):
  F = modules()

  def run():
    n = 0
    picks = [((),), ('a.a0',), ('a.a1', 'a.a2', 'b.d0'), ('b.n_a',), ('a.any', 'c.c1'), ('b.b0', 'b.b2'), ('*a.a0', 'c.c0'), ('a.a0', 'b.b1', 'c.c0')]

    def given(inv, other, pick):
      return [(other if p[0] == '*' else inv).get(p.strip('*')[0]).get(p.strip('*')[2:]) for p in pick if p]

    def model(pick):
      m = {}
      for p in pick:
        if p and p[0] != '*':
          m.setdefault(p[0], set()).add(p[2:])
      return {k: frozenset(v) for k, v in m.items()}
    ops = [('new', p, f) for p in picks for f in (False, True)] + [('update', p, None) for p in picks] + [('copy', None, None), ('copy_profile', None, None),
                                                                                                          ('update with', None, None)]
    for first in [o for o in ops if o[0] == 'new']:
      for rest in itertools.product(ops, repeat=2):
        inv, other, _ = WORLD
        real_ps, model_ps = [], []
        for k, (op, pick, flag) in enumerate((first,) + rest):
          if op == 'new':
            real_ps.append(F.Profile(inv, 'p', *given(inv, other, pick), unspecified_aspect_n_a=flag))
            m = {x: frozenset(['n_a' if flag else 'any']) for x in 'abc'}
            m.update(model(pick))
            model_ps.append(m)
          elif op == 'update':
            r = real_ps[-1].update(given(inv, other, pick))
            eq('update returns the profile', r is real_ps[-1], True)
            model_ps[-1] = dict(model_ps[-1], **model(pick))
          elif op == 'copy':
            real_ps.append(real_ps[0].copy('q'))
            model_ps.append(dict(model_ps[0]))
          elif op == 'copy_profile':
            real_ps.append(inv.copy_profile(real_ps[0], 'r'))
            model_ps.append(dict(model_ps[0]))
          else:
            real_ps[-1].update(real_ps[0])
            model_ps[-1] = dict(model_ps[0])
          eq('after %s' % ((first,) + rest[:k],), [contents(p) for p in real_ps], model_ps)
          n += 1
        for p, m in zip(real_ps, model_ps):
          for x in 'abc':
            eq('get', frozenset(f.alias for f in p.get(inv.get(x))), m[x])
            eq('is_applicable', inv.get(x).is_applicable(p), 'n_a' not in m[x])
          eq('get of another inventory', [f.alias for f in p.get(other.a)] == ['n_a'] and other.a.n_a in p.get(other.a) or p.get(other.a) is p.get(inv.a), True)
          eq('another inventory', other.a.is_applicable(p), False)
    return n
  WORLD = world(F)
  guarded(out, 'profiles: updates change the given aspects of one profile', 'all histories of 3 operations of 27', run, backend='enumeration')


def similarity(out):
  F = modules()

  def run():
    inv, other, tables = world(F)
    n = 0
    vals = {'a': [('a0',), ('a1', 'a2'), ('any',), ('n_a',)], 'b': [('b0',), ('d0', 'b2'), ('d1',), ('n_a',)], 'c': [('c0',), ('c1',), ('any',)]}
    prof = []
    for combo in itertools.product(*vals.values()):
      fs = [inv.get(x).get(y) for x, c in zip(vals, combo) for y in c]
      prof.append((dict(zip(vals, combo)), F.Profile(inv, 'p%d' % len(prof), *fs)))
    o = F.Profile(other, 'o', other.a.a0)
    for (m1, p1), (m2, p2) in itertools.product(prof, repeat=2):
      for asp in (None, 'a', 'b', 'ab', 'bc', 'abc'):
        use = asp or 'abc'
        args = () if asp is None else ([inv.get(x) for x in asp],)
        total = sum(tables[x].sets(m1[x], m2[x]) for x in use)
        want = 1 - total / sum(tables[x].max for x in use)
        eq('similarity of %s and %s by %s' % (m1, m2, use), attempt(lambda: p1.similarity(p2, *args)), want)
        if asp and len(asp) == 1:
          eq('similarity of %s and %s by the aspect %s' % (m1, m2, use), attempt(lambda: p1.similarity(p2, args[0][0])), want)
        n += 1
      for verbose in (False, True):
        rows = [[c.strip() for c in l.strip('|').split('|')] for l in p1.comparison_table(p2, verbose=verbose).split('\n') if l.startswith('| ')][1:]
        dist = {x: tables[x].sets(m1[x], m2[x]) for x in 'abc'}
        text = lambda v: 'not_applicable' if v == 'n_a' else v
        want = [[x, ', '.join(sorted(map(text, m1[x]))), ', '.join(sorted(map(text, m2[x]))), dist[x]] for x in 'abc' if verbose or dist[x]]
        want += [['Total distance', '', '', sum(dist.values())], ['Similarity', '', '', 1 - sum(dist.values()) / sum(tables[x].max for x in 'abc')]]
        got = [r[:3] + [float(r[3])] for r in rows]
        eq('table of %s and %s' % (m1, m2), (len(got), all(g[:3] == w[:3] and abs(g[3] - w[3]) < .0051 for g, w in zip(got, want))), (len(want), True))
    for _, p in prof:
      eq('another inventory', (p.similarity(o), o.similarity(p)), (0, 0))
    none = F.Inventory('none', F.Aspect(F.equidistant('e', F('e0'), F('e1'), step=0)))
    ps = [F.Profile(none, x, none.e.get(x)) for x in ('e0', 'e1', 'n_a')]
    for p1, p2 in itertools.product(ps, repeat=2):
      eq('similarity where no distance is possible', attempt(lambda: p1.similarity(p2)), 1)
    return n
  guarded(out, 'similarity is one less the share of the distance', 'all pairs of 48 profiles, 6 choices of aspects', run, backend='enumeration')


def multi(out):
  F = modules()

  def run():
    inv, other, _ = world(F)
    n = 0
    ps = [F.Profile(inv, 'p0', inv.a.a0), F.Profile(inv, 'p1', inv.b.d0, inv.a.a1), F.Profile(other, 'p2', other.a.a2), F.Profile(other, 'p3', other.b.n_a)]
    before = [contents(p) for p in ps]
    for hist in itertools.product(range(4), repeat=3):
      m, model = F.MultiProfile('m'), {}
      for i in hist:
        m.new_profile(ps[i])
        model[ps[i].inventory] = contents(ps[i])
        n += 1
        for v in (inv, other):
          eq('has_profile after %s' % (hist,), m.has_profile(v), v in model)
          eq('profile after %s' % (hist,), contents(m.get(v)), model.get(v) or contents(v.not_applicable))
          eq('default', m.get(v, ps[0]) is ps[0], v not in model)
      c = m.copy()
      for v in model:
        c.get(v).update(v.a.a2)
        eq('a copy is another profile', contents(m.get(v)), model[v])
        m.get(v).update(v.b.b1)
        eq('frame', [contents(p) for p in ps], before)
        eq('update', contents(m.get(v)), dict(model[v], b=frozenset(['b1'])))
        eq('update of the copy', contents(c.get(v)), dict(model[v], a=frozenset(['a2'])))
      for v in model:
        for asp, x in (('a', 'a2'), ('b', 'd0'), ('b', 'd'), ('a', 'a0')):
          s = contents(m.get(v))[asp]
          want = bool(s & {'d0', 'd1'}) if x == 'd' else x in s
          eq('has %s' % x, attempt(lambda: v.get(asp).get(x).is_in(m.get(v))), want)
    return n
  guarded(out, 'multi-profiles keep one profile for each inventory', 'all histories of 3 profiles of 4', run, backend='enumeration')


# The inventories of the repository.

def tree_of(vl, F):
  return (vl.list_type.name.lower(), vl.alias, [i.alias if isinstance(i, F) else tree_of(i, F) for i in vl])


def declared(out):
  F = modules()
  from nisaba.scripts.natural_translit.phonology.features import descriptive, language
  from nisaba.scripts.natural_translit.script import grapheme
  from nisaba.scripts.natural_translit.utils import symbol
  found = {'descriptive': descriptive.FEATURES, 'grapheme': grapheme.Grapheme.GR_FEATURES, 'symbol': symbol.Symbol.SYM_FEATURES,
           'language': [v for v in vars(language).values() if isinstance(v, F.Inventory)][0]}
  for name, inv in found.items():
    def run(inv=inv):
      n = 0
      tables = {}
      for asp in inv:
        tree = tree_of(asp.root_list, F)
        steps = {}

        def walk(vl, steps=steps):
          steps[vl.alias] = vl.step
          for i in vl:
            if not isinstance(i, F):
              walk(i, steps)
        walk(asp.root_list)
        names = leaves(tree)
        if len(set(names)) < len(names) or len(steps) < len(inner(tree)):
          continue
        t = tables[asp.alias] = Table(tree, steps.get, max, min, lambda n, s: n * s)
        eq('max_dist of ' + asp.alias, asp.max_dist, t.max)
        for x, y in itertools.product(names + ['any', 'n_a'], repeat=2):
          eq('%s: %s to %s' % (asp.alias, x, y), asp.get(x).distance(asp.get(y)), t.one(x, y))
          n += 1
      ps = [inv.get(a) for a in inv.suppl_aliases if isinstance(inv.get(a), F.Profile)]
      for p, q in itertools.product(ps, repeat=2):
        want = 1 - sum(tables[a].sets([x.alias for x in p.get(inv.get(a))], [x.alias for x in q.get(inv.get(a))]) for a in tables) / sum(
            t.max for t in tables.values())
        if len(tables) == len(inv):
          eq('similarity of %s and %s' % (p.alias, q.alias), abs(p.similarity(q) - want) < 1e-9, True)
          n += 1
      return n
    guarded(out, 'declared features: ' + name, 'all features of the inventory', run, backend='enumeration')


def tasks(tier):
  modules()
  most = 5 if tier == 'thorough' else 4
  n = 16 if tier == 'thorough' else 8
  return ([Task('distances %d' % i, distances(i, n, most), first=True) for i in range(n)] + [Task('members %d' % i, members(i, 4, most)) for i in range(4)] +
          [Task('contracts', contracts), Task('deep', deep), Task('algebra', algebra), Task('histories', histories), Task('similarity', similarity), Task('multi', multi), Task('declared', declared)])
