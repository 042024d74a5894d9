"""Inventories, symbols, operations and lattices: one thing for each name, index and node."""

import functools
import itertools
import unicodedata

import common
import real
import symex
from p18 import Failed, eq, guarded, proved
from run import Task
from symex import z3

N = 'natural_translit/'
FILES = [N + 'utils/inventory.py', N + 'utils/type_op.py', N + 'utils/symbol.py', N + 'utils/operation.py', N + 'utils/lattice.py',
         N + 'utils/expression.py', N + 'script/grapheme.py', N + 'script/inventories/latn.py', N + 'phonology/phonological_symbol.py',
         N + 'phonology/inventories/x_uni.py', N + 'phonology/features/language.py', N + 'phonology/features/descriptive.py']
TRUSTED = ['CPython', 'z3', 'pynini.Fst.add_state returns a state that the FST did not have (OpenFst)', 'x in range(n) iff 0 <= x < n, for integers']
ASSUMPTIONS = ['aliases are not names of attributes or methods of the inventory', 'the states of nodes are assigned by the lattice only']
LEVEL = 'exploration'
RULE = 'every history, text or size within the bound, once; all are distinct'


@functools.lru_cache(None)
def modules():
  real.api(['//nisaba/scripts/natural_translit/utils:expression', '//nisaba/scripts/natural_translit/utils:lattice',
            '//nisaba/scripts/natural_translit/script/inventories:latn', '//nisaba/scripts/natural_translit/phonology/inventories:x_uni'])
  from nisaba.scripts.natural_translit.utils import inventory, lattice, operation, symbol, type_op

  class M:
    pass
  M.inv, M.lat, M.op, M.sym, M.ty = inventory, lattice, operation, symbol, type_op
  return M


class Int(symex.Num):
  """An integer."""

  def __add__(self, o):
    return Int(self.t + of(o))

  def __sub__(self, o):
    return Int(self.t - of(o))

  def __mul__(self, o):
    return Int(self.t * of(o))

  def __mod__(self, o):
    if symex.here().decide(of(o) == 0):
      raise ZeroDivisionError
    if not isinstance(o, int) or o < 0:
      raise TypeError('% of a negative or unknown number')
    return Int(self.t % of(o))

  def __lt__(self, o):
    return symex.Cond(self.t < of(o))

  def __le__(self, o):
    return symex.Cond(self.t <= of(o))

  def __gt__(self, o):
    return symex.Cond(self.t > of(o))

  def __ge__(self, o):
    return symex.Cond(self.t >= of(o))

  def __eq__(self, o):
    return symex.Cond(self.t == of(o))

  def __ne__(self, o):
    return symex.Cond(self.t != of(o))

  __radd__ = __add__
  __rmul__ = __mul__
  __hash__ = None


def of(x):
  return x.t if isinstance(x, Int) else z3.IntVal(x)


def integer(name):
  return Int(z3.Int(name))


class Range:
  """range() of integers."""

  def __init__(self, *a):
    self.start, self.stop = (0, a[0]) if len(a) == 1 else a

  def __contains__(self, x):
    return bool(x >= self.start) and bool(x < self.stop)


class Row:
  """Nodes of a lattice, by x or by y; reading it out of bounds is an error, as is the negative index that Python lets through."""

  def __init__(self, n, make):
    self.n, self.make = n, make

  def __getitem__(self, i):
    bad = symex.here().proves(z3.And(of(i) >= 0, of(i) < of(self.n)))
    if bad is not None:
      raise Failed('a node out of bounds is read, for %s' % bad)
    return self.make(i)

  def __len__(self):
    raise TypeError


def lattice_node(out):
  """Lattice.node, state and state_of, for lattices of any size."""
  def run():
    m = modules()
    L = m.lat.Lattice
    k = 0
    for has_state, error_state in ((True, 7), (False, 7), (True, 0), (False, 0)):
      w, h, x, y = (integer(c) for c in 'whxy')
      symex.start(w.t >= 0, h.t >= 0)

      def case():
        lattice = L.__new__(L)
        lattice.width, lattice.height = w, h
        added = []

        class Fst:
          def add_state(self):
            added.append(41)
            return 41
        lattice.fst = Fst()
        lattice.alias = lattice.text = 'l'
        made = []

        def make(j, i):
          n = m.lat.Node('n', 'n', i, j, lattice.fst)
          if has_state:
            n.state = 5
          made.append((i, j, n))
          return n
        lattice._nodes = Row(h, lambda j: Row(w, lambda i: make(j, i)))
        lattice.error = m.lat.Node('error', fst=lattice.fst)
        lattice.error.state = error_state
        inside = z3.And(x.t >= 0, x.t < w.t, y.t >= 0, y.t < h.t)
        r = lattice.node(x, y)
        claim = [('node is the error node out of bounds only', inside == z3.BoolVal(r is not lattice.error))]
        if r is not lattice.error:
          i, j, n = made[-1]
          claim.append(('node is the one at (x, y)', z3.And(of(i) == x.t, of(j) == y.t, z3.BoolVal(n is r))))
        claim.append(('node adds no state', z3.BoolVal(not added)))
        r = lattice.state(x, y)
        claim.append(('state out of bounds is that of the error node', z3.Or(inside, z3.BoolVal(r == error_state and not added and lattice.error.state == error_state))))
        if made:
          i, j, n = made[-1]
          claim.append(('state is that of the node at (x, y)', z3.Implies(inside, z3.And(of(i) == x.t, of(j) == y.t, z3.BoolVal(n.state is r)))))
        claim.append(('state is kept, or a new one', z3.Implies(inside, z3.BoolVal((r, added) == ((5, []) if has_state else (41, [41]))))))
        at = m.lat.Node('at', '', x, y, lattice.fst)
        before = len(added)
        s = lattice.state_of(at)
        claim.append(('state_of is the state at its coordinates', z3.BoolVal(s == r and (len(added) == before or (not has_state and added == [41, 41])))))
        for what, c in claim:
          bad = symex.here().proves(c)
          if bad is not None:
            raise Failed('%s, for %s' % (what, bad))
        return r
      m.lat.range = Range
      try:
        k += sum(1 for _ in symex.paths(case))
      finally:
        del m.lat.range
    return k
  proved(out, 'Lattice.node, state and state_of, for any width, height and coordinates', run, lattice_sizes)


def next_index(out):
  """Operation.Inventory._next_index, for any index reached so far."""
  def run():
    m = modules()
    I = m.op.Operation.Inventory
    k = 0
    top, prefix = integer('top'), integer('prefix')
    for size in (0, 1, 2, 3, 7):
      symex.start(prefix.t >= 0, prefix.t % 10 == 0, top.t > prefix.t)

      def case():
        v = I('i')
        v.prefix = prefix

        class Keys:
          def keys(self):
            return [top]

          def __len__(self):
            return size
        v._index_dict = Keys()
        v._items = [None] * size
        r = v._next_index()
        want = of(r) > (prefix.t if size < 2 else top.t)
        if size < 2:
          want = of(r) == prefix.t + size + 1
        bad = symex.here().proves(z3.And(want, of(r) % 10 != 0))
        if bad is not None:
          raise Failed('index %s for %d operations, %s' % (r, size, bad))
      k += sum(1 for _ in symex.paths(case))
    return k
  proved(out, 'Operation.Inventory._next_index is new and does not end in 0, for any highest index and prefix', run, operation_runs)


SIZES = list(itertools.product(range(5), repeat=2)) + [(1, 12), (12, 1), (7, 9), (9, 7)]


def lattice_sizes():
  m = modules()
  from pynini import Fst
  k = 0
  for w, h, populate, shared in ((*size, p, f) for size in SIZES for p in (False, True) for f in range(4)):
    fst = Fst() if shared else m.ty.UNSPECIFIED
    before = 0
    error = m.ty.UNSPECIFIED
    if shared >= 2:
      fst.add_state()
      before = 1
    if shared == 3:
      error = m.lat.Node('e', fst=fst)
      error.state = 0
    lattice = m.lat.Lattice('l', w, h, fst, error, populate)
    other = m.lat.Lattice('o', 2, 2, populate=not populate)
    f = lattice.fst
    eq('FST of the lattice', (f is fst) if shared else (f is not other.fst), True)
    eq('states at first', f.num_states(), before + (shared != 3) + w * h * populate)
    seen = {}
    order = [(x, y) for x in range(-1, w + 1) for y in range(-1, h + 1)]
    order = order[::2] + order[1::2] + order
    for x, y in order:
      k += 1
      n = lattice.node(x, y)
      inside = 0 <= x < w and 0 <= y < h
      eq('error node', n is lattice.error, not inside)
      s = lattice.state(x, y)
      eq('type of a state', type(s), int)
      eq('state of the node', (n.state, lattice.state_of(n), n.fst is f), (s, s, True))
      eq('state of the FST', 0 <= s < f.num_states(), True)
      key = (x, y) if inside else None
      if inside:
        eq('coordinates', (n.x, n.y), (x, y))
      eq('state of (%d, %d) stays' % (x, y), seen.setdefault(key, s), s)
    eq('each node has its own state', len(set(seen.values())), len(seen))
    eq('states at last', f.num_states(), before - (shared >= 2) + w * h + 1 + (shared == 2))
    again = m.lat.Lattice('s', 1, 1, f, lattice.error)
    eq('a lattice on the same FST has the error state, and states of its own', (again.state(5, 5), again.state(0, 0) in seen.values()), (lattice.state(-1, 0), False))
    eq('the other one', (other.state(0, 0) < other.fst.num_states(), other.error.fst is other.fst, other.error.state < other.fst.num_states()), (True, True, True))
  return k


def lattices(out):
  guarded(out, 'lattices of their own FST or a shared one', 'up to 4 by 4, and some of up to 12, populated or not', lattice_sizes, backend='enumeration')


def inventories(out):
  def run():
    m = modules()
    T = m.ty.Thing
    things = [T('a', 'A'), T('b', 'B'), T('a', 'C'), T('text', 'D'), T('c', 'E', value_from=[1]), T('b', 'F', value_from='x')]
    moves = [('item', t) for t in things] + [('suppl', t) for t in things] + [('make', ('b', 3)), ('make', ('d', things[0])), ('add', things[0])]
    k = 0
    for n in range(1, 5):
      for hist in itertools.product(moves, repeat=n) if n < 4 else itertools.product(moves[:4] + moves[6:9] + moves[-1:], repeat=4):
        k += 1
        v = m.inv.Inventory('v')
        own = set(v.__dict__)
        items, suppls = {}, {}
        for what, t in hist:
          alias, value = t if what == 'make' else (t.alias, t if what == 'item' else t.value)
          free = alias not in own and alias not in items and alias not in suppls
          if what == 'item':
            ok = free and not any(value is i for i in items.values())
            eq('add_item', v.add_item(t), ok)
            if ok:
              items[alias] = value
          elif what == 'add':
            eq('add', v.add(t) is v, True)
          else:
            eq('supplement', v.add_suppl(t) if what == 'suppl' else v.make_suppl(alias, value), free)
            if free:
              suppls[alias] = value
        w = str([(x, t if x == 'make' else t.alias) for x, t in hist])
        eq('items after ' + w, [id(i) for i in v], [id(i) for i in items.values()])
        eq('length after ' + w, (len(v), bool(v)), (len(items), bool(items)))
        eq('aliases after ' + w, (v.item_aliases, v.suppl_aliases), (list(items), list(suppls)))
        for alias in 'abcde':
          want = items.get(alias, suppls.get(alias, m.ty.MISSING))
          eq('get(%s) after %s' % (alias, w), v.get(alias) is want and v.get(alias, 5) is (5 if want is m.ty.MISSING else want), True)
          eq('%s after %s' % (alias, w), getattr(v, alias, m.ty.MISSING) is want, True)
        eq('own attributes after ' + w, (v.alias, v.text), ('v', 'v'))
    for attr in ('', 'value', 'text', 'none'):
      for some in itertools.permutations(things, 3):
        k += 1
        v = m.inv.Inventory.from_list(list(some), attr, suppls=[things[4]], alias='w')
        want = {}
        for t in some:
          x = getattr(t, attr, m.ty.MISSING) if attr else t
          if x is m.ty.MISSING or t.alias in want or t.alias == 'text' or any(x is y or x == y for y in want.values()):
            continue
          want[t.alias] = x
        eq('from_list of %s by "%s"' % ([t.text for t in some], attr), (v.item_aliases, [v.get(a) for a in want], list(v), v.suppl_aliases),
           (list(want), list(want.values()), list(want.values()), [] if 'c' in want else ['c']))
    return k
  guarded(out, 'an inventory has each alias once, and its items in order', 'histories of up to 4 moves, lists of 3', run, backend='enumeration')


def iterables(out):
  def run():
    m = modules()
    I = m.ty.IterableThing
    leaf = [1, 'xy', m.ty.MISSING, 2.5]

    def value(t):
      return {'L': list, 'T': tuple, 'I': lambda v: I(*v)}[t[0]]([value(i) for i in t[1]]) if isinstance(t, tuple) else t

    def flat(t, typ):
      """Items that t adds."""
      kind = t[0] if isinstance(t, tuple) else None
      if typ is None:
        if kind == 'I':
          return [x for i in t[1] for x in flat(i, None)]
        return [] if t is m.ty.MISSING else [show(value(t))]
      if kind and not (typ is list and kind == 'L'):
        inner = [x for i in t[1] for x in flat(i, None)] if kind == 'I' else None
        return [y for x in inner for y in flat_value(x, typ)] if kind == 'I' else [x for i in t[1] for x in flat(i, typ)]
      return flat_value(value(t), typ)

    def show(v):
      return (type(v).__name__, [show(x) for x in v]) if isinstance(v, (list, tuple, I)) else v

    def flat_value(v, typ):
      if isinstance(v, tuple) and v and v[0] in ('list', 'tuple', 'IterableThing') and isinstance(v[1], list):
        return [v] if typ is list and v[0] == 'list' else [y for x in v[1] for y in flat_value(x, typ)]
      if isinstance(v, typ):
        return [show(v)]
      if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat_value(x, typ)]
      return []
    one = leaf + [(c, list(s)) for c in 'LTI' for n in range(3) for s in itertools.product(leaf[:3], repeat=n)]
    two = one + [(c, [a, b]) for c in 'LTI' for a in one[::3] for b in one[1::4]]
    k = 0
    for a in two:
      for b in (1, m.ty.MISSING, ('I', [3, 'z'])):
        for typ in (None, int, str, list):
          k += 1
          v = I(value(a), value(b), **({} if typ is None else {'typed': typ}))
          want = flat(a, typ) + flat(b, typ)
          eq('items of %r, %r typed %s' % (a, b, typ), ([show(x) for x in v], len(v), bool(v)), (want, len(want), bool(want)))
          for i in range(-len(want) - 1, len(want) + 2):
            eq('item', show(v.item(i, 'no')), want[i] if -len(want) <= i < len(want) else 'no')
    return k
  guarded(out, 'iterable things flatten their own kind, or all but their type', 'arguments nested up to two levels', run, backend='enumeration')


def equality(out):
  def run():
    m = modules()
    import pynini
    T = m.ty.Thing
    no = [m.ty.MISSING, m.ty.UNSPECIFIED, m.ty.UNASSIGNED]
    base = [(None, 'none'), (0, 'n0'), (1, 'n1'), ('a', 'sa'), ('b', 'sb'), ([], 'l0'), ([1], 'l1')]
    objs = [(v, x) for v, x in base] + [(T('t', value_from=v), x) for v, x in base]
    objs += [(o, None) for o in no] + [(T('t', value_from=o), 'self%d' % i) for i, o in enumerate(no)] + [(T('u'), 'self')]
    fsts = [(pynini.accep('a'), 'sa'), (pynini.accep('b'), 'sb'), (pynini.union('a', 'b'), 'u'), (pynini.union('a', 'b'), 'u')]
    k = 0
    for (x, a), (y, b) in itertools.product(objs, repeat=2):
      k += 1
      eq('is_equal(%r, %r)' % (x, y), m.ty.is_equal(x, y), a is not None and b is not None and a == b)
    for (x, a), (y, b) in itertools.product(fsts, fsts):
      k += 1
      eq('is_equal of FSTs %s and %s' % (a, b), m.ty.is_equal(x, y), a == b)
    for (x, a), (y, b) in itertools.product(fsts[:2], objs[:7]):
      k += 1
      want = a == b
      eq('is_equal of an FST and %r' % (y,), (m.ty.is_equal(x, y), m.ty.is_equal(y, x)), (want, want))
    class Held:
      thing = 3
    for attr, v, want in (('', Held, Held), ('thing', Held, 3), ('other', Held, Held), ('thing', 7, 7), ('value', T('t', value_from=4), 4), ('text', T('t', 'q'), 'q')):
      k += 1
      eq('value from %s' % attr, T('x', value_from=v, from_attribute=attr).value, want)
    t = T('x', from_attribute='alias')
    eq('value of a thing without one', t.value is t, True)
    return k
  guarded(out, 'equality is that of values, and nothing equals nothing', '14 objects and 4 acceptors, in pairs', run, backend='enumeration')


def symbols(out):
  def run():
    m = modules()
    S = m.sym.Symbol
    k = 0
    chars = ['a', 'b', 'é', 'ක', '😀', '​']
    for n in range(1, 6):
      for text in itertools.product(chars, repeat=n) if n < 5 else [chars[:5], chars[5:0:-1] + chars]:
        k += 1
        text = ''.join(text)
        a, b = S('a', 'A', 'a', index=9_000_003), S('b', '', 'b')
        v = S.Inventory('v', a, b)
        got = v.str_to_raw_symbols(text) if n % 2 else v.parse(text)
        eq('raw of ' + text, ''.join(s.raw for s in got), text)
        eq('one symbol for each character of ' + text, len({(s, s.raw) for s in got}), len(set(text)))
        eq('known symbols in ' + text, all((s is a) == (c == 'a') and (s is b) == (c == 'b') for s, c in zip(got, text)), True)
        eq('all are in the inventory', all(any(s is i for i in v) and s.inventory is v for s in got), True)
        eq('by raw, index and alias', all(v.raw_lookup(s.raw) is s and getattr(v, s.alias) is s for s in got), True)
        eq('again ' + text, all(x is y for x, y in zip(got, v.str_to_raw_symbols(text))), True)
        eq('aliases', len({s.alias for s in v}), len(v))
        u = S.Inventory('u', b)
        other = u.str_to_raw_symbols(text, v)
        eq('from another inventory', (all(x is y for x, y in zip(got, other)), len(u)), (True, 1))
    # Lookups over histories of additions.
    new = lambda: [S('a', 'A', 'x', 1), S('b', 'B', 'x', 2), S('c', 'A', '', 3), S('a', 'D', 'y', 4), S('d', 'E', 'z', 1)]
    for n in range(1, 5):
      for picks in itertools.product(range(5), repeat=n):
        k += 1
        syms = new()
        v, w = S.Inventory('v'), S.Inventory('w')
        got = v.add_symbols(*[syms[i] for i in picks], list_alias='some')
        w.add_symbols(*syms)
        want = []
        for i in picks:
          if syms[i] not in want and all(syms[i].alias != s.alias for s in want):
            want.append(syms[i])
        eq('added %s' % (picks,), (got, list(v), list(v.some)), (want, want, want))
        eq('first inventory', [s.inventory is (v if s in want else w) for s in syms if s in want or s in list(w)], [True] * len([s for s in syms if s in want or s in list(w)]))
        for attr, look, values in (('index', v.index_lookup, (1, 2, 3, 4)), ('raw', v.raw_lookup, 'xyz'), ('text', v.text_lookup, 'ABDE')):
          for value in values:
            last = [s for s in want if getattr(s, attr) == value]
            eq('%s lookup' % attr, look(value) is (last[-1] if last else S.CTRL.unk), True)
        for c in S.CTRL:
          eq('controls', (v.index_lookup(c.index) is c, v.text_lookup(c.text) is c, getattr(v.CTRL, c.alias) is c, c in list(v)), (True, True, True, False))
        eq('default', (v.lookup(77, v.index_dict, syms[0]) is syms[0], v.lookup(77, 'index_dict') is S.CTRL.unk, v.lookup('?', 'no_dict') is S.CTRL.unk), (True,) * 3)
    return k
  guarded(out, 'symbols of a text, by raw, text, index and alias', 'texts of up to 4 characters out of 6, histories of up to 4 additions', run, backend='enumeration')


def attributes(out):
  def run():
    m = modules()
    S = m.sym.Symbol
    from nisaba.scripts.natural_translit.utils import feature as ft
    F = ft.Feature
    k = 0
    def fresh():
      inv = F.Inventory('f', F.Aspect(F.equidistant('q', F('x'), F('y'), F('z'))), F.Aspect(F.equidistant('r', F('u'), F('v'))))
      a, b = S('a', 'A', 'a'), S('b', 'B', 'b')
      for s in (a, b):
        s.features.new_profile(F.Profile(inv, 'new'))
      return inv, a, b

    def state(s):
      return {x: y for x, y in s.__dict__.items() if x != 'features'}, {str(p): str(p) for p in s.features}
    # Features.
    for first in itertools.product('xyz', repeat=2):
      for second in itertools.chain([()], itertools.permutations('xyzuv', 1), itertools.permutations('xyzuv', 2)):
        k += 1
        inv, a, b = fresh()
        ftr = lambda c: getattr(inv.q if c in 'xyz' else inv.r, c)
        a.add_features(*[ftr(c) for c in first])
        a.add_features([ftr(c) for c in second])
        p = a.features.f
        eq('features of %s then %s' % (first, second), {c for c in 'xyz' if ftr(c) in p.get(inv.q)}, {c for c in first + second if c in 'xyz'})
        eq('features of %s then %s' % (first, second), {c for c in 'uv' if ftr(c) in p.get(inv.r)}, {c for c in second if c in 'uv'})
        eq('"any" is left only where nothing was added', [x.any in p.get(x) for x in (inv.q, inv.r)], [False, not any(c in 'uv' for c in second)])
        eq('has_feature', [a.has_feature(ftr(c)) for c in 'xyz'], [c in first + second for c in 'xyz'])
        eq('other symbol', [inv.q.any in b.features.f.get(inv.q), inv.r.any in b.features.f.get(inv.r)], [True, True])
    # Pairs.
    for left, right, aspect, feats in itertools.product((False, True), (False, True), (False, True), (False, True)):
      k += 1
      inv, a, b = fresh()
      c, d = S.CTRL.nor, S.CTRL.unk
      x, y = (a if left else c), (b if right else d)
      before = {s: state(s) for s in S.CTRL}
      x.feature_pair(y, inv.q.x, inv.q.y, add_aspect=aspect, add_features=feats)
      eq('controls do not change', {s: state(s) for s in S.CTRL}, before)
      if left:
        eq('left', (x.x is x, x.y is (y if right else S.CTRL.nos), getattr(x, 'q', None) is (inv.q.x if aspect else None)), (True, True, True))
        eq('features of the left one', (x.has_feature(inv.q.x), x.has_feature(inv.q.y)), (feats, False) if feats else (x.has_feature(inv.q.x), x.has_feature(inv.q.y)))
        eq('"any" stays where nothing is added', inv.q.any in x.features.f.get(inv.q), not feats)
      if right:
        eq('right', (y.y is y, y.x is (x if left else S.CTRL.nos), getattr(y, 'q', None) is (inv.q.y if aspect else None)), (True, True, True))
        eq('"any" stays where nothing is added', inv.q.any in y.features.f.get(inv.q), not feats)
        if feats:
          eq('features of the right one', (y.has_feature(inv.q.y), y.has_feature(inv.q.x)), (True, False))
    for value in (5, None, 'x'):
      k += 1
      inv, a, b = fresh()
      a.set_attribute('numeric', value, inv.q.z)
      eq('set_attribute', (a.numeric, a.has_feature(inv.q.z), hasattr(b, 'numeric')), (value, True, False))
      for c in S.CTRL:
        c.set_attribute('numeric', value, S.SYM_FEATURES.type.raw)
        eq('set_attribute of a control', (hasattr(c, 'numeric'), c.has_feature(S.SYM_FEATURES.type.raw)), (False, False))
    return k
  guarded(out, 'features, attributes and pairs of symbols', 'features added twice, all pairs of symbols and controls', run, backend='enumeration')


def operation_runs():
  m = modules()
  O = m.op.Operation
  k = 0
  built = [(O.Inventory.from_args('i', prefix, *[('o%d' % i, i / 2) for i in range(n)]), prefix, [('o%d' % i, i / 2) for i in range(n)])
           for n in (*range(30), 120, 300) for prefix in O.ReservedIndex]
  common = [('alignable', 0), ('boundary', .125), ('deletion', 1), ('error', 100), ('identity', .1), ('insertion', 1), ('interchangeable', .1),
            ('punctuation', .25), ('substitution', 1.25), ('unassigned', 10)]
  built.append((O.COMMON, O.ReservedIndex.COMMON, common))
  for v, prefix, args in built:
    k += 1
    ops = list(v)
    eq('operations', [o.alias for o in ops], [p + a for a, _ in args for p in ('', 'partial_', 'unexpected_', 'unexpected_partial_')])
    eq('indices differ', len({o.index for o in ops}), len(ops))
    eq('indices rise from the prefix', ops == sorted(ops, key=lambda o: o.index) and all(o.index > prefix for o in ops), True)
    eq('no index ends in 0', [o.index for o in ops if o.index % 10 == 0], [])
    eq('lookup', all(v.index_lookup(o.index) is o and o.inventory is v for o in ops), True)
    eq('lookup of others', all(v.index_lookup(i) is O.COMMON.error for i in (0, -1, prefix, 10 ** 6)), True)
    for i, (alias, cost) in enumerate(args):
      full, part, un, unpart = ops[4 * i:4 * i + 4]
      eq('by alias', getattr(v, alias) is full and v.get('unexpected_partial_' + alias) is unpart, True)
      eq('match of ' + alias, [o.match is full for o in (full, part, un, unpart)], [True] * 4)
      eq('partial of ' + alias, [x.partial is y for x, y in ((full, part), (part, part), (un, unpart), (unpart, unpart))], [True] * 4)
      eq('unexpected of ' + alias, [x.unexpected is y for x, y in ((full, un), (part, unpart), (unpart, unpart))], [True] * 3)
      eq('costs of ' + alias, [o.base_cost for o in (full, part, un, unpart)], [cost, cost, cost + .75, cost + .75])
      eq('free', [o.is_free() for o in (full, part, un, unpart)], [not cost, not cost, False, False])
      eq('cheaper', (full.is_cheaper_than(un), un.is_cheaper_than(full), full.is_cheaper_than(part)), (True, False, False))
      eq('assigned', full.is_assigned(), not (v is O.COMMON and alias in ('error', 'unassigned')))
  return k


def operations(out):
  guarded(out, 'operations have their own index and their four forms', 'inventories of up to 29, 120 and 300 operations', operation_runs, backend='enumeration')


BLOCKS = [0, 0x400, 0x800, 0xC00, 0x1000, 0x1800, 0x1C00, 0x2000, 0xA800, 0xAC00, 0xFC00, 0x11000, 0x1F400]


def graphemes(name, blocks):
  def fn(out):
    def run():
      modules()
      from nisaba.scripts.natural_translit.script import grapheme
      G = grapheme.Grapheme
      k = 0
      for block in blocks:
        text = ''.join(chr(c) for c in range(block, block + 0x400) if not 0xD800 <= c < 0xE000)
        v = G.Inventory(G.GR_FEATURES.script.und)
        got = v.str_to_raw_symbols(text + text[:3])
        k += len(text)
        eq('graphemes of U+%04X..' % block, ''.join(g.raw for g in got), text + text[:3])
        eq('one for each of U+%04X..' % block, (len(v), len({g.index for g in v}), len({g.alias for g in v})), (len(text),) * 3)
        eq('code points of U+%04X..' % block, [g.index - G.ReservedIndex.GRAPHEME_PREFIX for g in v], [ord(c) for c in text])
        eq('names', [g.name for g in v], [unicodedata.name(c, 'GRAPHEME') + ' U+%04X' % ord(c) for c in text])
      return k
    guarded(out, 'graphemes of a text (%s)' % name, 'each code point of the blocks of 1024 from %s' % ', '.join('U+%04X' % b for b in blocks), run,
            backend='enumeration')
  return fn


def latin(out):
  def run():
    modules()
    from nisaba.scripts.natural_translit.script import grapheme
    from nisaba.scripts.natural_translit.script.inventories import latn
    G = grapheme.Grapheme
    k = 0
    GR = latn.LATN
    known = list(GR)
    letters = ''.join(chr(c) for r in ((97, 123), (65, 91)) for c in range(*r))
    eq('Latin letters and digits', sorted(g.raw for g in known), sorted(letters + '0123456789'))
    f, d = G.GR_FEATURES, G.DESCRIPTIVE_FEATURES
    for g in known:
      k += 1
      low = g.raw.lower() == g.raw
      eq('class of ' + g.raw, (g.has_feature(f.gr_class.letter), g.has_feature(f.gr_class.number), g.has_feature(f.script.latn)), (g.raw.isalpha(), g.raw.isdigit(), True))
      if g.raw.isalpha():
        eq('case of ' + g.raw, (g.lower.raw, g.upper.raw, g.case is (f.case.lower if low else f.case.upper)), (g.raw.lower(), g.raw.upper(), True))
        eq('case feature of ' + g.raw, (g.has_feature(f.case.lower), g.has_feature(f.case.upper)), (low, not low))
        vowel = g.raw.lower() in 'aeiou'
        eq('vowel or consonant: ' + g.raw, (g.has_feature(d.ph_class.vowel), g.has_feature(d.ph_class.consonant)), (vowel, not vowel))
        eq('lists of ' + g.raw, [any(g is x for x in l) for l in (GR.vowel, GR.consonant, GR.lower, GR.upper,
                                                                 GR.letter)], [vowel, not vowel, low, not low, True])
        eq('sounds of both cases: ' + g.raw, str(g.lower.descriptives()).split('\n')[1:], str(g.upper.descriptives()).split('\n')[1:])
      else:
        eq('digit', any(g is x for x in GR.number), True)
      eq('grapheme of ' + g.raw, (GR.raw_lookup(g.raw) is g, GR.index_lookup(g.index) is g, GR.atomics.get(g.alias).symbol is g),
         (True, True, True))
    return k
  guarded(out, 'the Latin graphemes', 'all Latin graphemes', run, backend='enumeration')


WORDS = {'open': 'height', 'near_open': 'height', 'open_mid': 'height', 'mid': 'height', 'close_mid': 'height', 'near_close': 'height', 'close': 'height',
         'front': 'backness', 'near_front': 'backness', 'central': 'backness', 'near_back': 'backness', 'back': 'backness',
         'voiced': 'voicing', 'voiceless': 'voicing'}
PLACES = ('bilabial', 'labiodental', 'dental', 'alveolar', 'postalveolar', 'retroflex', 'palatal', 'velar', 'uvular', 'epiglottal', 'glottal')


def phonemes(out):
  def run():
    modules()
    from nisaba.scripts.natural_translit.phonology.features import language
    from nisaba.scripts.natural_translit.phonology.inventories import x_uni
    inv = x_uni.PHONEMES
    k = 0
    ps = list(inv)
    eq('phonemes have an IPA symbol, an alias and an index of their own', [len({getattr(p, a) for p in ps}) for a in ('ipa', 'alias', 'index')], [len(ps)] * 3)
    d = ps[0].DESCRIPTIVE_FEATURES
    for p in ps:
      k += 1
      words = p.name.replace('\u00ad', '').replace('center', 'central').split()
      vowel = words[-1] == 'vowel'
      eq('kind of ' + p.ipa, [any(p is x for x in l) for l in (inv.vowel, inv.consonant)] + [p.has_feature(d.ph_class.vowel), p.has_feature(d.ph_class.consonant)],
         [vowel, not vowel] * 2)
      own = p.descriptives()
      has = lambda f: f in own.get(f.aspect)
      if vowel:
        for word in words[:-2]:
          aspect = getattr(d, WORDS[word])
          eq('%s of %s' % (WORDS[word], p.ipa), [f.alias for f in own.get(aspect)], [word])
        eq('rounding of ' + p.ipa, [f.alias for f in own.get(d.labialization)], [words[-2]])
      else:
        for word in words:
          if word in WORDS:
            eq('voicing of ' + p.ipa, [f.alias for f in own.get(d.voicing)], [word])
          if word in ('stop', 'trill'):
            eq('manner of ' + p.ipa, has(getattr(d.manner, word)), True)
          if word == 'approximant':
            eq('manner of ' + p.ipa, has(d.manner.approximant), True)
          if word == 'lateral':
            eq('lateral: ' + p.ipa, has(d.lateralization.lateral), True)
          if word == 'nasal':
            eq('nasal: ' + p.ipa, (has(d.nasalization.nasalized), has(d.manner.stop)), (True, True))
          if word in PLACES:
            want = getattr(d, word)
            eq('place of ' + p.ipa, sorted(f.alias for f in want if f.aspect is d.place and not has(f)), [])
        eq('lateral or not: ' + p.ipa, has(d.lateralization.lateral), 'lateral' in words)
        eq('nasal or not: ' + p.ipa, has(d.nasalization.nasalized), 'nasal' in words)
      a = inv.atomics.get(p.alias)
      eq('atomic of ' + p.ipa, (a.symbol is p, [str(x) for x in a.features] == [str(x) for x in p.features]), (True, True))
      eq('lookup of ' + p.ipa, (inv.index_lookup(p.index) is p, p.language.alias, p.inventory is inv), (True, 'x_uni', True))
    langs = [f for f in language.FEATURES.language if f.alias not in ('any', 'n_a')]
    langs = [f for f in langs if hasattr(f, 'index')]
    eq('languages have their own index', len({f.index for f in langs}), len(langs))
    return k
  guarded(out, 'phonemes have the features of their names', 'all phonemes of x_uni', run, backend='enumeration')


def tasks(tier):
  modules()
  blocks = BLOCKS if tier == 'quick' else [b for b in range(0, 0x20000, 0x400) if b not in (0xD800, 0xDC00)]
  n = 6 if tier == 'quick' else 8
  return ([Task('graphemes %d' % i, graphemes('part %d' % i, blocks[i::n])) for i in range(n)] +
          [Task(f.__name__, f) for f in (lattice_node, next_index, latin, symbols, inventories, iterables, equality, attributes, lattices, operations, phonemes)])
