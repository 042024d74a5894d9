"""Specification transducers, built from declarative descriptions of rewriting.

Nothing here looks at the code under check. A `Machine` is a sequential
transducer over characters; OTHER stands for any character outside its alphabet,
which it can only copy.
"""

import functools

import rrv

OTHER = '\U0010ffff'


class SpecError(Exception):
  pass


def _other_dfa(alphabet):
  r = rrv.uchar().minus(rrv.strings(sorted(alphabet)) if alphabet else rrv.empty(),
                        set(range(1, 256))).min()
  src, il, _, dst, _, fin = r.dump()
  return r.states, list(zip(map(int, src), map(int, il), map(int, dst))), [
      i for i in range(r.states) if fin[i] < 1e29]


class _Builder:
  """Byte-level arcs from character-level ones."""

  def __init__(self, alphabet, other, backward=False):
    self.backward = backward
    self.od = _other_dfa(alphabet) if other else None
    self.n, self.arcs, self.number, self.copies = 1, [], {}, {}
    self.fins = []

  def new(self):
    self.n += 1
    return self.n - 1

  def state(self, key):
    """(state, is it new?)"""
    if key in self.number:
      return self.number[key], False
    self.number[key] = self.new()
    return self.number[key], True

  def path(self, p, ins, outs, q=None):
    k = max(len(ins), len(outs))
    if k == 0:
      if q is None:
        return p
      self.arcs.append((p, 0, 0, q))
      return q
    for i in range(k):
      t = q if i == k - 1 and q is not None else self.new()
      self.arcs.append((p, ins[i] if i < len(ins) else 0, outs[i] if i < len(outs) else 0, t))
      p = t
    return p

  def arc(self, p, c, out, q):
    if c != OTHER:
      if OTHER in out:
        raise SpecError('OTHER out of place')
      ins, outs = rrv.enc(c), rrv.enc(out)
      if self.backward:
        ins, outs = ins[::-1], outs[::-1]
      self.path(p, ins, outs, q)
      return
    u, k, v = out.partition(OTHER)
    if k != OTHER or OTHER in v:
      raise SpecError('OTHER has to be copied')
    if (q, v) not in self.copies:
      m, darcs, dfin = self.od
      base = [self.new() for _ in range(m)]  # state 0 is the start
      for a, b, z in darcs:
        self.arcs.append((base[a], b, b, base[z]))
      for z in dfin:
        self.path(base[z], [], rrv.enc(v), q)
      self.copies[q, v] = base[0]
    self.path(p, [], rrv.enc(u), self.copies[q, v])

  def done(self):
    return rrv.make(self.n, 0, self.arcs, self.fins).trim().minpair()


def machine(start, step, final, alphabet, other=True, limit=200000, backward=False):
  """The byte-level relation of a sequential character machine.

  step(state, char) -> (state, output) or None; final(state) -> output or None.
  backward: the machine runs from the end of the text to its start."""
  if backward and other:
    raise SpecError('a backward machine needs a finite alphabet')
  b = _Builder(alphabet, other, backward)
  b.number[start] = 0
  todo = [start]
  letters = sorted(alphabet)
  while todo:
    s = todo.pop()
    p = b.number[s]
    f = final(s)
    if f is not None:
      b.fins.append(b.path(p, [], rrv.enc(f)[::-1] if backward else rrv.enc(f)))
    for c in letters + ([OTHER] if other else []):
      r = step(s, c)
      if r is None:
        continue
      q, fresh = b.state(r[0])
      if fresh:
        todo.append(r[0])
        if len(b.number) > limit:
          raise SpecError('machine too large')
      b.arc(p, c, r[1], q)
  r = b.done()
  return r.rev().trim().minpair() if backward else r


END = '\U0010fffe'  # the end of the text


def ahead(patterns, start, act, alphabet, other=True, limit=400000):
  """The byte-level relation of a machine with lookahead.

  It runs over the text from left to right and at each place knows of the rest
  of the text (which ends in END) its longest prefix that is a suffix of a pattern; in particular,
  which patterns the rest starts with. act(state, known, char) -> (state, output)
  or None; state None is not used. start: initial state. Acts are unambiguous, as
  the knowledge is a function of the rest: it is guessed, and checked while reading on.
  """
  know = {END}
  for x in patterns:
    for i in range(len(x) + 1):
      know.add(x[i:])

  def back(c, u):
    w = c + u
    for i in range(len(w), -1, -1):
      if w[:i] in know:
        return w[:i]
    return ''
  return knowing(END, back, start, act, alphabet, other, limit)


def knowing(end, back, start, act, alphabet, other=True, limit=400000):
  """The same for any knowledge of the rest: that of the empty rest is `end`, and
  back(char, known) is that of the rest with one more character in front."""
  # Reachable knowledge, and its predecessors.
  before = {}
  todo, seen = [end], {end}
  letters = sorted(alphabet) + ([OTHER] if other else [])
  while todo:
    u = todo.pop()
    for c in letters:
      v = back(c, u)
      before.setdefault((v, c), []).append(u)
      if v not in seen:
        seen.add(v)
        todo.append(v)
  b = _Builder(alphabet, other)
  todo = []
  for u in sorted(seen):
    q, _ = b.state((start, u))
    b.arcs.append((0, 0, 0, q))
    todo.append((start, u))
  hubs = {}
  while todo:
    s, u = todo.pop()
    p = b.number[s, u]
    if u == end:
      r = act(s, u, END)
      if r or r == '':
        b.fins.append(b.path(p, [], rrv.enc(r)) if isinstance(r, str) else p)
    for c in letters:
      if (u, c) not in before:
        continue
      r = act(s, u, c)
      if r is None:
        continue
      t, out = r
      if len(before[u, c]) > 1:
        key = (t, u, c)
        hub, fresh = hubs.get(key), False
        if hub is None:
          hub, fresh = b.new(), True
          hubs[key] = hub
        b.arc(p, c, out, hub)
        if not fresh:
          continue
      else:
        hub = None
      for v in before[u, c]:
        q, fresh = b.state((t, v))
        if fresh:
          todo.append((t, v))
          if len(b.number) > limit:
            raise SpecError('machine too large')
        if hub is None:
          b.arc(p, c, out, q)
        else:
          b.arcs.append((hub, 0, 0, q))
  return b.done()


START, STOP = '\x01', '\x02'  # the edges of a text, in contexts


def _table(r, letters):
  """Start, step and acceptance of the language of r; state -1 is dead."""
  src, il, _, dst, _, fin = r.min().dump()
  arcs = {(int(a), chr(int(b))): int(z) for a, b, z in zip(src, il, dst)}
  if any(c not in letters for _, c in arcs):
    raise SpecError('letters not in the alphabet: %r' % sorted({c for _, c in arcs} - set(letters)))
  return 0, lambda q, c: arcs.get((q, c), -1), lambda q: q >= 0 and fin[q] < 1e29


def contextual(rules, left, right, sigma):
  """Obligatory leftmost rewriting within regular contexts.

  rules: (lhs, rhs) strings, or one with an empty lhs, for insertion at each place once.
  left, right: acceptors of what stands directly before (in the text written so far) and after
  (in the text read), with START and STOP for the edges; None: anything. sigma: the
  alphabet, of ASCII characters. Fails if two rules apply at one place.
  """
  lets = set(sigma) | {START, STOP}
  every = rrv.strings(sorted(lets)).star()
  none = rrv.acc('')
  l0, lstep, lok = _table((every + (left or none)).min(), lets)
  tables = [_table((rrv.acc(a) + (right or none) + every).min().rev().min(), lets) for a, _ in rules]
  end = tuple(t[1](t[0], STOP) for t in tables)

  def back(c, u):
    return tuple(t[1](q, c) for t, q in zip(tables, u))

  def write(l, text):
    for c in text:
      l = lstep(l, c)
    return l

  def act(s, u, c):
    l, k = s
    add = ''
    if not k and lok(l):
      hits = [r for t, q, r in zip(tables, u, rules) if t[2](q)]
      if len(hits) > 1:
        raise SpecError('rules %r apply at one place' % hits)
      if hits:
        a, b = hits[0]
        l = write(l, b)
        if a:
          return ((l, len(a) - 1), b)
        add = b
    if c == END:
      return add if k == 0 else False
    if k:
      return ((l, k - 1), '')
    return ((write(l, c), 0), add + c)
  return knowing(end, back, (write(l0, START), 0), act, sigma, other=False)


ANY = 'any'
EDGE = 'edge'


def rewrite(rules, left=None, right=None, sigma=None, delete=''):
  """Obligatory leftmost rewriting of a text from left to right.

  rules: (lhs, rhs) pairs. left: None, EDGE (start of text), ANY (some character
  before) or strings one of which ends the text written so far. right: None, EDGE, ANY or strings one of
  which has to start the rest of the text. sigma: the alphabet; None: all of
  Unicode. delete: characters that are removed wherever no rule applies.
  Fails if two rules apply at one place.
  """
  table = {}
  for a, b in rules:
    if not a:
      raise SpecError('rule without lhs')
    if table.setdefault(a, b) != b:
      raise SpecError('two results for %r' % a)
  if left is not None and left not in (ANY, EDGE):
    left = frozenset(left)
  if right is not None and right not in (ANY, EDGE):
    right = frozenset(right)
  lets = set(delete).union(*table) if table else set(delete)
  for b in table.values():
    lets.update(b)
  for x in (left, right):
    if isinstance(x, frozenset):
      for y in x:
        lets.update(y)
  if sigma is not None:
    lets = set(sigma)
  lprefix = {y[:i] for y in left for i in range(len(y) + 1)} if isinstance(left, frozenset) else {''}

  def track(l, out):
    """What has to be known of the text written so far."""
    if left is None:
      return ''
    if left in (ANY, EDGE):
      return 'x' if l or out else ''
    s = l + out  # its longest suffix that is a prefix of a left string
    for i in range(len(s) + 1):
      if s[i:] in lprefix:
        return s[i:]
    raise AssertionError

  def left_ok(l):
    if left is None:
      return True
    if left == ANY:
      return l != ''
    if left == EDGE:
      return l == ''
    return any(l.endswith(y) for y in left)

  pats = set()
  for a in table:
    if right is None:
      pats.add(a)
    elif right in (ANY, EDGE):
      pats.add(a + END)
    else:
      pats.update(a + y for y in right)
  order = sorted(table, key=len)

  @functools.lru_cache(None)
  def match(u):
    hits = []
    for a in order:
      if not u.startswith(a):
        continue
      if right is None or (right == ANY and not u.startswith(a + END)) or (
          right == EDGE and u.startswith(a + END)) or (
              isinstance(right, frozenset) and any(u.startswith(a + y) for y in right)):
        hits.append(a)
    if len(hits) > 1:
      raise SpecError('rules %r apply at one place' % hits)
    return hits[0] if hits else None

  def act(s, u, c):
    l, k = s
    if c == END:
      return k == 0
    if k:
      return (l, k - 1), ''
    m = match(u) if left_ok(l) else None
    if m is None:
      out = '' if c in delete else c
      return (track(l, out), 0), out
    return (track(l, table[m]), len(m) - 1), table[m]

  if right == ANY:
    pats |= set(table)
  return ahead(pats, (track('', ''), 0), act, lets, other=sigma is None)


def layers(rules):
  """Rules in order of application: one whose lhs contains another's comes first."""
  rest, out = sorted(set(rules)), []
  while rest:
    now = [r for r in rest if not any(r != q and r[0] in q[0] for q in rest)]
    if not now:
      raise SpecError('cyclic rules')
    out.append(now)
    rest = [r for r in rest if r not in now]
  return out


def cascade(groups, sigma=None):
  """Composition of rewrite passes; each is a list of rules."""
  t = None
  for g in groups:
    m = rewrite(g, sigma=sigma)
    t = m if t is None else (t @ m).trim()
  return t if t is not None else over(sigma)


def over(sigma=None):
  """All texts over an alphabet (None: Unicode), as an acceptor."""
  return rrv.ustar() if sigma is None else rrv.strings(sorted(sigma)).star().min()


def dedup(chars, sigma=None):
  """Runs of each of these characters become one."""
  chars = set(chars)

  def step(s, c):
    return (c if c in chars else ''), ('' if c in chars and c == s else c)

  return machine('', step, lambda s: '', set(sigma) if sigma is not None else chars, other=sigma is None)


def keep_between(keep, sides, delete, sigma=None):
  """Deletes the characters in `delete`, except in a `keep` string that stands
  between two `sides` strings of the original text."""
  keep, sides = sorted(keep, key=len), set(sides)
  lets = set(delete).union(*keep, *sides) if sigma is None else set(sigma)
  lprefix = {y[:i] for y in sides for i in range(len(y) + 1)} | {''}

  def track(l, c):
    s = l + c
    for i in range(len(s) + 1):
      if s[i:] in lprefix:
        return s[i:]
    raise AssertionError

  @functools.lru_cache(None)
  def match(u):
    hits = [k for k in keep if any(u.startswith(k + y) for y in sides)]
    if len(hits) > 1:
      raise SpecError('%r are kept at one place' % hits)
    return len(hits[0]) if hits else 0

  def act(s, u, c):
    l, k = s
    if c == END:
      return k == 0
    if not k and any(l.endswith(y) for y in sides):
      k = match(u)
    return (track(l, c), max(k - 1, 0)), c if k or c not in delete else ''

  return ahead({k + y for k in keep for y in sides}, ('', 0), act, lets, other=sigma is None)
