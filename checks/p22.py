"""The building blocks of aligned text: notation, rules, lists of transducers, letters and sounds."""

import functools
import itertools
import string

import pynini

import common
import real
import rrv
import spec
from p21 import Failed, decide, eq, guarded
from run import Task

N = 'natural_translit/'
FILES = [N + f for f in (
    'utils/alignment.py', 'utils/concat.py', 'utils/fst_list.py', 'utils/rewrite_functions.py', 'utils/type_op.py', 'utils/inventory.py',
    'script/char.py', 'phonology/phon.py', 'phonology/modify_phon.py', 'phonology/operations/syllable.py',
    'phonology/operations/voicing.py')] + ['utils/rewrite.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = [common.ASSUME[1],
               'rules: those of the samples stand for all; each is decided for all texts over a, b, _ and the signs of the notation']
LEVEL = 'exploration'

SIGNS = '_+.*-&!:'
SIGMA = 'ab_<>{}`='
NOTHING = object()


@functools.lru_cache(None)
def modules():
  real.api(['//nisaba/scripts/natural_translit/' + t for t in (
      'utils:rewrite_functions', 'script:char', 'phonology:modify_phon', 'phonology/operations:syllable', 'phonology/operations:voicing',
      'phonology:phoneme_inventory', 'brahmic:grapheme_inventory')])
  from nisaba.scripts.natural_translit.phonology import modify_phon, phon
  from nisaba.scripts.natural_translit.phonology.operations import syllable, voicing
  from nisaba.scripts.natural_translit.script import char
  from nisaba.scripts.natural_translit.utils import alignment, concat, fst_list, rewrite_functions

  class M:
    pass
  M.al, M.cc, M.fl, M.rw, M.char, M.phon, M.mod, M.syl, M.voi = (
      alignment, concat, fst_list, rewrite_functions, char, phon, modify_phon, syllable, voicing)
  return M


# The notation: languages over the letters and signs of words.

class Notation:
  """What the parts of aligned text look like."""

  def __init__(self, words):
    w = rrv.strings(sorted(words)).star()
    one = lambda l, r: rrv.cat(rrv.acc(l), w, rrv.acc(r)).min()
    self.sym = w.min()
    self.grapheme, self.phoneme, self.translit = one('<', '>'), one('{', '}'), one('`', '`')
    self.right = rrv.union(self.phoneme, self.translit).star().min()
    self.all = rrv.union(self.grapheme, self.phoneme, self.translit).star().min()
    self.skip_left = rrv.cat(self.grapheme.star(), rrv.acc('=')).ques().min()
    self.skip_right = rrv.cat(rrv.acc('='), self.right).ques().min()
    self.skip = rrv.union(self.skip_left, self.skip_right).min()


@functools.lru_cache(None)
def small():
  return Notation('ab_')


def rel(fst):
  """Without the marks of the edges: those stand for START and STOP."""
  return rrv.from_pynini(fst, False)


def language(what, fst, want):
  got = rel(fst)
  for a, b, missing in ((want, got, True), (got, want, False)):
    ok, w = rrv.included(a, b)
    if not ok:
      t = rrv.show(w)
      real_ = (pynini.accep(pynini.escape(t)) @ fst).num_states() > 0
      raise Failed(dict(input='%s, the text %r' % (what, t), expected='part of it' if missing else 'no part of it',
                        got='part of it' if real_ else 'no part of it', replayed=real_ != missing))


def pairs(what, fst, want):
  """The finite relation of fst."""
  got = sorted((a, b) for a, b, _ in fst.paths().items())
  eq(what, got, sorted(want))


def notation(out):
  m = modules()

  def run():
    n = Notation(set(string.ascii_letters) | set(SIGNS))
    tests = [('SYM', n.sym), ('GRAPHEME', n.grapheme), ('GRAPHEMES', n.grapheme.star().min()), ('PHONEME', n.phoneme), ('PHONEMES', n.phoneme.star().min()),
             ('TRANSLIT', n.translit), ('TRANSLITS', n.translit.star().min()), ('R_SYMS', n.right), ('SYMS', n.all),
             ('SKIP_LEFT_SIDE', n.skip_left), ('SKIP_RIGHT_SIDE', n.skip_right), ('SKIP', n.skip)]
    k = 0
    for name, want in tests:
      fst = getattr(m.al, name, None)
      if fst is not None:  # some of them serve the others only
        language(name, fst, want)
        k += 1
    byte = rrv.byte_range(1, 255)
    language('BYTE_STAR', m.al.BYTE_STAR, byte.star().min())
    return k + 1
  guarded(out, 'graphemes, phonemes, transliterations, and what is skipped between them', '', run, backend='automata', full=True)

  def parts():
    k = 0
    A = pynini.accep
    words = ['', 'a', 'ab', 's_a', 'B+c', 'a:h']
    for w in words:
      for arg in (w, A(w)):
        for f, l, r in (('enclose_grapheme', '<', '>'), ('enclose_phoneme', '{', '}'), ('enclose_translit', '`', '`')):
          pairs('%s(%r)' % (f, w), getattr(m.al, f)(arg), [(l + w + r, l + w + r)])
          k += 1
    sides = ['<a>', '<a><b>', '', '{a}', '{a}{b}', '`a`']
    for a, b in itertools.product(sides, repeat=2):
      t = a + '=' + b
      pairs('align(%s, %s)' % (a, b), m.al.align(A(a), A(b)), [(t, t)])
      pairs('assign(%s, %s)' % (a, b), m.al.assign(A(a), A(b)), [(a, t)])
      for c in sides:
        pairs('realign(%s, %s, %s)' % (a, b, c), m.al.realign(A(a), A(b), A(c)), [(t, a + '=' + c)])
        k += 1
      k += 2
      both = small()
      join = lambda x, skip, y: rrv.cat(rrv.acc(x), skip, rrv.acc(y)).min()
      over = pynini.closure(pynini.union(*[pynini.escape(c) for c in SIGMA]))
      language('concat_r(%s, %s)' % (a, b), over @ m.cc.concat_r(A(a), A(b)), join(a, both.skip_left, b))
      language('concat_l(%s, %s)' % (a, b), over @ m.cc.concat_l(A(a), A(b)), join(a, both.skip_right, b))
      if b:
        pairs('repeat(%s)' % (a + b), m.cc.repeat(A(a + b)), [((a + b) * 2,) * 2])
      # Syllables: sides as the vowel and the consonant.
      v, c, cl = A('{a}'), A(b or '{b}'), A((b or '{b}') + (a or '{_}'))
      cons = rrv.union(rrv.acc(b or '{b}'), rrv.acc((b or '{b}') + (a or '{_}')))
      language('legal_onset with %s and %s' % (a, b), over @ m.syl.legal_onset(v, c, cl), rrv.cat(cons, both.skip_left, rrv.acc('{a}')).min())
      language('legal_coda with %s and %s' % (a, b), over @ m.syl.legal_coda(v, c, cl), rrv.cat(rrv.acc('{a}'), both.skip_left, cons.ques()).min())
      k += 5
    return k
  guarded(out, 'parts of aligned text are put together as given', '6 words, 6 sides, in all combinations', parts, backend='automata')


# Rules.

def over(fst):
  return (pynini.closure(pynini.union(*[pynini.escape(c) for c in SIGMA])) @ fst).optimize()


def rule(what, fst, rules, left=None, right=None):
  decide(what, over(fst), spec.contextual(rules, left, right, SIGMA), spec.over(SIGMA))


def before(c):
  return None if c is None else rrv.cat(c, small().skip).min()


def after(c):
  return None if c is None else rrv.cat(small().skip, c).min()


@functools.lru_cache(None)
def edges():
  """The edges of words, as contexts."""
  return rrv.cat(rrv.acc(spec.START), small().skip_left).min(), rrv.cat(small().skip_right, rrv.acc(spec.STOP)).min()


@functools.lru_cache(None)
def contexts():
  """(name, transducer, acceptor) of contexts."""
  m = modules()
  A = pynini.accep
  out = [('nothing', None, None)]
  for texts in (['{a}'], ['<b>'], ['a', '{b}'], ['`a`', '`b`'], ['=']):
    out.append(('/'.join(texts), pynini.union(*map(A, texts)) if len(texts) > 1 else A(texts[0]), rrv.strings(texts)))
  out.append(('{a}..{b}', m.cc.concat_r(A('{a}'), A('{b}')), rrv.cat(rrv.acc('{a}'), small().skip_left, rrv.acc('{b}')).min()))
  return out


def given(**kw):
  return {k: v for k, v in kw.items() if v is not None}


def sides(part=0, parts=1):
  every = list(itertools.product(contexts(), repeat=2))
  for (n1, f1, a1), (n2, f2, a2) in every[part::parts]:
    yield '%s before and %s after' % (n1, n2), given(preceding=f1, following=f2), before(a1), after(a2)


RULES = [('{a}', '{b}'), ('<a>=`a`', '<a>=`b`{a}'), ('a', ''), ('=', '`a`'), ('{b}{b}', '{b}')]
MANY = [[('{a}', '{b}'), ('{b}', '{a}')], [('<a>', '<b>'), ('`a`', '{a}'), ('a=', '=')], [('{a}{b}', '{b}{a}'), ('{b}', '')]]


def rules(part, parts):
  def fn(out):
    m = modules()
    A = pynini.accep

    def contextual():
      n = 0
      for i, (name, kw, left, right) in enumerate(sides(part, parts)):
        for j, (a, b) in enumerate(RULES):
          if (i + j) % 2:
            continue
          arg = (lambda x: x) if (i + j) % 4 else A
          rule('rewrite %s to %s, %s' % (a, b, name), m.rw.rewrite(arg(a), arg(b), **kw), [(a, b)], left, right)
          n += 1
        for rs in MANY[i % 3:i % 3 + 1]:
          rule('rewrite_ls %s, %s' % (rs, name), m.rw.rewrite_ls([(A(a), A(b)) for a, b in rs], **kw), rs, left, right)
          rule('voicing %s, %s' % (rs, name), m.voi.voicing(rs, **kw), rs, left, right)
          n += 2
        a, b, c = [('<a>', '{a}', '{b}'), ('<a><b>', '{a}{b}', ''), ('<b>', '`a`', '{a}{b}')][i % 3]
        rule('reassign %s from %s to %s, %s' % (a, b, c, name), m.rw.reassign(A(a), A(b), A(c), **kw), [(a + '=' + b, a + '=' + c)], left, right)
        t = ('{a}', '<a>', '`b`=')[i % 3]
        rule('delete %s, %s' % (t, name), m.rw.delete(A(t), **kw), [(t, '')], left, right)
        rule('rewrite_op %s, %s' % (t, name), m.rw.rewrite_op(pynini.cross(t, 'b'), **kw), [(t, 'b')], left, right)
        rule('insert %s, %s' % (t, name), m.rw.insert(A(t), **kw), [('', t)], left, right)
        rule('rewrite_repeated %s, %s' % (t, name), m.rw.rewrite_repeated(A(t), **kw), [(t + t, t)], left, right)
        rule('rewrite_repeated %s to b, %s' % (t, name), m.rw.rewrite_repeated(A(t), A('b'), **kw), [(t + t, 'b')], left, right)
        n += 6
        l1, r1, l2, r2 = [('<a>', '{a}', '<b>', '{b}'), ('<a>', '`b`', '<a>', '{a}'), ('<b>', '', '<a>', '{a}{b}')][i % 3]
        for new in (None, '{_}'):
          rule('merge %s=%s and %s=%s to %s, %s' % (l1, r1, l2, r2, new, name), m.rw.merge(A(l1), A(r1), A(l2), A(r2), **given(new_right=new and A(new)), **kw),
               [('%s=%s%s=%s' % (l1, r1, l2, r2), '%s%s=%s' % (l1, l2, r1 + r2 if new is None else new))], left, right)
          n += 1
      return n
    guarded(out, 'rules: everywhere in their contexts, which skip the other sides of alignments (part %d)' % part,
            '7 contexts on each side, 20 rules; each for all texts over %s' % SIGMA, contextual, backend='relation')
  return fn


def edge_rules(out):
  m = modules()
  A = pynini.accep
  start, stop = edges()

  def run():
    n = 0
    for name, f, a in contexts():
      for x, y in RULES:
        rule('rewrite_word_initial %s to %s, %s after' % (x, y, name), m.rw.rewrite_word_initial(A(x), A(y), **given(following=f)), [(x, y)], before(start), after(a))
        rule('rewrite_word_final %s to %s, %s before' % (x, y, name), m.rw.rewrite_word_final(A(x), A(y), **given(preceding=f)), [(x, y)], before(a), after(stop))
        n += 2
      for x, y, z in (('<a>', '{a}', '{b}'), ('<b>', '`a`', '')):
        r = [(x + '=' + y, x + '=' + z)]
        rule('reassign_word_initial %s=%s to %s, %s after' % (x, y, z, name), m.rw.reassign_word_initial(A(x), A(y), A(z), **given(following=f)), r, before(start), after(a))
        rule('reassign_word_final %s=%s to %s, %s before' % (x, y, z, name), m.rw.reassign_word_final(A(x), A(y), A(z), **given(preceding=f)), r, before(a), after(stop))
        n += 2
    return n
  guarded(out, 'rules at the edges of words: there only', '7 contexts, 7 rules; each for all texts over %s' % SIGMA, run, backend='relation')

  def adjacent():
    n = 0
    lefts, rights = ['<a>', '<b>', '<a><b>'], ['{a}', '`b`', '', '{a}{b}']
    for l, r, s in itertools.product(lefts, rights, rights):
      for l2, r2, s2 in ((l, r, s), ('<b>', s, r), ('<a>', '{_}', r), ('<_>', r, '`a`')):
        rule('reassign_adjacent_alignments %s' % ((l, r, s, l2, r2, s2),), m.rw.reassign_adjacent_alignments(*map(A, (l, r, s, l2, r2, s2))),
             [(l + '=' + r + l2 + '=' + r2, l + '=' + s + l2 + '=' + s2)])
        n += 1
      rule('merge_repeated_alignment %s' % ((l, r),), m.rw.merge_repeated_alignment(A(l), A(r)), [((l + '=' + r) * 2, l + l + '=' + r)])
      if s:
        rule('merge_repeated_alignment %s' % ((l, r, s),), m.rw.merge_repeated_alignment(A(l), A(r), A(s)), [((l + '=' + r) * 2, l + l + '=' + s)])
      n += 2
    return n
  guarded(out, 'rules on adjacent alignments', '3 left and 4 right sides; each for all texts over %s' % SIGMA, adjacent, backend='relation')

  def extract():
    decide('EXTRACT_RIGHT_SIDE', over(m.rw.EXTRACT_RIGHT_SIDE), right_side(), spec.over(SIGMA))
    return 1
  guarded(out, 'the right side of aligned text: all but graphemes and signs of alignment', 'all texts over %s' % SIGMA, extract, backend='relation')


@functools.lru_cache(None)
def right_side(sigma=SIGMA):
  """Drops <..> and = from left to right."""
  words = set(sigma) & set('ab_')

  def act(s, u, c):
    if c == spec.END:
      return not s
    if s:
      return c != '>', ''
    if c == '<' and u == 'open':
      return True, ''
    return False, '' if c == '=' else c

  def back(c, u):  # does the rest start with a grapheme, or with the rest of one?
    if c == '<' and u == 'rest':
      return 'open'
    return 'rest' if c == '>' or c in words and u == 'rest' else ''
  return spec.knowing('', back, False, act, sigma, other=False)


# Lists of transducers.

def lists(out):
  m = modules()
  A = pynini.accep

  def flat():
    n = 0
    leaves = ['a', A('b'), 'ab', '', A(''), None, 3, m.fl.FstList('b', 'a'), pynini.cross('a', 'b')]

    def expect(x):
      if isinstance(x, str):
        return [(x, x)]
      if isinstance(x, pynini.Fst):
        return [(a, b) for a, b, _ in x.paths().items()]
      if isinstance(x, (list, tuple, m.fl.FstList)):
        return [y for z in x for y in expect(z)]
      return []
    for k in range(4):
      for xs in itertools.product(leaves, repeat=k):
        for shape in (list(xs), [list(xs)], [xs[:1], [list(xs[1:])]], [m.fl.FstList(*xs)]):
          got = m.fl.FstList(*shape)
          eq('the items of FstList of %s' % (shape,), [(a, b) for f in got for a, b, _ in f.paths().items()], expect(list(xs)))
          n += 1
        both = m.fl.FstList(*xs[:1])
        if both.add(*xs[1:]) is not both:
          eq('FstList.add gives', 'another list', 'the list')
        eq('FstList of %s with %s added' % (xs[:1], xs[1:]), [(a, b) for f in both for a, b, _ in f.paths().items()], expect(list(xs)))
    eq('FstList of a generator', [f.string() for f in m.fl.FstList(c for c in 'abc')], list('abc'))
    eq('FstList.accep', [f.string() for f in m.fl.FstList.accep('a', 'bc', 'a')], ['a', 'bc', 'a'])
    eq('FstList.cross', [list(f.paths().items())[0][:2] for f in m.fl.FstList.cross(('a', 'b'), ('b', ''), (A('ab'), A('a')))], [('a', 'b'), ('b', ''), ('ab', 'a')])
    calls = []

    def maker(*args):
      calls.append(args)
      return A('a' * len(calls))
    eq('FstList.make', [f.string() for f in m.fl.FstList.make(maker, (1, 2), (), ('x', 4, 5))], ['a', 'aa', 'aaa'])
    eq('the arguments in FstList.make', calls, [(1, 2), (), ('x', 4, 5)])
    return n + 4
  guarded(out, 'lists of transducers are flat and in order', 'up to 3 of 9 items, in 4 forms', flat)

  def together():
    n = 0
    some = [('a', 'a'), ('b', 'b'), ('ab', 'ab'), ('', ''), ('a', 'b'), ('ba', '_')]
    for k in range(0, 4):
      for ps in itertools.product(some, repeat=k):
        make = lambda: m.fl.FstList([pynini.cross(a, b) for a, b in ps])
        fl = make()
        want = sorted(set(ps))
        for name in ('union', 'union_opt'):
          eq('%s of %s' % (name, ps), sorted({(a, b) for a, b, _ in getattr(fl, name)().paths().items()}), want)
        cat = (''.join(a for a, _ in ps), ''.join(b for _, b in ps))
        eq('concat of %s' % (ps,), {(a, b) for a, b, _ in fl.concat().paths().items()}, {cat})
        eq('items of %s afterwards' % (ps,), [[p[:2] for p in f.paths().items()] for f in fl], [[p] for p in ps])
        if k:
          limit = pynini.union(*['a' * i + 'b' * j + c for i in range(3) for j in range(3) for c in ('', 'a')])
          got = (limit @ fl.union_star()).paths()
          got = sorted({(a, b) for a, b, _ in got.items()})
          texts = {('', '')}
          new = texts
          while new:
            new = {(x + a, y + b) for x, y in new for a, b in ps if a and len(x + a) <= 5} - texts
            texts |= new
          inputs = set(limit.paths().ostrings())
          eq('union_star of %s' % (ps,), got, sorted(t for t in texts if t[0] in inputs))
        n += 4
    return n
  guarded(out, 'unions, concatenations and repetitions of lists', 'up to 3 of 6 pairs', together)

  def composed():
    steps = [pynini.cross(chr(97 + i), chr(98 + i)) for i in range(5)]
    for k in range(1, 6):
      for heavy in range(k):
        fsts = [f.copy() for f in steps[:k]]
        for _ in range(20):
          fsts[heavy].add_state()
        pairs('compose of %d' % k, m.fl.FstList(fsts).compose(), [('a', chr(97 + k))])
    return 15
  guarded(out, 'composition of lists in their order', 'up to 5', composed)


# Letters.

def text(fst):
  return None if fst.num_states() == 0 else fst.string()


def fields(c):
  return dict(alias=c.alias, typ=c.typ, gr=text(c.gr), tr=text(c.tr), glyph=c.glyph, ph=text(c.ph), cmp=text(c.cmp) if isinstance(c.cmp, pynini.Fst) else None)


def letters(out):
  m = modules()
  A = pynini.accep

  def want(typ, glyph, ph='', alias='', cmp=None):
    return dict(alias=alias or typ.upper(), typ=typ, gr='<%s>' % typ, tr='`%s`' % typ, glyph=glyph, ph=ph, cmp=cmp)

  def made():
    C = m.char.Char
    n = 0
    for typ, glyph, ph, alias in itertools.product(['a', 'aa', 'k_h'], ['a', '\u0101', 'k\u02b0', '\u0325'], ['', '{a}', '{a}{:h}'], ['', 'X', 'aa']):
      c = C(typ, glyph, A(ph), alias)
      eq('Char%s' % ((typ, glyph, ph, alias),), fields(c), want(typ, glyph, ph, alias))
      d = C('b', 'b', A('{b}'))
      e = m.char.make_composite_char([c, d, c], 'q', A('{q}'), alias)
      eq('make_composite_char%s' % ((typ, glyph),), fields(e), want('q', glyph + 'b' + glyph, '{q}', alias, '<%s><b><%s>' % (typ, typ)))
      eq('uppercase_list%s' % ((typ, glyph),), [fields(x) for x in m.char.uppercase_list([c, d])],
         [want(typ.upper() + '_uc', glyph.upper(), ph), want('B_uc', 'B', '{b}')])
      eq('double_substring%s' % ((typ, glyph),), fields(m.char.double_substring(c)), want('s_' + typ + typ, glyph + glyph))
      ds, table = m.char.ls_double_substring([c, d])
      eq('ls_double_substring%s' % ((typ, glyph),), ([fields(x) for x in ds], {k: text(v) for k, v in table.items()}),
         ([want('s_' + typ + typ, glyph + glyph), want('s_bb', 'bb')], {'`%s`' % typ: '`s_%s`' % (typ + typ), '`b`': '`s_bb`'}))
      eq('the letter afterwards', fields(c), want(typ, glyph, ph, alias))
      for kind, sign in (('gr', '<%s>'), ('tr', '`%s`')):
        want_list = [sign % typ, sign % 'b']
        eq('%s_list' % kind, [text(x) for x in getattr(m.char, kind + '_list')([c, d])], want_list)
        eq('thing_%s_list' % kind, [text(x) for x in getattr(m.char, 'thing_%s_list' % kind)('T', [c, d]).value], want_list)
        eq('thing_%s_union' % kind, sorted(getattr(m.char, 'thing_%s_union' % kind)('T', [c, d]).value.paths().ostrings()), sorted(want_list))
        language('thing_%s_star of %s' % (kind, want_list), getattr(m.char, 'thing_%s_star' % kind)('T', [c, d]).value, rrv.strings(want_list).star().min())
        inv = getattr(m.char, kind + '_inventory')([c, d])
        eq('%s_inventory' % kind, [text(getattr(inv, x.alias)) for x in (c, d)], want_list)
      inv = m.char.char_inventory([c, d])
      if getattr(inv, c.alias) is not c or inv.B is not d:
        eq('char_inventory holds', 'others', 'the letters')
      n += 10
    for s in ('a', 'sch', ''):
      eq('make_substring(%r)' % s, fields(m.char.make_substring(s)), want('s_' + s, s))
    return n + 3
  guarded(out, 'letters: their sign, glyph and sound, and those made of them', '108 letters', made)

  def printed():
    n = 0
    C = m.char.Char
    few = [C('a', '\u0101', A('{a}')), C('b', 'b'), C('ab', '\u0325\u02b0'), C('__', '')]
    for k in range(1, 4):
      for cs in itertools.combinations(few, k):
        name = ' '.join('%s:%r' % (c.typ, c.glyph) for c in cs)
        readable = [c for c in cs if c.glyph]
        if readable:
          ps = [(c.glyph, '<%s>' % c.typ) for c in readable]
          relation('read_glyph of %s' % name, m.char.read_glyph(readable), rrv.pairs(ps).star())
        ps = [('`%s`' % c.typ, c.glyph) for c in cs]
        relation('print_glyph of %s' % name, m.char.print_glyph(cs), rrv.pairs(ps).star())
        relation('print_only_glyph of %s' % name, over(m.char.print_only_glyph(cs)), (right_side() @ rrv.pairs(ps).star()).trim())
        n += 3
    for cs in itertools.combinations([C('x', 'a'), C('y', 'b'), C('z', '_')], 2):
      rule('remove_repeated_glyph of %s' % [c.glyph for c in cs], m.char.remove_repeated_glyph(list(cs)), [(c.glyph * 2, c.glyph) for c in cs])
      a, b = cs
      comps = [m.char.make_composite_char([C('a', 'a'), C('b', 'b')], 'ba'), m.char.make_composite_char([C('b', 'a'), C('a', 'b'), C('_', '')], 'b_')]
      rule('compose_from_gr', m.char.compose_from_gr(comps), [('<a><b>', '<ba>'), ('<b><a><_>', '<b_>')])
      n += 2
    return n
  guarded(out, 'letters are read and printed one by one', '14 sets of letters; each for all texts', printed, backend='relation')


def relation(what, fst, want):
  """fst is the function want."""
  want = want.trim()
  decide(what, fst, want, want.dom().min())


# Sounds.

def sound(p):
  return dict(alias=p.alias, txn=p.txn, ftr=list(p.ftr), ph=text(p.ph), ipa=p.ipa, tr={k: text(v) for k, v in p.tr_dict.items()}, cmp=[c.alias for c in p.cmp])


def sounds(out):
  m = modules()
  A = pynini.accep
  P = m.phon.Phon

  def base(*args):
    return P.base(*args)

  def some():
    return [base('a', ['vowel', 'open'], 'a', A('`a`')), base('d', ['stop', 'voiced'], 'd', A('`d`'), 'DD'), base('z', ['fricative', 'voiced', 'voiced2'], 'z'),
            base('s:', ['fricative', 'voiceless'], 's\u02d0', A('`s``s`')), base('b', ['voiced'], '', A(''))]

  def made():
    n = 0
    for p in some():
      eq('a base sound has itself as its parts', [c is p for c in p.cmp], [True])
    eq('base sounds', [sound(p) for p in some()], [
        dict(alias='A', txn='a', ftr=['vowel', 'open'], ph='{a}', ipa='a', tr={'base': '`a`'}, cmp=['A']),
        dict(alias='DD', txn='d', ftr=['stop', 'voiced'], ph='{d}', ipa='d', tr={'base': '`d`'}, cmp=['DD']),
        dict(alias='Z', txn='z', ftr=['fricative', 'voiced', 'voiced2'], ph='{z}', ipa='z', tr={'base': '`DEL`'}, cmp=['Z']),
        dict(alias='S:', txn='s:', ftr=['fricative', 'voiceless'], ph='{s:}', ipa='s\u02d0', tr={'base': '`s``s`'}, cmp=['S:']),
        dict(alias='B', txn='b', ftr=['voiced'], ph='{b}', ipa='', tr={'base': ''}, cmp=['B'])])
    f = m.mod.f
    tie, tie_ph = '\u0361', '{+}'
    for k in range(1, 4):
      for idx in itertools.product(range(5), repeat=k):
        ps = some()
        parts = [ps[i] for i in idx]
        was = [sound(p) for p in ps]
        for new, alt in ((None, None), ('`x`', None), ('`x`', {'semi': A('`y`')}), (None, {'base': A('`z`')})):
          args = [parts, 'whole'] + ([A(new) if new else m.phon.ty.UNSPECIFIED] if new or alt else []) + ([alt] if alt else [])
          got = m.mod.compose(*args)
          trs = ''.join(was[i]['tr']['base'] for i in idx)
          want = dict(alias='_'.join(was[i]['alias'] for i in idx), txn='+'.join(was[i]['txn'] for i in idx),
                      ftr=['whole'] + [x for i in idx for x in was[i]['ftr']], ph=tie_ph.join(was[i]['ph'] for i in idx),
                      ipa=tie.join(was[i]['ipa'] for i in idx), tr={'base': trs, 'whole': new or trs, **{a: text(b) for a, b in (alt or {}).items()}},
                      cmp=[was[i]['alias'] for i in idx])
          eq('compose of %s' % ([was[i]['alias'] for i in idx],), sound(got), want)
          eq('the parts afterwards', [sound(p) for p in ps], was)
          n += 1
        if k == 2:
          # Composed sounds are composed of all their parts.
          more = m.mod.compose([got, ps[0], got], 'more')
          order = list(idx) + [0] + list(idx)
          eq('compose of composed sounds', (more.alias, more.txn, text(more.ph), more.ipa, [c.alias for c in more.cmp]),
             ('_'.join(was[i]['alias'] for i in order), '+'.join(was[i]['txn'] for i in order), tie_ph.join(was[i]['ph'] for i in order),
              tie.join(was[i]['ipa'] for i in order), [was[i]['alias'] for i in order]))
          d = m.mod.diphthong(parts, A('`x`'), A('`y`'), A('`z`'))
          eq('diphthong', (d.ftr[0], sound(d)['tr']), (f.diphthong, {'base': trs, f.diphthong: '`x`', 'semivowel': '`y`', 'monophthong': '`z`'}))
          d = m.mod.diphthong(parts, A('`x`'))
          eq('diphthong without others', sound(d)['tr'], {'base': trs, f.diphthong: '`x`'})
          d = m.mod.affricate(parts, A('`x`'))
          eq('affricate', (d.ftr[0], sound(d)['tr']), (f.affricate, {'base': trs, f.affricate: '`x`'}))
          d = m.mod.click(*parts)
          eq('click', (d.ftr[0], sound(d)['tr'], [c.alias for c in d.cmp]), (f.coarticulated, {'base': trs, f.coarticulated: trs}, [was[i]['alias'] for i in idx]))
          eq('the parts afterwards', [sound(p) for p in ps], was)
          n += 5
    return n
  guarded(out, 'sounds made of others: all parts in order, which stay as they are', 'up to 3 of 5 sounds', made)

  def derived():
    n = 0
    f, mod = m.mod.f, m.mod.MOD
    for i in range(5):
      for md in (mod.DVC, mod.NPL, mod.STR, mod.DURB):
        for new in (None, '`x`'):
          ps = some()
          p = ps[i]
          was, mod_was = sound(p), sound(md)
          got = m.mod.derive_with_suffix(p, md, A(new) if new else None)
          txn = p.txn + md.txn
          eq('derive_with_suffix of %s and %s' % (p.alias, md.alias), sound(got), dict(
              alias=was['alias'] + md.txn.upper(), txn=txn, ftr=was['ftr'] + mod_was['ftr'], ph='{%s}' % txn, ipa=was['ipa'] + mod_was['ipa'],
              tr={**was['tr'], md.ftr[0]: new or was['tr']['base']}, cmp=[was['alias'] + md.txn.upper()]))
          eq('both afterwards', (sound(p), sound(md)), (was, mod_was))
          n += 1
      p = some()[i]
      was = sound(p)
      if f.voiced in p.ftr:
        q = m.mod.devoiced(p)
        eq('devoiced', (q.txn, q.ipa, q.ftr), (p.txn + 'o', p.ipa + '\u0325', [x for x in was['ftr'] if x != f.voiced] + [f.devoiced]))
      q = m.mod.nonpulmonic(p)
      eq('nonpulmonic', (q.txn, q.ipa, q.ftr), (p.txn + 'e', p.ipa + '`', was['ftr'] + [f.nonpulmonic]))
      eq('the sound afterwards', sound(p), was)
      for add, alt in itertools.product((None, [], ['x', 'y']), (None, {}, {'k': A('`k`')}, {'base': A('`k`')})):
        q = m.phon.import_phon(p, **given(add_ftr=add, alt_tr_dict=alt))
        eq('import_phon(%s, %s, %s)' % (p.alias, add, alt), sound(q), dict(was, ftr=was['ftr'] + (add or []), tr={**was['tr'], **{a: text(b) for a, b in (alt or {}).items()}}))
        q.ftr.append('more')
        q.tr_dict['more'] = A('')
        eq('the sound that was imported, afterwards', sound(p), was)
        n += 1
    stops, frics = some()[1:2], some()[2:4]
    got = m.mod.ls_affricate(stops[0], frics, A('`x`'))
    eq('ls_affricate', [q.txn for q in got], ['d+z', 'd+s:', 'd+s:e'])
    got = m.mod.ls_click(some()[:2], frics)
    eq('ls_click', [q.txn for q in got], ['a+z', 'a+s:', 'd+z', 'd+s:'])
    for dur, md, ipa in (('DURB', 'BTM', '\u0306'), ('DURM', 'MDL', '\u02d1'), ('DURH', 'HGH', '\u02d0'), ('DURT', 'TOP', '\u02d0\u02d0')):
      d, q = getattr(mod, dur), getattr(mod, md)
      eq(dur, (d.txn, text(d.ph), d.ipa, d.ftr), (':' + q.txn, '{:%s}' % q.txn, ipa, mod.DUR.ftr + q.ftr))
    for fn, sign, of in ((m.mod.stress, '*', mod.STR), (m.mod.pitch, '^', mod.TPT), (m.mod.contour, '&', mod.TCN), (m.mod.intonation, '!', mod.INT)):
      q = fn(mod.HGH, 'i')
      eq(fn.__name__, (q.txn, text(q.ph), q.ipa, q.ftr), (sign + 'h', '{%sh}' % sign, 'i', of.ftr + mod.HGH.ftr))
    return n + 10
  guarded(out, 'sounds derived from others, which stay as they are', '5 sounds, 4 modifiers, features and transliterations', derived)

  def spoken():
    n = 0

    def few():
      ps = [base('a', ['v'], 'a', A('`b`')), base('b', ['c'], 'b_', A('`a``_`')), base('a_', ['c'], '')]
      for i, p in enumerate(ps):
        p.tr_dict['key'] = A(('`_`', '', '`a`')[i])
      return ps
    for p in few():
      s = sound(p)
      if s['tr']['base'] != '`DEL`':
        rule('translit_base of %s' % s, m.phon.translit_base(p), [(s['ph'], s['tr']['base'])])
        rule('translit_by_key of %s and the empty key' % s, m.phon.translit_by_key(p, ''), [(s['ph'], s['tr']['base'])])
        n += 2
      rule('translit_by_key of %s' % s, m.phon.translit_by_key(p, 'key'), [(s['ph'], s['tr']['key'])])
      rule('translit_ipa of %s' % s, m.phon.translit_ipa(p), [(s['ph'], s['ipa'])])
      n += 2
    for k in range(1, 4):
      for ps in itertools.combinations(few(), k):
        ss = [sound(p) for p in ps]
        name = ', '.join(s['txn'] for s in ss)
        if all(s['tr']['base'] != '`DEL`' for s in ss):
          rule('ls_translit_base of ' + name, m.phon.ls_translit_base(ps), [(s['ph'], s['tr']['base']) for s in ss])
          rule('ls_translit_by_key of ' + name, m.phon.ls_translit_by_key(ps, ''), [(s['ph'], s['tr']['base']) for s in ss])
          n += 2
        rule('ls_translit_by_key of %s and a key' % name, m.phon.ls_translit_by_key(ps, 'key'), [(s['ph'], s['tr']['key']) for s in ss])
        prs = rrv.pairs([(s['ph'], s['ipa']) for s in ss]).star()
        relation('ls_translit_ipa of ' + name, m.phon.ls_translit_ipa(ps), prs)
        relation('print_only_ipa of ' + name, over(m.phon.print_only_ipa(ps)), (right_side() @ prs).trim())
        phs = [s['ph'] for s in ss]
        eq('ph_list', [text(x) for x in m.phon.ph_list(ps)], phs)
        eq('thing_ph_list', [text(x) for x in m.phon.thing_ph_list('T', ps).value], phs)
        star = rrv.strings(phs).star()
        for fn in (m.phon.ph_union, lambda ps: m.phon.thing_ph_union('T', ps).value):
          language('ph_union of ' + name, fn(ps), rrv.strings(phs))
        for fn in (m.phon.ph_star, lambda ps: m.phon.thing_ph_star('T', ps).value):
          language('ph_star of ' + name, fn(ps), star.min())
        language('thing_ph_modified of ' + name, m.phon.thing_ph_modified('T', ps, few()[:1]).value, rrv.cat(rrv.strings(phs), rrv.strings(['{a}']).star()).min())
        n += 8
    return n
  guarded(out, 'sounds are written one by one', '3 sounds, 7 sets of them; each for all texts', spoken, backend='relation')


def tasks(tier):
  modules()
  parts = 7
  return [Task('rules %d' % i, rules(i, parts), first=True) for i in range(parts)] + [
      Task('edges', edge_rules, first=True), Task('notation', notation), Task('lists', lists), Task('letters', letters), Task('sounds', sounds)]
