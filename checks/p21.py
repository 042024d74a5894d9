"""Declared items, rule files, and the composition of rewrites."""

import itertools
import os
import subprocess
import sys
import tempfile
import unicodedata

import pynini

import common
import real
import rrv
import spec
from run import Task

FILES = ['utils/rule.py', 'utils/rewrite.py', 'utils/file.py', 'utils/char.py', 'utils/unicode_strings_util.py', 'utils/unicode_strings_to_tsv.py',
         'utils/letter_languages.py', 'utils/proto.py']
TRUSTED = common.TRUSTED + ['pandas (reading of tables)', 'protobuf (text format)']
ASSUMPTIONS = common.ASSUME + [
    'sets of rules: those up to a bound over three letters stand for all of them; each set is decided for all texts of any length',
    'rule files: characters other than tab, line ends, #, backslash stand for themselves; these may be written after a backslash']
LEVEL = 'exploration'


class Failed(Exception):
  pass


def guarded(out, name, bound, fn, backend='enumeration', full=False):
  try:
    n = fn()
  except Failed as e:
    out.bad(name, backend=backend, **dict({'replayed': True}, **e.args[0]))
  else:
    if full:
      out.ok(name, backend=backend, cases=n)
    else:
      out.bounded(name, n, bound, backend=backend)


def eq(what, got, want):
  if got != want:
    raise Failed(dict(input=what, expected=repr(want)[:500], got=repr(got)[:500]))


def attempt(fn, *kinds):
  """What fn gives, or the kind of its error."""
  try:
    return fn()
  except kinds as e:
    return '!' + next(k.__name__ for k in kinds if isinstance(e, k))
  except Exception as e:  # pylint: disable=broad-except
    return '!' + type(e).__name__


def modules():
  real.api(['//nisaba/scripts/utils:rule', '//nisaba/scripts/utils:unicode_strings_util', '//nisaba/scripts/utils:letter_languages',
            '//nisaba/scripts/utils:char', '//nisaba/scripts/utils:unicode_strings_to_tsv', '//nisaba/scripts/utils:unicode_strings_py_pb2'])
  from nisaba.scripts.utils import rewrite
  from nisaba.scripts.utils import rule
  from nisaba.scripts.utils import unicode_strings_util as us
  return rule, rewrite, us


def decide(what, fst, sp, dom, only=True):
  """fst is the function sp, which is defined on dom, for all texts."""
  g = rrv.from_pynini(fst, False)

  def run(text):
    lat = pynini.accep(pynini.escape(text)) @ fst
    return None if lat.start() == pynini.NO_STATE_ID else pynini.shortestpath(lat).string()

  def fail(w, want):
    text = rrv.show(w)
    want, got = want if want is not None else sp.apply(text), attempt(lambda: run(text))
    if got in want:  # and others too
      got = sorted(set(g.apply(text)))
    raise Failed(dict(input='%r with %s' % (text, what), expected=want, got=repr(got)))
  ok, w = rrv.covers(dom, g)
  if not ok:
    fail(w, 'an output')
  if only:
    ok, w = rrv.included(g, dom)
    if not ok:
      fail(w, 'no output')
  ok, w = rrv.agree(sp, g)
  if not ok:
    fail(w[0], None)


# Composition.

def sizes(n):
  """All orders of n numbers of states, with ties."""
  seen = set()
  for s in itertools.product(range(1, n + 1), repeat=n):
    if set(s) == set(range(1, max(s) + 1)) and s not in seen:
      seen.add(s)
      yield s


def link(i, n):
  """Takes the i-th letter to the next one, by n states more than it takes."""
  f = pynini.cross(chr(97 + i), chr(98 + i))
  for _ in range(n * 3):
    f.add_state()
  return f


def composition(out):
  _, rewrite, _ = modules()

  def orders():
    n = 0
    for k in range(1, 6):
      for s in sizes(k):
        fsts = [link(i, m) for i, m in enumerate(s)]
        before = [f.copy() for f in fsts]
        for give in (list, iter):
          got = rewrite.ComposeFsts(give(fsts))
          want = pynini.cross('a', chr(97 + k))
          if not pynini.isomorphic(pynini.optimize(got.copy()), pynini.optimize(want)):
            paths = [(a, b) for a, b, _ in got.paths().items()]
            raise Failed(dict(input='%d transducers with %s' % (k, ' '.join('%d' % f.num_states() for f in fsts)), expected="a to %s" % chr(97 + k), got=repr(paths)))
          n += 1
        eq('the transducers given to ComposeFsts', [f.num_states() for f in fsts], [f.num_states() for f in before])
    return n
  guarded(out, 'ComposeFsts: the transducers in order, whichever are combined first', 'all orders of numbers of states of up to 5 transducers, with ties', orders)

  def nothing():
    x = pynini.accep('x')
    if rewrite.ComposeFsts([], x).string() != 'x':
      raise Failed(dict(input='ComposeFsts([], x)', expected='x', got='another'))
    eq('ComposeFsts([])', rewrite.ComposeFsts([]).num_states(), 0)
    decide('RewriteAndComposeFsts([])', rewrite.RewriteAndComposeFsts([], sigma('ab')), spec.over('ab'), spec.over('ab'))
    decide('RewriteAndComposeFsts(())', rewrite.RewriteAndComposeFsts(iter(()), sigma('ab')), spec.over('ab'), spec.over('ab'))
    return 4
  guarded(out, 'no transducers: the default, or no change', '', nothing, full=True)

  def contexts():
    n = 0
    sides = (None, ('a',), ('b', 'ab'), ('x',))
    some = [[('a', 'b')], [('ab', 'x')], [('a', '')], [('a', 'bb'), ('b', 'a')], [('x', 'a')]]
    for rules, left, right in itertools.product(some, sides, sides):
      fst = rewrite.Rewrite(pynini.string_map(rules), sigma('abx'), pynini.union(*left) if left else '', pynini.union(*right) if right else '')
      decide('%s between %s and %s' % (rules, left, right), fst, spec.rewrite(rules, left, right, sigma='abx'), spec.over('abx'))
      n += 1
    decide('a to b, all bytes', rewrite.Rewrite(pynini.cross('a', 'b')), spec.rewrite([('a', 'b')]), spec.over(), only=False)
    return n + 1
  # The byte grammar takes more than Unicode texts: only those are decided.
  guarded(out, 'Rewrite: obligatory, leftmost, within the contexts', '80 sets of rules and contexts, all texts', contexts, backend='relation')


def sigma(chars):
  return pynini.union(*chars)


# Rules.

def sets(most):
  lhs = ['a', 'b', 'aa', 'ab', 'ba', 'bb', 'aab', 'aba']
  for n in range(1, most + 1):
    for ls in itertools.combinations(lhs, n):
      for rs in itertools.product(('', 'x', 'ab'), repeat=n):
        yield list(zip(ls, rs))


CHAINS = [
    [('a', 'x'), ('ab', 'y'), ('abc', 'z'), ('abcd', ''), ('dabcd', 'a')],
    [('a', 'x'), ('b', 'y'), ('ab', 'z'), ('ca', 'w'), ('cab', ''), ('bca', 'ab'), ('abca', 'cab')],
    [('dd', 'd'), ('d', 'dd'), ('ddd', 'a'), ('add', 'b')],
    [('a', 'b'), ('b', 'c'), ('c', 'a')],
    [('ab', 'a'), ('bc', 'b'), ('cd', 'c'), ('abcd', 'd')],
]


def unordered(part, parts, most):
  def fn(out):
    rule, _, _ = modules()

    def run():
      n = 0
      for rules in list(sets(most))[part::parts] + (CHAINS if not part else []):
        lets = sorted(set('abx').union(*(a + b for a, b in rules)))
        want, dom = spec.cascade(spec.layers(rules), sigma=lets), spec.over(lets)
        # The order in the file, and repetitions, make no difference.
        ways = [rules, rules[::-1] + rules[:1]] if n % 3 == 0 or len(rules) > 3 else [rules[::-1] if n % 3 == 1 else rules]
        for way in ways:
          decide('the rules %s' % way, rule.fst_from_rules([rule.Rule(*r) for r in way], sigma(lets)), want, dom)
        n += len(ways)
      return n
    guarded(out, 'rules without order: longer ones first, everywhere (part %d)' % part,
            'all sets of up to %d of 24 rules, and 5 larger ones; each for all texts' % most, run, backend='relation')
  return fn


def write(dirname, lines):
  path = os.path.join(dirname, 'rules.tsv')
  with open(path, 'w', encoding='utf8', newline='') as f:
    f.write(lines)
  return path


def cascading(out):
  rule, _, _ = modules()
  with tempfile.TemporaryDirectory() as d:
    def run():
      n = 0
      some = [('a', 'b'), ('b', 'a'), ('ab', 'x'), ('x', 'ab'), ('ba', ''), ('a', 'aa'), ('bb', 'b')]
      for rules in itertools.chain.from_iterable(itertools.permutations(some, k) for k in range(1, 4)):
        path = write(d, ''.join('%s\t%s\n' % r for r in rules))
        decide('the cascade %s' % (rules,), rule.fst_from_cascading_rule_file(path, sigma('abx')), spec.cascade([[r] for r in rules], sigma='abx'), spec.over('abx'))
        n += 1
      for rules in [[('a', 'b')] * 2 + [('b', 'c'), ('c', 'd'), ('d', 'e'), ('ee', 'a')], [('a', 'bc'), ('bc', 'd'), ('d', 'ab'), ('ab', ''), ('c', 'ab'), ('b', 'e')]]:
        path = write(d, ''.join('%s\t%s\n' % r for r in rules))
        decide('the cascade %s' % (rules,), rule.fst_from_cascading_rule_file(path, sigma('abcde')), spec.cascade([[r] for r in rules], sigma='abcde'), spec.over('abcde'))
      return n + 2
    guarded(out, 'cascading rules: each on the whole text, one after another, in order', 'all sequences of up to 3 of 7 rules, and 2 of 6; each for all texts', run,
            backend='relation')

    def files():
      n = 0
      for rules in itertools.permutations([('a', 'x'), ('ab', 'y'), ('bab', ''), ('aba', 'b')], 3):
        path = write(d, '# rules\n' + ''.join('%s\t%s\n' % r for r in rules))
        decide('a file of %s' % (rules,), rule.fst_from_rule_file(path, sigma('abxy')), spec.cascade(spec.layers(rules), sigma='abxy'), spec.over('abxy'))
        n += 1
      path = write(d, '# no rules\n')
      for make in (rule.fst_from_rule_file, rule.fst_from_cascading_rule_file):
        decide('a file without rules', make(path, sigma('ab')), spec.over('ab'), spec.over('ab'))
      return n + 2
    guarded(out, 'rule files: in any order, or empty', '24 files; each for all texts', files, backend='relation')


def reading(out):
  rule, _, _ = modules()
  plain = [chr(i) for i in itertools.chain(range(0x21, 0x7f), range(0xa1, 0x600), range(0x600, 0x1200), range(0x2010, 0x2028), range(0x1f600, 0x1f610))
           if unicodedata.category(chr(i)) not in ('Cn', 'Cc', 'Zl', 'Zp') and chr(i) not in '#\\']
  with tempfile.TemporaryDirectory() as d:
    def got(text):
      path = write(d, text)
      a = attempt(lambda: [tuple(r) for r in rule.rules_from_string_path(path)], ValueError)
      eq('rules_from_string_file of %r' % text, attempt(lambda: [tuple(r) for r in rule.rules_from_string_file(path)], ValueError), a)
      return a

    def run():
      n = 0
      eq('all characters, one rule for each', got(''.join('%s\t%s\n' % (c, c + 'z' + c) for c in plain)), [(c, c + 'z' + c) for c in plain])
      for c in plain:  # by itself: the other rules say nothing about the kind of value
        if ord(c) < 0x180 or unicodedata.category(c)[0] == 'N':
          eq('one rule for %r' % c, got('%s\tz\n' % c), [(c, 'z')])
          eq('one rule to %r' % c, got('z\t%s\n' % c), [('z', c)])
          eq('two rules for and to %r' % c, got('%s\t%s\nz\t%s%s\n' % (c, c, c, c)), [(c, c), ('z', c + c)])
          n += 3
      words = ['NA', 'nan', 'null', 'True', 'false', '1', '01', '1.0', '1e5', '-3', 'inf', '0x10', '2020-01-01', 'a b', ' a', 'a ', '"', '"a"', "'", ',', 'a,b', ';']
      for a, b in itertools.product(words, words + ['']):
        eq('a rule from %r to %r' % (a, b), got('%s\t%s\n' % (a, b)), [(a, b)])
        n += 1
      for text, want in [
          ('', []), ('\n\n', []), ('# a\tb\n', []), ('#a\tb\na\tb\n', [('a', 'b')]), ('a\tb\n\n# x\ny\n\nc\td', [('a', 'b'), ('y', ''), ('c', 'd')]),
          ('a\n', [('a', '')]), ('a\t\n', [('a', '')]), ('a\tb\na\tb\n', [('a', 'b')] * 2), ('\\#\t\\\\\n', [('#', '\\')]), ('a\\#b\tc\\\\d\n', [('a#b', 'c\\d')]),
          ('c\td\na\tb\nb\tc\n', [('c', 'd'), ('a', 'b'), ('b', 'c')]), ('\tb\n', '!ValueError'), ('a\tb\n\tc\n', '!ValueError')]:
        eq('rules of %r' % text, got(text), want)
        n += 1
      return n
    guarded(out, 'rule files: the rules written, in order', '%d characters, 22 words, 13 layouts' % len(plain), run)

  def twice():
    for rules in ([('a', 'b'), ('a', 'c')], [('ab', 'b'), ('a', 'x'), ('ab', '')]):
      eq('rules %s' % rules, attempt(lambda: rule.fst_from_rules([rule.Rule(*r) for r in rules], sigma('abcx')), ValueError), '!ValueError')
    return 2
  guarded(out, 'rules without order: two results for one sequence are an error', '2 sets', twice)


# Items.

def names(out):
  _, _, us = modules()
  chars = [chr(i) for i in range(0x110000) if unicodedata.name(chr(i), '')]

  def one():
    for c in chars:
      name = unicodedata.name(c)
      if us.name_to_char([], name) != (c, name):
        eq('name_to_char([], %r)' % name, us.name_to_char([], name), (c, name))
    return len(chars)
  guarded(out, 'every character by its name', '', one, full=True, backend='enumeration (all named characters)')

  def prefixed():
    n = 0
    by = {}
    for c in chars:
      words = unicodedata.name(c).split(' ')
      for k in range(1, min(len(words), 4)):
        by.setdefault(' '.join(words[:k]), []).append((c, ' '.join(words[k:])))
    every = {unicodedata.name(c): c for c in chars}
    for prefix in ['BENGALI', 'ARABIC LETTER', 'ARABIC', 'TAMIL', 'MEETEI MAYEK', 'DEVANAGARI', 'LATIN SMALL LETTER', 'ZERO', 'COMBINING', 'MALAYALAM VOWEL SIGN']:
      for c, rest in by[prefix]:
        for prefixes in ([prefix], ['NO SUCH', prefix], [prefix, 'NO SUCH']):
          hits = sorted({p + ' ' + rest for p in prefixes if p + ' ' + rest in every} | ({rest} if rest in every else set()))
          want = (every[hits[0]], hits[0]) if len(hits) == 1 else '!ValueError'
          if want == '!ValueError' and not hits:
            continue
          eq('name_to_char(%s, %r)' % (prefixes, rest), attempt(lambda: us.name_to_char(prefixes, rest), ValueError), want)
          n += 1
    for prefixes, name in [([], 'NO SUCH'), (['BENGALI'], 'LETTER'), (['BENGALI', 'TAMIL'], 'LETTER KA'), (['TAMIL', 'BENGALI'], 'LETTER A'), ([], 'LETTER KA')]:
      eq('name_to_char(%s, %r)' % (prefixes, name), attempt(lambda: us.name_to_char(prefixes, name), ValueError), '!ValueError')
    for c, alias in [('\u0cde', 'KANNADA LETTER LLLA'), ('\u200d', 'ZWJ'), ('\u0b9c\u0bca', 'TAMIL SYLLABLE JO'), ('\u0ba9\u0bc8', 'TAMIL SYLLABLE NNNAI')]:
      eq('name_to_char([], %r)' % alias, attempt(lambda: us.name_to_char([], alias)[0], ValueError), c)
      if ' ' in alias:
        first, rest = alias.split(' ', 1)
        eq('name_to_char([%r], %r)' % (first, rest), attempt(lambda: us.name_to_char([first], rest)[0], ValueError), c)
    for name in ('BEL', 'NULL', 'LINE FEED', 'TAB'):
      eq('name_to_char([], %r)' % name, attempt(lambda: us.name_to_char([], name), ValueError), '!ValueError')
    return n + 15
  guarded(out, 'characters by the rest of their name, with one prefix and only one', 'all characters of 10 prefixes, with two others; aliases and sequences', prefixed)


def items(out):
  _, _, us = modules()
  from nisaba.scripts.utils import unicode_strings_pb2 as pb

  def run():
    n = 0
    texts = ['', 'k', '\u0995', '\u0995\u09cd\u0995', '\u200d', 'ab']
    full = lambda t: [unicodedata.name(c) for c in t]
    for prefixes, to in itertools.product(([], ['BENGALI'], ['BENGALI', 'BENGALI']), ([], ['BENGALI', 'LATIN SMALL LETTER'])):
      def short(c, ps):
        name = unicodedata.name(c)
        return next((name[len(p) + 1:] for p in ps if name.startswith(p + ' ')), name)

      def field(kind, t, ps):
        return {'raw': ([], t), 'names': (full(t), ''), 'short': ([short(c, ps) for c in t], ''), 'both': (full(t), t), 'differ': (full(t), t + 'x'), 'order': (full(t)[::-1], t)}[kind]
      for (k1, a), (k2, b) in itertools.product(itertools.product(('raw', 'names', 'short', 'both', 'differ', 'order'), texts), repeat=2):
        un, raw = field(k1, a, prefixes)
        tun, traw = field(k2, b, to or prefixes)

        def value(k, t, u, r):
          if not u and not r:
            return None
          if k == 'differ' and u or k == 'order' and t != t[::-1]:
            return '!ValueError'
          return r if not u else t
        x, y = value(k1, a, un, raw), value(k2, b, tun, traw)
        want = '!ValueError' if x in (None, '!ValueError') or y == '!ValueError' else (x, y)
        item = pb.UnicodeStrings.Item(uname=un, raw=raw, to_uname=tun, to_raw=traw)
        got = attempt(lambda: us.convert_item(prefixes, to, item), ValueError)
        if got != want:
          eq('convert_item(%s, %s, %s)' % (prefixes, to, str(item)), got, want)
        n += 1
    # Texts that some measure takes for the same.
    norm = unicodedata.normalize
    alike = [f for k in ('NFC', 'NFD', 'NFKC', 'NFKD') for f in (lambda t, k=k: norm(k, t),)]
    alike += [str.casefold, str.upper, str.strip, lambda t: t[::-1], lambda t: t[:-1], lambda t: t[1:], lambda t: t + t[-1:], lambda t: t + '\u200c',
              lambda t: '\ufeff' + t, lambda t: t + ' ', lambda t: ''.join(sorted(t)), lambda t: ''.join(c for c in t if c not in '\u200b\u200c\u200d')]
    for t in ('a\u0301', '\u00e1', '\u09a1\u09bc', '\u09dc', '\u0995\u09be\u09c7', '\u09cb', '\ufb01', 'K', '\u0995\u09cd\u200d', '\u200c\u0995', '\ufef5', '\u0623',
              '\u1112\u1161', '\u03c2', '\u0660', '\uff11', 'q\u0307\u0323', ' '):
      for v in {f(t) for f in alike} - {''}:
        n += 1
        want = 'agree' if v == t else '!ValueError'
        for kw in (dict(uname=full(t), raw=v), dict(raw='x', to_uname=full(t), to_raw=v)):
          got = attempt(lambda: us.convert_item([], [], pb.UnicodeStrings.Item(**kw)), ValueError)
          eq('convert_item(%s)' % ascii(kw), got if got == '!ValueError' else 'agree', want)
          if got != '!ValueError':
            eq('convert_item(%s)' % ascii(kw), got, (t, None) if 'uname' in kw else ('x', t))
    return n
  guarded(out, 'items: names or text, which have to agree, to names or text', '6 texts and 6 forms on each side, 6 lists of prefixes; 18 texts, each with up to 16 that are alike but not the same', run)

  def converted():
    rule, _, _ = modules()
    n = 0
    with tempfile.TemporaryDirectory() as d:
      path, tsv = os.path.join(d, 'in.textproto'), os.path.join(d, 'out.tsv')
      rows = [('\u0995', 'k'), ('\u0995\u09cd\u0995', 'kk'), ('\u0995\u09cd', ''), ('\u200d', 'j'), ('\u0985', '\u0985\u0982'), ('\u09a1\u09bc', '\u09dc'), ('x', 'y z')]
      rows += [(c, '') for c in map(chr, range(0x980, 0xa00)) if unicodedata.name(c, '')]
      rows += [(c, c + c) for c in map(chr, range(0x900, 0x980)) if unicodedata.name(c, '')]
      message = pb.UnicodeStrings(uname_prefix=['BENGALI'])
      for i, (a, b) in enumerate(rows):
        names_of = [unicodedata.name(c).removeprefix('BENGALI ') for c in a]
        names_of = [m if attempt(lambda: unicodedata.lookup(m)) == '!KeyError' else unicodedata.name(c) for c, m in zip(a, names_of)]
        message.item.add(uname=names_of if i % 3 else [], raw=a if i % 3 != 1 else '',
                         to_uname=[unicodedata.name(c) for c in b] if i % 2 else [], to_raw='' if i % 2 else b)
      from google.protobuf import text_format
      with open(path, 'w', encoding='utf8') as f:
        f.write(text_format.MessageToString(message, as_utf8=True))
      read = us.read_textproto(path)
      eq('read_textproto', [(i.raw, i.to_raw) for i in read.item], rows)
      main = os.path.join(real.api([]), 'com_google_nisaba/nisaba/scripts/utils/unicode_strings_to_tsv.py')
      if not os.path.exists(main):
        raise RuntimeError('no ' + main)
      r = subprocess.run([sys.executable, main, '--input_text_proto', path, '--output_tsv', tsv], capture_output=True, text=True,
                         env=dict(os.environ, PYTHONPATH=':'.join(p for p in sys.path if p), PYTHONDONTWRITEBYTECODE='1'), check=False)
      eq('unicode_strings_to_tsv of %d items' % len(rows), (r.returncode, r.stderr[-300:] if r.returncode else ''), (0, ''))
      eq('the rules of the table', [tuple(x) for x in rule.rules_from_string_path(tsv)], rows)
      with open(tsv, encoding='utf8') as f:
        lines = [l for l in f.read().splitlines() if not l.startswith('#')]
      eq('the lines of the table', lines, [a + ('\t' + b if b else '') for a, b in rows])
      n += len(rows)
      from nisaba.scripts.utils import char
      eq('derive_chars', char.derive_chars([tsv]), {c for a, b in rows for c in a + b})
      eq('derive_chars of the input side', char.derive_chars(input_side=[tsv]), {c for a, _ in rows for c in a})
      for chars in ({'a'}, {'a', 'b', '\u0995'}):
        got = char.derive_sigma(chars)
        want = sorted(chars | {'\u200b', '\u200c', '\u200d'})
        eq('derive_sigma(%s)' % sorted(chars), sorted(got.paths().ostrings()), want)
      from nisaba.scripts.utils import letter_languages
      from nisaba.scripts.utils import letter_languages_pb2 as ll
      message = ll.LetterLanguages(uname_prefix=['BENGALI'])
      for i, (a, _) in enumerate(rows):
        message.item.add(letter=pb.UnicodeStrings.Item(uname=[unicodedata.name(c) for c in a] if i % 3 else [], raw=a if i % 3 != 1 else ''))
      with open(path, 'w', encoding='utf8') as f:
        f.write(text_format.MessageToString(message, as_utf8=True))
      want = [list(i.letter.uname) for i in message.item]
      eq('letters', [(i.letter.raw, list(i.letter.uname)) for i in letter_languages.read_textproto(path).item], [(a, u) for (a, _), u in zip(rows, want)])
    return n + 5
  guarded(out, 'tables are those of the items', 'one table of %d items or so' % 220, converted)


def tasks(tier):
  modules()
  most = 4 if tier == 'thorough' else 3
  n = 16 if tier == 'thorough' else 8
  return [Task('unordered %d' % i, unordered(i, n, most), first=True) for i in range(n)] + [
      Task('composition', composition), Task('cascading', cascading), Task('reading', reading), Task('names', names), Task('items', items)]
