"""The error of a set of hypotheses against a set of references."""

import functools
import itertools
import json
import os
import subprocess
import sys
import tempfile

import real
import symex
from p18 import Failed, eq, guarded, proved
from run import Task

FILES = ['../translit/tools/emd_cer.py', '../translit/tools/calculate_emd_cer.py']
TRUSTED = ['CPython', 'numpy', 'z3', 'json', 'pyemd.emd_with_flow gives a cheapest flow (its results are compared with all flows, up to the bound)']
ASSUMPTIONS = ['the weights of both sides add up to the same', 'distances are those of texts', 'floating point: results within 1e-4']
LEVEL = 'exploration'


@functools.lru_cache(None)
def module():
  real.api(['//nisaba/translit/tools:emd_cer', '//nisaba/translit/tools:calculate_emd_cer'])
  from nisaba.translit.tools import emd_cer
  return emd_cer


def near(a, b):
  return abs(a - b) <= 1e-4 * max(1, abs(b))


def close(what, got, want):
  try:
    got = [float(x) for x in got]
  except (TypeError, ValueError):
    pass
  if not isinstance(got, list) or len(got) != len(want) or not all(isinstance(x, float) and near(x, y) for x, y in zip(got, want)):
    eq(what, got, [float(x) for x in want])
    raise Failed(dict(input=what, expected=str(want), got=str(got)))


@functools.lru_cache(None)
def edits(a, b):
  if not a or not b:
    return len(a) + len(b)
  return min(edits(a[1:], b) + 1, edits(a, b[1:]) + 1, edits(a[1:], b[1:]) + (a[0] != b[0]))


def shares(total, n):
  """All ways to give n texts a share, none of them empty."""
  for cut in itertools.combinations(range(1, total), n - 1):
    yield [b - a for a, b in zip((0,) + cut, cut + (total,))]


@functools.lru_cache(None)
def least(units, wanted):
  """Least cost of taking units to those wanted."""
  if not units:
    return 0
  return min(edits(units[0], w) + least(units[1:], wanted[:i] + wanted[i + 1:]) for i, w in enumerate(wanted) if w not in wanted[:i])


def line(hyps, hs, refs, rs, total, lengths=False):
  words = list(hyps) + list(refs)
  return {'p1': [h / total for h in hs] + [0] * len(refs), 'p2': [0] * len(hyps) + [r / total for r in rs],
          'D': [[edits(a, b) for b in words] for a in words], 'L': [len(h) if lengths else 0 for h in hyps] + [len(r) for r in refs],
          'hyp': {w: h / total for w, h in zip(hyps, hs)}, 'ref': {w: r / total for w, r in zip(refs, rs)}}


def want(hyps, hs, refs, rs, total):
  u = tuple(w for w, h in zip(hyps, hs) for _ in range(h))
  v = tuple(w for w, r in zip(refs, rs) for _ in range(r))
  return [least(u, v) / total, sum(len(w) for w in v) / total]


SETS = [['a'], ['ab', 'b'], ['', 'ba'], ['abab', 'a', 'bb'], ['ba', 'abc', ''], ['abcd', 'bcda'], ['sieberling', 'zeeberlin'], ['seeverling', 'siefelin'],
        ['x\u0101', 'xa', 'x']]


def optimum(out):
  m = module()

  def run():
    n = 0
    for hyps, refs in itertools.product(SETS, repeat=2):
      for total in (3, 4):
        for hs, rs in itertools.product(shares(total, len(hyps)), shares(total, len(refs))):
          close('emd_error_and_length of %s for %s in %dths' % (dict(zip(hyps, hs)), dict(zip(refs, rs)), total),
                m.emd_error_and_length(line(hyps, hs, refs, rs, total, n % 2)), want(hyps, hs, refs, rs, total))
          n += 1
    # More hypotheses than references have, and some that are not used.
    for k in range(1, 6):
      hyps, refs = ['a' * i for i in range(k)], ['a' * (i + 2) for i in range(3)]
      close('%d hypotheses' % k, m.emd_error_and_length(line(hyps, [1] * k, refs, [k - 1, 0, 1], k)), want(hyps, [1] * k, refs, [k - 1, 0, 1], k))
    # Texts that are hypotheses and references, once.
    words, p1, p2 = ['ab', 'b', 'abc'], [2, 1, 1], [1, 0, 3]
    j = {'p1': [x / 4 for x in p1], 'p2': [x / 4 for x in p2], 'D': [[edits(a, b) for b in words] for a in words], 'L': [len(w) for w in words]}
    u, v = (tuple(w for w, k in zip(words, p) for _ in range(k)) for p in (p1, p2))
    close('texts on both sides', m.emd_error_and_length(j), [least(u, v) / 4, sum(map(len, v)) / 4])
    return n + 6
  guarded(out, 'the error is that of the cheapest way from hypotheses to references, and the length that of the references', '9 sets of up to 3 texts, shares in 3rds and 4ths', run)


def flows(out):
  """For all results that the library can give."""
  m = module()

  def run():
    n = 0
    for size in range(1, 5):
      for lengths in [[1 if i == j else 0 for i in range(size)] for j in range(size)] + [[3 + 2 * i for i in range(size)], [0] * size]:
        flow = [[symex.number('f%d_%d' % (i, j)) for j in range(size)] for i in range(size)]
        cost = symex.number('cost')
        symex.start(cost.t >= 0, *[x.t >= 0 for r in flow for x in r])
        calls = []

        class Library:
          """Stand-in for pyemd."""

          @staticmethod
          def emd_with_flow(*args, calls=calls, cost=cost, flow=flow):
            calls.append([a.tolist() for a in args])
            return cost, flow
        j = {'p1': [i / 10 for i in range(size)], 'p2': [1 - i / 10 for i in range(size)], 'D': [[abs(a - b) * 1.5 for b in range(size)] for a in range(size)], 'L': lengths}
        was, m.pyemd = m.pyemd, Library
        try:
          for got in symex.paths(lambda: m.emd_error_and_length(j)):
            n += 1
            length = sum((flow[i][k] * lengths[k] for i in range(size) for k in range(size)), symex.number('zero') * 0)
            for what, g, w in (('error', got[0], cost), ('length', got[1], length)):
              model = symex.here().proves(symex.term(g) == w.t)
              if model is not None:
                raise Failed(dict(input='flow of %d by %d, lengths %s: %s' % (size, size, lengths, model), expected='%s %s' % (what, w), got=str(g)))
        finally:
          m.pyemd = was
        eq('the library is given', calls[-1], [j['p1'], j['p2'], j['D']])
    return n

  def replay():
    o = Quiet()
    optimum(o)
    if o.failed:
      raise Failed(o.failed)
  proved(out, 'the error is the cost of the flow, and the length what flows to each text times its length, for all flows', run, replay, 'up to 4 texts')


class Quiet:
  failed = None

  def ok(self, *_, **__):
    pass
  bounded = ok

  def bad(self, name, **kw):
    self.failed = {k: v for k, v in kw.items() if k in ('input', 'expected', 'got')}
    self.failed.setdefault('input', name)


def totals(out):
  def run():
    main = os.path.join(real.api([]), 'com_google_nisaba/nisaba/translit/tools/calculate_emd_cer.py')
    if not os.path.exists(main):
      raise RuntimeError('no ' + main)
    cases = []
    for hyps, refs in [(SETS[1], SETS[3]), (SETS[6], SETS[7]), (SETS[8], SETS[0]), (SETS[0], SETS[0]), (SETS[3], SETS[4]), (SETS[0], SETS[5])]:
      cases.append((hyps, [1] * (len(hyps) - 1) + [5 - len(hyps)], refs, [5 - len(refs)] + [1] * (len(refs) - 1), 4))
    n = 0
    with tempfile.TemporaryDirectory() as d:
      path = os.path.join(d, 'lines.json')
      for k in (1, 2, len(cases)):
        with open(path, 'w', encoding='utf8') as f:
          f.writelines(json.dumps(line(*c), ensure_ascii=k == 1) + '\n' for c in cases[-k:])
        r = subprocess.run([sys.executable, main, '--json_path', path], capture_output=True, text=True, check=False,
                           env=dict(os.environ, PYTHONPATH=':'.join(p for p in sys.path if p), PYTHONDONTWRITEBYTECODE='1'))
        eq('calculate_emd_cer of %d lines' % k, (r.returncode, r.stderr[-300:] if r.returncode else ''), (0, ''))
        got = [l.split('\t') for l in r.stdout.splitlines()]
        exp = [want(*c) for c in cases[-k:]]
        eq('the number of lines for %d' % k, len(got), k + 3)
        for g, (e, l) in zip(got, exp):
          close('a line of calculate_emd_cer', g, [l, e, 0, 0, e / l])
        e, l = sum(x[0] for x in exp), sum(x[1] for x in exp)
        eq('the names of totals', [g[0] for g in got[k:]], ['Total edits:', 'Total reference length:', 'Overall CER:'])
        close('the totals of %d lines' % k, [g[1] for g in got[k:]], [e, l, e / l])
        n += k
    return n
  guarded(out, 'the report: each line, the totals, and the rate of the totals', '3 files of up to 6 lines', run)


def tasks(tier):
  module()
  return [Task('optimum', optimum), Task('flows', flows), Task('totals', totals)]
