"""Runs the obligations of a property, and reports on them."""

import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import sys
import time
import traceback

import build
import rrv

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Task:
  """A group of obligations that one process discharges.

  fn(out) calls out.ok(...) / out.bad(...) / ... for each of its obligations."""

  def __init__(self, name, fn, mem=1, first=False):
    self.name, self.fn, self.mem, self.first = name, fn, mem, first


class Out:
  """Collects the obligations of a task."""

  def __init__(self, send, task):
    self._send, self.task, self.t = send, task, time.time()
    rrv.STATS.update(queries=0, explored=0)

  def _put(self, d):
    now = time.time()
    d.update(task=self.task, secs=round(now - self.t, 3), queries=rrv.STATS['queries'],
             explored=rrv.STATS['explored'])
    rrv.STATS.update(queries=0, explored=0)
    self.t = now
    self._send(d)

  def ok(self, name, backend='relation', **kw):
    self._put(dict(kw, name=name, verdict='proved', backend=backend))

  def bounded(self, name, cases, bound, backend='enumeration', **kw):
    self._put(dict(kw, name=name, verdict='bounded', backend=backend, cases=cases, bound=bound))

  def bad(self, name, backend='relation', **kw):
    """kw: input, expected, got (of a replay on the real code), detail."""
    self._put(dict(kw, name=name, verdict='failed', backend=backend))

  def undecided(self, name, why, **kw):
    self._put(dict(kw, name=name, verdict='undecided', detail=why))

  def info(self, **kw):
    self._put(dict(kw, name='', verdict='info'))

  # Obligations about relations.

  def check(self, name, verdict, witness=None, replay=None, **kw):
    if verdict:
      self.ok(name, **kw)
    else:
      r = {}
      try:
        r = replay(witness) if replay else {'detail': repr(witness)[:2000]}
      except Exception:  # pylint: disable=broad-except
        r = {'detail': 'replay failed: ' + traceback.format_exc()[-1500:]}
      self.bad(name, **dict(kw, **r))

  def total(self, name, g, dom):
    """g has an output on all of dom."""
    ok, w = rrv.covers(dom, g.rel)
    self.check(name, ok, w, lambda w: rejected(g, w))
    return ok

  def within(self, name, g, dom):
    """g has an output on dom only."""
    ok, w = rrv.included(g.rel, dom)

    def replay(w):
      t = rrv.show(w)
      got = g.apply(t)
      return {'input': t, 'expected': 'no output', 'got': got, 'replayed': got is not None,
              'grammar': g.name}
    self.check(name, ok, w, replay)

  def same(self, name, g, sp):
    """Where both have an output, they agree."""
    ok, w = rrv.agree(sp, g.rel)

    def replay(w):
      t = rrv.show(w[0])
      want = sp.apply(t)
      got = g.apply(t)
      return {'input': t, 'expected': want, 'got': got, 'replayed': got not in want,
              'grammar': g.name}
    self.check(name, ok, w, replay)

  def equals(self, name, g, sp, dom, only=True):
    """g is the function sp on dom. only: and undefined elsewhere."""
    self.same(name + ': the output is the specified one', g, sp)
    self.total(name + ': every text has an output', g, dom)
    if only:
      self.within(name + ': no other text has one', g, dom)

  def empty(self, name, r, replay=None):
    p = r.shortest()
    self.check(name, p is None, p, replay)


def rejected(g, w):
  t = rrv.show(w)
  got = g.apply(t)
  return {'input': t, 'expected': 'an output', 'got': got,
          'replayed': got is None or got.startswith('!'), 'grammar': g.name}


def raised_by_the_code(e):
  """An exception that leaves a function of the code under check, raised by it or by a library it calls."""
  if not isinstance(e, Exception):
    return False
  files = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
  for f in reversed(files):
    if f.startswith((ROOT + '/checks/', ROOT + '/engine/')) or f == ROOT + '/check.py':
      return False
    if '/nisaba/scripts/' in f or '/nisaba/translit/' in f:
      return True
  return False


def called_with(e):
  """Where the code was called, and with what."""
  for f, _ in traceback.walk_tb(e.__traceback__):
    if '/nisaba/scripts/' in f.f_code.co_filename or '/nisaba/translit/' in f.f_code.co_filename:
      def text(v):
        try:
          return repr(v)[:100]
        except Exception:  # pylint: disable=broad-except
          return '?'
      names = f.f_code.co_varnames[:f.f_code.co_argcount]
      return '%s(%s)' % (f.f_code.co_name, ', '.join('%s=%s' % (n, text(f.f_locals.get(n))) for n in names))
  return ''


def _child(task, conn, memlimit):
  if memlimit:
    resource.setrlimit(resource.RLIMIT_AS, (memlimit << 30, memlimit << 30))
  def send(d):
    conn.send(d)
  out = Out(send, task.name)
  try:
    task.fn(out)
    send({'verdict': 'end'})
  except rrv.Undecided as e:
    out.undecided(task.name, 'limit reached: %s' % e)
    send({'verdict': 'end'})
  except MemoryError:
    out.undecided(task.name, 'memory limit')
    send({'verdict': 'end'})
  except build.BuildError as e:
    send({'verdict': 'error', 'name': task.name, 'detail': 'build: ' + str(e)})
  except BaseException as e:  # pylint: disable=broad-except
    if raised_by_the_code(e):
      out.bad(task.name + ': the code gives a result', backend='execution', input=called_with(e),
              expected='a result', got='%s: %s' % (type(e).__name__, e), detail=traceback.format_exc()[-3000:],
              # Stand-in values can be at fault for these: no input of a user is known to fail.
              replayed=not isinstance(e, (TypeError, AttributeError, NotImplementedError)))
      send({'verdict': 'end'})
    else:
      send({'verdict': 'error', 'name': task.name, 'detail': traceback.format_exc()})
  conn.close()
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(0)


def run_tasks(tasks, deadline, jobs=8, mem=26, verbose=False):
  """Runs tasks in processes; returns the list of records."""
  ctx = multiprocessing.get_context('fork')
  todo = sorted(tasks, key=lambda t: (not t.first, -t.mem))
  live, records, again = [], [], set()
  used = 0
  while todo or live:
    i = 0
    while i < len(todo) and len(live) < jobs:
      t = todo[i]
      if live and used + t.mem > mem:
        i += 1
        continue
      todo.pop(i)
      a, b = ctx.Pipe(False)
      p = ctx.Process(target=_child, args=(t, b, 0))
      p.start()
      b.close()
      live.append((t, p, a, time.time()))
      used += t.mem
    multiprocessing.connection.wait([x[2] for x in live], timeout=1)
    for x in list(live):
      t, p, a, t0 = x
      done = False
      try:
        while a.poll():
          d = a.recv()
          if d['verdict'] == 'end':
            done = True
          else:
            records.append(dict(d, task=t.name))
            if verbose:
              print('%-9s %7.2fs %s' % (d['verdict'], d.get('secs', 0), d['name']), file=sys.stderr)
            if d['verdict'] == 'error':
              done = True
      except EOFError:
        if not done:
          p.join()
          if p.exitcode == -9 and t.name not in again:
            # Memory ran out, here or elsewhere: once more, by itself.
            again.add(t.name)
            todo.append(Task(t.name, t.fn, mem, False))
            records[:] = [d for d in records if d.get('task') != t.name]
          else:
            records.append({'verdict': 'undecided', 'name': t.name, 'task': t.name,
                            'detail': 'the prover died with exit code %s' % p.exitcode})
        done = True
      if not done and time.time() > deadline:
        p.kill()
        records.append({'verdict': 'undecided', 'name': t.name, 'task': t.name, 'detail': 'out of time'})
        done = True
      if done:
        p.join()
        a.close()
        live.remove(x)
        used -= t.mem
    if time.time() > deadline and todo:
      for t in todo:
        records.append({'verdict': 'undecided', 'name': t.name, 'task': t.name, 'detail': 'out of time'})
      todo = []
  return records
