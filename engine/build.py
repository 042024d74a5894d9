"""Builds what a check needs from /repo's current tree, and nothing more.

Uses the sandbox's stand-in for Bazel (/opt/vp/nis/driver.py), whose actions are
cached by the content of all their inputs, so that outputs always are those of
the current tree.
"""

import contextlib
import fcntl
import io
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, '/opt/vp/nis')
import driver  # pylint: disable=wrong-import-position


class BuildError(Exception):
  pass


_actions = None


def actions():
  global _actions
  if _actions is None:
    with open(driver.HERE + '/farconvert.py', 'rb') as f:
      driver.KEY_SALT = driver.hashlib.sha256(f.read()).digest()
    for d in (driver.OUT, driver.KEYS, driver.TREES):
      os.makedirs(d, exist_ok=True)
    driver.load_all()
    _actions = driver.make_actions()
    bad = [(p, m) for p, m in driver.LOAD_ERRORS]
    if bad:
      raise BuildError('cannot load %s\n%s' % bad[0])
  return _actions


def need(labels):
  """Builds these generated files (labels such as //nisaba/x:y.far)."""
  acts = actions()
  prod = {o: a for a in acts for o in a.outs}
  todo, chosen = list(labels), {}
  while todo:
    f = todo.pop()
    a = prod.get(f)
    if a is not None and a.id not in chosen:
      chosen[a.id] = a
      todo += a.inputs
  out = io.StringIO()
  with open(driver.BASE + '/lock', 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    with contextlib.redirect_stdout(out):
      failed = driver.run_all(list(chosen.values()))
      if failed:
        # Memory may have run out: what is left, with less at a time.
        jobs, driver.JOBS = driver.JOBS, 2
        failed = driver.run_all(list(chosen.values()))
        driver.JOBS = jobs
  if failed:
    raise BuildError('build failed: %s\n%s' % (failed[:3], out.getvalue()[-4000:]))
  return [driver.real(f) for f in labels]


def tree(name, labels, root, skip=()):
  """A runfiles tree with the run-time closure of labels, except for the files in skip; built first.

  Returns (path of the tree, its environment)."""
  actions()
  files = set()
  for l in labels:
    driver.runfiles(l, files)
  files -= set(skip)
  need([f for f in files if f in driver.OUTPUTS])
  t = driver.make_tree(name, files, root)
  return t, driver.env_for(t)
