"""The code under check, as it runs: exported FSTs and API objects of /repo's tree."""

import atexit
import functools
import os
import shutil
import sys
import tempfile

import pynini

import build
import rrv

SCR = '//nisaba/scripts/'


@functools.lru_cache(None)
def _path(label):
  return build.need([label])[0]


@functools.lru_cache(None)
def _open(label, pid):
  del pid  # processes must not share file offsets
  return pynini.Far(_path(label))


def prebuild(fars):
  """Builds many FARs side by side."""
  build.need([SCR + f + '.far' for f in fars])


def _far(label):
  return _open(label, os.getpid())


def keys(label):
  far = _far(label)
  out = []
  far.reset()
  while not far.done():
    out.append(far.get_key())
    far.next()
  return out


class Grammar:
  """One exported FST, and how users apply it."""

  def __init__(self, name, fst, utf8=False, call=None):
    self.name, self.fst, self.utf8, self.call = name, fst, utf8, call

  @functools.cached_property
  def rel(self):
    r = rrv.from_pynini(self.fst, self.utf8)
    return r.squeeze() if r.states > 20000 else r

  def apply(self, text):
    """What the code gives for a text; None: no output."""
    if self.call is not None:
      try:
        return self.call(text)
      except Exception as e:  # pylint: disable=broad-except
        return '!' + type(e).__name__ + ': ' + str(e)[:200]
    tt = 'utf8' if self.utf8 else 'byte'
    lat = pynini.accep(pynini.escape(text), token_type=tt) @ self.fst
    if lat.start() == pynini.NO_STATE_ID:
      return None
    return pynini.shortestpath(lat).string(tt)


def grammar(far, key, utf8=False):
  """far: package:name without suffix, such as brahmic:nfc."""
  label = SCR + far + '.far'
  return Grammar('%s[%s]' % (label, key), _far(label)[key], utf8)


_tree = None


def api(target, skip=()):
  """Makes the Python packages of targets importable, as a user has them."""
  global _tree
  if _tree is None:
    root = tempfile.mkdtemp(prefix='tree.', dir=os.environ.get('VERIF_SCRATCH') or None)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(root, ignore_errors=True))
    tree, env = build.tree('verif', [target] if isinstance(target, str) else target, root, skip)
    os.environ.update({k: v for k, v in env.items() if k in (
        'RUNFILES_DIR', 'TEST_SRCDIR', 'TEST_WORKSPACE', 'TREE')})
    for p in reversed(env['PYTHONPATH'].split(':')):
      sys.path.insert(0, p)
    _tree = tree
  return _tree


def wrapped(name, obj):
  """A Grammar from an API object that holds an FST."""
  fsts = [v for v in vars(obj).values() if isinstance(v, pynini.Fst)]
  if len(fsts) != 1:
    raise RuntimeError('%s: no FST' % name)
  return Grammar(name, fsts[0], False, obj.ApplyOnText)
