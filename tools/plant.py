#!/usr/bin/env python3
"""plant.py: writes seeded/<id>/ from an edit. Used by hand: plant(id, property, file, old, new, needs, breaks, demo)."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(sid, pid, edits, needs, breaks, demo):
  d = HERE + '/seeded/' + sid
  os.makedirs(d, exist_ok=True)
  w = tempfile.mkdtemp(prefix='plant.')
  try:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'], check=True)
    for f, old, new in edits:
      p = w + '/r/' + f
      s = open(p, encoding='utf8').read()
      assert s.count(old) == 1, (sid, f, s.count(old))
      open(p, 'w', encoding='utf8').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w + '/r', 'diff'], check=True, capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
  finally:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
    shutil.rmtree(w, ignore_errors=True)
  json.dump({'property': pid, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
  open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
  os.chmod(d + '/demo.sh', 0o755)
  open(d + '/demo.py', 'w', encoding='utf8').write(demo)
