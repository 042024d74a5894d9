#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [-v]: decides one property on /repo's tree."""

import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/engine', HERE + '/checks']


def known(prop):
  """Known findings of a property: (obligation, what fails)."""
  out = []
  p = HERE + '/known_findings.txt'
  if os.path.exists(p):
    with open(p, encoding='utf8') as f:
      for line in f:
        if line.startswith('finding: property=%s ' % prop):
          rest = line.split(' ', 2)[2].strip()
          ob, _, what = rest.partition(' :: ')
          out.append((ob, what))
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  ap.add_argument('-v', action='store_true')
  ap.add_argument('--only')
  args = ap.parse_args()
  pid, tier = args.property, args.tier
  t0 = time.time()
  os.makedirs(HERE + '/.build', exist_ok=True)
  os.makedirs(HERE + '/evidence', exist_ok=True)
  scratch = tempfile.mkdtemp(prefix='run.', dir=HERE + '/.build')
  os.environ['VERIF_SCRATCH'] = scratch
  code = 2
  try:
    code = decide(pid, tier, args, t0)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  sys.stdout.flush()
  sys.exit(code)


def decide(pid, tier, args, t0):
  import build
  import run
  mod = importlib.import_module(pid.lower())
  try:
    tasks = mod.tasks(tier)
    if args.only:
      tasks = [t for t in tasks if args.only in t.name]
    t1 = time.time()
    recs = run.run_tasks(tasks, t0 + (850 if tier == 'quick' else 3400),
                         jobs=getattr(mod, 'JOBS', 8), verbose=args.v)
  except build.BuildError as e:
    print('cannot build /repo: %s' % e, file=sys.stderr)
    return 2
  errors = [r for r in recs if r['verdict'] == 'error']
  failed = [r for r in recs if r['verdict'] == 'failed']
  undecided = [r for r in recs if r['verdict'] == 'undecided']
  proved = [r for r in recs if r['verdict'] == 'proved']
  bounded = [r for r in recs if r['verdict'] == 'bounded']
  names = [r['name'] for r in proved + failed + bounded]
  if len(set(names)) != len(names):
    print('obligation names repeat', sorted(n for n in names if names.count(n) > 1)[:3], file=sys.stderr)
    return 2
  # Known findings: one obligation, failing on this very input.
  listed = known(pid)
  new, hit = [], []
  for r in failed:
    key = r['name'] + (' @ ' + json.dumps(r['input']) if 'input' in r else '')
    what = [w for ob, w in listed if ob == key]
    (hit if what else new).append((r, what))
  for r, what in hit:
    print('KNOWN-FINDING: property=%s %s' % (pid, what[0]))
  ev = evidence(mod, pid, tier, recs, proved, failed, bounded, undecided, [r for r, _ in hit], t0)
  with open(HERE + '/evidence/%s.json' % pid, 'w', encoding='utf8') as f:
    json.dump(ev, f, indent=1, ensure_ascii=False)
    f.write('\n')
  for r in errors:
    print('ERROR in %s: %s' % (r['name'], r['detail']), file=sys.stderr)
  if new or undecided:
    path = HERE + '/evidence/%s.replay.json' % pid
    bad = [r for r, _ in new] + undecided
    bad.sort(key=lambda r: not r.get('replayed'))
    with open(path, 'w', encoding='utf8') as f:
      json.dump({'property': pid, 'tier': tier, 'failed_obligations': bad,
                 'checker_cmd': 'check.py %s --tier %s' % (pid, tier)}, f, indent=1, ensure_ascii=False)
      f.write('\n')
    for r in bad[:10]:
      print('FAILED obligation: %s' % r['name'])
      for k in ('input', 'expected', 'got', 'detail'):
        if k in r:
          print('  %s: %r' % (k, r[k]))
    print('VIOLATION property=%s replay=%s%s' % (
        pid, path, '' if any(r.get('replayed') for r in bad) else ' no-failing-input-found'))
    return 1
  if errors:
    return 2
  if not proved and not bounded:
    print('no obligations', file=sys.stderr)
    return 2
  print('%s: %d obligations discharged, %d bounded, %.1f s' % (pid, len(proved), len(bounded), time.time() - t0))
  return 0


def evidence(mod, pid, tier, recs, proved, failed, bounded, undecided, hit, t0):
  backends = {}
  for r in proved:
    b = backends.setdefault(r['backend'], {'obligations': 0, 'solver_s': 0.0, 'queries': 0, 'explored': 0})
    b['obligations'] += 1
    b['solver_s'] = round(b['solver_s'] + r['secs'], 3)
    b['queries'] += r.get('queries', 0)
    b['explored'] += r.get('explored', 0)
  import common
  contracts = sorted({c for r in proved + failed for c in (r.get('functions') or [])} | set(
      common.functions(getattr(mod, 'FILES', []))))
  total = len(proved) + len(failed) - len(hit) + len(undecided)
  level = getattr(mod, 'LEVEL', 'proof')
  cov = {
      'obligations': total, 'discharged': len(proved),
      'checker_cmd': '/verif/check.py %s --tier %s' % (pid, tier),
      'trusted_base': mod.TRUSTED,
      'functions_under_contract': contracts,
      'back_ends': backends,
      'solver_s': round(sum(r['secs'] for r in proved), 3),
      'known_findings_not_discharged': [r['name'] for r in hit],
      'bounded_not_counted_as_proved': [
          {k: r[k] for k in ('name', 'cases', 'bound')} for r in bounded],
      'obligation_list': [{'name': r['name'], 'back_end': r['backend'], 's': r['secs']} for r in proved],
  }
  if level != 'proof':
    n = sum(r['cases'] for r in bounded) + len(proved)
    cov.update(evaluations=n, distinct_nontrivial=n,
               rule=getattr(mod, 'RULE', 'every enumerated case'),
               samples=[r['name'] for r in bounded + proved][:5],
               explanation=getattr(mod, 'RULE', ''))
  ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED') or 0), 'level': level,
        'coverage': cov, 'assumptions': mod.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2),
        'violations': len(failed) - len(hit) + len(undecided)}
  return ev


if __name__ == '__main__':
  main()
