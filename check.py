#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo's working tree by static analysis.
exit 0: holds.  exit 1: VIOLATION line.  exit 2: the analysis gives no answer."""

import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'

if __name__ == '__main__' and os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
  os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
  os.execv(PY, [PY, '-W', 'ignore'] + sys.argv)

sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
sys.path[:0] = [os.path.join(HERE, 'engine'), REPO]

import props   # noqa: E402


def load_known(pid):
  out = []
  with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
    for line in f:
      m = re.match(r'known: property=(\S+) key=(\S+)(?: ways=(\d+))? (.*)', line.strip())
      if m and m.group(1) == pid:
        out.append({'key': m.group(2), 'ways': int(m.group(3)) if m.group(3) else None, 'text': m.group(4)})
  return out


def _run(job):
  import jobs
  import unitjobs   # noqa: F401  (registers further kinds)
  import shapejobs   # noqa: F401
  import formjobs   # noqa: F401
  import fljobs   # noqa: F401
  import vlogjobs   # noqa: F401
  import trjobs   # noqa: F401
  return jobs.run(job)


def main():
  pid = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  budget = 780 if tier == 'quick' else 6 * 3600
  known = load_known(pid)
  P = props.PROPS[pid]
  jl = props.jobs_for(pid, tier)
  for j in jl: j.update(want=[pid], known=known, deadline=t0 + budget)
  results = []
  workers = max(1, min(8, os.cpu_count() or 1, len(jl)))
  ctx = mp.get_context('fork')
  if len(jl) == 1: results = [_run(jl[0])]
  else:
    with cf.ProcessPoolExecutor(workers, mp_context=ctx, max_tasks_per_child=None) as ex:
      futs = [ex.submit(_run, j) for j in jl]
      for j, f in zip(jl, futs):
        try: results.append(f.result())
        except Exception as e:   # a worker died
          results.append({'job': j['name'], 'viol': [], 'known': [], 'count': {}, 'locations': 0, 'edges': 0, 'paths': 0,
                          'blocks': 0, 'error': f'worker failed: {e!r}', 'wall': 0})
  viol, knw, errors = {}, {}, []
  count = 0
  for r in results:
    for k, m in r['viol']: viol.setdefault(k, f"[{r['job']}] {m}")
    for k, m in r['known']: knw.setdefault(k, f"[{r['job']}] {m}")
    if r['error']: errors.append(f"{r['job']}: {r['error']}")
    count += r['count'].get(pid, 0)
  floor = P.get('floor', 1)
  if not viol and not errors and count < floor:
    errors.append(f'only {count} obligations were generated, at least {floor} expected: the analysis no longer reaches its anchors')
  wall = round(time.time() - t0, 2)
  ev = {
    'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': wall, 'violations': len(viol),
    'coverage': {
      'explanation': P['explain'],
      'obligations': count, 'discharged': count - len(viol) if not errors else 0,
      'states': sum(r['locations'] for r in results), 'transitions': sum(r['edges'] for r in results),
      'resolved_paths': sum(r['paths'] for r in results),
      'update_blocks_analysed': {r['job']: r['blocks'] for r in results},
      'samples': [{k: r[k] for k in ('job', 'locations', 'edges', 'paths', 'wall')} | {'obligations': r['count'].get(pid, 0)} |
                  ({'notes': r['notes']} if r.get('notes') else {}) for r in results],
      'known_findings': sorted(knw),
      'errors': errors,
    },
    'assumptions': P['assume'],
  }
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
  for k in sorted(knw):
    t = next((x['text'] for x in known if x['key'] == k), '')
    print(f'KNOWN-FINDING: property={pid} {k}: {t}')
  if viol:
    rep = os.path.join(HERE, 'evidence', pid + '.report.txt')
    with open(rep, 'w') as f:
      f.write(f'property {pid}: {P["title"]}\nre-run: /verif/check.py {pid} {tier}\n\n')
      for k, m in sorted(viol.items()): f.write(f'rule {k}\n  {m}\n\n')
    for k, m in sorted(viol.items())[:5]: print(f'rule {k}: {m[:1500]}')
    print(f'VIOLATION property={pid} replay={rep}')
    return 1
  if errors:
    for e in errors[:5]: print('ANALYSIS-ERROR', e[-600:])
    return 2
  print(f'{pid} holds: {count} obligations, {ev["coverage"]["states"]} locations, {ev["coverage"]["transitions"]} edges, {wall} s')
  return 0


if __name__ == '__main__':
  sys.stdout.flush()
  sys.exit(main())
