"""Analysis jobs: one configuration of the cache, one class of requests."""

import time
import traceback

from cache import Cfg, Design
from netlist import AnalysisError
from tx import Sink, Stop, Untracked
from track import Tracked, Learner, ACCEPT


def keystr(k): return '/'.join(str(x) for x in k)


class KSink(Sink):
  """known findings are matched by rule key and configuration"""

  def __init__(self, want, known, cfg, stop=True):
    super().__init__(want, (), stop)
    self.kn = [k for k in known if k.get('ways') in (None, cfg.asso)]

  def report(self, key, msg):
    ks = keystr(key)
    for k in self.kn:
      if ks == k['key']:
        if ks not in self.hit_known: self.hit_known[ks] = msg()
        return
    super().report(key, msg)


def run(job):
  """executed in a worker process"""
  t0 = time.time()
  out = {'job': job['name'], 'viol': [], 'known': [], 'count': {}, 'locations': 0, 'edges': 0, 'error': None, 'blocks': 0, 'paths': 0}
  try:
    out.update(KINDS[job['kind']](job) or {})
  except AnalysisError as e:
    out['error'] = f'{type(e).__name__}: {e}'
  except RecursionError as e:
    out['error'] = 'recursion limit'
  except Exception:
    out['error'] = traceback.format_exc()[-1500:]
  out['wall'] = round(time.time() - t0, 2)
  return out


def setup(job, sink_u):
  cfg = Cfg(*job['cfg'])
  D = Design(cfg)
  U = Untracked(D, sink_u, overlap=job.get('overlap', False), deadline=job['deadline'], nostall=job.get('nostall', False))
  return cfg, D, U


def starts(T, U, overlap):
  return [T.start(u) for u in U.order if U.rdy.get(u.key(), 0) != 0 and (overlap or u.mon == 0)]


def pack(sink, **kw):
  d = {'viol': [(keystr(k), v) for k, v in sink.viol.items()], 'known': list(sink.hit_known.items()), 'count': sink.count}
  d.update(kw)
  return d


def k_untracked(job):
  cfg = Cfg(*job['cfg'])
  sink = KSink(set(job['want']), job['known'], cfg)
  D = Design(cfg)
  U = Untracked(D, sink, overlap=job.get('overlap', False), deadline=job['deadline'])
  try:
    U.explore()
    U.liveness()
  except Stop: pass
  return pack(sink, locations=len(U.locs), edges=U.steps, blocks=len(D.M.nl.blocks))


def k_track(job):
  cfg, D, U = setup(job, Sink(want=()))
  U.explore()
  sink = KSink(set(job['want']), job['known'], cfg)
  fmap = None
  if job.get('map', True): fmap = Learner(U, 'READ', Sink(want=()), overlap=False, deadline=job['deadline']).find()
  loc = edges = paths = 0
  for cls in job['classes']:
    T = Tracked(U, cls, sink, overlap=job.get('overlap', False), fmap=fmap, deadline=job['deadline'])
    try:
      T.explore(starts(T, U, job.get('overlap', False)))
    except Stop: break
    finally:
      loc += len(T.locs)
      edges += T.steps
      paths += T.paths_done
  return pack(sink, locations=loc, edges=edges, paths=paths, blocks=len(D.M.nl.blocks), untracked=len(U.locs))


def k_reset(job):
  cfg, D, U = setup(job, Sink(want=()))
  U.explore()
  sink = KSink(set(job['want']), job['known'], cfg)
  T = Tracked(U, 'RESET', sink, overlap=False, deadline=job['deadline'])
  try: T.explore_reset()
  except Stop: pass
  return pack(sink, locations=len(T.locs), edges=T.steps, paths=T.paths_done, blocks=len(D.M.nl.blocks))


def compare(job, mk_a, mk_b, pid, text):
  """rules broken in world a but not in the plainer world b"""
  cfg = Cfg(*job['cfg'])
  D = Design(cfg)
  loc = edges = paths = 0
  count, viol = {}, []
  def world(par, classes):
    nonlocal loc, edges, paths
    su = Sink(want=None, stop=False)
    U = Untracked(D, su, overlap=par['overlap'], deadline=job['deadline'], nostall=par['nostall'])
    U.explore()
    if not par['nostall']: U.liveness()
    s = KSink(None, [], cfg, stop=False)
    fmap = Learner(U, 'READ', Sink(want=()), overlap=False, deadline=job['deadline']).find()
    for cls in classes:
      T = Tracked(U, cls, s, overlap=par['overlap'], friendly=par['nostall'], fmap=fmap, deadline=job['deadline'])
      T.explore(starts(T, U, par['overlap']))
      loc += len(T.locs)
      edges += T.steps
      paths += T.paths_done
    for k, v in s.count.items(): count[pid] = count.get(pid, 0) + v
    for k, v in su.count.items(): count[pid] = count.get(pid, 0) + v
    d = {keystr(k): v for k, v in su.viol.items()}
    d.update({keystr(k): v for k, v in s.viol.items()})
    return d
  a = world(mk_a, job['classes'])
  if a:
    b = world(mk_b, job['classes'])
    for k, v in a.items():
      if k not in b: viol.append((k, text + v))
  return {'viol': viol, 'count': count, 'locations': loc, 'edges': edges, 'paths': paths, 'blocks': len(D.M.nl.blocks)}


def k_stall(job):
  ov = job.get('overlap', False)
  return compare(job, {'overlap': ov, 'nostall': False}, {'overlap': ov, 'nostall': True}, 'P16',
                 'only with stalls or slow memory: ')


def k_pipe(job):
  return compare(job, {'overlap': True, 'nostall': False}, {'overlap': False, 'nostall': False}, 'P31',
                 'only with back-to-back requests: ')


def k_timing(job):
  cfg = Cfg(*job['cfg'])
  D = Design(cfg)
  U = Untracked(D, Sink(want=()), overlap=True, deadline=job['deadline'], nostall=True)
  U.explore()
  sink = KSink(set(job['want']), job['known'], cfg)
  fmap = Learner(U, 'READ', Sink(want=()), overlap=False, deadline=job['deadline']).find()
  loc = edges = paths = 0
  for cls in job['classes']:
    T = Tracked(U, cls, sink, overlap=True, friendly=True, fmap=fmap, deadline=job['deadline'], timing=True)
    try: T.explore(starts(T, U, True))
    except Stop: break
    finally:
      loc, edges, paths = loc + len(T.locs), edges + T.steps, paths + T.paths_done
  return pack(sink, locations=loc, edges=edges, paths=paths, blocks=len(D.M.nl.blocks), untracked=len(U.locs))


KINDS = {'untracked': k_untracked, 'track': k_track, 'reset': k_reset, 'stall': k_stall, 'pipe': k_pipe, 'timing': k_timing}


def register(name):
  def deco(f):
    KINDS[name] = f
    return f
  return deco
