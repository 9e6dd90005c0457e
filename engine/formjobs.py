"""Obligations on the form of the design, per cache shape: it builds, every
signal has one driver, no combinational cycle, every combinational signal is
assigned on every path (no latch), and no expression on any path can fail."""

import os
import re
import traceback

from jobs import register
from cache import Cfg, make_top
from model import Model, CombLoop, REPO
from netlist import AnalysisError, IllFormed
from unitjobs import Out


def site(e):
  """innermost frame of an exception that lies in the repository"""
  fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
  return f'{fr[-1].filename}:{fr[-1].lineno} {fr[-1].name}' if fr else 'elaboration'


def form(out, cfg):
  what = f'cache({cfg})'
  try:
    top = make_top(cfg)
    top.elaborate()
  except Exception as e:
    out.need(False, 'form/builds', f'{what} does not build: {type(e).__name__}: {str(e)[:300]} at {site(e)}')
    return
  out.need(True, 'form/builds', '')
  try: M = Model(top)
  except CombLoop as e:
    out.need(False, 'form/cycle', f'{what}: combinational cycle: {e}')
    return
  out.need(True, 'form/cycle', '')
  out.blocks += len(M.nl.blocks)
  out.need(not M.nl.multi, 'form/drivers', lambda: f'{what}: {M.nl.multi[0][0]} bit {M.nl.multi[0][1]} has two drivers')
  # undriven signals something reads
  ports = [s for m in M.srams for n in ('val', 'type', 'idx', 'wdata', 'wben') for s in M.slots(getattr(m, 'port0_' + n))]
  mi, ma = top.mem_minion_ifc, top.mem_master_ifc
  outs = [s for x in (mi.req.rdy, mi.resp.en, mi.resp.msg, ma.req.en, ma.req.msg, ma.resp.rdy) for s in M.slots(x)]
  for reader, slots in [(b.where(), [x for x in b.in_slots if x is not None]) for b in M.nl.blocks] + [('an array port', ports), ('an output', outs)]:
    for s in slots:
      k = M.slot_label[s]
      if k[0] != 'free': continue
      host = k[1].get_host_component()
      if host is top or any(host is m or _under(host, m) for m in M.srams): continue
      out.need(False, f'form/undriven-{k[1]!r}', f'{what}: {k[1]!r} bit {k[2]} is read by {reader} but nothing drives it')
    out.n += 1
  # every expression on every feasible path of every block, for any input:
  # narrow signals (selects, conditions) are ordered before the data they steer
  B = M.B
  total = {}
  for b in M.nl.blocks:
    for sig in {x[0] for x in b.reads}:
      total.setdefault(family(sig), {})[repr(sig)] = sig._dsl.Type.nbits
  def inp(sig, lo, w):
    p = 1 if sum(total.get(family(sig), {None: 99}).values()) <= 8 else 3
    return tuple(B.atom((repr(sig), lo + i), p, lo + i) for i in range(w))
  M.I.strict = True
  for b in M.nl.blocks:
    out.n += 1
    try: r = M.I.run(b, inp)
    except IllFormed as e:
      out.need(False, f'form/fails-{b.host!r}.{b.name}', f'{what}: {e}')
      continue
    if b.ff: continue
    for sig, lo, w in b.writes:
      bits = r.get(sig)
      bad = next((i for i in range(lo, lo + w) if bits is None or bits[i] is None or
                  any(isinstance(a, tuple) and a[0] == 'latch' for a in B.atoms(bits[i]))), None)
      out.need(bad is None, f'form/latch-{sig!r}', lambda: f'{what}: {b.where()} leaves {sig!r} bit {bad} unassigned on some path: it would keep its old value')


def family(sig):
  h = repr(sig.get_host_component())
  return h, re.sub(r'\[\d+\]', '[]', repr(sig)[len(h):])


def _under(c, m):
  while c is not None:
    if c is m: return True
    try: c = c.get_parent_object()
    except Exception: return False
  return False


@register('form')
def k_form(job):
  out = Out(job)
  for c in job['cfgs']: form(out, Cfg(*c))
  return out.pack()
