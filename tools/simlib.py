"""A small driver for the real cache, used by demonstrations only.

run(reqs, ...) simulates BlockingCacheRTL with an in-order memory and returns
(responses, memory bytes, memory request log)."""
import os, sys, random
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import warnings; warnings.filterwarnings('ignore')
from pymtl3 import *
from pymtl3.passes import DefaultPassGroup
from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
from mem_ifcs.MemMsg import mk_mem_msg, MemMsgType

RD, WR, INIT, INV, FLUSH = 0, 1, 2, 14, 15
AMO_ADD, AMO_SWAP = 3, 6


class Mem:
  def __init__(s, init=None):
    s.b = dict(init or {})

  def byte(s, a): return s.b.get(a, (a * 7 + (a >> 3) + 1) & 0xff)

  def rd(s, a, n): return sum(s.byte(a + i) << (8 * i) for i in range(n))

  def wr(s, a, n, v):
    for i in range(n): s.b[a + i] = (v >> (8 * i)) & 0xff


def amo(t, m, o):
  sg = lambda x: x - (1 << 32) if x >> 31 else x
  return {3: (m + o) & 0xffffffff, 4: m & o, 5: m | o, 6: o, 7: m if sg(m) < sg(o) else o, 8: min(m, o),
          9: m if sg(m) > sg(o) else o, 10: max(m, o), 11: m ^ o, 12: m, 13: o}[t]


def run(reqs, clw=64, dbw=32, size=32, asso=1, abw=32, obw=8, mem=None, lat=1, stall=0, back=0, gap=0, seed=0,
        max_cycles=4000, trace=False, sched=None, raw_test=False, ops=None):
  """reqs: list of (type, opaque, addr, len, data); lat: memory latency (int or
  list per request); stall: chance the memory refuses; back: chance the
  processor refuses; gap: chance no request is offered"""
  rnd = random.Random(seed)
  creq, cresp = mk_mem_msg(obw, abw, dbw, has_wr_mask=False)
  mreq, mresp = mk_mem_msg(obw, abw, clw)
  dut = BlockingCacheRTL(creq, cresp, mreq, mresp, size, asso)
  dut.elaborate()
  dut.apply(DefaultPassGroup())
  dut.sim_reset()
  M = mem if mem is not None else Mem()
  ci, mi = dut.mem_minion_ifc, dut.mem_master_ifc
  q, out, log = [], [], []
  i = 0
  nmem = 0
  for cyc in range(max_cycles):
    ci.req.en @= 0
    ci.resp.rdy @= 0 if rnd.random() < back else 1
    mi.req.rdy @= 0 if rnd.random() < stall else 1
    mi.resp.en @= 0
    if sched: sched(cyc, ci, mi)
    if q and q[0][0] <= cyc:
      mi.resp.en @= 1
      mi.resp.msg @= q[0][1]
      q.pop(0)
    dut.sim_eval_combinational()
    if i < len(reqs) and ci.req.rdy and rnd.random() >= gap:
      t, o, a, l, d = reqs[i]
      ci.req.msg @= creq(t, o, a, l, d)
      ci.req.en @= 1
      dut.sim_eval_combinational()
      i += 1
    if trace: print(f'{cyc:3} ' + dut.line_trace())
    if ci.resp.en:
      r = ci.resp.msg
      if not ci.resp.rdy: out.append('response-while-not-ready')
      out.append((int(r.type_), int(r.opaque), int(r.test), int(r.len), int(r.data)))
    if mi.req.en:
      r = mi.req.msg
      if not mi.req.rdy: log.append('memreq-while-not-ready')
      t, a, l, d = int(r.type_), int(r.addr), int(r.len), int(r.data)
      mask = int(r.wr_mask)
      log.append((t, a, l, d, mask))
      if ops is not None: ops.append((t, int(r.opaque), i, a))
      rdata = 0
      if t == 1:
        for k in range(clw // 32):
          if (mask >> k) & 1: M.wr(a + 4 * k, 4, d >> (32 * k) & 0xffffffff)
      elif t == 0: rdata = M.rd(a, clw // 8)
      else:
        rdata = M.rd(a, 4)
        M.wr(a, 4, amo(t, rdata, d & 0xffffffff))
      lt = lat[nmem % len(lat)] if isinstance(lat, (list, tuple)) else lat
      nmem += 1
      when = max([cyc + lt] + [x[0] + 1 for x in q])
      q.append((when, mresp(type_=t, opaque=r.opaque, len=r.len, data=rdata)))
    dut.sim_tick()
    if len(out) >= len(reqs) and i >= len(reqs):
      if not q: break
  return out, M, log


def expect(reqs, dbw, mem=None):
  """sequential meaning of the requests on flat memory (data only)"""
  M = mem if mem is not None else Mem()
  n0 = dbw // 8
  out = []
  for t, o, a, l, d in reqs:
    n = l or n0
    if t == RD: out.append((t, o, l, M.rd(a, n)))
    elif t in (WR, INIT):
      if l == 3: M.wr(a, 8, d & 0xffffffff)
      else: M.wr(a, n, d)
      out.append((t, o, l, 0))
    elif t in (INV, FLUSH): out.append((t, o, l, 0))
    else:
      v = M.rd(a, 4)
      M.wr(a, 4, amo(t, v, d & 0xffffffff))
      out.append((t, o, l, v))
  return out, M


def check(reqs, **kw):
  """responses of the cache equal the sequential meaning; flush then memory"""
  dbw = kw.get('dbw', 32)
  reqs = list(reqs) + [(FLUSH, 0, 0, 0, 0)]
  out, M, log = run(reqs, **kw)
  ref, R = expect(reqs, dbw)
  got = [x if isinstance(x, str) else (x[0], x[1], x[3], x[4]) for x in out]
  errs = []
  if got != ref:
    for k in range(max(len(got), len(ref))):
      g = got[k] if k < len(got) else None
      r = ref[k] if k < len(ref) else None
      if g != r:
        errs.append(f'response {k}: got {g}, expected {r}')
        break
  errs += [str(x) for x in log if isinstance(x, str)]
  for a in sorted(set(M.b) | set(R.b)):
    if M.byte(a) != R.byte(a):
      errs.append(f'memory byte {a:#x}: got {M.byte(a):#x}, expected {R.byte(a):#x}')
      break
  return errs
