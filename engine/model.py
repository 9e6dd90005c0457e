"""One-cycle transfer function of an elaborated design.

Every driven bit of the design gets a slot.  A step fills the slots of the
sources (registers, top-level inputs, SRAM read data) with abstract values and
propagates them through the update blocks in dependence order; the sinks
(register next values, outputs, SRAM inputs) can then be read off.  Each block
is summarised once per distinct abstract input.
"""

import os
import sys
from operator import itemgetter

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
  sys.path.insert(0, REPO)

from pymtl3 import InPort
from pymtl3.dsl.Connectable import Signal

from bdd import BDD
from netlist import Netlist, AnalysisError, layout, is_struct, sig_ref
from absint import Interp


def is_sram(c):
  return all(hasattr(c, 'port0_' + x) for x in ('val', 'type', 'idx', 'wdata', 'wben', 'rdata'))


class Slots:
  """slot ids of a signal, LSB first"""
  pass


class Model:

  def __init__(self, top, bdd=None, blackbox=is_sram):
    self.B = bdd or BDD()
    self.top = top
    self.nl = Netlist(top, blackbox)
    self.I = Interp(self.B)
    self.nslots = 0
    self.slot_label = []
    self._slots = {}        # (sig, bit) -> slot for base drivers
    self._res = {}          # sig -> list of slots per bit (resolved)
    self.const_slot = [self._new(('const', 0)), self._new(('const', 1))]
    self._setup()

  def _new(self, label):
    self.slot_label.append(label)
    self.nslots += 1
    return self.nslots - 1

  def _base(self, sig, i, kind):
    k = (sig, i)
    s = self._slots.get(k)
    if s is None:
      s = self._slots[k] = self._new((kind, sig, i))
    return s

  def resolve(self, sig):
    """slot of every bit of a top-level signal object"""
    r = self._res.get(sig)
    if r is not None: return r
    d = self.nl.drv.get(sig)
    n = sig._dsl.Type.nbits
    out = []
    for i in range(n):
      out.append(self._resolve_bit(sig, i))
    self._res[sig] = out
    return out

  def _resolve_bit(self, sig, i):
    seen = 0
    while True:
      d = self.nl.drv.get(sig)
      x = d[i] if d is not None else None
      if x is None: return self._base(sig, i, 'free')
      k = x[0]
      if k == 'const': return self.const_slot[x[1]]
      if k == 'net':
        sig, i = x[1], x[2]
        seen += 1
        if seen > 10000: raise AnalysisError(f'net loop at {sig}')
        continue
      return self._base(sig, i, k)      # 'ff' or 'blk'

  def slots(self, sig):
    """slots of any PyMTL signal (field / slice allowed)"""
    r = sig_ref(sig)
    return self.resolve(r.sig)[r.lo:r.lo + r.w]

  def _setup(self):
    nl = self.nl
    for b in nl.blocks:
      own = {(w[0], i) for w in b.writes for i in range(w[1], w[1] + w[2])} if not b.ff else set()
      keys = []
      for (sig, lo, w) in b.reads:
        for i in range(lo, lo + w):
          if (sig, i) in own: continue
          keys.append((sig, i))
      # the default (hold) of an update_ff output reads the register itself
      if b.ff:
        for (sig, lo, w) in b.writes:
          for i in range(lo, lo + w): keys.append((sig, i))
      keys = list(dict.fromkeys(keys))
      # own bits read: also needed when read before written
      ownreads = [(sig, i) for (sig, lo, w) in b.reads for i in range(lo, lo + w) if (sig, i) in own]
      b.own_reads = list(dict.fromkeys(ownreads))
      b.in_keys = keys
      b.in_slots = [self._resolve_bit(s, i) if not (b.ff and (s, i) in ()) else None for s, i in keys]
      b.out_keys = [(w[0], i) for w in b.writes for i in range(w[1], w[1] + w[2])]
      b.out_keys = list(dict.fromkeys(b.out_keys))
      b.out_slots = [self._base(s, i, 'ff' if b.ff else 'blk') for s, i in b.out_keys]
      b.get = itemgetter(*b.in_slots) if len(b.in_slots) > 1 else None
      b.memo = {}
    self.comb = [b for b in nl.blocks if not b.ff]
    self.ffs = [b for b in nl.blocks if b.ff]
    drv = {}
    for b in self.comb:
      for s in b.out_slots: drv[s] = b
    deps = {id(b): {id(drv[s]): drv[s] for s in b.in_slots if s in drv} for b in self.comb}
    self.order = self._sccs(self.comb, deps)
    # sources
    self.reg_slots = []
    self.reg_block = {}
    for b in self.ffs:
      for s in b.out_slots:
        self.reg_slots.append(s)
        self.reg_block[s] = b
    self.reg_slots = sorted(set(self.reg_slots))
    self.srams = sorted(nl.bb, key=repr)
    for m in self.srams:
      for n in ('val', 'type', 'idx', 'wdata', 'wben', 'rdata'):
        self.slots(getattr(m, 'port0_' + n))

  def _sccs(self, nodes, deps):
    index, low, stack, on, out = {}, {}, [], set(), []
    cnt = [0]
    byid = {id(b): b for b in nodes}
    for root in nodes:
      if id(root) in index: continue
      work = [(id(root), iter(deps[id(root)]))]
      index[id(root)] = low[id(root)] = cnt[0]; cnt[0] += 1
      stack.append(id(root)); on.add(id(root))
      while work:
        v, it = work[-1]
        adv = False
        for w in it:
          if w not in index:
            index[w] = low[w] = cnt[0]; cnt[0] += 1
            stack.append(w); on.add(w)
            work.append((w, iter(deps[w])))
            adv = True
            break
          elif w in on:
            low[v] = min(low[v], index[w])
        if adv: continue
        work.pop()
        if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
        if low[v] == index[v]:
          comp = []
          while True:
            w = stack.pop(); on.discard(w)
            comp.append(byid[w])
            if w == v: break
          out.append((comp, len(comp) > 1 or id(comp[0]) in deps[id(comp[0])]))
    return out

  def label(self, slot):
    l = self.slot_label[slot]
    if l[0] == 'const': return str(l[1])
    return self.nl.bit_label(l[1], l[2])

  # ---- evaluation --------------------------------------------------------
  def run_block(self, b, vals):
    key = b.get(vals) if b.get else tuple(vals[s] for s in b.in_slots)
    r = b.memo.get(key)
    if r is None:
      d = dict(zip(b.in_keys, key if isinstance(key, tuple) else (key,)))
      B = self.B
      def inputs(sig, lo, w):
        out = []
        for i in range(lo, lo + w):
          x = d.get((sig, i))
          if x is None:
            x = B.atom(('latch', repr(sig), i), 9, i)
          out.append(x)
        return tuple(out)
      store = self.I.run(b, inputs)
      r = []
      for (sig, i) in b.out_keys:
        bits = store.get(sig)
        x = bits[i] if bits is not None else None
        if x is None:
          x = d[(sig, i)] if b.ff else B.atom(('latch', repr(sig), i), 9, i)
        r.append(x)
      r = tuple(r)
      b.memo[key] = r
    return r

  def plan(self, slots):
    """the part of the design that decides the given slots / register next
    values: (combinational order, ff blocks)"""
    drv = {s: b for b in self.comb for s in b.out_slots}
    ffs, todo, need = [], [], set()
    for s in slots:
      b = self.reg_block.get(s)
      if b is not None:
        if b not in ffs:
          ffs.append(b)
          todo += b.in_slots
      else: todo.append(s)
    seen = set()
    while todo:
      s = todo.pop()
      if s in seen: continue
      seen.add(s)
      b = drv.get(s)
      if b is not None and id(b) not in need:
        need.add(id(b))
        todo += b.in_slots
    order = []
    for comp, cyc in self.order:
      if any(id(b) in need for b in comp): order.append((comp, cyc))
    return order, ffs

  def propagate(self, src, plan=None):
    """src: dict slot -> node for all sources.  Returns the filled slot array."""
    vals = [None] * self.nslots
    vals[self.const_slot[0]], vals[self.const_slot[1]] = 0, 1
    for s, v in src.items(): vals[s] = v
    for comp, cyc in (plan[0] if plan else self.order):
      if not cyc:
        b = comp[0]
        for s, v in zip(b.out_slots, self.run_block(b, vals)): vals[s] = v
      else:
        self._cycle(comp, vals)
    return vals

  def _cycle(self, comp, vals):
    B = self.B
    cyc = set()
    for b in comp:
      for s in b.out_slots:
        if vals[s] is None:
          sig, i = self.slot_label[s][1:]
          vals[s] = B.atom(('cyc', repr(sig), i), 9, i)
          cyc.add(B.rank[vals[s]])
    for it in range(4 * len(comp) + 4):
      ch = False
      for b in comp:
        for s, v in zip(b.out_slots, self.run_block(b, vals)):
          if vals[s] != v:
            vals[s] = v
            ch = True
      if not ch: break
    bad = [s for b in comp for s in b.out_slots if B.support(vals[s]) & cyc]
    if bad:
      raise CombLoop([self.label(s)[0] for s in bad[:4]], [b.where() for b in comp])

  def next_regs(self, vals, plan=None):
    out = {}
    for b in (plan[1] if plan else self.ffs):
      for s, v in zip(b.out_slots, self.run_block(b, vals)): out[s] = v
    return out

  def free_slots(self):
    return [s for s, l in enumerate(self.slot_label) if l[0] == 'free']


class CombLoop(AnalysisError):
  pass
