"""Elaborating a cache configuration and locating its interface and state."""

import os
import sys

from model import Model, is_sram, REPO
from netlist import AnalysisError, layout, is_struct, sig_ref


class Cfg:
  def __init__(self, clw, dbw, size, asso, abw=None, obw=2):
    self.clw, self.dbw, self.size, self.asso, self.obw = clw, dbw, size, asso, obw
    self.nbyte = clw // 8
    self.nlines = size // self.nbyte
    self.nblk = self.nlines // asso
    self.off_w = (self.nbyte - 1).bit_length()
    self.idx_w = (self.nblk - 1).bit_length()
    self.abw = abw if abw is not None else self.off_w + self.idx_w + 4
    self.tag_w = self.abw - self.off_w - self.idx_w
    self.ndty = clw // 32

  def __repr__(self):
    return f"clw={self.clw},dbw={self.dbw},bytes={self.size},ways={self.asso},abw={self.abw},obw={self.obw}"


def make_top(cfg):
  from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
  from mem_ifcs.MemMsg import mk_mem_msg
  creq, cresp = mk_mem_msg(cfg.obw, cfg.abw, cfg.dbw, has_wr_mask=False)
  mreq, mresp = mk_mem_msg(cfg.obw, cfg.abw, cfg.clw)
  return BlockingCacheRTL(creq, cresp, mreq, mresp, cfg.size, cfg.asso)


class Design:
  """a configuration of the cache, ready for analysis"""

  def __init__(self, cfg):
    self.cfg = cfg
    self.top = top = make_top(cfg)
    try:
      top.elaborate()
    except AnalysisError:
      raise
    self.M = M = Model(top)
    self.B = M.B
    S = M.slots
    mi, ma = top.mem_minion_ifc, top.mem_master_ifc
    self.i_req_en, self.o_req_rdy = S(mi.req.en)[0], S(mi.req.rdy)[0]
    self.o_resp_en, self.i_resp_rdy = S(mi.resp.en)[0], S(mi.resp.rdy)[0]
    self.o_mreq_en, self.i_mreq_rdy = S(ma.req.en)[0], S(ma.req.rdy)[0]
    self.i_mresp_en, self.o_mresp_rdy = S(ma.resp.en)[0], S(ma.resp.rdy)[0]
    self.i_req = self._fields(mi.req.msg)
    self.o_resp = self._fields(mi.resp.msg)
    self.o_mreq = self._fields(ma.req.msg)
    self.i_mresp = self._fields(ma.resp.msg)
    self.reset = S(top.reset)[0]
    # SRAMs
    data = [m for m in M.srams if m.port0_wdata._dsl.Type.nbits == cfg.clw]
    if len(data) > 1: data = [m for m in data if 'data' in repr(m)]
    tags = [m for m in M.srams if m not in data]
    if len(data) != 1 or len(tags) != cfg.asso:
      raise AnalysisError(f'expected one data array and {cfg.asso} tag arrays, found {M.srams}')
    self.tag_srams, self.data_sram = tags, data[0]
    self.sp = {}
    for m in M.srams:
      self.sp[m] = {n: S(getattr(m, 'port0_' + n)) for n in ('val', 'type', 'idx', 'wdata', 'wben', 'rdata')}
    # the tag-entry layout
    p = top.param
    self.tag_layout = layout(p.StructTagArray)
    for f in ('val', 'dty', 'tag'):
      if f not in self.tag_layout: raise AnalysisError(f'tag entry has no field {f}')
    self._classify()

  def _fields(self, msg):
    r = sig_ref(msg)
    sl = self.M.resolve(r.sig)[r.lo:r.lo + r.w]
    return {f: sl[x[0]:x[0] + x[1]] for f, x in layout(r.T).items()}

  def _classify(self):
    """control bits are enumerated, data bits carry value-numbered contents"""
    M = self.M
    ctrl, soft, data = [], [], []
    # the datapath is the part of the cache that holds the arrays
    dpath = {type(M.top).__name__ + '/'}
    for m in M.srams:
      c = m
      while c.get_parent_object() is not M.top: c = c.get_parent_object()
      if c is not m: dpath.add(type(c).__name__)
    self.rep_slots = self._replacement()
    rep = set(self.rep_slots)
    for s in M.reg_slots:
      _, sig, i = M.slot_label[s]
      name, pos, w = M.nl.bit_label(sig, i)
      T = sig._dsl.Type
      cls = [type(c).__name__ for c in self._hosts(s)]
      in_dpath = any('Dpath' in x or x in dpath for x in cls)
      in_mshr = 'MSHR' in cls
      if s in rep: data.append(s)
      elif name.endswith('.type_'): soft.append(s)
      elif not in_dpath or (in_mshr and not is_struct(T)) or (not is_struct(T) and T.nbits == 1):
        ctrl.append(s)
      else: data.append(s)
    self.ctrl_slots, self.soft_slots, self.data_slots = ctrl, soft, data
    self.all_regs = ctrl + soft + data

  def _replacement(self):
    """the replacement state: one bit per set.  The registers of the
    replacement-bit component, or failing that a register with one bit per set
    that is computed from its own value"""
    M = self.M
    out = [s for s in M.reg_slots if any('ReplacementBits' in type(c).__name__ for c in self._hosts(s))]
    if not out and self.cfg.asso > 1:
      drv = {x: b for b in M.comb for x in b.out_slots}
      sigs = {}
      for s in M.reg_slots: sigs.setdefault(M.slot_label[s][1], []).append(s)
      cand = []
      for sig, sl in sigs.items():
        if is_struct(sig._dsl.Type) or len(sl) != self.cfg.nblk: continue
        own = set(sl)
        host = sig.get_host_component()
        wide = host.get_parent_object() if host is not M.top else host
        near = {id(wide), id(wide.get_parent_object()) if wide is not M.top else 0, id(host)} - {id(M.top), 0}
        todo, seen, loop = [], set(), False
        for b in M.ffs:
          if own & set(b.out_slots): todo += [x for x in b.in_slots if x is not None and x not in own]
        while todo and not loop:
          b = drv.get(todo.pop())
          if b is None or id(b) in seen: continue
          h, ok = b.host, False
          while h is not None:
            ok = ok or id(h) in near
            h = h.get_parent_object() if h is not M.top else None
          if not ok: continue
          seen.add(id(b))
          loop = any(x in own for x in b.in_slots)
          todo += b.in_slots
        if loop: cand.append(sl)
      if len(cand) == 1: out = cand[0]
    out.sort(key=lambda s: M.slot_label[s][2])
    return out

  def _hosts(self, s):
    c = self.M.slot_label[s][1].get_host_component()
    out = []
    while c is not None and c is not self.M.top:
      out.append(c)
      c = c.get_parent_object()
    return out

  def driver(self, slot):
    """the update block that drives a slot, for reports"""
    for b in self.M.nl.blocks:
      if slot in b.out_slots: return b
    return None

  def cone(self, slots, depth=6):
    """update blocks feeding the given slots combinationally (for reports)"""
    M = self.M
    drv = {s: b for b in M.comb for s in b.out_slots}
    seen, out, todo = set(), [], list(slots)
    while todo and len(out) < 40:
      s = todo.pop(0)
      b = drv.get(s)
      if b is None or id(b) in seen: continue
      seen.add(id(b))
      out.append(b)
      todo += b.in_slots
    return out
