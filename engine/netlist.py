"""The elaborated design as a bit-level netlist of update blocks.

PyMTL3's elaboration is used as the compiler front end: it gives the component
tree, the nets (who drives whom) and, for every update block, its syntax tree
and closure.  Nothing here (or anywhere in the engine) executes an update
block or ticks the design.
"""

import ast
import inspect
import textwrap

from pymtl3 import Bits, Component, InPort, OutPort, Wire
from pymtl3.datatypes import is_bitstruct_class
from pymtl3.dsl.Connectable import Signal, Const


class AnalysisError(Exception):
  """the analysis met something it cannot interpret (never a verdict)"""


class IllFormed(AnalysisError):
  """an expression that fails when it is evaluated (width, range, bad value)"""


def type_nbits(T):
  return T.nbits


_layout_cache = {}


def layout(T):
  """field name -> (lo, width, field type) of a bitstruct (first field at MSB)"""
  r = _layout_cache.get(T)
  if r is None:
    r = {}
    hi = T.nbits
    for name, ft in T.__bitstruct_fields__.items():
      if isinstance(ft, list):
        elems = []
        for e in ft:
          w = e.nbits
          elems.append((hi - w, w, e))
          hi -= w
        r[name] = elems
      else:
        w = ft.nbits
        r[name] = (hi - w, w, ft)
        hi -= w
    assert hi == 0
    _layout_cache[T] = r
  return r


class Ref:
  """a bit range of a top-level signal"""
  __slots__ = ('sig', 'lo', 'w', 'T')

  def __init__(self, sig, lo, w, T):
    self.sig, self.lo, self.w, self.T = sig, lo, w, T

  def __repr__(self):
    return f"{self.sig}[{self.lo}:{self.lo + self.w}]"


def is_struct(T):
  return T is not None and is_bitstruct_class(T)


def sig_ref(sig):
  """Ref of any PyMTL signal object (top-level, struct field or slice)"""
  d = sig._dsl
  top = d.top_level_signal
  if top is sig:
    return Ref(sig, 0, d.Type.nbits, d.Type)
  par = sig_ref(d.parent_obj)
  if d.slice is not None:
    return Ref(par.sig, par.lo + d.slice.start, d.slice.stop - d.slice.start, None)
  f = layout(par.T)[d._my_name]
  for i in getattr(d, '_my_indices', []) or []:
    f = f[i]
  return Ref(par.sig, par.lo + f[0], f[1], f[2])


class Block:
  def where(self):
    return f"{self.file}:{self.line} {self.host!r}.{self.name}"


def _closure_env(fn):
  env = {}
  code = fn.__code__
  if fn.__closure__:
    for n, c in zip(code.co_freevars, fn.__closure__):
      try:
        env[n] = c.cell_contents
      except ValueError:
        pass
  return env


class Netlist:

  def __init__(self, top, blackbox=lambda c: False):
    if not hasattr(top._dsl, 'elaborate_top') or not top._dsl.constructed:
      top.elaborate()
    self.top = top
    self.bb = []
    skip = set()
    for c in sorted(top.get_all_components(), key=repr):
      if any(c is s for s in skip):
        continue
      if blackbox(c):
        self.bb.append(c)
    def under(c):
      while c is not None:
        for b in self.bb:
          if c is b: return True
        c = c.get_parent_object() if c is not top else None
      return False
    self._under_cache = {}
    self.blocks = []
    ffs = top.get_all_update_ff()
    rd, wr, _calls = top.get_all_upblk_metadata()
    for fn in top.get_all_update_blocks():
      host = top.get_update_block_host_component(fn)
      if self._inside(host): continue
      b = Block()
      b.fn, b.host, b.name = fn, host, fn.__name__
      lam, src, line, file, tree = host.get_update_block_info(fn)
      b.ast = tree.body[0]
      b.islambda = lam
      b.file, b.line = file, line
      b.ff = fn in ffs
      b.reads = sorted({(r.sig, r.lo, r.w) for r in map(sig_ref, (x for x in rd.get(fn, ()) if isinstance(x, Signal)))}, key=repr)
      b.writes = sorted({(r.sig, r.lo, r.w) for r in map(sig_ref, (x for x in wr.get(fn, ()) if isinstance(x, Signal)))}, key=repr)
      b.memo = {}
      b.env = _closure_env(fn)
      b.out_sigs = sorted({w[0] for w in b.writes}, key=repr)
      self.blocks.append(b)
    self.blocks.sort(key=lambda b: (repr(b.host), b.name))

    # ---- drivers, bit by bit ---------------------------------------------
    drv = {}          # sig -> list per bit of driver
    def slot(sig):
      d = drv.get(sig)
      if d is None:
        d = drv[sig] = [None] * sig._dsl.Type.nbits
      return d
    self.multi = []
    for b in self.blocks:
      for (sig, lo, w) in b.writes:
        d = slot(sig)
        for i in range(lo, lo + w):
          if d[i] is not None and d[i][1] is not b:
            self.multi.append((sig, i, d[i][1], b))
          d[i] = ('ff' if b.ff else 'blk', b)
    self.nets = top.get_all_value_nets()
    for writer, sigs in self.nets:
      if writer is None:
        continue
      if isinstance(writer, Const):
        v = writer._dsl.const
        for s in sigs:
          if s is writer: continue
          r = sig_ref(s)
          iv = int(v.to_bits()) if hasattr(v, 'to_bits') else int(v)
          d = slot(r.sig)
          for i in range(r.w):
            d[r.lo + i] = ('const', (iv >> i) & 1)
        continue
      wref = sig_ref(writer)
      for s in sigs:
        if s is writer: continue
        r = sig_ref(s)
        if r.sig is wref.sig and r.lo == wref.lo: continue
        d = slot(r.sig)
        for i in range(r.w):
          if d[r.lo + i] is None or d[r.lo + i][0] != 'net':
            if d[r.lo + i] is not None and d[r.lo + i][0] in ('blk', 'ff'):
              self.multi.append((r.sig, r.lo + i, d[r.lo + i][1], wref))
          d[r.lo + i] = ('net', wref.sig, wref.lo + i)
    self.drv = drv
    # compress into segments
    self.segs = {}
    for sig, d in drv.items():
      self.segs[sig] = self._segments(d)
    self._fieldpos = {}

  def _inside(self, comp):
    k = id(comp)
    r = self._under_cache.get(k)
    if r is None:
      r = False
      c = comp
      while True:
        if any(c is b for b in self.bb):
          r = True
          break
        if c is self.top: break
        c = c.get_parent_object()
      self._under_cache[k] = r
    return r

  def _segments(self, d):
    out = []
    i = 0
    n = len(d)
    while i < n:
      x = d[i]
      j = i + 1
      if x is None:
        while j < n and d[j] is None: j += 1
        out.append((i, j - i, 'none', None, 0))
      elif x[0] == 'const':
        bits = [x[1]]
        while j < n and d[j] is not None and d[j][0] == 'const':
          bits.append(d[j][1])
          j += 1
        out.append((i, j - i, 'const', tuple(bits), 0))
      elif x[0] == 'net':
        while j < n and d[j] is not None and d[j][0] == 'net' and d[j][1] is x[1] and d[j][2] == x[2] + (j - i): j += 1
        out.append((i, j - i, 'net', x[1], x[2]))
      else:
        while j < n and d[j] is not None and d[j][0] == x[0] and d[j][1] is x[1]: j += 1
        out.append((i, j - i, x[0], x[1], 0))
      i = j
    return out

  # ---- naming ------------------------------------------------------------
  def bit_label(self, sig, i):
    """(name, position counted from the top of the innermost field)"""
    k = (sig, i)
    r = self._fieldpos.get(k)
    if r is None:
      T, lo, name = sig._dsl.Type, 0, repr(sig)
      w = T.nbits
      while is_struct(T):
        for fn, f in layout(T).items():
          fs = f if isinstance(f, list) else [f]
          hit = [(x, q) for q, x in enumerate(fs) if lo + x[0] <= i < lo + x[0] + x[1]]
          if hit:
            x, q = hit[0]
            name += '.' + fn + (f'[{q}]' if isinstance(f, list) else '')
            lo, w, T = lo + x[0], x[1], x[2]
            break
        else:
          raise AnalysisError(f'no field at bit {i} of {sig}')
      r = (name, i - lo, w)
      self._fieldpos[k] = r
    return r
