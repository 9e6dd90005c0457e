"""Abstract transfer functions of update blocks.

A block's syntax tree is interpreted over vectors of one-bit abstract values
(bdd.py).  Branches on a value that is not constant are joined (the join of
two values under a condition is the value-numbered selection of the two), so
one pass over a block summarises all of its paths; loops have static bounds in
this language and are unrolled.
"""

import ast
import builtins
import inspect
import textwrap

import pymtl3
from pymtl3 import Bits
from pymtl3.datatypes import is_bitstruct_class, is_bitstruct_inst, mk_bits
from pymtl3.dsl.Connectable import Signal
from pymtl3.datatypes import helpers as H

from netlist import Ref, sig_ref, layout, is_struct, AnalysisError, IllFormed


class V:
  """abstract vector value: bits LSB first; T a bitstruct class or None;
  isint: an unsized Python integer with symbolic bits (zero-extends freely)"""
  __slots__ = ('bits', 'T', 'isint')

  def __init__(self, bits, T=None, isint=False):
    self.bits, self.T, self.isint = bits, T, isint

  def const(self):
    v = 0
    for i, b in enumerate(self.bits):
      if b > 1: return None
      v |= b << i
    return v

  def __repr__(self):
    c = self.const()
    return f"V{len(self.bits)}({c if c is not None else self.bits})"


def cbits(v, w):
  return tuple((v >> i) & 1 for i in range(w))


class Alts:
  """guarded alternatives (result of a non-constant index)"""
  __slots__ = ('alts', 'where')

  def __init__(self, alts, where):
    self.alts, self.where = alts, where


class _Return(Exception):
  pass


class Interp:

  def __init__(self, bdd):
    self.B = bdd
    self.oob = []

  # ---- entry -------------------------------------------------------------
  def run(self, blk, inputs):
    """inputs: function (sig, lo, w) -> tuple of nodes, for bits not written by
    this block.  Returns {sig: list of nodes (None where not written)}"""
    fr = Frame(self, blk, inputs)
    fr.exec_body(blk.ast.body)
    return fr.result()


class Frame:

  def __init__(self, I, blk, inputs, parent=None):
    self.I, self.B, self.blk, self.inputs = I, I.B, blk, inputs
    self.locals = {}
    self.store = {}     # sig -> list of nodes (or None)
    self.env = blk.env
    self.globals = blk.fn.__globals__
    self.ff = blk.ff
    self.own = None
    self.retval = None
    self.guard = 1

  def result(self):
    return self.store

  def err(self, node, msg):
    raise AnalysisError(f"{self.blk.where()} line {getattr(node, 'lineno', '?')}: {msg}")

  def bad(self, node, msg):
    raise IllFormed(f"{self.blk.where()} line {getattr(node, 'lineno', '?')}: {msg}")

  # ---- statements --------------------------------------------------------
  def exec_body(self, body):
    for i, st in enumerate(body):
      if self.exec(st, body, i):
        return

  def exec(self, st, body, i):
    t = type(st)
    if t is ast.AugAssign:
      if isinstance(st.op, (ast.MatMult, ast.LShift)) and not isinstance(st.target, ast.Name):
        self.write(st.target, self.eval(st.value), st)
      elif isinstance(st.op, (ast.MatMult, ast.LShift)) and isinstance(st.target, ast.Name) and \
           not (st.target.id in self.locals):
        self.write(st.target, self.eval(st.value), st)
      else:
        if not isinstance(st.target, ast.Name):
          self.err(st, 'augmented assignment to a signal')
        cur = self.eval(ast.copy_location(ast.Name(st.target.id, ast.Load()), st))
        self.locals[st.target.id] = self.binop(st.op, cur, self.eval(st.value), st)
    elif t is ast.Assign:
      v = self.eval(st.value)
      v = self.value_of(v)
      for tg in st.targets:
        self.assign(tg, v, st)
    elif t is ast.AnnAssign:
      if st.value is not None:
        self.assign(st.target, self.value_of(self.eval(st.value)), st)
    elif t is ast.If:
      c = self.truth(self.eval(st.test), st)
      # a branch no path can reach (the enclosing tests exclude it) is dropped
      if c == 1 or self.B.AND(self.guard, self.B.NOT(c)) == 0: return self._sub(st.body)
      elif c == 0 or self.B.AND(self.guard, c) == 0: return self._sub(st.orelse)
      else:
        has_ret = any(isinstance(n, ast.Return) for n in ast.walk(st))
        if has_ret:
          # early return: the rest of the function belongs to the branch that
          # does not return
          rest = body[i + 1:]
          self.branch(c, st.body + rest, st.orelse + rest, st)
          return True
        self.branch(c, st.body, st.orelse, st)
    elif t is ast.For:
      it = self.eval(st.iter)
      try:
        seq = list(it)
      except TypeError:
        self.err(st, 'loop over a non-constant range')
      for x in seq:
        self.assign(st.target, x, st)
        r = self._sub(st.body)
        if r == 'break': break
        if r is True: return True
      else:
        if st.orelse: return self._sub(st.orelse)
    elif t is ast.While:
      n = 0
      while True:
        c = self.truth(self.eval(st.test), st)
        if c > 1: self.err(st, 'while on a non-constant condition')
        if not c: break
        r = self._sub(st.body)
        if r == 'break': break
        if r is True: return True
        n += 1
        if n > 100000: self.err(st, 'unbounded while')
    elif t is ast.Match:
      return self.exec(self.match_if(st), body, i)
    elif t is ast.Break:
      return 'break'
    elif t is ast.Continue:
      return 'continue'
    elif t in (ast.Pass, ast.Assert, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom):
      pass
    elif t is ast.Expr:
      if isinstance(st.value, ast.Constant): return None
      if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == 'print':
        return None
      self.eval(st.value)
    elif t is ast.FunctionDef:
      self.locals[st.name] = _LocalFn(st, self)
    elif t is ast.Return:
      self.retval = self.value_of(self.eval(st.value)) if st.value is not None else None
      return True
    else:
      self.err(st, f'statement {t.__name__} not supported')
    return None

  def match_if(self, st):
    """a match over constants as the if chain it stands for"""
    def test(p):
      if isinstance(p, ast.MatchValue): return ast.Compare(st.subject, [ast.Eq()], [p.value])
      if isinstance(p, ast.MatchOr): return ast.BoolOp(ast.Or(), [test(q) for q in p.patterns])
      if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None: return ast.Constant(True)
      self.err(st, 'match pattern')
    out = []
    for c in reversed(st.cases):
      t = test(c.pattern)
      if c.guard is not None: t = ast.BoolOp(ast.And(), [t, c.guard])
      x = ast.If(t, c.body, out)
      ast.copy_location(x, st)
      ast.fix_missing_locations(x)
      out = [x]
    return out[0]

  def _sub(self, body):
    for i, st in enumerate(body):
      r = self.exec(st, body, i)
      if r == 'continue': return None
      if r: return r
    return None

  def branch(self, c, b1, b2, st):
    s0 = {k: list(v) for k, v in self.store.items()}
    l0 = dict(self.locals)
    g0 = self.guard
    r0 = self.retval
    self.guard = self.B.AND(g0, c)
    r1 = self._sub(b1)
    s1, l1, rv1 = self.store, self.locals, self.retval
    self.store, self.locals, self.retval = s0, l0, r0
    self.guard = self.B.AND(g0, self.B.NOT(c))
    r2 = self._sub(b2)
    s2, l2, rv2 = self.store, self.locals, self.retval
    self.guard = g0
    if 'break' in (r1, r2) or 'continue' in (r1, r2):
      self.err(st, 'break/continue on a non-constant condition')
    ITE = self.B.ITE
    out = {}
    for k in set(s1) | set(s2):
      x, y = s1.get(k), s2.get(k)
      if x is None: x = [None] * len(y)
      if y is None: y = [None] * len(x)
      z = []
      for i, (p, q) in enumerate(zip(x, y)):
        if p == q: z.append(p)
        else:
          if p is None: p = self.unwritten(k, i)
          if q is None: q = self.unwritten(k, i)
          z.append(ITE(c, p, q))
      out[k] = z
    self.store = out
    loc = {}
    for k in set(l1) | set(l2):
      if k not in l1: loc[k] = l2[k]
      elif k not in l2: loc[k] = l1[k]
      elif l1[k] is l2[k]: loc[k] = l1[k]
      else: loc[k] = self.merge(c, l1[k], l2[k], st)
    self.locals = loc
    if rv1 is not None or rv2 is not None:
      if rv1 is None or rv2 is None: self.err(st, 'return on one branch only')
      self.retval = self.merge(c, rv1, rv2, st)

  def unwritten(self, sig, i):
    """value of a bit on a path that does not assign it"""
    if self.ff:
      return self.inputs(sig, i, 1)[0]
    return self.B.atom(('latch', repr(sig), i), 9, i)

  def assign(self, tg, v, st):
    if isinstance(tg, ast.Name):
      self.locals[tg.id] = v
    elif isinstance(tg, (ast.Tuple, ast.List)):
      vs = list(v)
      if len(vs) != len(tg.elts): self.err(st, 'unpacking')
      for a, b in zip(tg.elts, vs): self.assign(a, b, st)
    elif isinstance(tg, (ast.Subscript, ast.Attribute)):
      # element of a local value
      base = tg.value
      if isinstance(base, ast.Name) and base.id in self.locals and isinstance(self.locals[base.id], V):
        cur = self.locals[base.id]
        cell = _Cell(cur)
        if isinstance(tg, ast.Attribute):
          lo, w, T = layout(cur.T)[tg.attr]
        else:
          idx = self.eval_index(tg.slice)
          if isinstance(idx, slice): lo, w = idx.start, idx.stop - idx.start
          elif isinstance(idx, V):
            bits = list(cur.bits)
            nv = self.to_v(v, 1, st)
            for i in range(len(bits)):
              bits[i] = self.B.ITE(self.eqc(idx, i), nv.bits[0], bits[i])
            self.locals[base.id] = V(tuple(bits), cur.T)
            return
          else: lo, w = idx, 1
        nv = self.to_v(v, w, st)
        bits = cur.bits[:lo] + nv.bits + cur.bits[lo + w:]
        self.locals[base.id] = V(bits, cur.T)
      elif isinstance(base, ast.Name) and base.id in self.locals and isinstance(self.locals[base.id], list):
        idx = self.eval_index(tg.slice)
        new = list(self.locals[base.id])
        new[idx] = v
        self.locals[base.id] = new
      else:
        self.err(st, 'assignment target')
    else:
      self.err(st, 'assignment target')

  # ---- signal writes -----------------------------------------------------
  def write(self, target, val, st):
    ref = self.eval(target, store=True)
    alts = ref.alts if isinstance(ref, Alts) else [(1, ref)]
    for g, r in alts:
      if isinstance(r, Signal): r = sig_ref(r)
      if not isinstance(r, Ref):
        self.err(st, f'write to {r!r}')
      v = self.to_v(val, r.w, st)
      bits = self.store.get(r.sig)
      if bits is None:
        bits = self.store[r.sig] = [None] * r.sig._dsl.Type.nbits
      if g == 1:
        bits[r.lo:r.lo + r.w] = v.bits
      else:
        ITE = self.B.ITE
        for i in range(r.w):
          old = bits[r.lo + i]
          if old is None: old = self.unwritten(r.sig, r.lo + i)
          bits[r.lo + i] = ITE(g, v.bits[i], old)

  def read(self, r):
    own = None if self.ff else self.store.get(r.sig)
    if own is None:
      return V(self.inputs(r.sig, r.lo, r.w), r.T if is_struct(r.T) else None)
    seg = own[r.lo:r.lo + r.w]
    if None in seg:
      base = self.inputs(r.sig, r.lo, r.w)
      seg = [b if s is None else s for s, b in zip(seg, base)]
    return V(tuple(seg), r.T if is_struct(r.T) else None)

  # ---- value conversion --------------------------------------------------
  def value_of(self, x):
    if isinstance(x, Signal): x = sig_ref(x)
    if isinstance(x, Ref): return self.read(x)
    if isinstance(x, Alts):
      vals = [(g, self.value_of(r)) for g, r in x.alts]
      w = max(len(self.to_v(v, None, None).bits) for _, v in vals)
      cover = self.B.any([g for g, _ in vals])
      T = vals[0][1].T if isinstance(vals[0][1], V) else None
      out = [self.B.atom(('oob',) + x.where + (i,), 9, i) if cover != 1 else 0 for i in range(w)]
      ITE = self.B.ITE
      first = True
      for g, v in vals:
        v = self.to_v(v, w, None)
        if first and cover == 1:
          out = list(v.bits)      # the remaining guards override
          first = False
          continue
        out = [ITE(g, b, o) for b, o in zip(v.bits, out)]
      return V(tuple(out), T)
    return x

  def to_v(self, x, w, st):
    """coerce to a vector of width w (PyMTL width rules)"""
    x = self.value_of(x)
    if isinstance(x, V):
      n = len(x.bits)
      if w is None or n == w: return x
      if x.isint:
        if n < w: return V(x.bits + (0,) * (w - n))
        if all(b == 0 for b in x.bits[w:]): return V(x.bits[:w])
      if st is None: return x
      self.bad(st, f'width mismatch: {n} bits into {w}')
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int):
      if w is None:
        return V(cbits(x, max(1, x.bit_length())), None, True)
      if not (-(1 << (w - 1)) <= x < (1 << w)) and not (w == 1 and x in (-1,)):
        self.bad(st, f'constant {x} does not fit {w} bits')
      return V(cbits(x & ((1 << w) - 1), w))
    if isinstance(x, Bits):
      if w is not None and x.nbits != w and st is not None:
        self.bad(st, f'width mismatch: {x.nbits} bits into {w}')
      return V(cbits(int(x), x.nbits))
    if is_bitstruct_inst(x):
      b = x.to_bits()
      if w is not None and b.nbits != w and st is not None:
        self.bad(st, f'width mismatch: {b.nbits} bits into {w}')
      return V(cbits(int(b), b.nbits), type(x))
    self.err(st, f'not a value: {x!r}')

  def truth(self, x, st):
    x = self.value_of(x)
    if isinstance(x, V): return self.B.any(x.bits)
    return 1 if x else 0

  def merge(self, c, a, b, st):
    a, b = self.value_of(a), self.value_of(b)
    if not isinstance(a, V) and not isinstance(b, V):
      if type(a) is type(b) and not isinstance(a, (list, tuple)):
        try:
          if a == b: return a
        except Exception:
          pass
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
      return type(a)(self.merge(c, p, q, st) for p, q in zip(a, b))
    va, vb = self.to_v(a, None, st), self.to_v(b, None, st)
    isint = va.isint and vb.isint
    w = max(len(va.bits), len(vb.bits))
    va, vb = self.to_v(va, w, st), self.to_v(vb, w, st)
    return V(tuple(self.B.ITE(c, p, q) for p, q in zip(va.bits, vb.bits)), va.T or vb.T, isint)

  def eqc(self, v, k):
    """v == k for a constant k"""
    r = 1
    if k >> len(v.bits): return 0
    for i, b in enumerate(v.bits):
      r = self.B.AND(r, b if (k >> i) & 1 else self.B.NOT(b))
      if r == 0: break
    return r

  # ---- expressions -------------------------------------------------------
  def eval(self, n, store=False):
    m = getattr(self, 'e_' + type(n).__name__, None)
    if m is None:
      self.err(n, f'expression {type(n).__name__} not supported')
    return m(n)

  def e_Constant(self, n): return n.value

  def e_Name(self, n):
    k = n.id
    if k in self.locals: return self.locals[k]
    if k in self.env: return self.env[k]
    if k in self.globals: return self.globals[k]
    if hasattr(builtins, k): return getattr(builtins, k)
    self.err(n, f'unresolved name {k}')

  def e_Attribute(self, n):
    b = self.eval(n.value)
    if isinstance(b, Signal): b = sig_ref(b)
    if isinstance(b, Ref):
      if is_struct(b.T):
        f = layout(b.T)[n.attr]
        if isinstance(f, list):
          return [Ref(b.sig, b.lo + x[0], x[1], x[2]) for x in f]
        return Ref(b.sig, b.lo + f[0], f[1], f[2])
      if n.attr == 'nbits': return b.w
      return ('method', b, n.attr)
    if isinstance(b, Alts):
      return Alts([(g, self._attr(r, n)) for g, r in b.alts], b.where)
    if isinstance(b, V):
      if b.T is not None and n.attr in layout(b.T):
        lo, w, T = layout(b.T)[n.attr]
        return V(b.bits[lo:lo + w], T if is_struct(T) else None)
      if n.attr == 'nbits': return len(b.bits)
      return ('method', b, n.attr)
    return getattr(b, n.attr)

  def _attr(self, r, n):
    if isinstance(r, Signal): r = sig_ref(r)
    if isinstance(r, Ref) and is_struct(r.T):
      lo, w, T = layout(r.T)[n.attr]
      return Ref(r.sig, r.lo + lo, w, T)
    if isinstance(r, V) and r.T is not None:
      lo, w, T = layout(r.T)[n.attr]
      return V(r.bits[lo:lo + w], T if is_struct(T) else None)
    x = getattr(r, n.attr)
    return sig_ref(x) if isinstance(x, Signal) else x

  def eval_index(self, sl):
    if isinstance(sl, ast.Index): sl = sl.value
    if isinstance(sl, ast.Slice):
      if sl.step is not None: self.err(sl, 'slice step')
      lo = self.const_int(self.eval(sl.lower)) if sl.lower is not None else None
      hi = self.const_int(self.eval(sl.upper)) if sl.upper is not None else None
      return slice(lo, hi)
    x = self.value_of(self.eval(sl))
    if isinstance(x, V):
      c = x.const()
      return x if c is None else c
    if isinstance(x, slice): return x
    if isinstance(x, (Bits, int, bool)): return int(x)
    return x

  def const_int(self, x):
    x = self.value_of(x)
    if isinstance(x, V):
      c = x.const()
      if c is None: raise AnalysisError(f'{self.blk.where()}: non-constant slice bound')
      return c
    return int(x)

  def e_Subscript(self, n):
    b = self.eval(n.value)
    idx = self.eval_index(n.slice)
    if isinstance(b, Alts):
      out = []
      for g, r in b.alts:
        x = self.index(r, idx, n)
        if isinstance(x, Alts): out += [(self.B.AND(g, h), y) for h, y in x.alts]
        else: out.append((g, x))
      return Alts(out, b.where)
    return self.index(b, idx, n)

  def where(self, n):
    return (repr(self.blk.host), self.blk.name, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))

  def index(self, b, idx, n):
    if isinstance(b, Signal): b = sig_ref(b)
    if isinstance(b, Ref):
      if isinstance(idx, slice):
        lo, hi = idx.start or 0, b.w if idx.stop is None else idx.stop
        if not 0 <= lo < hi <= b.w: self.bad(n, f'slice [{lo}:{hi}] of {b}')
        return Ref(b.sig, b.lo + lo, hi - lo, None)
      if isinstance(idx, V):
        return Alts([(g, Ref(b.sig, b.lo + i, 1, None)) for i in range(b.w)
                     for g in (self.eqc(idx, i),) if g], self.where(n))
      if not 0 <= idx < b.w:
        return Alts([(0, Ref(b.sig, b.lo, 1, None))], self.where(n))
      return Ref(b.sig, b.lo + idx, 1, None)
    if isinstance(b, V):
      if isinstance(idx, slice):
        lo, hi = idx.start or 0, len(b.bits) if idx.stop is None else idx.stop
        if not 0 <= lo < hi <= len(b.bits): self.bad(n, f'slice [{lo}:{hi}]')
        return V(b.bits[lo:hi])
      if isinstance(idx, V):
        return Alts([(g, V((b.bits[i],))) for i in range(len(b.bits))
                     for g in (self.eqc(idx, i),) if g], self.where(n))
      if not 0 <= idx < len(b.bits): return Alts([(0, V((b.bits[0],)))], self.where(n))
      return V((b.bits[idx],))
    if isinstance(idx, V):
      if isinstance(b, Bits):
        return self.index(self.to_v(b, None, n), idx, n)
      if isinstance(b, dict):
        al = [(g, x) for k, x in b.items() if isinstance(k, (int, Bits)) for g in (self.eqc(idx, int(k)),) if g]
        if not al: self.err(n, 'no key of the table matches')
        return Alts(al, self.where(n))
      seq = list(b)
      al = []
      for i, x in enumerate(seq):
        g = self.eqc(idx, i)
        if g: al.append((g, x))
      if not al: al = [(0, seq[0])]
      return Alts(al, self.where(n))
    if isinstance(b, dict) and idx not in b: self.err(n, f'no key {idx!r} in the table')
    if isinstance(idx, int) and isinstance(b, (list, tuple)) and not -len(b) <= idx < len(b):
      return Alts([(0, b[0])], self.where(n))
    return b[idx]

  def e_Tuple(self, n): return tuple(self.eval(x) for x in n.elts)
  def e_List(self, n): return [self.eval(x) for x in n.elts]
  def e_Index(self, n): return self.eval(n.value)

  def e_JoinedStr(self, n): return ''
  def e_Set(self, n): return [self.eval(x) for x in n.elts]
  def e_Lambda(self, n): return _LocalFn(n, self)

  def e_Dict(self, n):
    out = {}
    for k, v in zip(n.keys, n.values):
      if k is None: out.update(self.eval(v))
      else: out[self.value_of(self.eval(k))] = self.eval(v)
    return out

  def e_NamedExpr(self, n):
    v = self.value_of(self.eval(n.value))
    self.locals[n.target.id] = v
    return v

  def _comp(self, n):
    out = []
    def rec(gi):
      if gi == len(n.generators):
        out.append(self.eval(n.elt))
        return
      g = n.generators[gi]
      for x in list(self.eval(g.iter)):
        self.assign(g.target, x, n)
        ok = True
        for c in g.ifs:
          t = self.truth(self.eval(c), n)
          if t > 1: self.err(n, 'non-constant filter')
          ok = ok and t
        if ok: rec(gi + 1)
    save = dict(self.locals)
    rec(0)
    self.locals = save
    return out

  def e_ListComp(self, n): return self._comp(n)
  def e_GeneratorExp(self, n): return self._comp(n)

  def e_IfExp(self, n):
    c = self.truth(self.eval(n.test), n)
    if c == 1: return self.eval(n.body)
    if c == 0: return self.eval(n.orelse)
    return self.merge(c, self.eval(n.body), self.eval(n.orelse), n)

  def e_BoolOp(self, n):
    isand = isinstance(n.op, ast.And)
    acc = 1 if isand else 0
    for x in n.values:
      v = self.eval(x)
      t = self.truth(v, n)
      acc = self.B.AND(acc, t) if isand else self.B.OR(acc, t)
      if acc == (0 if isand else 1): break
    if acc < 2: return bool(acc)
    return V((acc,))

  def e_UnaryOp(self, n):
    x = self.value_of(self.eval(n.operand))
    if isinstance(n.op, ast.Not):
      t = self.B.NOT(self.truth(x, n))
      return bool(t) if t < 2 else V((t,))
    if isinstance(x, V):
      if isinstance(n.op, ast.Invert):
        if x.isint: self.err(n, '~ of an integer')
        return V(tuple(self.B.NOT(b) for b in x.bits))
      if isinstance(n.op, ast.USub):
        return self.binop(ast.Sub(), V((0,) * len(x.bits)), x, n)
      return x
    if isinstance(n.op, ast.Invert): return ~x
    if isinstance(n.op, ast.USub): return -x
    return x

  def e_BinOp(self, n):
    return self.binop(n.op, self.eval(n.left), self.eval(n.right), n)

  def binop(self, op, a, b, n):
    a, b = self.value_of(a), self.value_of(b)
    if not isinstance(a, V) and not isinstance(b, V):
      return _PYOP[type(op)](a, b)
    B = self.B
    # width
    if isinstance(a, V) and not a.isint: w = len(a.bits)
    elif isinstance(b, V) and not b.isint: w = len(b.bits)
    elif isinstance(a, Bits): w = a.nbits
    elif isinstance(b, Bits): w = b.nbits
    else: w = None
    t = type(op)
    if w is None:
      # integers with symbolic bits: widen
      va, vb = self.to_v(a, None, n), self.to_v(b, None, n)
      w = max(len(va.bits), len(vb.bits)) + 1
      isint = True
      a, b = self.to_v(va, w, n), self.to_v(vb, w, n)
    else:
      isint = False
    if t in (ast.Mod, ast.FloorDiv):
      va = self.to_v(a, w, n)
      k = b if isinstance(b, int) else (self.to_v(b, w, n).const())
      if k is None or k <= 0 or k & (k - 1): self.err(n, 'division by a non-power of two')
      s = k.bit_length() - 1
      if t is ast.Mod: return V(va.bits[:s] + (0,) * (w - s), None, isint)
      return V(va.bits[s:] + (0,) * min(s, w), None, isint)
    if t in (ast.LShift, ast.RShift):
      va = self.to_v(a, w, n)
      if isinstance(b, int): sh = V(cbits(b, max(1, b.bit_length())))
      else: sh = self.to_v(b, w, n)
      bits = list(va.bits)
      for i, sb in enumerate(sh.bits):
        if sb == 0: continue
        k = 1 << i
        if k >= w: nb = [0] * w
        elif t is ast.LShift: nb = [0] * k + bits[:w - k]
        else: nb = bits[k:] + [0] * k
        bits = [B.ITE(sb, p, q) for p, q in zip(nb, bits)]
      return V(tuple(bits), None, isint)
    va, vb = self.to_v(a, w, n), self.to_v(b, w, n)
    x, y = va.bits, vb.bits
    if t is ast.BitAnd: return V(tuple(B.AND(p, q) for p, q in zip(x, y)), None, isint)
    if t is ast.BitOr: return V(tuple(B.OR(p, q) for p, q in zip(x, y)), None, isint)
    if t is ast.BitXor: return V(tuple(B.XOR(p, q) for p, q in zip(x, y)), None, isint)
    if t in (ast.Add, ast.Sub):
      cx, cy = va.const(), vb.const()
      if cx is not None and cy is not None:
        return V(cbits((cx + cy if t is ast.Add else cx - cy) & ((1 << w) - 1), w), None, isint)
      carry = 1 if t is ast.Sub else 0
      out = []
      for p, q in zip(x, y):
        if t is ast.Sub: q = B.NOT(q)
        pq = B.XOR(p, q)
        out.append(B.XOR(pq, carry))
        carry = B.OR(B.AND(p, q), B.AND(pq, carry))
      return V(tuple(out), None, isint)
    if t is ast.Mult:
      acc = [0] * w
      if va.const() is not None: x, y = y, x
      for i, q in enumerate(y):
        if q == 0: continue
        carry = 0
        for j in range(w - i):
          p = B.AND(x[j], q)
          s = B.XOR(acc[i + j], p)
          c2 = B.OR(B.AND(acc[i + j], p), B.AND(s, carry))
          acc[i + j] = B.XOR(s, carry)
          carry = c2
      return V(tuple(acc), None, isint)
    self.err(n, f'operator {t.__name__}')

  def e_Compare(self, n):
    left = self.eval(n.left)
    acc = None
    for op, rn in zip(n.ops, n.comparators):
      right = self.eval(rn)
      r = self.compare(op, left, right, n)
      if acc is None: acc = r
      else:
        t = self.B.AND(self.truth(acc, n), self.truth(r, n))
        acc = V((t,))
      left = right
    return acc

  def compare(self, op, a, b, n):
    t = type(op)
    a, b = self.value_of(a), self.value_of(b)
    if t in (ast.Is, ast.IsNot): return (a is b) == (t is ast.Is)
    if t in (ast.In, ast.NotIn):
      r = 0
      for x in b:
        r = self.B.OR(r, self.truth(self.compare(ast.Eq(), a, x, n), n))
      if t is ast.NotIn: r = self.B.NOT(r)
      return V((r,))
    if isinstance(a, pymtl3.Component) or isinstance(b, pymtl3.Component):
      # Python compares identities; translation has no meaning for it
      if getattr(self.I, 'strict', False): self.bad(n, 'a component is compared with a value')
      if t in (ast.Eq, ast.NotEq): return (a is b) == (t is ast.Eq)
      self.bad(n, 'a component is compared with a value')
    if not isinstance(a, V) and not isinstance(b, V):
      return _PYCMP[t](a, b)
    B = self.B
    if isinstance(a, V) and not a.isint: w = len(a.bits)
    elif isinstance(b, V) and not b.isint: w = len(b.bits)
    elif isinstance(a, Bits): w = a.nbits
    elif isinstance(b, Bits): w = b.nbits
    else:
      va, vb = self.to_v(a, None, n), self.to_v(b, None, n)
      w = max(len(va.bits), len(vb.bits))
    for z in (a, b):
      if isinstance(z, int) and not 0 <= z < (1 << w): self.bad(n, f'comparison with {z} at {w} bits')
    x, y = self.to_v(a, w, n).bits, self.to_v(b, w, n).bits
    if t in (ast.Eq, ast.NotEq):
      r = 1
      for p, q in zip(x, y):
        r = B.AND(r, B.XNOR(p, q))
        if r == 0: break
      if t is ast.NotEq: r = B.NOT(r)
      return V((r,))
    if t in (ast.Gt, ast.LtE): x, y = y, x
    lt = 0
    for p, q in zip(x, y):     # LSB to MSB
      lt = B.ITE(B.XOR(p, q), q, lt)
    if t in (ast.GtE, ast.LtE): lt = B.NOT(lt)
    return V((lt,))

  # ---- calls -------------------------------------------------------------
  def e_Call(self, n):
    f = self.eval(n.func)
    args = []
    for a in n.args:
      if isinstance(a, ast.Starred): args += list(self.eval(a.value))
      else: args.append(self.eval(a))
    kw = {k.arg: self.eval(k.value) for k in n.keywords}
    return self.call(f, args, kw, n)

  def call(self, f, args, kw, n):
    B = self.B
    if isinstance(f, tuple) and len(f) == 3 and f[0] == 'method':
      _, b, name = f
      v = self.to_v(self.value_of(b), None, n)
      if name in ('uint', '__int__'): return V(v.bits, None, True)
      if name in ('to_bits', 'clone'): return V(v.bits)
      self.err(n, f'method {name} on a signal')
    if f is H.concat or getattr(f, '__name__', '') == 'concat' and callable(f) and not isinstance(f, _LocalFn):
      bits = ()
      for a in args:
        v = self.to_v(a, None, n)
        if v.isint: self.err(n, 'concat of an unsized integer')
        bits = v.bits + bits
      return V(bits)
    if f in (H.zext, H.sext, H.trunc):
      v = self.to_v(args[0], None, n)
      T = args[1]
      w = T.nbits if isinstance(T, type) else int(T)
      k = len(v.bits)
      if f is H.trunc:
        if w > k: self.bad(n, 'trunc to a wider width')
        return V(v.bits[:w])
      if w < k: self.bad(n, 'extension to a narrower width')
      return V(v.bits + ((0,) if f is H.zext else (v.bits[-1],)) * (w - k))
    if f is H.reduce_and: return V((B.all(self.to_v(args[0], None, n).bits),))
    if f is H.reduce_or: return V((B.any(self.to_v(args[0], None, n).bits),))
    if f is H.reduce_xor:
      r = 0
      for b in self.to_v(args[0], None, n).bits: r = B.XOR(r, b)
      return V((r,))
    vals = [self.value_of(a) if not isinstance(a, (list, tuple)) else a for a in args]
    kvals = {k: self.value_of(a) for k, a in kw.items()}
    symbolic = any(_has_v(a) for a in vals) or any(_has_v(a) for a in kvals.values())
    if isinstance(f, type) and issubclass(f, Bits) and symbolic:
      if f is Bits:
        w, v, tr = int(vals[0]), vals[1], kvals.get('trunc_int', vals[2] if len(vals) > 2 else False)
      else:
        w, v, tr = f.nbits, vals[0], kvals.get('trunc_int', False)
      v = self.to_v(v, None, n)
      if tr: return V((v.bits + (0,) * w)[:w])
      return V(self.to_v(v, w, n).bits)
    if isinstance(f, type) and is_bitstruct_class(f):
      if not symbolic:
        return f(*vals, **kvals)
      lay = layout(f)
      bits = [0] * f.nbits
      for name, a in list(zip(lay, vals)) + list(kvals.items()):
        x = lay[name]
        if isinstance(x, list):
          for y, e in zip(x, a):
            v = self.to_v(e, y[1], n)
            bits[y[0]:y[0] + y[1]] = v.bits
          continue
        lo, w, T = x
        bits[lo:lo + w] = self.to_v(a, w, n).bits
      return V(tuple(bits), f)
    if not symbolic and not isinstance(f, _LocalFn):
      try: return f(*vals, **kvals)
      except (ValueError, AssertionError) as e: self.bad(n, f'{getattr(f, "__name__", f)}: {e}')
    if f in (int, bool):
      v = self.to_v(vals[0], None, n)
      if f is bool: return V((B.any(v.bits),))
      return V(v.bits, None, True)
    if f in (list, tuple, reversed, enumerate, zip, len, sum, range, sorted):
      if f is sum:
        acc = vals[1] if len(vals) > 1 else 0
        for x in vals[0]: acc = self.binop(ast.Add(), acc, x, n)
        return acc
      return f(*vals, **kvals)
    if f in (any, all):
      bs = [self.truth(x, n) for x in vals[0]]
      r = B.any(bs) if f is any else B.all(bs)
      return V((r,))
    if f in (min, max):
      seq = list(vals[0]) if len(vals) == 1 else vals
      acc = seq[0]
      for x in seq[1:]:
        # min(a, b) keeps a unless b < a; max keeps a unless b > a
        c = self.truth(self.compare(ast.Lt() if f is min else ast.Gt(), x, acc, n), n)
        acc = self.merge(c, x, acc, n)
      return acc
    return self.inline(f, args, kw, n)

  def inline(self, f, args, kw, n):
    if isinstance(f, _LocalFn):
      fd, env, glob = f.fd, dict(f.frame.env, **f.frame.locals), f.frame.globals
    else:
      if inspect.ismethod(f):
        args = [f.__self__] + list(args)
        f = f.__func__
      self_list = getattr(f, '__self__', None)
      if isinstance(self_list, list) and getattr(f, '__name__', '') in ('append', 'extend', 'insert') and self.guard == 1:
        return f(*[self.value_of(a) for a in args])
      fd = _function_ast(f)
      if fd is None: self.err(n, f'call of {f!r}')
      env, glob = {}, f.__globals__
      if f.__closure__:
        for nm, c in zip(f.__code__.co_freevars, f.__closure__): env[nm] = c.cell_contents
    sub = Frame.__new__(Frame)
    sub.__dict__.update(self.__dict__)
    sub.env, sub.globals, sub.locals, sub.retval = env, glob, {}, None
    sub.store = self.store
    names = [a.arg for a in fd.args.posonlyargs + fd.args.args]
    defs = fd.args.defaults
    for nm, d in zip(names[len(names) - len(defs):], defs): sub.locals[nm] = sub.eval(d)
    for a, d in zip(fd.args.kwonlyargs, fd.args.kw_defaults):
      if d is not None: sub.locals[a.arg] = sub.eval(d)
    for nm, a in zip(names, args): sub.locals[nm] = a
    if fd.args.vararg is not None: sub.locals[fd.args.vararg.arg] = tuple(args[len(names):])
    elif len(args) > len(names): self.err(n, 'too many arguments')
    for k, a in kw.items(): sub.locals[k] = a
    if isinstance(fd, ast.Lambda): return sub.value_of(sub.eval(fd.body))
    sub._sub(fd.body)
    self.store = sub.store
    return sub.retval


_fn_ast = {}


def _function_ast(f):
  """syntax tree of a Python function or lambda, or None"""
  code = getattr(f, '__code__', None)
  if code is None: return None
  if code in _fn_ast: return _fn_ast[code]
  r = None
  try:
    with open(code.co_filename) as h: tree = ast.parse(h.read())
    pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
    best = None
    lams = [x for x in ast.walk(tree) if isinstance(x, ast.Lambda) and x.lineno == code.co_firstlineno]
    for x in ast.walk(tree):
      if isinstance(x, ast.FunctionDef) and x.name == code.co_name:
        first = min([x.lineno] + [d.lineno for d in x.decorator_list])
        if first == code.co_firstlineno: best = x
      elif isinstance(x, ast.Lambda) and code.co_name == '<lambda>' and x.lineno == code.co_firstlineno:
        # several lambdas on a line: the one spanning exactly the compiled columns
        b = x.body
        if len(lams) == 1 or any((p[0], p[2], p[1], p[3]) == (b.lineno, b.col_offset, b.end_lineno, b.end_col_offset) for p in pos): best = x
    r = best
  except (OSError, SyntaxError):
    r = None
  _fn_ast[code] = r
  return r


class _LocalFn:
  def __init__(self, fd, frame):
    self.fd, self.frame = fd, frame


class _Cell:
  def __init__(self, v): self.v = v


def _has_v(a):
  if isinstance(a, (V, Ref, Alts, Signal)): return True
  if isinstance(a, (list, tuple)): return any(_has_v(x) for x in a)
  return False


import operator as _o
_PYOP = {ast.Add: _o.add, ast.Sub: _o.sub, ast.Mult: _o.mul, ast.FloorDiv: _o.floordiv, ast.Mod: _o.mod,
         ast.Div: _o.truediv, ast.LShift: _o.lshift, ast.RShift: _o.rshift, ast.BitAnd: _o.and_,
         ast.BitOr: _o.or_, ast.BitXor: _o.xor, ast.Pow: _o.pow}
_PYCMP = {ast.Eq: _o.eq, ast.NotEq: _o.ne, ast.Lt: _o.lt, ast.LtE: _o.le, ast.Gt: _o.gt, ast.GtE: _o.ge}
