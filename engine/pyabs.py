"""Abstract interpretation of ordinary Python (the functional-level model).

Values are bit vectors over BDD nodes, guarded choices of concrete values, and
heap objects.  Every statement runs under a guard (the condition under which
it is reached): branches, early returns and loops exits narrow the guard, and
every write keeps the old value where the guard does not hold.  Nothing of the
interpreted code is executed; calls of library functions are evaluated only on
constants."""

import ast
import builtins
import inspect
import math

import pymtl3
from pymtl3 import Bits
from pymtl3.datatypes import helpers as H
from pymtl3.datatypes import is_bitstruct_class

from netlist import AnalysisError, layout
from absint import _function_ast, _PYOP, _PYCMP


class BV:
  """a Bits value; src writes a mutated value back to where it came from"""
  __slots__ = ('bits', 'src')
  def __init__(self, bits, src=None): self.bits, self.src = tuple(bits), src


class IV:
  """a Python int; signed: two's complement over the given bits"""
  __slots__ = ('bits', 'signed')
  def __init__(self, bits, signed=False):
    bits = tuple(bits)
    if signed and bits and bits[-1] == 0: signed = False
    if not signed:
      while bits and bits[-1] == 0: bits = bits[:-1]
    self.bits, self.signed = bits, signed


class SB:
  """a Python bool"""
  __slots__ = ('n',)
  def __init__(self, n): self.n = n


class Ch:
  """guarded choice"""
  __slots__ = ('alts',)
  def __init__(self, alts): self.alts = alts


class Ref:
  """heap object: instance, list, dict"""
  __slots__ = ('kind', 'id', 'cls')
  def __init__(self, kind, id, cls=None): self.kind, self.id, self.cls = kind, id, cls


class Fn:
  def __init__(self, fd, glob, env, self_=None): self.fd, self.glob, self.env, self.self_ = fd, glob, env, self_


class Method:
  def __init__(self, base, name): self.base, self.name = base, name


class Rec:
  """a message"""
  __slots__ = ('cls', 'f')
  def __init__(self, cls, f): self.cls, self.f = cls, f


class Undef: pass


class Fault(Exception): pass


class Frame:
  def __init__(self, glob, env):
    self.loc, self.glob, self.env = {}, glob, env
    self.ret, self.brk, self.cont = None, [], []
    self.has_ret = False


class PyAbs:

  def __init__(self, B, legal=1):
    self.B, self.legal = B, legal
    self.live, self.dead = 1, 0
    self.heap = {}
    self.n = 0
    self.faults = []
    self.fr = None
    self.file = ''
    self.steps = 0
    self.functions = set()
    self.depth = 0

  # ---- helpers -----------------------------------------------------------
  def err(self, n, msg): raise AnalysisError(f"{self.file}:{getattr(n, 'lineno', '?')}: {msg}")

  def fault(self, n, msg, cond=1):
    """the program fails here under cond"""
    c = self.B.AND(self.B.AND(self.live, cond), self.legal)
    if c == 0: return
    self.faults.append((f"{self.file}:{getattr(n, 'lineno', '?')}", msg))
    self.dead = self.B.OR(self.dead, c)
    self.live = self.B.AND(self.live, self.B.NOT(c))

  def possible(self, g): return self.B.AND(self.B.AND(self.live, g), self.legal) != 0

  def new(self, kind, content, cls=None):
    self.n += 1
    self.heap[self.n] = content
    return Ref(kind, self.n, cls)

  def cbits(self, x, w): return tuple((x >> i) & 1 for i in range(w))

  def same(self, a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, BV): return a.bits == b.bits
    if isinstance(a, IV): return a.bits == b.bits and a.signed == b.signed
    if isinstance(a, SB): return a.n == b.n
    if isinstance(a, Ref): return a.id == b.id
    if isinstance(a, Rec): return a.cls is b.cls and all(self.same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Ch): return len(a.alts) == len(b.alts) and all(g == h and self.same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    if isinstance(a, tuple): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
    if isinstance(a, (Fn, Method)): return False
    try: return bool(a == b)
    except Exception: return False

  def mix(self, g, a, b):
    """a where g, b elsewhere"""
    if g == 1 or b is Undef: return a
    if g == 0 or a is Undef: return b
    if self.same(a, b): return a
    ITE = self.B.ITE
    if isinstance(a, BV) and isinstance(b, BV) and len(a.bits) == len(b.bits):
      return BV([ITE(g, p, q) for p, q in zip(a.bits, b.bits)], a.src if a.src is b.src else None)
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
      return SB(ITE(g, self.truth1(a), self.truth1(b)))
    if isinstance(a, IV) and isinstance(b, IV) and not a.signed and not b.signed:
      w = max(len(a.bits), len(b.bits))
      x, y = a.bits + (0,) * (w - len(a.bits)), b.bits + (0,) * (w - len(b.bits))
      return IV([ITE(g, p, q) for p, q in zip(x, y)])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and \
       not all(isinstance(x, int) and not isinstance(x, bool) for x in a + b):
      return tuple(self.mix(g, p, q) for p, q in zip(a, b))
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls is b.cls:
      return Rec(a.cls, {k: self.mix(g, a.f[k], b.f[k]) for k in a.f})
    return self.choice([(self.B.AND(g, h), x) for h, x in self.alts(a)] + [(self.B.AND(self.B.NOT(g), h), x) for h, x in self.alts(b)])

  def alts(self, v): return v.alts if isinstance(v, Ch) else [(1, v)]

  def choice(self, al):
    out = []
    for g, v in al:
      if g == 0: continue
      for i, (h, w) in enumerate(out):
        if self.same(v, w):
          out[i] = (self.B.OR(g, h), w)
          break
      else: out.append((g, v))
    if not out: return Undef
    if len(out) == 1: return out[0][1]
    return Ch(out)

  def over(self, args, f):
    """f on every choice of the arguments, under its guard"""
    if not any(isinstance(a, Ch) for a in args): return f(*args)
    combos = [(1, ())]
    for a in args:
      combos = [(g2, vs + (v,)) for g, vs in combos for h, v in self.alts(a) for g2 in (self.B.AND(g, h),) if self.possible(g2)]
    l0, lout, out = self.live, 0, Undef
    for g, vs in combos:
      self.live = self.B.AND(l0, g)
      r = f(*vs)
      lout = self.B.OR(lout, self.live)
      out = self.mix(g, r, out)
    self.live = lout
    return out

  # ---- bits --------------------------------------------------------------
  def truth1(self, v):
    if isinstance(v, SB): return v.n
    if isinstance(v, (BV, IV)): return self.B.any(v.bits)
    if isinstance(v, Ch): return self.B.any([self.B.AND(g, self.truth1(x)) for g, x in v.alts])
    if isinstance(v, Ref):
      if v.kind == 'obj': return 1
      c = self.heap[v.id]
      if v.kind == 'list': return self.B.any([self.B.AND(g, 1 if len(x) else 0) for g, x in self.alts(c)])
      return 1 if self.heap[v.id]['ent'] else 0
    if isinstance(v, (Fn, Method, Rec)): return 1
    if isinstance(v, Bits): return 1 if int(v) else 0
    return 1 if v else 0

  def is_int(self, v): return isinstance(v, (int, IV, SB)) or (isinstance(v, float) and v.is_integer())

  def iv(self, v, n=None):
    """an unsigned Python int as bits"""
    if isinstance(v, IV):
      if v.signed: self.err(n, 'arithmetic on a signed value')
      return v.bits
    if isinstance(v, SB): return (v.n,)
    if isinstance(v, float) and v.is_integer(): v = int(v)
    if isinstance(v, int):
      if v < 0: self.err(n, 'negative number')
      return self.cbits(v, v.bit_length())
    if isinstance(v, BV): return v.bits
    if isinstance(v, Bits): return self.cbits(int(v), v.nbits)
    self.err(n, f'not an integer: {v!r}')

  def bv(self, v, w, n):
    """coerce to a Bits of width w"""
    if isinstance(v, Bits): v = BV(self.cbits(int(v), v.nbits))
    if isinstance(v, Ch):
      out = None
      for g, x in v.alts:
        b = self.bv(x, w, n).bits
        out = b if out is None else tuple(self.B.ITE(g, p, q) for p, q in zip(b, out))
      return BV(out)
    if isinstance(v, (str, type(None), Ref, Rec, Fn, Method, tuple)) and w is not None:
      self.fault(n, f'{v!r} is not a number')
      return BV((0,) * w)
    if isinstance(v, BV):
      if w is not None and len(v.bits) != w:
        self.fault(n, f'a {len(v.bits)}-bit value into {w} bits')
        return BV((v.bits + (0,) * w)[:w])
      return v
    if isinstance(v, int) and v < 0:
      return BV(self.cbits(v & ((1 << w) - 1), w))
    b = self.iv(v, n)
    if w is None: self.err(n, 'width unknown')
    self.fault(n, f'value does not fit {w} bits', self.B.any(b[w:]))
    return BV((b + (0,) * w)[:w])

  def const(self, v):
    """concrete int of a value, or None"""
    if isinstance(v, (BV, IV)):
      if any(b > 1 for b in v.bits): return None
      x = sum(b << i for i, b in enumerate(v.bits))
      if isinstance(v, IV) and v.signed and v.bits[-1]: x -= 1 << len(v.bits)
      return x
    if isinstance(v, SB): return v.n if v.n < 2 else None
    if isinstance(v, Bits): return int(v)
    if isinstance(v, float) and v.is_integer(): return int(v)
    if isinstance(v, (int, bool)): return int(v)
    return None

  def addbits(self, x, y, sub, w):
    B = self.B
    x, y = x + (0,) * (w - len(x)), y + (0,) * (w - len(y))
    c = 1 if sub else 0
    out = []
    for p, q in zip(x[:w], y[:w]):
      if sub: q = B.NOT(q)
      t = B.XOR(p, q)
      out.append(B.XOR(t, c))
      c = B.OR(B.AND(p, q), B.AND(t, c))
    return tuple(out), c

  def eqbits(self, x, y):
    w = max(len(x), len(y))
    r = 1
    for p, q in zip(x + (0,) * (w - len(x)), y + (0,) * (w - len(y))):
      r = self.B.AND(r, self.B.XNOR(p, q))
      if r == 0: break
    return r

  def ltbits(self, x, y):
    w = max(len(x), len(y))
    lt = 0
    for p, q in zip(x + (0,) * (w - len(x)), y + (0,) * (w - len(y))):
      lt = self.B.ITE(self.B.XOR(p, q), q, lt)
    return lt

  def values(self, v, n):
    """(guard, concrete int) of every value v can take here"""
    c = self.const(v)
    if c is not None: return [(1, c)]
    b = self.iv(v, n)
    if len(b) > 12: self.err(n, 'index too wide')
    out = []
    def rec(i, g, x):
      if not self.possible(g): return
      if i < 0:
        out.append((g, x))
        return
      rec(i - 1, self.B.AND(g, self.B.NOT(b[i])), x)
      rec(i - 1, self.B.AND(g, b[i]), x | (1 << i))
    rec(len(b) - 1, 1, 0)
    return out

  # ---- statements --------------------------------------------------------
  def run(self, fd, fr):
    f0, self.fr = self.fr, fr
    l0 = self.live
    self.depth += 1
    if self.depth > 60: self.err(fd, 'recursion')
    self.body(fd.body)
    self.depth -= 1
    self.fr = f0
    # whatever did not fail returns to the caller
    self.live = self.B.AND(l0, self.B.NOT(self.dead))
    return fr.ret if fr.has_ret else None

  def body(self, stmts):
    for st in stmts:
      if self.live == 0: return
      self.stmt(st)

  def stmt(self, st):
    self.steps += 1
    if self.steps > 400000: self.err(st, 'too many steps')
    t = type(st)
    if t is ast.Expr:
      if isinstance(st.value, ast.Constant): return
      if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == 'print': return
      self.ev(st.value)
    elif t is ast.Assign:
      v = self.ev(st.value)
      for tg in st.targets: self.assign(tg, v, st)
    elif t is ast.AnnAssign:
      if st.value is not None: self.assign(st.target, self.ev(st.value), st)
    elif t is ast.AugAssign:
      load = ast.parse(ast.unparse(st.target), mode='eval').body
      ast.copy_location(load, st)
      ast.fix_missing_locations(load)
      cur, v = self.ev(load), self.ev(st.value)
      if isinstance(cur, Ref) and cur.kind == 'list' and isinstance(st.op, ast.Add):
        self.list_op(cur, 'extend', [v], st)
        return
      self.assign(st.target, self.over([cur, v], lambda a, b: self.bin(st.op, a, b, st)), st)
    elif t is ast.If:
      c = self.truth1(self.ev(st.test))
      l0 = self.live
      self.live = self.B.AND(l0, c)
      if self.live: self.body(st.body)
      l1 = self.live
      self.live = self.B.AND(l0, self.B.NOT(c))
      if self.live: self.body(st.orelse)
      self.live = self.B.OR(l1, self.live)
    elif t is ast.For:
      self.fr.brk.append(0)
      for x in self.iterate(self.ev(st.iter), st):
        if self.live == 0: break
        self.assign(st.target, x, st)
        self.loop_body(st)
      if st.orelse and self.live: self.body(st.orelse)
      self.live = self.B.OR(self.live, self.fr.brk.pop())
    elif t is ast.While:
      n, ended = 0, 0
      self.fr.brk.append(0)
      while self.live != 0:
        c = self.truth1(self.ev(st.test))
        ended = self.B.OR(ended, self.B.AND(self.live, self.B.NOT(c)))
        self.live = self.B.AND(self.live, c)
        if not self.possible(1): break
        n += 1
        if n > 5000: self.err(st, 'unbounded loop')
        self.loop_body(st)
      self.live = ended
      if st.orelse and self.live: self.body(st.orelse)
      self.live = self.B.OR(self.live, self.fr.brk.pop())
    elif t is ast.Break:
      self.fr.brk[-1] = self.B.OR(self.fr.brk[-1], self.live)
      self.live = 0
    elif t is ast.Continue:
      self.fr.cont[-1] = self.B.OR(self.fr.cont[-1], self.live)
      self.live = 0
    elif t is ast.Return:
      v = self.ev(st.value) if st.value is not None else None
      self.fr.ret = self.mix(self.live, v, self.fr.ret) if self.fr.has_ret else v
      self.fr.has_ret = True
      self.live = 0
    elif t is ast.Assert:
      c = self.truth1(self.ev(st.test))
      self.fault(st, 'assertion fails', self.B.NOT(c))
    elif t is ast.Raise: self.fault(st, 'raises an exception')
    elif t is ast.FunctionDef: self.set_local(st.name, Fn(st, self.fr.glob, self.fr))
    elif t in (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom): pass
    elif t is ast.Delete:
      for tg in st.targets:
        if not isinstance(tg, ast.Name): self.err(st, 'del')
    else: self.err(st, f'statement {t.__name__} not supported')

  def loop_body(self, st):
    self.fr.cont.append(0)
    self.body(st.body)
    self.live = self.B.OR(self.live, self.fr.cont.pop())

  def set_local(self, name, v):
    fr = self.fr
    old = fr.loc.get(name, Undef)
    fr.loc[name] = self.mix(self.live, v, old)

  def assign(self, tg, v, st):
    if isinstance(tg, ast.Name): self.set_local(tg.id, v)
    elif isinstance(tg, (ast.Tuple, ast.List)):
      vs = self.iterate(v, st)
      if len(vs) != len(tg.elts): self.err(st, 'unpacking')
      for a, b in zip(tg.elts, vs): self.assign(a, b, st)
    elif isinstance(tg, ast.Attribute):
      def f(o):
        if not isinstance(o, Ref) or o.kind != 'obj': self.err(st, 'attribute of a non-object')
        d = self.heap[o.id]
        d[tg.attr] = self.mix(self.live, v, d.get(tg.attr, Undef))
      self.over([self.ev(tg.value)], f)
    elif isinstance(tg, ast.Subscript):
      base = self.ev(tg.value)
      if isinstance(base, (BV, Bits)):
        if isinstance(base, Bits): base = BV(self.cbits(int(base), base.nbits))
        nv = self.put(base, tg.slice, v, st)
        nv.src = base.src
        if base.src is not None: base.src(nv)
        if isinstance(tg.value, ast.Name): self.set_local(tg.value.id, nv)
        elif base.src is None: self.assign(tg.value, nv, st)
        return
      idx = self.ev(tg.slice)
      self.over([base, idx], lambda b, i: self.setitem(b, i, v, st))
    else: self.err(st, 'assignment target')

  # ---- containers --------------------------------------------------------
  def iterate(self, v, n):
    if isinstance(v, Ch):
      # the same length in every alternative
      seqs = [(g, self.iterate(x, n)) for g, x in v.alts]
      if len({len(s) for _, s in seqs}) != 1: self.err(n, 'loop over lists of different lengths')
      out = []
      for i in range(len(seqs[0][1])):
        x = Undef
        for g, s in seqs: x = self.mix(g, s[i], x)
        out.append(x)
      return out
    if isinstance(v, Ref):
      if v.kind == 'list': return self.iterate(self.heap[v.id], n)
      if v.kind == 'dict':
        e = self.heap[v.id]
        if e.get('base'): self.err(n, 'iteration over an unknown map')
        return [x['key'] for x in e['ent'].values()]
    if isinstance(v, BV): return [BV((b,)) for b in v.bits]
    if isinstance(v, (tuple, list, range, str, dict)) or hasattr(v, '__next__') or isinstance(v, (zip, enumerate, reversed, map)):
      return list(v)
    self.err(n, f'iteration over {v!r}')

  def mapkey(self, k, n):
    if isinstance(k, (BV, Bits)):
      return ('bits', self.bv(k, None, n).bits)
    if isinstance(k, IV): return ('sint' if k.signed else 'int', k.bits)
    if isinstance(k, (int, float)) and not isinstance(k, bool):
      return ('int', self.cbits(int(k), int(k).bit_length())) if k >= 0 else ('neg', k)
    if isinstance(k, str): return ('str', k)
    if isinstance(k, SB): return ('int', (k.n,))
    self.err(n, f'dict key {k!r}')

  def entry(self, m, k, n):
    """entry of a map: {'key', 'present': node, 'val'}"""
    d = self.heap[m.id]
    kk = self.mapkey(k, n)
    e = d['ent'].get(kk)
    if e is None and d.get('base'):
      e = d['ent'][kk] = d['base'](kk)
      e.setdefault('key', k)
      e['present0'], e['val0'] = e['present'], e['val']
    return e

  def getitem(self, b, i, n):
    if isinstance(b, dict):
      c = self.const(i)
      if isinstance(i, str): c = i
      if c is not None:
        for k, v in b.items():
          if (isinstance(k, str) and k == c) or (not isinstance(k, str) and not isinstance(c, str) and int(k) == c):
            if not isinstance(i, Bits) and not isinstance(i, BV): return self.lift(v)
            if isinstance(k, Bits): return self.lift(v)
        self.fault(n, f'no key {c!r}')
        return Undef
      out = []
      for k, v in b.items():
        if isinstance(k, str): continue
        g = self.eqbits(self.iv(i, n), self.cbits(int(k), int(k).bit_length()))
        if self.possible(g): out.append((g, self.lift(v)))
      return self.choice(out)
    if isinstance(b, Ref):
      if b.kind == 'dict':
        e = self.entry(b, i, n)
        if e is None:
          self.fault(n, 'KeyError: key not in the map')
          return Undef
        self.fault(n, f'KeyError: no line under this key ({self.mapkey(i, n)[0]})', self.B.NOT(e['present']))
        v = e['val']
        if isinstance(v, BV):
          def src(nv, e=e): e['val'] = self.mix(self.live, BV(nv.bits), e['val'])
          v = BV(v.bits, src)
        return v
      if b.kind == 'list':
        if isinstance(i, slice): return self.over([self.heap[b.id]], lambda t: self.new('list', t[i]))
        def one(t, j):
          if j is Undef or t is Undef: return Undef
          if not -len(t) <= j < len(t):
            self.fault(n, f'IndexError: {j} of {len(t)}')
            return Undef
          v = t[j]
          return v
        vals = self.values(i, n)
        return self.over([self.heap[b.id], self.choice(vals)], one)
    if isinstance(b, (BV, Bits)):
      if isinstance(b, Bits): b = BV(self.cbits(int(b), b.nbits))
      out = Undef
      for g, j in self.values(i, n):
        if not 0 <= j < len(b.bits): self.fault(n, 'IndexError', g)
        else: out = self.mix(g, BV((b.bits[j],)), out)
      return out
    if isinstance(b, (tuple, list, str)):
      if isinstance(i, slice): return b[i]
      out = Undef
      for g, j in self.values(i, n):
        if not -len(b) <= j < len(b): self.fault(n, 'IndexError', g)
        else: out = self.mix(g, self.lift(b[j]), out)
      return out
    self.err(n, f'subscript of {b!r}')

  def setitem(self, b, i, v, n):
    if isinstance(b, Ref) and b.kind == 'dict':
      d = self.heap[b.id]
      e = self.entry(b, i, n)
      if e is None:
        e = d['ent'][self.mapkey(i, n)] = {'key': i, 'present': 0, 'val': v, 'present0': 0, 'val0': None}
      e['val'] = self.mix(self.B.OR(self.live, self.B.NOT(e['present'])), v, e['val'])
      e['present'] = self.B.OR(e['present'], self.live)
      return
    if isinstance(b, Ref) and b.kind == 'list':
      def upd(t, j):
        if j is Undef or t is Undef: return t
        if not -len(t) <= j < len(t):
          self.fault(n, f'IndexError: {j} of {len(t)}')
          return t
        j %= len(t)
        return t[:j] + (v,) + t[j + 1:]
      g0 = self.live
      nt = self.over([self.heap[b.id], self.choice(self.values(i, n))], upd)
      self.heap[b.id] = self.mix(g0, nt, self.heap[b.id])
      return
    self.err(n, 'item assignment')

  def bounds(self, base, sl, n):
    """(width, [(guard, low)]) of a slice of a bit vector"""
    w = len(base.bits)
    lo = self.ev(sl.lower) if sl.lower is not None else 0
    hi = self.ev(sl.upper) if sl.upper is not None else w
    if sl.step is not None: self.err(n, 'slice step')
    if isinstance(lo, Ch) or isinstance(hi, Ch): self.err(n, 'choice in slice bounds')
    l, h = self.iv(lo, n), self.iv(hi, n)
    k = max(len(l), len(h)) + 1
    d, _ = self.addbits(h, l, True, k)
    width = self.const(BV(d))
    if width is None: self.err(n, 'slice of variable width')
    if not 0 < width <= w:
      self.fault(n, f'slice of {width} bits')
      return None, []
    out = []
    for g, x in self.values(lo, n):
      if x + width > w: self.fault(n, f'slice [{x}:{x + width}] of {w} bits', g)
      else: out.append((g, x))
    return width, out

  def cut(self, base, sl, n):
    if isinstance(sl, ast.Slice):
      width, al = self.bounds(base, sl, n)
      if not al: return Undef
      out = Undef
      for g, x in al: out = self.mix(g, BV(base.bits[x:x + width]), out)
      return out
    return self.getitem(base, self.ev(sl), n)

  def put(self, base, sl, v, n):
    if isinstance(sl, ast.Slice):
      width, al = self.bounds(base, sl, n)
      if not al: return base
      nb = self.bv(v, width, n).bits
      out = base
      for g, x in al: out = self.mix(g, BV(base.bits[:x] + nb + base.bits[x + width:]), out)
      return BV(out.bits)
    nb = self.bv(v, 1, n).bits
    out = base
    for g, x in self.values(self.ev(sl), n): out = self.mix(g, BV(base.bits[:x] + nb + base.bits[x + 1:]), out)
    return BV(out.bits)

  def list_op(self, r, name, args, n):
    g0 = self.live
    old = self.heap[r.id]
    res = []
    if name in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'reverse'):
      def f(t, *a):
        if name == 'append': return t + (a[0],)
        if name == 'extend': return t + tuple(self.iterate(a[0], n))
        if name == 'reverse': return t[::-1]
        if name == 'clear': return ()
        if name == 'insert':
          i = self.const(a[0])
          if i is None: self.err(n, 'insert position')
          l = list(t)
          l.insert(i, a[1])
          return tuple(l)
        if name == 'pop':
          i = self.const(a[0]) if a else -1
          if not t or not -len(t) <= i < len(t):
            self.fault(n, 'pop from a shorter list')
            return t
          res.append((self.live, t[i]))
          i %= len(t)
          return t[:i] + t[i + 1:]
        # remove the first equal element
        out, rest = [], 1
        for i, x in enumerate(t):
          e = self.B.AND(rest, self.truth1(self.cmp(ast.Eq(), x, a[0], n)))
          out.append((e, t[:i] + t[i + 1:]))
          rest = self.B.AND(rest, self.B.NOT(e))
        self.fault(n, 'list.remove: not in the list', rest)
        return self.choice(out + [(rest, t)])
      nt = self.over([old] + list(args), f)
      self.heap[r.id] = self.mix(g0, nt, old)
      if res:
        v = Undef
        for g, x in res: v = self.mix(g, x, v)
        return v
      return None
    if name == 'index':
      def f(t, a):
        out, rest = [], 1
        for i, x in enumerate(t):
          e = self.B.AND(rest, self.truth1(self.cmp(ast.Eq(), x, a, n)))
          out.append((e, i))
          rest = self.B.AND(rest, self.B.NOT(e))
        self.fault(n, 'list.index: not in the list', rest)
        return self.choice(out)
      return self.over([old] + list(args), f)
    if name == 'copy': return self.new('list', old)
    self.err(n, f'list.{name}')

  # ---- expressions -------------------------------------------------------
  def lift(self, v):
    """a constant of the interpreted program"""
    if isinstance(v, list): return self.new('list', tuple(self.lift(x) for x in v))
    return v

  def ev(self, n):
    m = getattr(self, 'x_' + type(n).__name__, None)
    if m is None: self.err(n, f'expression {type(n).__name__} not supported')
    return m(n)

  def x_Constant(self, n): return n.value
  def x_JoinedStr(self, n): return ''

  def x_Name(self, n):
    fr = self.fr
    if n.id in fr.loc: return fr.loc[n.id]
    e = fr.env
    while isinstance(e, Frame):
      if n.id in e.loc: return e.loc[n.id]
      e = e.env
    if isinstance(e, dict) and n.id in e: return e[n.id]
    if n.id in fr.glob: return fr.glob[n.id]
    if hasattr(builtins, n.id): return getattr(builtins, n.id)
    self.err(n, f'unresolved name {n.id}')

  def x_Attribute(self, n): return self.over([self.ev(n.value)], lambda b: self.attr(b, n.attr, n))

  def attr(self, b, name, n):
    if isinstance(b, Ref) and b.kind == 'obj':
      d = self.heap[b.id]
      if name in d: return d[name]
      f = inspect.getattr_static(b.cls, name, None)
      if isinstance(f, staticmethod): return f.__func__
      if isinstance(f, property): return self.call(f.fget, [b], {}, n)
      if inspect.isfunction(f): return Fn(None, None, f, b)
      if f is not None: return self.lift(f)
      self.fault(n, f'no attribute {name}')
      return Undef
    if isinstance(b, (Ref, BV, IV, SB)): 
      if name == 'nbits' and isinstance(b, BV): return len(b.bits)
      return Method(b, name)
    if isinstance(b, Rec):
      if name in b.f: return b.f[name]
      return Method(b, name)
    if b is Undef: return Undef
    return self.lift(getattr(b, name))

  def x_Subscript(self, n):
    b = self.ev(n.value)
    if isinstance(b, Bits): b = BV(self.cbits(int(b), b.nbits))
    if isinstance(b, BV): return self.cut(b, n.slice, n)
    if isinstance(n.slice, ast.Slice):
      s = slice(*[None if x is None else self.const(self.ev(x)) for x in (n.slice.lower, n.slice.upper, n.slice.step)])
      return self.over([b], lambda x: self.cut(x, n.slice, n) if isinstance(x, BV) else self.getitem(x, s, n))
    i = self.ev(n.slice)
    if isinstance(b, Ch) and all(isinstance(x, BV) for _, x in b.alts):
      return self.over([b], lambda x: self.cut(x, n.slice, n))
    return self.over([b, i], lambda x, j: self.getitem(x, j, n))

  def x_Tuple(self, n): return tuple(self.elts(n.elts))
  def x_List(self, n): return self.new('list', tuple(self.elts(n.elts)))
  def x_Set(self, n): return tuple(self.elts(n.elts))

  def elts(self, xs):
    out = []
    for x in xs:
      if isinstance(x, ast.Starred): out += self.iterate(self.ev(x.value), x)
      else: out.append(self.ev(x))
    return out

  def x_Dict(self, n):
    r = self.new('dict', {'ent': {}})
    for k, v in zip(n.keys, n.values): self.setitem(r, self.ev(k), self.ev(v), n)
    return r

  def x_Lambda(self, n): return Fn(n, self.fr.glob, self.fr)

  def comp(self, n, elt):
    out = []
    fr = Frame(self.fr.glob, self.fr)
    f0, self.fr = self.fr, fr
    def rec(i):
      if i == len(n.generators):
        out.append(elt())
        return
      g = n.generators[i]
      for x in self.iterate(self.ev(g.iter), n):
        fr.loc.clear() if i == 0 else None
        self.assign(g.target, x, n)
        ok = True
        for c in g.ifs:
          t = self.truth1(self.ev(c))
          if t > 1: self.err(n, 'filter on an unknown condition')
          ok = ok and t
        if ok: rec(i + 1)
    rec(0)
    self.fr = f0
    return out

  def x_ListComp(self, n): return self.new('list', tuple(self.comp(n, lambda: self.ev(n.elt))))
  def x_GeneratorExp(self, n): return tuple(self.comp(n, lambda: self.ev(n.elt)))
  def x_SetComp(self, n): return tuple(self.comp(n, lambda: self.ev(n.elt)))

  def x_DictComp(self, n):
    r = self.new('dict', {'ent': {}})
    for k, v in self.comp(n, lambda: (self.ev(n.key), self.ev(n.value))): self.setitem(r, k, v, n)
    return r

  def x_IfExp(self, n):
    c = self.truth1(self.ev(n.test))
    if c == 1: return self.ev(n.body)
    if c == 0: return self.ev(n.orelse)
    l0 = self.live
    self.live = self.B.AND(l0, c)
    a = self.ev(n.body)
    l1 = self.live
    self.live = self.B.AND(l0, self.B.NOT(c))
    b = self.ev(n.orelse)
    self.live = self.B.OR(l1, self.live)
    return self.mix(c, a, b)

  def x_NamedExpr(self, n):
    v = self.ev(n.value)
    self.set_local(n.target.id, v)
    return v

  def x_BoolOp(self, n):
    isand = isinstance(n.op, ast.And)
    l0, out, reach, lost = self.live, Undef, 1, 0
    for i, x in enumerate(n.values):
      self.live = self.B.AND(l0, reach)
      if self.live == 0: break
      before = self.live
      v = self.ev(x)
      lost = self.B.OR(lost, self.B.AND(before, self.B.NOT(self.live)))
      t = self.truth1(v)
      out = self.mix(reach, v, out) if out is not Undef else v
      reach = self.B.AND(reach, t if isand else self.B.NOT(t))
    self.live = self.B.AND(l0, self.B.NOT(lost))
    return out

  def x_UnaryOp(self, n):
    x = self.ev(n.operand)
    if isinstance(n.op, ast.Not):
      t = self.B.NOT(self.truth1(x))
      return bool(t) if t < 2 else SB(t)
    def f(x):
      c = self.const(x) if not isinstance(x, (BV, Bits)) else None
      if isinstance(n.op, ast.USub) and c is not None: return -c
      if isinstance(n.op, ast.Invert) and isinstance(x, (BV, Bits)): return BV([self.B.NOT(b) for b in self.bv(x, None, n).bits])
      if isinstance(n.op, ast.UAdd): return x
      self.err(n, 'unary operator')
    return self.over([x], f)

  def x_BinOp(self, n): return self.over([self.ev(n.left), self.ev(n.right)], lambda a, b: self.bin(n.op, a, b, n))

  def bin(self, op, a, b, n):
    t = type(op)
    if a is Undef or b is Undef: return Undef
    plain = (int, float, str, tuple)
    if isinstance(a, plain) and isinstance(b, plain): return _PYOP[t](a, b)
    if isinstance(a, Ref) and a.kind == 'list':
      if t is ast.Mult: return self.over([self.heap[a.id]], lambda c: self.new('list', c * self.const(b)))
      if t is ast.Add and isinstance(b, Ref): return self.over([self.heap[a.id], self.heap[b.id]], lambda x, y: self.new('list', x + y))
    ab, bb = isinstance(a, (BV, Bits)), isinstance(b, (BV, Bits))
    B = self.B
    if ab or bb:
      w = len(self.bv(a, None, n).bits) if ab else len(self.bv(b, None, n).bits)
      if t in (ast.LShift, ast.RShift):
        x = self.bv(a, w, n).bits
        out = Undef
        for g, k in self.values(b, n):
          k = min(k, w)
          out = self.mix(g, BV((0,) * k + x[:w - k] if t is ast.LShift else x[k:] + (0,) * k), out)
        return out
      x, y = self.bv(a, w, n).bits, self.bv(b, w, n).bits
      wrap = lambda z: BV(z[:w])
    else:
      if t is ast.Pow or t is ast.Div:
        ca, cb = self.const(a), self.const(b)
        if ca is not None and cb is not None: return _PYOP[t](ca, cb)
        if t is ast.Div:
          if cb and cb > 0 and not cb & (cb - 1) and all(q == 0 for q in self.iv(a, n)[:cb.bit_length() - 1]): t = ast.FloorDiv
          else: self.err(n, 'inexact division')
      x, y = self.iv(a, n), self.iv(b, n)
      w = max(len(x), len(y)) + 1
      wrap = lambda z: IV(z)
      if t in (ast.LShift, ast.RShift):
        k = self.const(b)
        if k is None:
          out = Undef
          for g, k in self.values(b, n): out = self.mix(g, IV((0,) * k + x if t is ast.LShift else x[k:]), out)
          return out
        return IV((0,) * k + x if t is ast.LShift else x[k:])
      if t is ast.Mult: w = len(x) + len(y) + 1
    if t is ast.BitAnd: return wrap(tuple(B.AND(p, q) for p, q in zip(x + (0,) * (w - len(x)), y + (0,) * (w - len(y)))))
    if t is ast.BitOr: return wrap(tuple(B.OR(p, q) for p, q in zip(x + (0,) * (w - len(x)), y + (0,) * (w - len(y)))))
    if t is ast.BitXor: return wrap(tuple(B.XOR(p, q) for p, q in zip(x + (0,) * (w - len(x)), y + (0,) * (w - len(y)))))
    if t is ast.Add: return wrap(self.addbits(x, y, False, w)[0])
    if t is ast.Sub:
      z, nb = self.addbits(x, y, True, w)
      if not (ab or bb) and self.possible(B.NOT(nb)):
        # may be negative: keep the sign
        return IV(z, True)
      return wrap(z)
    if t is ast.Mult:
      acc = (0,) * w
      for i, q in enumerate(y):
        if q == 0: continue
        acc = self.addbits(acc, tuple([0] * i + [B.AND(p, q) for p in x])[:w], False, w)[0]
      return wrap(acc)
    if t in (ast.FloorDiv, ast.Mod):
      k = self.const(b)
      if not k or k < 0 or k & (k - 1): self.err(n, 'division by a non-power of two')
      s = k.bit_length() - 1
      z = (x[s:] if t is ast.FloorDiv else x[:s])
      return BV(z + (0,) * (w - len(z))) if ab or bb else IV(z)
    self.err(n, f'operator {t.__name__}')

  def x_Compare(self, n):
    left = self.ev(n.left)
    acc, res = 1, None
    for op, r in zip(n.ops, n.comparators):
      right = self.ev(r)
      res = self.over([left, right], lambda a, b: self.cmp(op, a, b, n))
      acc = self.B.AND(acc, self.truth1(res))
      left = right
    if len(n.ops) == 1: return res
    return bool(acc) if acc < 2 else SB(acc)

  def cmp(self, op, a, b, n):
    t = type(op)
    B = self.B
    if a is Undef or b is Undef: return False
    if t in (ast.Is, ast.IsNot): return (a is b or self.same(a, b)) == (t is ast.Is)
    if t in (ast.In, ast.NotIn):
      if isinstance(b, Ref) and b.kind == 'dict':
        e = self.entry(b, a, n)
        r = 0 if e is None else e['present']
      elif isinstance(b, dict):
        r = B.any([self.truth1(self.cmp(ast.Eq(), a, k, n)) for k in b if isinstance(k, str) == isinstance(a, str)])
      else: r = B.any([self.truth1(self.cmp(ast.Eq(), a, x, n)) for x in self.iterate(b, n)])
      if t is ast.NotIn: r = B.NOT(r)
      return bool(r) if r < 2 else SB(r)
    sym = lambda z: isinstance(z, (BV, IV, SB, Bits))
    if not sym(a) and not sym(b):
      if isinstance(a, (Ref, Fn, Rec)) or isinstance(b, (Ref, Fn, Rec)):
        if t in (ast.Eq, ast.NotEq):
          if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'list':
            x, y = self.heap[a.id], self.heap[b.id]
            if isinstance(x, tuple) and isinstance(y, tuple):
              r = B.all([self.truth1(self.cmp(ast.Eq(), p, q, n)) for p, q in zip(x, y)]) if len(x) == len(y) else 0
              return SB(r if t is ast.Eq else B.NOT(r))
          self.err(n, 'comparison of objects')
      return _PYCMP[t](a, b)
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
      # a Bits or an int never equals a string
      if t is ast.Eq: return False
      if t is ast.NotEq: return True
      self.err(n, 'comparison')
    ab, bb = isinstance(a, (BV, Bits)), isinstance(b, (BV, Bits))
    if ab and bb:
      x, y = self.bv(a, None, n).bits, self.bv(b, None, n).bits
      if len(x) != len(y): self.fault(n, f'comparison of {len(x)} bits with {len(y)} bits')
    else:
      x, y = self.sx(a, n), self.sx(b, n)
      xs, ys = x, y
      w = max(len(x[0]), len(y[0])) + 1
      ext = lambda z: z[0] + ((z[0][-1] if z[1] and z[0] else 0),) * (w - len(z[0]))
      x, y = ext(xs), ext(ys)
      # order of two's complement: flip the sign bit
      if xs[1] or ys[1]: x, y = x[:-1] + (B.NOT(x[-1]),), y[:-1] + (B.NOT(y[-1]),)
    if t is ast.Eq: r = self.eqbits(x, y)
    elif t is ast.NotEq: r = B.NOT(self.eqbits(x, y))
    elif t is ast.Lt: r = self.ltbits(x, y)
    elif t is ast.Gt: r = self.ltbits(y, x)
    elif t is ast.LtE: r = B.NOT(self.ltbits(y, x))
    else: r = B.NOT(self.ltbits(x, y))
    if ab or bb: return BV((r,))
    return bool(r) if r < 2 else SB(r)

  def sx(self, v, n):
    """(bits, signed)"""
    if isinstance(v, IV): return v.bits, v.signed
    if isinstance(v, int) and v < 0:
      w = v.bit_length() + 1
      return self.cbits(v & ((1 << w) - 1), w), True
    return self.iv(v, n), False

  # ---- calls -------------------------------------------------------------
  def x_Call(self, n):
    f = self.ev(n.func)
    args = self.elts(n.args)
    kw = {}
    for k in n.keywords:
      if k.arg is None: self.err(n, '** argument')
      kw[k.arg] = self.ev(k.value)
    return self.over([f], lambda g: self.call(g, args, kw, n))

  def call(self, f, args, kw, n):
    B = self.B
    if f is Undef: return Undef
    if isinstance(f, Method): return self.over([f.base] + args, lambda b, *a: self.method(b, f.name, list(a), n))
    if isinstance(f, Fn):
      if f.fd is None: return self.invoke(f.env, [f.self_] + args, kw, n)
      return self.apply(f.fd, f.glob, f.env, args, kw, n)
    if inspect.ismethod(f): return self.invoke(f.__func__, [f.__self__] + args, kw, n)
    if isinstance(f, type) and is_bitstruct_class(f):
      lay = layout(f)
      fs = {}
      for (name, x), a in zip(lay.items(), args): fs[name] = self.bv(a, x[1], n)
      for name, a in kw.items(): fs[name] = self.bv(a, lay[name][1], n)
      for name, x in lay.items(): fs.setdefault(name, BV((0,) * x[1]))
      return Rec(f, fs)
    if isinstance(f, type) and issubclass(f, Bits):
      if f is Bits: w, rest = self.const(args[0]), args[1:]
      else: w, rest = f.nbits, args
      return self.bv(rest[0] if rest else kw.get('v', 0), w, n)
    if f in (H.zext, H.sext, H.trunc):
      T = args[1]
      w = T.nbits if isinstance(T, type) else self.const(T)
      x = self.bv(args[0], None, n).bits
      if f is H.trunc:
        if w > len(x): self.fault(n, f'trunc of {len(x)} bits to {w}')
        return BV((x + (0,) * w)[:w])
      if w < len(x): self.fault(n, f'extension of {len(x)} bits to {w}')
      return BV((x + ((0,) if f is H.zext else (x[-1],)) * w)[:w])
    if f is H.concat:
      bits = ()
      for a in args: bits = self.bv(a, None, n).bits + bits
      return BV(bits)
    if f in (int, bool, min, max, len, sum, any, all, abs, list, tuple, range, zip, enumerate, reversed, sorted, isinstance, str, repr, dict, set):
      return self.builtin(f, args, kw, n)
    flat = list(args) + list(kw.values())
    if inspect.isclass(f) and not issubclass(f, (int, float, str)) and inspect.isfunction(getattr(f, '__init__', None)):
      o = self.new('obj', {}, f)
      self.invoke(f.__init__, [o] + args, kw, n)
      return o
    if inspect.isfunction(f) and not self.library(f): return self.invoke(f, args, kw, n)
    conc = [self.const(a) if isinstance(a, (BV, IV, SB)) else a for a in flat]
    if callable(f) and not any(isinstance(a, (Ref, Ch, Fn, Rec)) or a is None and b is not None for a, b in zip(conc, flat)):
      return self.lift(f(*conc[:len(args)], **dict(zip(kw, conc[len(args):]))))
    self.err(n, f'call of {f!r}')

  def library(self, f):
    m = getattr(f, '__module__', '') or ''
    return m.split('.')[0] in ('pymtl3', 'math', 'operator', 'functools', 'itertools')

  def builtin(self, f, args, kw, n):
    B = self.B
    if f is int:
      def toint(x):
        if isinstance(x, BV): return IV(x.bits)
        if isinstance(x, SB): return IV((x.n,))
        if isinstance(x, IV): return x
        return int(x)
      return self.over(args[:1], toint)
    if f is bool:
      t = self.truth1(args[0])
      return bool(t) if t < 2 else SB(t)
    if f in (any, all):
      xs = [self.truth1(x) for x in self.iterate(args[0], n)]
      t = B.any(xs) if f is any else B.all(xs)
      return bool(t) if t < 2 else SB(t)
    if f in (min, max):
      seq = args if len(args) > 1 else self.iterate(args[0], n)
      key = kw.get('key')
      acc = seq[0]
      for x in seq[1:]:
        ka, kx = (acc, x) if key is None else (self.call(key, [acc], {}, n), self.call(key, [x], {}, n))
        c = self.truth1(self.over([kx, ka], lambda p, q: self.cmp(ast.Lt() if f is min else ast.Gt(), p, q, n)))
        acc = self.mix(c, x, acc)
      return acc
    if f is len:
      def ln(x):
        if isinstance(x, BV): return len(x.bits)
        if isinstance(x, Ref) and x.kind == 'list': return self.over([self.heap[x.id]], len)
        if isinstance(x, Ref): self.err(n, 'len')
        return len(x)
      return self.over(args, ln)
    if f is isinstance:
      x, T = args
      if isinstance(x, (BV,)): return T is Bits or (isinstance(T, tuple) and Bits in T)
      if isinstance(x, IV): return T is int or (isinstance(T, tuple) and int in T)
      if isinstance(x, SB): return T in (int, bool)
      return isinstance(x, T) if not isinstance(x, (Ref, Rec)) else (T is getattr(x, 'cls', None))
    if f is sum:
      acc = args[1] if len(args) > 1 else 0
      for x in self.iterate(args[0], n): acc = self.over([acc, x], lambda a, b: self.bin(ast.Add(), a, b, n))
      return acc
    if f in (list, sorted, tuple, reversed, enumerate, zip, set):
      seqs = [self.iterate(a, n) for a in args]
      if f is zip: return tuple(zip(*seqs))
      if not seqs: return self.new('list', ())
      s = seqs[0]
      if f is sorted:
        if kw or not all(isinstance(x, (int, str)) for x in s): self.err(n, 'sorted')
        s = sorted(s)
      if f is reversed: return tuple(s[::-1])
      if f is enumerate: return tuple(enumerate(s, *[self.const(a) for a in args[1:]]))
      if f in (tuple, set): return tuple(s)
      return self.new('list', tuple(s))
    if f is range:
      a = [self.const(x) for x in args]
      if None in a: self.err(n, 'range of an unknown length')
      return range(*a)
    if f is dict:
      if args: self.err(n, 'dict()')
      return self.new('dict', {'ent': {}})
    if f is abs:
      c = self.const(args[0])
      if c is None: self.err(n, 'abs')
      return abs(c)
    return ''

  def method(self, b, name, args, n):
    if isinstance(b, Ref):
      if b.kind == 'list': return self.list_op(b, name, args, n)
      if b.kind == 'dict':
        if name == 'get':
          e = self.entry(b, args[0], n)
          d = args[1] if len(args) > 1 else None
          if e is None: return d
          return self.mix(e['present'], e['val'], d)
        if name == 'setdefault':
          e = self.entry(b, args[0], n)
          l0 = self.live
          self.live = self.B.AND(l0, self.B.NOT(e['present']) if e else 1)
          if self.live: self.setitem(b, args[0], args[1], n)
          self.live = l0
          return self.getitem(b, args[0], n)
        if name in ('keys',): return tuple(self.iterate(b, n))
        if name in ('values', 'items') and not self.heap[b.id].get('base'):
          es = self.heap[b.id]['ent'].values()
          return tuple(e['val'] if name == 'values' else (e['key'], e['val']) for e in es)
      self.err(n, f'method {name}')
    if isinstance(b, Bits): b = BV(self.cbits(int(b), b.nbits))
    if isinstance(b, BV):
      if name == 'int': return IV(b.bits, True)
      if name in ('uint', '__int__'): return IV(b.bits)
      if name in ('clone', 'to_bits', '__copy__', '__deepcopy__'): return BV(b.bits)
    if isinstance(b, Rec):
      if name in ('clone',): return b
      if name == 'to_bits':
        bits = ()
        for k, x in reversed(list(layout(b.cls).items())): bits += b.f[k].bits
        return BV(bits)
    if isinstance(b, IV) and name == 'bit_length': self.err(n, 'bit_length')
    self.err(n, f'method {name} of {type(b).__name__}')

  def invoke(self, f, args, kw, n):
    """call of a Python function of the program"""
    fd = _function_ast(f)
    if fd is None: self.err(n, f'call of {f!r}')
    env = {}
    if f.__closure__:
      for nm, c in zip(f.__code__.co_freevars, f.__closure__): env[nm] = c.cell_contents
    self.functions.add(f'{f.__code__.co_filename}:{f.__code__.co_firstlineno} {f.__qualname__}')
    save, self.file = self.file, f.__code__.co_filename
    r = self.apply(fd, f.__globals__, env, args, kw, n)
    self.file = save
    return r

  def apply(self, fd, glob, env, args, kw, n):
    fr = Frame(glob, env)
    names = [a.arg for a in fd.args.posonlyargs + fd.args.args]
    defs = fd.args.defaults
    f0 = self.fr
    self.fr = Frame(glob, env)
    for nm, d in zip(names[len(names) - len(defs):], defs): fr.loc[nm] = self.ev(d)
    for a, d in zip(fd.args.kwonlyargs, fd.args.kw_defaults):
      if d is not None: fr.loc[a.arg] = self.ev(d)
    self.fr = f0
    for nm, a in zip(names, args): fr.loc[nm] = a
    if fd.args.vararg is not None: fr.loc[fd.args.vararg.arg] = tuple(args[len(names):])
    elif len(args) > len(names):
      self.fault(n, 'too many arguments')
      return Undef
    for k, a in kw.items(): fr.loc[k] = a
    miss = [x for x in names if x not in fr.loc]
    if miss:
      self.fault(n, f'missing argument {miss[0]}')
      return Undef
    if isinstance(fd, ast.Lambda):
      self.fr = fr
      r = self.ev(fd.body)
      self.fr = f0
      return r
    return self.run(fd, fr)
