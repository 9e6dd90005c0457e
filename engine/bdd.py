"""Canonical forms for one-bit abstract values.

A one-bit value of the abstract domain is a node of a hash-consed, reduced,
ordered decision diagram over *atoms* (a register bit, a port bit, a bit read
from an SRAM).  Node 0 is the constant 0, node 1 the constant 1, and a node
that is a bare atom means "this bit is a copy of that atom".  Equal node
number <=> equal value number, so copy propagation, constant propagation and
value numbering are the same comparison of two integers.
"""

import sys
sys.setrecursionlimit(100000)


class BDD:

  def __init__(self):
    # node arrays: rank (order key of the atom), lo, hi
    self.rank = [float('inf'), float('inf')]
    self.lo = [0, 1]
    self.hi = [0, 1]
    self.uniq = {}
    self.c_ite = {}
    self.c_and = {}
    self.c_xor = {}
    self.c_not = {0: 1, 1: 0}
    self.c_res = {}
    self.c_ex = {}
    self.c_sup = {0: frozenset(), 1: frozenset()}
    self.atom_of = {}     # name -> node
    self.name_of = {}     # rank -> name
    self._seq = 0

  # -- atoms ---------------------------------------------------------------
  # name is a tuple; order key: (priority, position, sequence)
  def atom(self, name, prio=5, pos=0):
    n = self.atom_of.get(name)
    if n is not None:
      return n
    self._seq += 1
    r = (int(prio * 4096) + pos) * (1 << 24) + self._seq
    n = self._mk(r, 0, 1)
    self.atom_of[name] = n
    self.name_of[r] = name
    return n

  def _mk(self, r, l, h):
    if l == h:
      return l
    k = (r, l, h)
    n = self.uniq.get(k)
    if n is None:
      n = len(self.rank)
      self.rank.append(r)
      self.lo.append(l)
      self.hi.append(h)
      self.uniq[k] = n
    return n

  # -- operators -----------------------------------------------------------
  def NOT(self, a):
    r = self.c_not.get(a)
    if r is None:
      r = self._mk(self.rank[a], self.NOT(self.lo[a]), self.NOT(self.hi[a]))
      self.c_not[a] = r
      self.c_not[r] = a
    return r

  def AND(self, a, b):
    if a == b: return a
    if a > b: a, b = b, a
    if a == 0: return 0
    if a == 1: return b
    k = (a, b)
    r = self.c_and.get(k)
    if r is None:
      ra, rb = self.rank[a], self.rank[b]
      if ra == rb:
        r = self._mk(ra, self.AND(self.lo[a], self.lo[b]), self.AND(self.hi[a], self.hi[b]))
      elif ra < rb:
        r = self._mk(ra, self.AND(self.lo[a], b), self.AND(self.hi[a], b))
      else:
        r = self._mk(rb, self.AND(a, self.lo[b]), self.AND(a, self.hi[b]))
      self.c_and[k] = r
    return r

  def OR(self, a, b):
    if a == b: return a
    if a == 0: return b
    if b == 0: return a
    if a == 1 or b == 1: return 1
    return self.NOT(self.AND(self.NOT(a), self.NOT(b)))

  def XOR(self, a, b):
    if a == b: return 0
    if a > b: a, b = b, a
    if a == 0: return b
    if a == 1: return self.NOT(b)
    k = (a, b)
    r = self.c_xor.get(k)
    if r is None:
      ra, rb = self.rank[a], self.rank[b]
      if ra == rb:
        r = self._mk(ra, self.XOR(self.lo[a], self.lo[b]), self.XOR(self.hi[a], self.hi[b]))
      elif ra < rb:
        r = self._mk(ra, self.XOR(self.lo[a], b), self.XOR(self.hi[a], b))
      else:
        r = self._mk(rb, self.XOR(a, self.lo[b]), self.XOR(a, self.hi[b]))
      self.c_xor[k] = r
    return r

  def XNOR(self, a, b):
    return self.NOT(self.XOR(a, b))

  def ITE(self, c, t, e):
    if c == 1: return t
    if c == 0: return e
    if t == e: return t
    if t == 1 and e == 0: return c
    if t == 0 and e == 1: return self.NOT(c)
    if t == 0: return self.AND(self.NOT(c), e)
    if e == 0: return self.AND(c, t)
    if t == 1: return self.OR(c, e)
    if e == 1: return self.OR(self.NOT(c), t)
    k = (c, t, e)
    r = self.c_ite.get(k)
    if r is None:
      rank, lo, hi = self.rank, self.lo, self.hi
      rc, rt, re = rank[c], rank[t], rank[e]
      m = min(rc, rt, re)
      c0, c1 = (lo[c], hi[c]) if rc == m else (c, c)
      t0, t1 = (lo[t], hi[t]) if rt == m else (t, t)
      e0, e1 = (lo[e], hi[e]) if re == m else (e, e)
      r = self._mk(m, self.ITE(c0, t0, e0), self.ITE(c1, t1, e1))
      self.c_ite[k] = r
    return r

  def all(self, xs):
    r = 1
    for x in xs:
      r = self.AND(r, x)
      if r == 0: return 0
    return r

  def any(self, xs):
    r = 0
    for x in xs:
      r = self.OR(r, x)
      if r == 1: return 1
    return r

  def implies(self, a, b):
    """is a -> b a tautology"""
    return self.AND(a, self.NOT(b)) == 0

  # -- structure -----------------------------------------------------------
  def support(self, a):
    """set of atom ranks the value depends on"""
    s = self.c_sup.get(a)
    if s is None:
      s = self.support(self.lo[a]) | self.support(self.hi[a]) | {self.rank[a]}
      self.c_sup[a] = s
    return s

  def atoms(self, a):
    return {self.name_of[r] for r in self.support(a)}

  def cofactor(self, f, assign):
    """assign: dict rank -> 0/1"""
    if not assign or f < 2: return f
    memo = {}
    def rec(x):
      if x < 2: return x
      y = memo.get(x)
      if y is None:
        v = assign.get(self.rank[x])
        if v is None:
          y = self._mk(self.rank[x], rec(self.lo[x]), rec(self.hi[x]))
        else:
          y = rec(self.hi[x] if v else self.lo[x])
        memo[x] = y
      return y
    return rec(f)

  def compose(self, f, sub, memo=None):
    """substitute: dict rank -> node.  General (order-safe)."""
    if memo is None: memo = {}
    def rec(x):
      if x < 2: return x
      y = memo.get(x)
      if y is None:
        l, h = rec(self.lo[x]), rec(self.hi[x])
        v = sub.get(self.rank[x])
        if v is None:
          r = self.rank[x]
          # order may have changed below us: use ITE on the atom
          v = self._mk(r, 0, 1)
        y = self.ITE(v, h, l)
        memo[x] = y
      return y
    return rec(f)

  def exists(self, f, ranks):
    """existentially quantify the atoms in ranks (a set)"""
    if f < 2: return f
    memo = {}
    def rec(x):
      if x < 2: return x
      y = memo.get(x)
      if y is None:
        if not (self.support(x) & ranks):
          y = x
        else:
          l, h = rec(self.lo[x]), rec(self.hi[x])
          if self.rank[x] in ranks:
            y = self.OR(l, h)
          else:
            y = self._mk(self.rank[x], l, h)
        memo[x] = y
      return y
    return rec(f)

  def restrict(self, f, c):
    """a simpler g with g == f wherever c holds"""
    if c == 1 or f < 2: return f
    if c == 0: return 0
    k = (f, c)
    r = self.c_res.get(k)
    if r is None:
      rf, rc = self.rank[f], self.rank[c]
      if rc < rf:
        r = self.restrict(f, self.OR(self.lo[c], self.hi[c]))
      elif rf < rc:
        r = self._mk(rf, self.restrict(self.lo[f], c), self.restrict(self.hi[f], c))
      elif self.lo[c] == 0:
        r = self.restrict(self.hi[f], self.hi[c])
      elif self.hi[c] == 0:
        r = self.restrict(self.lo[f], self.lo[c])
      else:
        r = self._mk(rf, self.restrict(self.lo[f], self.lo[c]), self.restrict(self.hi[f], self.hi[c]))
      self.c_res[k] = r
    return r

  def one_sat(self, f):
    """one satisfying assignment, as {name: 0/1} (for reports)"""
    out = {}
    while f > 1:
      if self.lo[f] != 0:
        out[self.name_of[self.rank[f]]] = 0
        f = self.lo[f]
      else:
        out[self.name_of[self.rank[f]]] = 1
        f = self.hi[f]
    return out if f == 1 else None

  def n(self):
    return len(self.rank)
