"""What a request means, as value-numbered functions of the request and of the
cache set it addresses.  Written from the documented interface; nothing here
is derived from the implementation."""

READ, WRITE, INIT, INV, FLUSH = 0, 1, 2, 14, 15
CLASSES = {'READ': 0, 'WRITE': 1, 'INIT': 2, 'AMO': None, 'INV': 14, 'FLUSH': 15}


def lens(cfg, cls):
  """legal values of the len field -> number of bytes"""
  n = cfg.dbw // 8
  d = {0: n}
  k = 1
  while k < n:
    d[k] = k
    k *= 2
  if cls == 'AMO':
    return {0: 4} if n == 4 else {4: 4}
  if cls in ('WRITE',) and cfg.dbw == 32 and cfg.clw >= 64:
    d[3] = 8          # zero-extended double word
  return d


class Spec:

  def __init__(self, cfg, B, cls, R, K, E, L, rep, MEM):
    """R: field -> bits of the request (LSB first); K: index bits; E: list per
    way of {val,dty,tag}; L: list per way of line bits; rep: replacement bit of
    the set; MEM: bits of the memory response"""
    self.cfg, self.B, self.cls = cfg, B, cls
    self.R, self.K, self.E, self.L, self.MEM = R, K, E, L, MEM
    self.rep = rep
    a = R['addr']
    self.off = a[:cfg.off_w]
    self.idx = a[cfg.off_w:cfg.off_w + cfg.idx_w]
    self.tag = a[cfg.off_w + cfg.idx_w:]

  # -- helpers -------------------------------------------------------------
  def eqv(self, x, y):
    B = self.B
    r = 1
    assert len(x) == len(y), (len(x), len(y))
    for p, q in zip(x, y):
      r = B.AND(r, B.XNOR(p, q))
      if r == 0: break
    return r

  def eqk(self, x, k):
    B = self.B
    r = 1
    for i, p in enumerate(x):
      r = B.AND(r, p if (k >> i) & 1 else B.NOT(p))
    return r

  def sel(self, c, x, y):
    return tuple(self.B.ITE(c, p, q) for p, q in zip(x, y))

  # -- legality of the request --------------------------------------------
  def legal(self):
    B, cfg = self.B, self.cfg
    if self.cls in ('INV', 'FLUSH'): return 1
    ok = 0
    for l, n in lens(cfg, self.cls).items():
      al = 1
      k = 1
      i = 0
      while k < n:
        al = B.AND(al, B.NOT(self.off[i]))
        k *= 2
        i += 1
      ok = B.OR(ok, B.AND(self.eqk(self.R['len'], l), al))
    if self.cls == 'AMO':
      t = self.R['type_']
      ok = B.AND(ok, B.any([self.eqk(t, k) for k in range(3, 14)]))
    return ok

  # -- hit analysis --------------------------------------------------------
  def ways(self): return range(self.cfg.asso)

  def match(self, w): return self.eqv(self.E[w]['tag'], self.tag)

  def dirty(self, w): return self.B.any(self.E[w]['dty'])

  def val(self, w): return self.E[w]['val'][0]

  def hit(self, w): return self.B.AND(self.val(w), self.match(w))

  def part(self, w):
    """invalidated line still holding dirty words of this address"""
    B = self.B
    return B.all([B.NOT(self.val(w)), self.dirty(w), self.match(w)])

  def live(self, w):
    return self.B.OR(self.val(w), self.dirty(w))

  def unique(self):
    """no two ways hold the same line"""
    B = self.B
    r = 1
    for w in self.ways():
      for v in range(w):
        r = B.AND(r, B.NOT(B.all([self.live(w), self.live(v),
                                  self.eqv(self.E[w]['tag'], self.E[v]['tag'])])))
    return r

  def anyhit(self): return self.B.any([self.hit(w) for w in self.ways()])

  def anypart(self): return self.B.any([self.part(w) for w in self.ways()])

  def miss(self):
    return self.B.NOT(self.B.OR(self.anyhit(), self.anypart()))

  def is_rep(self, w):
    if self.cfg.asso == 1: return 1
    return self.rep if w == 1 else self.B.NOT(self.rep)

  def victim(self, w):
    """a miss takes way w"""
    return self.B.AND(self.miss(), self.is_rep(w))

  # -- stores --------------------------------------------------------------
  def byte_en(self):
    """byte j of the line is written"""
    B, cfg = self.B, self.cfg
    out = [0] * cfg.nbyte
    for l, n in lens(cfg, self.cls).items():
      el = self.eqk(self.R['len'], l)
      for o in range(0, cfg.nbyte, n):
        c = B.AND(el, self.eqk(self.off, o))
        for j in range(o, o + n): out[j] = B.OR(out[j], c)
    return out

  def touched(self):
    en = self.byte_en()
    return tuple(self.B.any(en[4 * k:4 * k + 4]) for k in range(self.cfg.ndty))

  def store_data(self):
    """value of byte-lane bit i of the line, where written"""
    B, cfg = self.B, self.cfg
    out = [0] * cfg.clw
    d = self.R['data']
    for l, n in lens(cfg, self.cls).items():
      el = self.eqk(self.R['len'], l)
      for i in range(cfg.clw):
        k = i % (8 * n)
        b = d[k] if k < cfg.dbw else 0
        if l == 3 and k >= 32: b = 0
        out[i] = B.ITE(el, b, out[i])
    return out

  def stored(self, line):
    en, d = self.byte_en(), self.store_data()
    return tuple(self.B.ITE(en[i // 8], d[i], x) for i, x in enumerate(line))

  # -- loads ---------------------------------------------------------------
  def load(self, line):
    B, cfg = self.B, self.cfg
    out = [0] * cfg.dbw
    for l, n in lens(cfg, self.cls).items():
      el = self.eqk(self.R['len'], l)
      for o in range(0, cfg.nbyte, n):
        c = B.AND(el, self.eqk(self.off, o))
        for i in range(8 * n):
          out[i] = B.ITE(c, line[8 * o + i], out[i])
    return tuple(out)

  def merged(self, w):
    """refill of a partially dirty line: dirty words win"""
    B = self.B
    return tuple(B.ITE(self.E[w]['dty'][i // 32], x, m) for i, (x, m) in enumerate(zip(self.L[w], self.MEM)))

  # -- expected memory traffic --------------------------------------------
  def evict(self, w):
    """the request must first write way w back"""
    B = self.B
    if self.cls in ('READ', 'WRITE'):
      return B.AND(self.victim(w), self.dirty(w))
    if self.cls == 'AMO':
      return B.AND(B.OR(self.hit(w), self.part(w)), self.dirty(w))
    return 0

  def any_evict(self): return self.B.any([self.evict(w) for w in self.ways()])

  def fetch(self):
    if self.cls in ('READ', 'WRITE'): return self.B.NOT(self.anyhit())
    if self.cls == 'AMO': return 1
    return 0

  # -- expected final contents --------------------------------------------
  def final_line(self, w):
    B = self.B
    if self.cls in ('READ', 'WRITE'):
      x = self.L[w]
      x = self.sel(self.victim(w), self.MEM, x)
      x = self.sel(self.part(w), self.merged(w), x)
      if self.cls == 'WRITE':
        mine = B.any([self.victim(w), self.part(w), self.hit(w)])
        x = self.sel(mine, self.stored(x), x)
      return x
    return self.L[w]

  def served(self):
    """line the request reads from"""
    x = self.MEM
    for w in self.ways():
      x = self.sel(self.hit(w), self.L[w], x)
      x = self.sel(self.part(w), self.merged(w), x)
    return x

  def final_entry(self, w):
    B, E = self.B, self.E[w]
    c = self.cls
    if c in ('READ', 'WRITE'):
      mine = B.any([self.victim(w), self.part(w), self.hit(w)])
      val = B.ITE(mine, 1, E['val'][0])
      tag = self.sel(mine, self.tag, E['tag'])
      dty = tuple(B.AND(d, B.NOT(self.victim(w))) for d in E['dty'])
      if c == 'WRITE':
        dty = tuple(B.OR(d, B.AND(mine, t)) for d, t in zip(dty, self.touched()))
      return {'val': (val,), 'tag': tag, 'dty': dty}
    if c == 'AMO':
      mine = B.OR(self.hit(w), self.part(w))
      return {'val': (B.AND(E['val'][0], B.NOT(mine)),), 'tag': E['tag'],
              'dty': tuple(B.AND(d, B.NOT(mine)) for d in E['dty'])}
    if c == 'INV': return {'val': (0,), 'tag': E['tag'], 'dty': E['dty']}
    if c == 'FLUSH': return {'val': E['val'], 'tag': E['tag'], 'dty': (0,) * self.cfg.ndty}
    return E

  def final_rep(self):
    B = self.B
    if self.cfg.asso == 1: return self.rep
    if self.cls in ('READ', 'WRITE'):
      r = B.NOT(self.rep)                    # miss: the other way is next
      for w in self.ways():
        r = B.ITE(B.OR(self.hit(w), self.part(w)), 1 - w, r)
      return r
    if self.cls == 'AMO':
      r = self.rep
      for w in self.ways():                  # the freed way is next
        r = B.ITE(B.OR(self.hit(w), self.part(w)), w, r)
      return r
    return self.rep
