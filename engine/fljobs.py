"""Obligations on the functional model (blocking_cache/BlockingCacheFL.py): the
class is interpreted abstractly from an arbitrary state -- any contents of the
memory, any tags, valid flags and replacement order -- and each operation's
answer and effect is compared with the reference meaning."""

import itertools
import math

from bdd import BDD
from jobs import register
from netlist import AnalysisError, layout
from pyabs import PyAbs, BV, IV, SB, Ch, Ref, Rec, Fn, Undef
from pymtl3 import Bits, mk_bits
from unitjobs import Out

NAMES = {'rd': 0, 'wr': 1, 'in': 2, 'ad': 3, 'an': 4, 'or': 5, 'sw': 6, 'mi': 7, 'mu': 8, 'mx': 9, 'xu': 10, 'xo': 11,
         'inv': 14, 'fl': 15}


class World:
  """one abstract run of one operation"""

  def __init__(self, out, clw, dbw, size, ways):
    self.out, self.clw, self.dbw, self.size, self.ways = out, clw, dbw, size, ways
    self.B = B = BDD()
    self.off = int(math.log2(clw // 8))
    self.nsets = size * 8 // clw // ways
    self.idx = int(math.log2(self.nsets))
    self.tagw = 32 - self.off - self.idx
    o, i = self.off, self.idx
    at = B.atom
    self.A = tuple(at(('addr', k), 1 if k < o + i else 2, k) for k in range(32))
    self.D = tuple(at(('data', k), 6, k % 32) for k in range(dbw))
    self.O = tuple(at(('opaque', k), 5, k) for k in range(8))
    self.V = tuple(at(('line', k), 6, k % 32) for k in range(clw))
    self.P = at('loaded', 1, 0)
    self.valid = [[at(('valid', s, w), 1, 0) for w in range(ways)] for s in range(self.nsets)]
    self.tag = [[tuple(at(('tag', s, w, k), 2, o + i + k) for k in range(self.tagw)) for w in range(ways)] for s in range(self.nsets)]
    self.sel = [[at(('lru', s, k), 1, 0) for k in range(len(self.codes()))] for s in range(self.nsets)]
    self.name = f'model({size} bytes, {ways}-way, {clw}-bit lines, {dbw}-bit data)'
    self.legal = 1
    for s in range(self.nsets):
      for a, b in itertools.combinations(range(ways), 2):
        same = self.all([B.XNOR(p, q) for p, q in zip(self.tag[s][a], self.tag[s][b])] + [self.valid[s][a], self.valid[s][b]])
        self.legal = B.AND(self.legal, B.NOT(B.AND(self.isset(s), same)))

  def codes(self):
    n = math.factorial(self.ways)
    return range(max(0, (n - 1).bit_length()))

  def all(self, xs):
    r = 1
    for x in xs: r = self.B.AND(r, x)
    return r

  def const(self, x, w): return tuple((x >> i) & 1 for i in range(w))

  def eqc(self, bits, k): return self.all([b if (k >> i) & 1 else self.B.NOT(b) for i, b in enumerate(bits)])

  def isset(self, s): return self.eqc(self.A[self.off:self.off + self.idx], s)

  def perm(self, s):
    """(guard, order) choices of the replacement order of a set, most recent first"""
    ps = list(itertools.permutations(range(self.ways)))
    out = []
    for k, p in enumerate(ps):
      if k < len(ps) - 1: g = self.eqc(self.sel[s], k)
      else: g = self.B.NOT(self.B.any([h for h, _ in out]))
      out.append((g, p))
    return out

  # ---- the model ---------------------------------------------------------
  def build(self, legal):
    """the constructed model, after learning how it writes tags down"""
    self.construct(1)
    self.rep = None
    if self.tracked: self.learn()
    self.construct(legal)

  def learn(self):
    """what the model stores as the tag of an address"""
    pa, B = self.pa, self.B
    ln = BV((0,) * int(math.log2(self.dbw // 8)))
    pa.legal = W0 = B.AND(pa.legal, B.NOT(B.any(self.A[:self.off])))
    pa.call(pa.attr(self.m, 'read', None), [BV(self.A), BV(self.O), ln], {}, None)
    rep = []
    for s in range(self.nsets):
      got = None
      row = pa.heap[pa.heap[self.s_tag.id][s].id]
      g0 = B.AND(B.AND(W0, pa.live), self.isset(s))
      for c, r in pa.alts(row):
        for w in range(self.ways):
          if got is None and pa.truth1(pa.heap[pa.heap[self.s_valid.id][s].id][w]) != 0:
            for g, v in pa.alts(r[w]):
              if B.AND(B.AND(g0, c), g) != 0 and isinstance(v, BV): got = v.bits
      if got is None: return
      rep.append(tuple(B.restrict(b, self.isset(s)) if b > 1 else b for b in got))
    self.rep = rep

  def stored(self, s, tag):
    """the model's representation of a tag in set s"""
    B = self.B
    if self.rep is None: return tag
    sub = {B.rank[a]: b for a, b in zip(self.A[self.off + self.idx:], tag)}
    for i in range(self.idx): sub[B.rank[self.A[self.off + i]]] = (s >> i) & 1
    for a in self.A[:self.off]: sub[B.rank[a]] = 0
    memo = {}
    return tuple(B.compose(b, sub, memo) if b > 1 else b for b in self.rep[s])

  def construct(self, legal):
    import blocking_cache.BlockingCacheFL as FL
    from mem_ifcs.MemMsg import mk_mem_msg
    self.FL = FL
    self.Q, self.R = mk_mem_msg(8, 32, self.dbw, has_wr_mask=False)
    self.MQ, self.MR = mk_mem_msg(8, 32, self.clw)
    B = self.B
    self.pa = pa = PyAbs(B, B.AND(legal, 1))
    # two words of the line the request addresses are given as initial contents
    wb = self.off - 2
    at = B.atom
    self.O0 = tuple(at(('word', k), 1, k) for k in range(wb))
    self.O1 = tuple(at(('word2', k), 1, k) for k in range(wb))
    self.v0 = tuple(at(('init', k), 6, k) for k in range(32))
    self.v1 = tuple(at(('init2', k), 6, k) for k in range(32))
    pa.legal = B.AND(pa.legal, B.NOT(self.all([B.XNOR(p, q) for p, q in zip(self.O0, self.O1)])) if wb else 1)
    a0, a1 = ((0, 0) + x + self.A[self.off:] for x in (self.O0, self.O1))
    mem = pa.new('list', (IV(a0), IV(self.v0), IV(a1), IV(self.v1)))
    pa.file = FL.__file__
    pa.fr = None
    self.m = pa.call(FL.ModelCache, [self.size, self.ways, 0, self.Q, self.R, self.MQ, self.MR, mem], {}, None)
    self.shape()

  def attr_lists(self):
    """every object reachable through attributes"""
    pa, seen, todo, out = self.pa, set(), [self.m], []
    while todo:
      r = todo.pop()
      if r.id in seen: continue
      seen.add(r.id)
      for k, v in pa.heap[r.id].items():
        if isinstance(v, Ref):
          if v.kind == 'obj': todo.append(v)
          else: out.append((k, v))
    return out

  def shape(self):
    """recognise the state of the model by what it holds after construction"""
    pa = self.pa
    self.s_valid = self.s_tag = self.s_lru = self.s_mem = None
    found = {'s_valid': [], 's_tag': [], 's_lru': [], 's_mem': []}
    for k, v in self.attr_lists():
      if v.kind == 'dict':
        if len(pa.heap[v.id]['ent']) == 1: found['s_mem'].append(v)
        continue
      rows = pa.heap[v.id]
      if not isinstance(rows, tuple) or len(rows) < self.nsets or not all(isinstance(r, Ref) and r.kind == 'list' for r in rows): continue
      rc = [pa.heap[r.id] for r in rows]
      if not all(isinstance(c, tuple) and len(c) == self.ways for c in rc): continue
      if all(isinstance(x, bool) for c in rc for x in c): found['s_valid'].append(v)
      elif all(isinstance(x, (Bits, BV)) for c in rc for x in c): found['s_tag'].append(v)
      elif all(isinstance(x, int) for c in rc for x in c) and all(sorted(c) == list(range(self.ways)) for c in rc): found['s_lru'].append(v)
    for k, v in found.items():
      if len(v) == 1: setattr(self, k, v[0])
    self.tracked = self.s_valid is not None and self.s_tag is not None and self.s_lru is not None
    if self.s_mem is not None:
      (self.key0, e), = pa.heap[self.s_mem.id]['ent'].items()
      self.line0 = (e['present'], e['val'])
      if not isinstance(e['val'], (BV, Bits)) or len(pa.bv(e['val'], None, None).bits) != self.clw: self.s_mem = None

  def havoc(self):
    """forget everything: any tags, flags, order and memory contents"""
    pa = self.pa
    if self.tracked:
      for s in range(self.nsets):
        pa.heap[pa.heap[self.s_valid.id][s].id] = tuple(SB(x) for x in self.valid[s])
        pa.heap[pa.heap[self.s_tag.id][s].id] = tuple(BV(self.stored(s, x)) for x in self.tag[s])
        pa.heap[pa.heap[self.s_lru.id][s].id] = pa.choice(self.perm(s))
    if self.s_mem is not None:
      self.stray = []
      def base(kk):
        if kk == self.key0: return {'present': self.P, 'val': BV(self.V)}
        n = len(self.stray)
        self.stray.append(kk)
        return {'present': self.B.atom(('present', n), 1, 0), 'val': BV([self.B.atom(('other', n, k), 6, k % 32) for k in range(self.clw)])}
      pa.heap[self.s_mem.id] = {'ent': {}, 'base': base}

  # ---- reference ---------------------------------------------------------
  def hit(self, s, w):
    B = self.B
    return self.all([self.isset(s), self.valid[s][w]] + [B.XNOR(p, q) for p, q in zip(self.tag[s][w], self.A[self.off + self.idx:])])

  def anyhit(self): return self.B.any([self.hit(s, w) for s in range(self.nsets) for w in range(self.ways)])

  def line(self): return tuple(self.B.AND(self.P, v) for v in self.V)

  def cut(self, line, n):
    """n bytes at the offset of the request"""
    B, out = self.B, None
    for k in range(0, self.clw // 8, n):
      g = self.eqc(self.A[:self.off], k)
      x = line[k * 8:(k + n) * 8]
      out = x if out is None else tuple(B.ITE(g, p, q) for p, q in zip(x, out))
    return out

  def put(self, line, n, v):
    out = list(line)
    for k in range(0, self.clw // 8, n):
      g = self.eqc(self.A[:self.off], k)
      for j in range(n * 8): out[k * 8 + j] = self.B.ITE(g, v[j], out[k * 8 + j])
    return tuple(out)

  def amo(self, code, m, a):
    B, pa = self.B, self.pa
    if code == 3: return pa.addbits(m, a, False, 32)[0]
    if code == 4: return tuple(B.AND(p, q) for p, q in zip(m, a))
    if code == 5: return tuple(B.OR(p, q) for p, q in zip(m, a))
    if code == 6: return a
    if code == 11: return tuple(B.XOR(p, q) for p, q in zip(m, a))
    f = (lambda x: x[:-1] + (B.NOT(x[-1]),)) if code in (7, 9) else (lambda x: x)
    lt = pa.ltbits(f(m), f(a))                     # memory below operand
    pick = lt if code in (7, 8) else B.NOT(lt)
    return tuple(B.ITE(pick, p, q) for p, q in zip(m, a))

  # ---- comparison --------------------------------------------------------
  def bits(self, v, w):
    pa = self.pa
    if isinstance(v, (BV, Bits)): return pa.bv(v, None, None).bits
    if isinstance(v, Ch):
      r = (0,) * w
      for g, x in v.alts: r = tuple(self.B.ITE(g, p, q) for p, q in zip(self.bits(x, w), r))
      return r
    b = tuple(pa.iv(v))
    return b + (0,) * (w - len(b))

  def differ(self, x, y):
    B = self.B
    if len(x) != len(y): return 1
    c = B.AND(self.pa.legal, self.pa.live)
    return any(B.AND(c, B.XOR(p, q)) != 0 for p, q in zip(x, y))


FIELDS = (('type_', 4), ('opaque', 8), ('addr', 32), ('len', None), ('test', 2), ('data', None))


def operation(out, W, what, n, code):
  """one method from an arbitrary state"""
  B = W.B
  legal = W.legal
  lw = int(math.log2(W.dbw // 8))
  if n: legal = B.AND(legal, W.all([B.NOT(b) for b in W.A[:int(math.log2(n))]]))
  W.build(legal)
  pa = W.pa
  W.havoc()
  nm = {'read': 'read', 'write': 'write', 'init': 'write-init', 'amo': f'atomic {code}', 'invalidate': 'invalidate', 'flush': 'flush'}[what]
  tell = f'{W.name}: {nm}' + (f' of {n} bytes' if n else '')
  lenb = W.const(n % (W.dbw // 8), lw)
  A, D, O = BV(W.A), BV(W.D), BV(W.O)
  args = {'read': [A, O, BV(lenb)], 'write': [A, D, O, BV(lenb)], 'init': [A, D, O, BV(lenb)],
          'amo': [A, D, O, BV(lenb), BV(W.const(code or 0, 4))], 'invalidate': [O], 'flush': [O]}[what]
  m = pa.attr(W.m, what, None)
  before = len(pa.faults)
  pa.call(m, args, {}, None)
  if not out.need(len(pa.faults) == 0, f'fl/{what}-fails', lambda: f'{tell}: {pa.faults[0][1]} at {pa.faults[0][0]}'): return
  tr = pa.call(pa.attr(W.m, 'get_transactions', None), [], {}, None)
  al = [(g, c) for g, c in pa.alts(pa.heap[tr.id]) if pa.possible(g)] if isinstance(tr, Ref) else []
  if not out.need(len(al) == 1 and len(al[0][1]) == 2 and all(isinstance(x, Rec) for x in al[0][1]) and
                  al[0][1][0].cls is W.Q and al[0][1][1].cls is W.R, f'fl/{what}-records',
                  lambda: f'{tell} does not record exactly one request and one response'): return
  q, r = al[0][1]
  line = W.line()
  hit = W.anyhit()
  z = (0,) * W.dbw
  old = W.cut(line, n) if n else ()
  ty = code if code is not None else {'read': 0, 'write': 1, 'init': 2, 'invalidate': 14, 'flush': 15}[what]
  want_q = {'type_': W.const(ty, 4), 'opaque': W.O, 'addr': W.A if n else (0,) * 32, 'len': lenb,
            'data': W.D if what in ('write', 'init') else (W.D[:32] + z)[:W.dbw] if what == 'amo' else z}
  want_r = {'type_': W.const(ty, 4), 'opaque': W.O, 'test': ((hit if W.tracked else None), 0) if what in ('read', 'write') else (0, 0), 'len': lenb,
            'data': (old + z)[:W.dbw] if what in ('read', 'amo') else z}
  for side, rec, want in (('request', q, want_q), ('response', r, want_r)):
    for f, w in want.items():
      if None in w:
        out.units.append(f'hit prediction not analysed: replacement state not recognised')
        continue
      if f == 'data' and W.s_mem is None and side == 'response' and what in ('read', 'amo'): continue
      out.need(not W.differ(rec.f[f].bits, w), f'fl/{what}-{side}-{f}', lambda: f'{tell}: the recorded {side} has a wrong {f} field')
  # the memory
  if W.s_mem is not None:
    ents = pa.heap[W.s_mem.id]['ent']
    e = ents.get(W.key0)
    got = line if e is None else tuple(B.AND(e['present'], b) for b in W.bits(e['val'], W.clw))
    new = line
    if what in ('write', 'init'): new = W.put(line, n, W.D)
    elif what == 'amo': new = W.put(line, 4, W.amo(code, old, W.D[:32]))
    out.need(not W.differ(got, new), f'fl/{what}-memory', lambda: f'{tell} leaves the wrong bytes in the memory')
    for k, x in ents.items():
      if k == W.key0: continue
      ok = 'val0' in x and x['val0'] is not None and not W.differ(tuple(B.AND(x['present'], b) for b in W.bits(x['val'], W.clw)),
                                                                  tuple(B.AND(x['present0'], b) for b in x['val0'].bits))
      out.need(ok, f'fl/{what}-other', lambda: f'{tell} stores under another key ({k[0]}) than the line was loaded under')
  if W.tracked: sets(out, W, what, tell, hit)


def sets(out, W, what, tell, hit):
  """tags, flags and replacement order after the operation"""
  B, pa = W.B, W.pa
  for s in range(W.nsets):
    acc = W.isset(s) if what in ('read', 'write', 'init', 'amo') else 0
    rows = [pa.heap[pa.heap[x.id][s].id] for x in (W.s_valid, W.s_tag, W.s_lru)]
    if any(isinstance(x, Ch) for x in rows[:2]): raise AnalysisError('rows of different length')
    order = W.perm(s)
    for w in range(W.ways):
      h = W.hit(s, w)
      lru = B.any([g for g, p in order if p[-1] == w])
      v, t = W.valid[s][w], W.tag[s][w]
      if what in ('read', 'write', 'init'):
        fill = W.all([acc, B.NOT(hit), lru])
        v, t = B.OR(v, fill), tuple(B.ITE(fill, p, q) for p, q in zip(W.A[W.off + W.idx:], t))
      elif what == 'amo': v = B.AND(v, B.NOT(h))
      elif what == 'invalidate': v = 0
      out.need(not W.differ((pa.truth1(rows[0][w]),), (v,)), f'fl/{what}-valid', lambda: f'{tell}: wrong valid flag in way {w} of set {s}')
      t = W.stored(s, t)
      gt = W.bits(rows[1][w], len(t))
      out.need(not W.differ(tuple(B.AND(v, x) for x in gt), tuple(B.AND(v, x) for x in t)), f'fl/{what}-tag', lambda: f'{tell}: wrong tag in way {w} of set {s}')
    # the order: a choice of permutations
    want = []
    for g, p in order:
      if what in ('read', 'write', 'init'):
        for w in range(W.ways):
          u = W.all([acc, B.OR(W.hit(s, w), W.all([B.NOT(hit), 1 if p[-1] == w else 0]))])
          want.append((B.AND(g, u), (w,) + tuple(x for x in p if x != w)))
        want.append((B.AND(g, B.NOT(acc)), p))
      elif what == 'amo':
        for w in range(W.ways): want.append((W.all([g, W.hit(s, w)]), tuple(x for x in p if x != w) + (w,)))
        want.append((B.AND(g, B.NOT(B.AND(acc, hit))), p))
      else: want.append((g, p))
    for p in itertools.permutations(range(W.ways)):
      x = B.any([g for g, c in pa.alts(rows[2]) if tuple(pa.const(y) for y in c) == p])
      y = B.any([g for g, c in want if c == p])
      out.need(not W.differ((x,), (y,)), f'fl/{what}-order', lambda: f'{tell}: wrong replacement order in set {s}')


def start(out, W):
  """the state after construction"""
  B = W.B
  W.build(1)
  pa = W.pa
  if not out.need(not pa.faults, 'fl/construct-fails', lambda: f'{W.name}: construction fails: {pa.faults[0][1]} at {pa.faults[0][0]}'): return
  if W.tracked:
    ok = all(x is False for r in pa.heap[W.s_valid.id] for x in pa.heap[r.id])
    out.need(ok, 'fl/construct-valid', lambda: f'{W.name}: some way is valid before the first request')
    if W.rep is not None:
      for s, r in enumerate(W.rep):
        sup = set()
        for b in r: sup |= B.support(b) if b > 1 else set()
        miss = [k for k in range(W.off + W.idx, 32) if B.rank[W.A[k]] not in sup]
        out.need(not miss, 'fl/tag-aliases', lambda: f'{W.name}: two lines of set {s} have the same tag (address bit {miss[0]} is not part of it)')
    ok = all(tuple(pa.heap[r.id])[-1] == W.ways - 1 or W.ways == 1 for r in pa.heap[W.s_lru.id][:W.nsets])
    out.need(ok, 'fl/construct-order', lambda: f'{W.name}: the first victim is not the last way')
  else: out.units.append('tags, flags and replacement order not recognised: hit prediction not analysed')
  if W.s_mem is None:
    out.units.append('memory contents not recognised: data not analysed')
    return
  line = [0] * W.clw
  for o, v in ((W.O0, W.v0), (W.O1, W.v1)):
    for k in range(W.clw // 32):
      g = W.eqc(o, k)
      for j in range(32): line[k * 32 + j] = B.ITE(g, v[j], line[k * 32 + j])
  p, val = W.line0
  if W.off > 2:
    out.need(not W.differ(tuple(B.AND(p, b) for b in W.bits(val, W.clw)), tuple(line)), 'fl/construct-memory',
             lambda: f'{W.name}: initial memory contents are not placed at their addresses')
  # the key names the line: it depends on every line-address bit and on nothing else
  kind, bits = W.key0
  sup = set()
  if kind in ('int', 'bits', 'sint'):
    for b in bits: sup |= B.support(b)
    need = {B.rank[a] for a in W.A[W.off:]}
    out.need(need <= sup, 'fl/key-aliases', lambda: f'{W.name}: two lines share an entry of the memory (the key ignores address bit {min(k for k in range(W.off, 32) if B.rank[W.A[k]] not in sup)})')
    out.need(not (sup - need), 'fl/key-splits', lambda: f'{W.name}: one line has several entries of the memory')


def helpers(out, W):
  """req() and resp(): the named message constructors"""
  pa = W.pa
  for side, f, T in (('req', W.FL.req, W.Q), ('resp', W.FL.resp, W.R)):
    for nm, code in NAMES.items():
      lay = layout(T)
      fs = {k: BV([W.B.atom((side, k, i), 5, i) for i in range(x[1])]) for k, x in lay.items()}
      args = [T, nm, fs['opaque'], fs['addr'] if side == 'req' else fs['test'], fs['len'], fs['data']]
      n0 = len(pa.faults)
      r = pa.call(f, args, {}, None)
      if not out.need(len(pa.faults) == n0 and isinstance(r, Rec) and r.cls is T, f'fl/{side}-{nm}', lambda: f"{side}(…, '{nm}', …) fails"): return
      fs['type_'] = BV(W.const(code, 4))
      for k in fs: out.need(r.f[k].bits == fs[k].bits, f'fl/{side}-{nm}', lambda: f"{side}(…, '{nm}', …) builds a message with a wrong {k} field")


@register('fl')
def k_fl(job):
  out = Out(job)
  done = skipped = 0
  for c in job['cfgs']:
    def attempt(f, *a):
      nonlocal done, skipped
      W = World(out, *c)
      try: f(out, W, *a)
      except AnalysisError as e:
        skipped += 1
        out.units.append(f'not analysed: {W.name} {a}: {e}')
        return
      done += 1
      out.blocks = max(out.blocks, len(W.pa.functions))
      return W
    W = attempt(start)
    if W is not None: helpers(out, W)
    ns = [x for x in (1, 2, 4, 8, 16) if x <= c[1] // 8 and x * 8 <= c[0]]
    for what in ('read', 'write', 'init'):
      for n in ns: attempt(operation, what, n, None)
    for code in range(3, 12): attempt(operation, 'amo', 4, code)
    attempt(operation, 'invalidate', 0, None)
    attempt(operation, 'flush', 0, None)
  if skipped > done: raise AnalysisError(f'the functional model uses constructs that are not supported: {out.units[:3]}')
  return out.pack()
