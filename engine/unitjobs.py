"""Obligations on single components, over a grid of widths the whole-cache
analysis cannot afford.  Each component is elaborated on its own; its outputs,
as value-numbered functions of its inputs and its state, must equal the
documented function for every legal input."""

from jobs import register, keystr
from model import Model, is_sram
from netlist import AnalysisError, layout, sig_ref, is_struct
from cache import Cfg
from spec import lens
from tx import witness


class Absent(Exception):
  """the component or port an obligation is stated on no longer exists; the
  whole-cache properties still cover whatever took its place"""


def clog2(n): return max(0, (n - 1).bit_length())


class Out:
  """obligations of one job"""

  def __init__(self, job):
    self.job, self.pid = job, job['want'][0]
    self.known = {k['key']: k for k in job['known']}
    self.n = 0
    self.viol, self.hit = [], []
    self.blocks = 0
    self.units = []

  def need(self, ok, key, msg):
    self.n += 1
    if ok: return True
    m = msg() if callable(msg) else msg
    if key in self.known: self.hit.append((key, m))
    elif len(self.viol) < 12 and key not in [k for k, _ in self.viol]: self.viol.append((key, m))
    return False

  def pack(self):
    return {'viol': self.viol, 'known': self.hit, 'count': {self.pid: self.n}, 'blocks': self.blocks,
            'locations': 0, 'edges': 0, 'paths': 0, 'notes': self.units[:40]}


class Unit:
  """an elaborated component with an atom per input and state bit"""

  def __init__(self, comp, out, name, order=()):
    self.name, self.out = name, out
    self.top = comp
    self.M = Model(comp, blackbox=lambda c: False)
    self.B = self.M.B
    out.blocks += len(self.M.nl.blocks)
    out.units.append(name)
    self.atoms = {}
    self.src = {}
    self.order = list(order)
    self.st0 = {}
    for s in self.M.reg_slots:
      self.st0[s] = self.B.atom(('state', self.M.label(s)[0], s), 6, self.M.slot_label[s][2])

  def slots(self, port):
    o = self.top
    for f in port.split('.'):
      if '[' in f:
        n, i = f[:-1].split('[')
        if not hasattr(o, n): raise Absent(f'{self.name}: no port {port}')
        o = getattr(o, n)[int(i)]
      else:
        if not hasattr(o, f): raise Absent(f'{self.name}: no port {port}')
        o = getattr(o, f)
    return self.M.slots(o)

  def inp(self, port, tag='', prio=None):
    """fresh atoms for an input port (LSB first)"""
    n = len(self.slots(port))
    if prio is None: prio = 2 if n <= 8 else 5
    return tuple(self.B.atom((port + tag, i), prio, i) for i in range(n))

  def step(self, ins, regs=None):
    """ins: port -> bits; returns (value of a port, next registers)"""
    M, B = self.M, self.B
    src = dict(self.st0 if regs is None else regs)
    for p, bits in ins.items():
      sl = self.slots(p)
      if len(sl) != len(bits): raise AnalysisError(f'{self.name}.{p}: {len(sl)} bits, expected {len(bits)}')
      for s, b in zip(sl, bits): src[s] = b
    for s in M.free_slots():
      if s not in src: src[s] = B.atom(('free', M.label(s)[0], s), 9, 0)
    for s in (s for x in ('reset',) if hasattr(self.top, x) for s in M.slots(getattr(self.top, x))):
      if 'reset' not in ins: src[s] = 0
    vals = M.propagate(src)
    nxt = M.next_regs(vals)
    return lambda port: tuple(vals[s] for s in self.slots(port)), nxt

  def where(self, port):
    drv = {s: b for b in self.M.comb for s in b.out_slots}
    seen, names, todo = set(), [], list(self.slots(port))
    while todo and len(names) < 4:
      s = todo.pop(0)
      b = drv.get(s)
      if b is None or id(b) in seen: continue
      seen.add(id(b))
      names.append(b.where())
      todo += b.in_slots
    return ' <- '.join(names)

  def same(self, port, got, want, cond, rule):
    """got = want wherever cond; one obligation per bit"""
    B = self.B
    if len(got) != len(want):
      return self.out.need(False, rule, f'{self.name}.{port} has {len(got)} bits, expected {len(want)}')
    ok = True
    for i, (g, w) in enumerate(zip(got, want)):
      bad = 0 if g == w else B.AND(cond, B.XOR(g, w))
      ok &= self.out.need(bad == 0, rule,
                          lambda: f'{self.name}: {port}[{i}] is not the documented function: {self.where(port)} | witness: {witness(B, bad)}')
      if not ok: break
    return ok

  def true(self, port, cond, rule, text):
    B = self.B
    bad = B.NOT(cond)
    return self.out.need(bad == 0, rule, lambda: f'{self.name}: {text}: {self.where(port)} | witness: {witness(B, bad)}')

  # -- small functions of bit vectors -------------------------------------
  def eqk(self, x, k):
    B = self.B
    if k >> len(x): return 0
    r = 1
    for i, p in enumerate(x): r = B.AND(r, p if (k >> i) & 1 else B.NOT(p))
    return r

  def eqv(self, x, y):
    B, r = self.B, 1
    for p, q in zip(x, y): r = B.AND(r, B.XNOR(p, q))
    return r

  def sel(self, c, x, y): return tuple(self.B.ITE(c, p, q) for p, q in zip(x, y))

  def zext(self, x, n): return tuple(x[:n]) + (0,) * (n - len(x))


class P:
  """parameters of one configuration, from the repository's own derivation"""


def params(cfg):
  from blocking_cache.CacheDerivedParams import CacheDerivedParams
  from mem_ifcs.MemMsg import mk_mem_msg
  creq, cresp = mk_mem_msg(cfg.obw, cfg.abw, cfg.dbw, has_wr_mask=False)
  mreq, mresp = mk_mem_msg(cfg.obw, cfg.abw, cfg.clw)
  return CacheDerivedParams(creq, cresp, mreq, mresp, cfg.size, cfg.asso)


def legal_accesses(U, cfg, off, ln, cls):
  """[(condition, length code, bytes, offset)] for every aligned access"""
  out = []
  for l, n in lens(cfg, cls).items():
    el = U.eqk(ln, l)
    for o in range(0, cfg.nbyte, n):
      out.append((U.B.AND(el, U.eqk(off, o)), l, n, o))
  return out


# ---------------------------------------------------------------------------
# byte selection
# ---------------------------------------------------------------------------

def u_datasel(out, cfg, p, cls_name):
  from blocking_cache.units import muxes
  if not hasattr(muxes, cls_name): raise Absent(cls_name)
  comp = getattr(muxes, cls_name)(p)
  comp.elaborate()
  U = Unit(comp, out, f'{cls_name}({cfg})')
  B = U.B
  x = U.inp('in_', prio=5)
  en, amo = U.inp('en', prio=1), U.inp('amo', prio=1)
  ln, off = U.inp('len_', prio=1), U.inp('offset', prio=1)
  get, _ = U.step({'in_': x, 'en': en, 'amo': amo, 'len_': ln, 'offset': off})
  o = get('out')
  rule = f'{cls_name}/'
  a, e = amo[0], en[0]
  want32 = x[:32] + (0,) * (cfg.dbw - 32)
  if cls_name == 'FastDataSelectMux': U.same('out', o, want32, a, rule + 'amo')
  else: U.same('out', o[:32], want32[:32], a, rule + 'amo')
  U.same('out', o, (0,) * cfg.dbw, B.AND(B.NOT(a), B.NOT(e)), rule + 'disabled')
  for c, l, n, k in legal_accesses(U, cfg, off, ln, 'READ'):
    want = U.zext(x[8 * k:8 * (k + n)], cfg.dbw)
    U.same('out', o, want, B.all([B.NOT(a), e, c]), rule + f'load{n}')


def u_wben(out, cfg, p):
  from blocking_cache.units.arithmetics import WriteBitEnGen
  from blocking_cache import cache_constants as cc
  comp = WriteBitEnGen(p)
  comp.elaborate()
  U = Unit(comp, out, f'WriteBitEnGen({cfg})')
  B = U.B
  cmd, dty, off, ln = (U.inp(n, prio=q) for n, q in (('cmd', 1), ('dty_mask', 3), ('offset', 2), ('len_', 2)))
  get, _ = U.step({'cmd': cmd, 'dty_mask': dty, 'offset': off, 'len_': ln})
  o = get('out')
  U.same('out', o, (0,) * cfg.clw, U.eqk(cmd, int(cc.WriteBitEnGen_CMD_NONE)), 'WriteBitEnGen/none')
  U.same('out', o, tuple(B.NOT(dty[i // 32]) for i in range(cfg.clw)), U.eqk(cmd, int(cc.WriteBitEnGen_CMD_DIRTY)), 'WriteBitEnGen/refill')
  rq = U.eqk(cmd, int(cc.WriteBitEnGen_CMD_REQ))
  for c, l, n, k in legal_accesses(U, cfg, off, ln, 'WRITE'):
    want = tuple(1 if k <= i // 8 < k + n else 0 for i in range(cfg.clw))
    U.same('out', o, want, B.AND(rq, c), f'WriteBitEnGen/store{n}')


def u_repl(out, cfg, p):
  from blocking_cache.units.arithmetics import DataReplicator
  comp = DataReplicator(p)
  comp.elaborate()
  U = Unit(comp, out, f'DataReplicator({cfg})')
  B = U.B
  x, ln, amo = U.inp('in_', prio=5), U.inp('len_', prio=1), U.inp('amo', prio=1)
  get, _ = U.step({'in_': x, 'len_': ln, 'amo': amo})
  o = get('out')
  U.same('out', o[:cfg.dbw], x, amo[0], 'DataReplicator/amo')
  for l, n in lens(cfg, 'WRITE').items():
    src = U.zext(x, 64) if l == 3 else x
    want = tuple((src[i % (8 * n)] if not (l == 3 and i % 64 >= 32) else 0) for i in range(cfg.clw))
    U.same('out', o, want, B.AND(B.NOT(amo[0]), U.eqk(ln, l)), f'DataReplicator/store{n}')


def u_offlen(out, cfg, p):
  from blocking_cache.units.arithmetics import OffsetLenSelector
  comp = OffsetLenSelector(p)
  comp.elaborate()
  U = Unit(comp, out, f'OffsetLenSelector({cfg})')
  B = U.B
  ln, off, amo = U.inp('len_i'), U.inp('offset_i'), U.inp('is_amo', prio=1)
  get, _ = U.step({'len_i': ln, 'offset_i': off, 'is_amo': amo})
  a = amo[0]
  lo = get('len_o')
  U.same('offset_o', get('offset_o'), off, a, 'OffsetLenSelector/amo-offset')
  U.same('offset_o', get('offset_o'), (0,) * len(off), B.NOT(a), 'OffsetLenSelector/line-offset')
  U.same('len_o', lo, (0,) * len(lo), B.NOT(a), 'OffsetLenSelector/line-len')
  if cfg.dbw == 32:
    want = tuple(1 if i == 2 else 0 for i in range(len(lo)))
    if len(lo) > 2: U.same('len_o', lo, want, a, 'OffsetLenSelector/amo-len')
  else: U.same('len_o', lo, U.zext(ln, len(lo)), a, 'OffsetLenSelector/amo-len')


# ---------------------------------------------------------------------------
# tags, ways and replacement
# ---------------------------------------------------------------------------

def entry(U, p, port):
  """field -> atoms of a tag entry port"""
  lay = layout(p.StructTagArray)
  n = len(U.slots(port))
  bits = [None] * n
  f = {}
  for k, (lo, w, _) in lay.items():
    prio = {'val': 2, 'dty': 3, 'tag': 4}.get(k, 5)
    f[k] = tuple(U.B.atom((port + '.' + k, i), prio, i) for i in range(w))
    bits[lo:lo + w] = f[k]
  return f, tuple(bits)


def split(p, bits):
  return {k: tuple(bits[lo:lo + w]) for k, (lo, w, _) in layout(p.StructTagArray).items()}


def words_of(cfg, n, k): return tuple(1 if k // 4 <= j < k // 4 + max(1, n // 4) else 0 for j in range(cfg.ndty))


def u_tagpu(out, cfg, p):
  from blocking_cache.units.arithmetics import TagArrayRDataProcessUnit
  comp = TagArrayRDataProcessUnit(p)
  comp.elaborate()
  U = Unit(comp, out, f'TagArrayRDataProcessUnit({cfg})')
  B = U.B
  en, init = U.inp('en', prio=1)[0], U.inp('is_init', prio=1)[0]
  tag = U.inp('addr_tag', prio=4)
  off, ln = U.inp('offset', prio=2), U.inp('wr_len', prio=2)
  E, ins = [], {'en': (en,), 'is_init': (init,), 'addr_tag': tag, 'offset': off, 'wr_len': ln}
  for w in range(cfg.asso):
    f, bits = entry(U, p, f'tag_array[{w}]')
    E.append(f)
    ins[f'tag_array[{w}]'] = bits
  get, _ = U.step(ins)
  on = B.AND(en, B.NOT(init))
  val = [e['val'][0] for e in E]
  dirty = [B.any(e['dty']) for e in E]
  eq = [U.eqv(e['tag'], tag) for e in E]
  hit = [B.AND(v, q) for v, q in zip(val, eq)]
  part = [B.all([B.NOT(v), d, q]) for v, d, q in zip(val, dirty, eq)]
  live = [B.OR(h, q) for h, q in zip(hit, part)]
  uniq = 1
  for i in range(cfg.asso):
    for j in range(i): uniq = B.AND(uniq, B.NOT(B.AND(live[i], live[j])))
  U.same('hit', get('hit'), (B.AND(on, B.any(hit)),), uniq, 'tags/hit')
  U.same('inval_hit', get('inval_hit'), (B.AND(on, B.any(part)),), uniq, 'tags/partial-hit')
  hw = get('hit_way')
  for w in range(cfg.asso):
    U.same('hit_way', hw, tuple((w >> i) & 1 for i in range(len(hw))), B.all([uniq, on, live[w]]), 'tags/hit-way')
  U.same('line_dirty', get('line_dirty'), tuple(B.AND(en, d) for d in dirty), 1, 'tags/line-dirty')
  wd = get('word_dirty')
  for c, l, n, k in legal_accesses(U, cfg, off, ln, 'WRITE'):
    m = words_of(cfg, n, k)
    for w in range(cfg.asso):
      want = B.all([d for d, t in zip(E[w]['dty'], m) if t])
      U.same('word_dirty', (wd[w],), (want,), B.AND(en, c), 'tags/word-dirty')
  for w in range(cfg.asso):
    port = f'tag_entires[{w}]'
    U.same(port, get(port), ins[f'tag_array[{w}]'], en, 'tags/entry')
    g = get(port)
    U.same(port, g, (0,) * len(g), B.NOT(en), 'tags/entry-gated')


def u_update(out, cfg, p):
  from blocking_cache.units.UpdateTagArrayUnit import UpdateTagArrayUnit
  from blocking_cache import cache_constants as cc
  comp = UpdateTagArrayUnit(p)
  comp.elaborate()
  U = Unit(comp, out, f'UpdateTagArrayUnit({cfg})')
  B = U.B
  way, off, cmd, ln = U.inp('way', prio=1), U.inp('offset', prio=2), U.inp('cmd', prio=1), U.inp('wr_len', prio=2)
  rd = U.inp('refill_dty', prio=3)
  ins = {'way': way, 'offset': off, 'cmd': cmd, 'wr_len': ln, 'refill_dty': rd}
  E = []
  for w in range(cfg.asso):
    f, bits = entry(U, p, f'old_entries[{w}]')
    E.append(f)
    ins[f'old_entries[{w}]'] = bits
  get, _ = U.step(ins)
  new = split(p, get('out'))
  C = lambda n: U.eqk(cmd, int(getattr(cc, 'UpdateTagArrayUnit_CMD_' + n)))
  for w in range(cfg.asso):
    iw = U.eqk(way, w)
    old = E[w]
    at = lambda c: B.AND(iw, c)
    U.same('out.val', new['val'], (1,), at(B.OR(C('WR_REFILL'), C('RD_REFILL'))), 'update/refill-valid')
    U.same('out.val', new['val'], (0,), at(B.OR(C('INV'), C('CLEAR'))), 'update/invalid')
    U.same('out.val', new['val'], old['val'], at(C('WR_HIT')), 'update/hit-valid')
    U.same('out.dty', new['dty'], rd, at(C('RD_REFILL')), 'update/read-refill-dirty')
    U.same('out.dty', new['dty'], (0,) * cfg.ndty, at(C('CLEAR')), 'update/clear')
    U.same('out.tag', new['tag'], (0,) * cfg.tag_w, at(C('CLEAR')), 'update/clear')
    U.same('out.dty', new['dty'], old['dty'], at(C('INV')), 'update/invalidate-keeps-dirty')
    for n in ('INV', 'FLUSH', 'WR_HIT'): U.same('out.tag', new['tag'], old['tag'], at(C(n)), 'update/keeps-tag')
    for c, l, n, k in legal_accesses(U, cfg, off, ln, 'WRITE'):
      m = words_of(cfg, n, k)
      U.same('out.dty', new['dty'], tuple(1 if t else d for t, d in zip(m, old['dty'])), at(B.AND(c, C('WR_HIT'))), f'update/store{n}-hit-dirty')
      U.same('out.dty', new['dty'], tuple(1 if t else d for t, d in zip(m, rd)), at(B.AND(c, C('WR_REFILL'))), f'update/store{n}-refill-dirty')


def u_indexer(out, cfg, p):
  """distinct (set, way) pairs occupy distinct rows inside the data array"""
  from blocking_cache.units.arithmetics import Indexer
  comp = Indexer(p)
  comp.elaborate()
  U = Unit(comp, out, f'Indexer({cfg})')
  B = U.B
  def at(t, way):
    k = tuple(B.atom(('index' + t, i), 2, 2 * i + (t == 'b')) for i in range(len(U.slots('index'))))
    w = tuple((way >> i) & 1 for i in range(len(U.slots('offset'))))
    get, _ = U.step({'index': k, 'offset': w})
    return k, get('out')
  for w in range(cfg.asso):
    ka, ra = at('a', w)
    n = len(ra)
    if 1 << n != cfg.nlines:
      lt = below(U, ra, cfg.nlines)
      U.true('out', lt, 'rows/inside', f'a row of way {w} lies outside the data array')
    for v in range(w, cfg.asso):
      kb, rb = at('b', v)
      same = U.eqv(ra, rb)
      want = U.eqv(ka, kb) if v == w else 0
      U.same('out', (same,), (want,), 1, 'rows/distinct')


def below(U, x, n):
  B = U.B
  lt, eq = 0, 1
  for i in reversed(range(max(len(x), clog2(n + 1)))):
    b = x[i] if i < len(x) else 0
    k = (n >> i) & 1
    if k: lt = B.OR(lt, B.AND(eq, B.NOT(b)))
    eq = B.AND(eq, b if k else B.NOT(b))
  return lt


def u_reppol(out, cfg, p):
  from blocking_cache.units.ReplacementPolicy import ReplacementPolicy
  comp = ReplacementPolicy(p, 0)
  comp.elaborate()
  U = Unit(comp, out, f'ReplacementPolicy({cfg})')
  B = U.B
  en, ish = U.inp('repreq_en', prio=1)[0], U.inp('repreq_is_hit', prio=1)[0]
  hp, rp = U.inp('repreq_hit_ptr'), U.inp('repreq_ptr')
  get, _ = U.step({'repreq_en': (en,), 'repreq_is_hit': (ish,), 'repreq_hit_ptr': hp, 'repreq_ptr': rp})
  r = get('represp_ptr')
  if cfg.asso == 1:
    U.same('represp_ptr', r, (0,), 1, 'policy/one-way')
    return
  U.same('represp_ptr', r, (B.NOT(hp[0]),), B.AND(en, ish), 'policy/hit')
  U.same('represp_ptr', r, (B.NOT(rp[0]),), B.AND(en, B.NOT(ish)), 'policy/miss')
  U.same('represp_ptr', r, rp, B.NOT(en), 'policy/idle')


def u_repbits(out, cfg, p):
  """what a set reads is what was last written to that set, zero after reset"""
  from blocking_cache.units.registers import ReplacementBitsReg
  comp = ReplacementBitsReg(p)
  comp.elaborate()
  U = Unit(comp, out, f'ReplacementBitsReg({cfg})')
  B = U.B
  n = len(U.slots('waddr'))
  wa = tuple(B.atom(('waddr', i), 1, 2 * i) for i in range(n))
  ra = tuple(B.atom(('raddr', i), 1, 2 * i + 1) for i in range(n))
  wd, we = U.inp('wdata', prio=1)[0], U.inp('wen', prio=1)[0]
  def rd(regs):
    get, _ = U.step({'waddr': (0,) * n, 'raddr': ra, 'wdata': (0,), 'wen': (0,)}, regs)
    return get('rdata')
  before = rd(None)
  _, nxt = U.step({'waddr': wa, 'raddr': ra, 'wdata': (wd,), 'wen': (we,)})
  after = rd(nxt)
  same = U.eqv(wa, ra)
  U.same('rdata', after, (B.ITE(B.AND(we, same), wd, before[0]),), 1, 'replacement-bits/own-set')
  _, z = U.step({'waddr': wa, 'raddr': ra, 'wdata': (wd,), 'wen': (we,), 'reset': (1,)})
  U.same('rdata', rd(z), (0,), 1, 'replacement-bits/reset')


# ---------------------------------------------------------------------------
# state holders
# ---------------------------------------------------------------------------

def u_mshr(out, cfg, p):
  """one entry: full and empty follow allocate and release, the entry keeps the
  allocated request unchanged until the next allocation"""
  from blocking_cache.units.MSHR import MSHR
  comp = MSHR(p, 1)
  comp.elaborate()
  U = Unit(comp, out, f'MSHR({cfg})')
  B = U.B
  n = len(U.slots('alloc_in'))
  k = len(U.slots('dealloc_id'))
  msg = lambda t: tuple(B.atom(('alloc' + t, i), 5, i) for i in range(n))
  did = lambda t: tuple(B.atom(('did' + t, i), 5, i) for i in range(k))
  def step(regs, a, d, m, t, reset=0):
    return U.step({'alloc_en': (a,), 'dealloc_en': (d,), 'alloc_in': m, 'dealloc_id': did(t), 'reset': (reset,)}, regs)
  _, r0 = step(None, B.atom(('a', 0), 1), B.atom(('d', 0), 1), msg('x'), 'x', 1)
  get, _ = step(r0, 0, 0, msg('i'), 'i')
  U.same('empty', get('empty'), (1,), 1, 'mshr/empty-after-reset')
  U.same('full', get('full'), (0,), 1, 'mshr/empty-after-reset')
  get, r1 = step(r0, 1, 0, msg('m'), 'm')
  U.same('full', get('full'), (1,), 1, 'mshr/full-while-allocating')
  cur = r1
  for i in range(3):
    get, nx = step(cur, 0, 0, msg(f'h{i}'), f'h{i}')
    U.same('dealloc_out', get('dealloc_out'), msg('m'), 1, 'mshr/entry-kept')
    U.same('empty', get('empty'), (0,), 1, 'mshr/occupied')
    U.same('full', get('full'), (1,), 1, 'mshr/occupied')
    cur = nx
  get, r2 = step(cur, 0, 1, msg('d'), 'd')
  U.same('dealloc_out', get('dealloc_out'), msg('m'), 1, 'mshr/entry-kept')
  get, r3 = step(r2, 0, 0, msg('e'), 'e')
  U.same('empty', get('empty'), (1,), 1, 'mshr/empty-after-release')
  U.same('full', get('full'), (0,), 1, 'mshr/empty-after-release')
  get, r4 = step(r3, 1, 0, msg('n'), 'n')
  get, _ = step(r4, 0, 0, msg('o'), 'o')
  U.same('dealloc_out', get('dealloc_out'), msg('n'), 1, 'mshr/entry-replaced')
  U.same('empty', get('empty'), (0,), 1, 'mshr/occupied')


def u_stall(out, cfg, p):
  """passes its input while enabled, then repeats the last one passed"""
  from blocking_cache.units.StallEngine import StallEngine
  for what, T in (('line', cfg.clw), ('tag entry', p.StructTagArray), ('hit', p.StructHit)):
    comp = StallEngine(T)
    comp.elaborate()
    U = Unit(comp, out, f'StallEngine({what} of {cfg})')
    B = U.B
    n = len(U.slots('in_'))
    x = lambda t: tuple(B.atom(('in' + t, i), 5, i) for i in range(n))
    e = B.atom(('en', 0), 1)
    get, r = U.step({'in_': x('0'), 'en': (1,)})
    U.same('out', get('out'), x('0'), 1, 'stall/pass')
    for i in range(3):
      get, r = U.step({'in_': x(f's{i}'), 'en': (0,)}, r)
      U.same('out', get('out'), x('0'), 1, 'stall/hold')
    get, r = U.step({'in_': x('p'), 'en': (e,)}, r)
    U.same('out', get('out'), U.sel(e, x('p'), x('0')), 1, 'stall/pass')
    get, r = U.step({'in_': x('q'), 'en': (0,)}, r)
    U.same('out', get('out'), U.sel(e, x('p'), x('0')), 1, 'stall/hold')


def u_counter(out, cfg, p):
  """counts by one in the chosen direction when enabled, else holds"""
  from blocking_cache.units.counters import CounterEnRst
  w = clog2(cfg.nlines)
  comp = CounterEnRst(w, reset_value=cfg.nlines - 1)
  comp.elaborate()
  U = Unit(comp, out, f'CounterEnRst({w} bits)')
  B = U.B
  en, dn = U.inp('en', prio=1)[0], U.inp('count_down', prio=1)[0]
  base = {'load': (0,), 'load_value': (0,) * w}
  get, nxt = U.step({'en': (en,), 'count_down': (dn,), **base})
  c0 = get('out')
  get, _ = U.step({'en': (0,), 'count_down': (0,), **base}, nxt)
  c1 = get('out')
  inc, dec = [], []
  a, b = 1, 1
  for x in c0:
    inc.append(B.XOR(x, a))
    a = B.AND(a, x)
    dec.append(B.XOR(x, b))
    b = B.AND(b, B.NOT(x))
  U.same('out', c1, c0, B.NOT(en), 'counter/hold')
  U.same('out', c1, tuple(dec), B.AND(en, dn), 'counter/down')
  U.same('out', c1, tuple(inc), B.AND(en, B.NOT(dn)), 'counter/up')
  _, z = U.step({'en': (en,), 'count_down': (dn,), **base, 'reset': (1,)})
  get, _ = U.step({'en': (0,), 'count_down': (0,), **base}, z)
  U.same('out', get('out'), tuple((cfg.nlines - 1 >> i) & 1 for i in range(w)), 1, 'counter/reset')


# ---------------------------------------------------------------------------
# the SRAM model
# ---------------------------------------------------------------------------

def u_sram(out, bits, words):
  """observational rules: R(a) is what a read of row a returns one cycle later"""
  from sram.SramPRTL import SramPRTL
  comp = SramPRTL(bits, words)
  comp.elaborate()
  U = Unit(comp, out, f'SramPRTL({bits} bits, {words} words)')
  B = U.B
  aw = clog2(words)
  A = lambda t, k: tuple(B.atom(('row' + t, i), 1, 4 * i + k) for i in range(aw))
  D = lambda t: tuple(B.atom(('data' + t, i), 4, i) for i in range(bits))
  Mk = lambda t: tuple(B.atom(('mask' + t, i), 4, i) for i in range(bits))
  def op(regs, val, typ, idx, d, m):
    return U.step({'port0_val': (val,), 'port0_type': (typ,), 'port0_idx': idx, 'port0_wdata': d, 'port0_wben': m}, regs)
  def read(regs, idx, t):
    _, r = op(regs, 1, 0, idx, D('r' + t), Mk('r' + t))
    v, ty = B.atom(('val' + t, 0), 2), B.atom(('type' + t, 0), 2)
    get, _ = op(r, v, ty, A('z', 3), D('z' + t), Mk('z' + t))
    return get('port0_rdata')
  a, b = A('a', 0), A('b', 1)
  inside = 1 if 1 << aw == words else B.AND(below(U, a, words), below(U, b, words))
  R0 = read(None, a, '0')
  # the answer of a read is decided by the row, not by the operation that follows
  sup = set()
  for x in R0: sup |= set(B.atoms(x))
  bad = [s for s in sup if s[0] in ('val0', 'type0', 'rowz', 'dataz0', 'maskz0', 'datar0', 'maskr0')]
  U.out.need(not bad, 'sram/read-pure', f'{U.name}: read data depends on {bad[:3]}: {U.where("port0_rdata")}')
  # write
  _, w = op(None, 1, 1, b, D('w'), Mk('w'))
  R1 = read(w, a, '1')
  same = U.eqv(a, b)
  want = tuple(B.ITE(B.AND(same, m), d, o) for m, d, o in zip(Mk('w'), D('w'), R0))
  U.same('port0_rdata', R1, want, inside, 'sram/write')
  # a read or an idle cycle changes no row
  ty = B.atom(('typeq', 0), 2)
  _, q = op(None, 0, ty, b, D('q'), Mk('q'))
  U.same('port0_rdata', read(q, a, '2'), R0, inside, 'sram/idle')
  _, q = op(None, 1, 0, b, D('q'), Mk('q'))
  U.same('port0_rdata', read(q, a, '3'), R0, inside, 'sram/read')


GROUPS = {
  'bytes': [lambda o, c, q: u_datasel(o, c, q, 'FastDataSelectMux'), lambda o, c, q: u_datasel(o, c, q, 'DataSelectMux'), u_wben, u_repl, u_offlen],
  'tags': [u_tagpu, u_update, u_indexer],
  'lru': [u_reppol, u_repbits],
  'hold': [u_mshr, u_stall, u_counter],
}


@register('unit')
def k_unit(job):
  out = Out(job)
  for c in job['cfgs']:
    cfg = Cfg(*c)
    p = params(cfg)
    for f in GROUPS[job['group']]:
      try: f(out, cfg, p)
      except (Absent, ImportError) as e: out.units.append(f'skipped, no longer there: {e}')
  return out.pack()


@register('sram')
def k_sram(job):
  out = Out(job)
  for b, w in job['shapes']: u_sram(out, b, w)
  return out.pack()
