"""Fixpoint analysis of the cache: control typestate x value-numbered contents.

A location is a valuation of the control registers together with the typestate
of the environment (requests pending, memory operations outstanding) and of the
monitor; data registers carry value numbers (canonical functions of the tracked
request, the cache set it addresses and the memory's answers) or are unknown.
Each location keeps one invariant over the persistent atoms (join = or), and
the worklist runs until nothing changes.  Update blocks are interpreted
abstractly (model.py); no design is ever simulated.
"""

import time

from spec import Spec, CLASSES, lens, READ, WRITE, INIT, INV, FLUSH
from netlist import AnalysisError

CTX = {'READ': 0, 'WRITE': 1, 'INIT': 2, 'AMO': 3, 'INV': 14, 'FLUSH': 15}


# where atoms of a field sit in the variable order (compared fields interleave)
PRIO = {'type_': 1, 'opaque': 5, 'index': 1.5, 'tag': 2, 'val': 2.5, 'dty': 2.5, 'dirty_bits': 2.5, 'len': 3, 'rep': 1.75,
        'offset': 3.5, 'data': 6, 'wr_mask': 2.5, 'test': 5}


class Stop(Exception):
  pass


class Sink:
  """collects obligations and violations"""

  def __init__(self, want=None, known=(), stop=True):
    self.want, self.known, self.stop = want, set(known), stop
    self.count = {}
    self.viol = {}         # key -> message
    self.hit_known = {}

  def ok(self, props):
    return self.want is None or any(p in self.want for p in props)

  def oblige(self, B, props, C, good, key, msg):
    if not self.ok(props): return True
    for p in props:
      self.count[p] = self.count.get(p, 0) + 1
    bad = B.AND(C, B.NOT(good))
    if bad == 0: return True
    self.report(key, lambda: msg() + ' | witness: ' + witness(B, bad))
    return False

  def report(self, key, msg):
    if key in self.known:
      if key not in self.hit_known: self.hit_known[key] = msg()
      return
    if key not in self.viol:
      self.viol[key] = msg()
      if self.stop: raise Stop()


def witness(B, f, n=24):
  s = B.one_sat(f) or {}
  groups = {}
  for name, v in s.items():
    nm = name[:-1] if len(name) > 1 and isinstance(name[-1], int) else name
    groups.setdefault('.'.join(map(str, nm)), {})[name[-1] if isinstance(name[-1], int) else 0] = v
  out = []
  for g, bits in sorted(groups.items()):
    w = max(bits) + 1
    out.append(g + '=' + ''.join(str(bits.get(i, '-')) for i in reversed(range(w))))
  return ' '.join(out[:n])


class State:
  __slots__ = ('regs', 'dout', 'known', 'queue', 'mon', 'C', 'parent', 'note')

  def key(self):
    return (self.regs, self.dout, self.known, self.queue, self.mon)


class Base:

  def __init__(self, D, sink, deadline=None):
    self.D, self.M, self.B, self.cfg = D, D.M, D.B, D.cfg
    self.sink = sink
    self.deadline = deadline
    B = self.B
    self.persist = set()
    self._sup_ok = {0: True, 1: True}
    self.regs = D.all_regs
    self.ctrl_n = len(D.ctrl_slots) + len(D.soft_slots)
    self.cell = {}
    def at(name, i, fname, pos, w):
      pr = PRIO.get(fname)
      if pr is None: return B.atom((name, i), 1 if w <= 8 else 5, 0)
      if pr == 1: return B.atom((name, i), 1, 0)
      return B.atom((name, i), pr, pos if fname == 'data' else w - 1 - pos)
    rep = set(D.rep_slots)
    for s in self.regs:
      nm, pos, w = self.M.label(s)
      if s in rep: self.cell[s] = B.atom(('reg ' + nm, pos), PRIO['rep'], 0)
      else: self.cell[s] = at('reg ' + nm, pos, nm.split('.')[-1], pos, w)
    self.srams = self.M.srams
    self.dcell, self.fresh = {}, {}
    for m in self.srams:
      for d, nm in ((self.dcell, 'dout '), (self.fresh, 'unread ')):
        n = len(D.sp[m]['rdata'])
        bits = [None] * n
        if m is D.data_sram:
          for i in range(n): bits[i] = at(nm + repr(m), i, 'data', i % 32, 32)
        else:
          for f, (lo, w, _) in D.tag_layout.items():
            for i in range(w): bits[lo + i] = at(nm + repr(m) + '.' + f, i, f, i, w)
        d[m] = tuple(bits)
    def tr(name, f, slots):
      n = len(slots)
      if f == 'addr': return addr(name + '.addr')
      return tuple(at(name + '.' + f, i, f, i % 32 if f == 'data' else i, n) for i in range(n))
    cfg = self.cfg
    def addr(name):
      return (tuple(at(name + '.offset', i, 'offset', i, cfg.off_w) for i in range(cfg.off_w)) +
              tuple(at(name + '.index', i, 'index', i, cfg.idx_w) for i in range(cfg.idx_w)) +
              tuple(at(name + '.tag', i, 'tag', i, cfg.tag_w) for i in range(cfg.tag_w)))
    self.t_req = {f: tr('in.req', f, s) for f, s in D.i_req.items()}
    self.t_resp = {f: tr('in.memresp', f, s) for f, s in D.i_mresp.items()}
    self.t_offer = (B.atom(('in.req_en', 0), 1), B.atom(('in.memresp_en', 0), 1))
    self.t_rr = B.atom(('in.resp_rdy', 0), 1)
    self.t_mr = B.atom(('in.memreq_rdy', 0), 1)
    self.free = {}
    covered = {D.i_req_en, D.i_resp_rdy, D.i_mreq_rdy, D.i_mresp_en, D.reset}
    for f, s in list(D.i_req.items()) + list(D.i_mresp.items()): covered |= set(s)
    for m in self.srams: covered |= set(D.sp[m]['rdata'])
    for s in self.M.free_slots():
      if s not in covered:
        nm, pos, w = self.M.label(s)
        self.free[s] = B.atom(('undriven', nm, pos), 5, w - 1 - pos)
    self.steps = 0
    self.plan = None

  # persistent atoms ------------------------------------------------------
  def P(self, name, n, prio=3):
    out = []
    for i in range(n):
      a = self.B.atom((name, i), prio, n - 1 - i)
      self.persist.add(self.B.rank[a])
      out.append(a)
    self._sup_ok = {0: True, 1: True}
    return tuple(out)

  def known_fn(self, node):
    r = self._sup_ok.get(node)
    if r is None:
      r = self.B.support(node) <= self.persist
      self._sup_ok[node] = r
    return r

  # one cycle --------------------------------------------------------------
  def propagate(self, st, req, resp, rr=None, mr=None, reset=0, offer=None):
    D = self.D
    self.steps += 1
    if self.deadline and (self.steps & 63) == 0 and time.time() > self.deadline:
      raise AnalysisError('analysis budget exhausted')
    src = dict(zip(self.regs, st.regs))
    for m, d in zip(self.srams, st.dout):
      for s, v in zip(D.sp[m]['rdata'], d): src[s] = v
    src.update(self.free)
    src[D.reset] = reset
    src[D.i_req_en] = 1 if req is not None else 0
    src[D.i_mresp_en] = 1 if resp is not None else 0
    if offer:
      src[D.i_req_en], src[D.i_mresp_en] = offer
    src[D.i_resp_rdy] = self.t_rr if rr is None else rr
    src[D.i_mreq_rdy] = self.t_mr if mr is None else mr
    for f, s in D.i_req.items():
      v = (req or {}).get(f) or self.t_req[f]
      for a, b in zip(s, v): src[a] = b
    for f, s in D.i_mresp.items():
      v = (resp or {}).get(f) or self.t_resp[f]
      for a, b in zip(s, v): src[a] = b
    vals = self.M.propagate(src, self.plan)
    nxt = self.M.next_regs(vals, self.plan)
    return vals, nxt

  def splittable(self, n):
    """control conditions are enumerated; a bare copy of an unknown bit is
    kept unknown"""
    return n > 1 and not (self.B.lo[n] < 2 and self.B.hi[n] < 2)

  def split(self, C, nodes):
    B = self.B
    todo = [n for n in dict.fromkeys(nodes) if n > 1]
    out = [(C, {0: 0, 1: 1})]
    for n in todo:
      new = []
      nn = B.NOT(n)
      for c, a in out:
        x = B.AND(c, n)
        if x == 0:
          a[n] = 0
          new.append((c, a))
        elif x == c:
          a[n] = 1
          new.append((c, a))
        else:
          a2 = dict(a)
          a[n] = 1
          a2[n] = 0
          new.append((x, a))
          new.append((B.AND(c, nn), a2))
      out = new
    return out

  def forget(self, C):
    """project the invariant on the persistent atoms"""
    if C < 2: return C
    tr = self.B.support(C) - self.persist
    return self.B.exists(C, frozenset(tr)) if tr else C

  def cbits(self, v, n):
    return tuple((v >> i) & 1 for i in range(n))

  def chain(self, st, n=14):
    out = []
    while st is not None and len(out) < n:
      if st.note: out.append(st.note)
      st = st.parent
    return ' <- '.join(out)

  def blame(self, slots):
    bl = self.D.cone([s for s in slots], 4)
    return ', '.join(dict.fromkeys(short(b) for b in bl[:6]))


def short(b):
  f = b.file.split('/repo/')[-1]
  return f"{f}:{b.line} {b.name}"


# =========================================================================
# untracked exploration: control typestate only
# =========================================================================

class Untracked(Base):
  """all reachable control locations, under every request class, memory timing
  and back-pressure"""

  def __init__(self, D, sink, overlap=True, deadline=None, maxlocs=200000, nostall=False):
    super().__init__(D, sink, deadline)
    self.nostall = nostall
    self.overlap = overlap
    self.maxlocs = maxlocs
    self.locs = {}
    self.order = []
    self.rdy = {}          # location -> request-ready (function of unknown state)
    self.tail = tuple(self.cell[s] for s in self.regs[self.ctrl_n:])
    self.outs = [D.o_req_rdy, D.o_resp_en, D.o_mreq_en, D.o_mresp_rdy]
    if sink.ok(['P23']):
      for d in (D.o_resp, D.o_mreq):
        for sl in d.values(): self.outs += sl
    self.in_atoms = {self.B.rank[a] for d in (self.t_req, self.t_resp, {'': self.t_offer}) for v in d.values() for a in v}
    self.plan = self.M.plan(self.regs[:self.ctrl_n] + self.outs + [D.o_req_rdy, D.o_resp_en, D.o_mreq_en, D.o_mresp_rdy] + D.o_mreq['type_'])

  def initial(self):
    """control state after reset: register update blocks under reset, with
    every other input unknown"""
    D, B, M = self.D, self.B, self.M
    vals = [None] * M.nslots
    vals[0], vals[1] = 0, 1
    vals[M.const_slot[0]], vals[M.const_slot[1]] = 0, 1
    for b in M.ffs:
      for s in b.in_slots:
        if vals[s] is None: vals[s] = B.atom(('pre', s), 7)
    for s in self.regs: vals[s] = self.cell[s]
    vals[D.reset] = 1
    nxt = M.next_regs(vals)
    self.reset_next = nxt
    self.constant_bits(nxt)
    st = State()
    st.regs = tuple(nxt[s] if nxt[s] < 2 else self.cell[s] for s in self.regs[:self.ctrl_n]) + self.tail
    st.dout = tuple(self.dcell[m] for m in self.srams)
    st.known, st.queue, st.mon, st.C, st.parent, st.note = (), (), 0, 1, None, 'reset'
    return [st]

  def constant_bits(self, nxt):
    """data register bits that provably never leave their reset value"""
    D, B = self.D, self.B
    cand = {s: nxt[s] for s in D.data_slots if nxt[s] < 2}
    while cand:
      plan = self.M.plan(list(cand))
      st = State()
      st.regs = tuple(cand.get(s, self.cell[s]) for s in self.regs)
      st.dout = tuple(self.dcell[m] for m in self.srams)
      save, self.plan = self.plan, plan
      n2 = self.propagate(st, self.t_req, self.t_resp)[1]
      self.plan = save
      bad = [s for s, v in cand.items() if n2[s] != v]
      if not bad: break
      for s in bad: del cand[s]
    self.const_bits = cand
    self.tail = tuple(cand.get(s, self.cell[s]) for s in self.regs[self.ctrl_n:])

  def pack(self, nxt, asg, C):
    out = []
    k = len(self.D.ctrl_slots)
    for i, s in enumerate(self.regs[:self.ctrl_n]):
      x = nxt[s]
      y = asg.get(x)
      if y is None:
        if x > 1: x = self.B.restrict(x, C)
        y = x if x < 2 else self.cell[s]
      out.append(y)
    return tuple(out) + self.tail

  def quiet(self, st):
    return st.mon == 0 and not st.queue

  def explore(self):
    D, B, sink = self.D, self.B, self.sink
    todo = []
    for s in self.initial():
      if s.key() not in self.locs:
        self.locs[s.key()] = s
        todo.append(s)
    i = 0
    while i < len(todo):
      st = todo[i]
      i += 1
      if len(todo) > self.maxlocs: raise AnalysisError(f'more than {self.maxlocs} locations')
      for s2 in self.successors(st):
        k = s2.key()
        if k not in self.locs:
          self.locs[k] = s2
          todo.append(s2)
    self.order = todo
    return todo

  def choices(self, st):
    reqs = [None]
    if self.overlap or st.mon == 0:
      reqs += list(CTX)
    resps = [None]
    if st.queue:
      if self.nostall: resps = [st.queue[0]]
      else: resps.append(st.queue[0])
    return reqs, resps

  def resp_msg(self, head):
    return {'type_': self.cbits(head, 4)}

  def successors(self, st, friendly=False):
    """all next locations.  friendly: no new request, no back-pressure, memory
    answers at once"""
    D, B, sink = self.D, self.B, self.sink
    n = self.ctrl_n
    reqs, resps = self.choices(st)
    if friendly:
      reqs = [None]
      resps = [st.queue[0]] if st.queue else [None]
    base = None
    out = []
    if sink.ok(['P23']) and not friendly:
      # anything at all may be presented, also what memory would not send now
      vals, _ = self.propagate(st, self.t_req, self.t_resp, offer=self.t_offer)
      for o in self.outs:
        x = vals[o]
        sink.oblige(B, ['P23'], 1, 0 if x > 1 and (B.support(x) & self.in_atoms) else 1, ('same-cycle', self.M.label(o)[0]),
                    lambda: f"{self.M.label(o)[0]} depends on what is presented in the same cycle ({self.blame([o])}) at {self.name(st)}: {self.chain(st)}")
    for rs in resps:
      for rq in reqs:
        req = None if rq is None else {'type_': self.cbits(CTX[rq], 4)}
        resp = None if rs is None else self.resp_msg(rs)
        calm = 1 if friendly or self.nostall else None
        vals, nxt = self.propagate(st, req, resp, calm, calm)
        rdy = vals[D.o_req_rdy]
        where = lambda: f"at {self.name(st)}: {self.chain(st)}"
        if not friendly:
          # ready must be a function of the cache's own state
          if rq is None:
            rdy_base = rdy
            self.rdy[st.key()] = B.OR(rdy, self.rdy.get(st.key(), 0))
          else:
            sink.oblige(B, ['P01'], 1, B.XNOR(rdy, rdy_base), ('rdy-depends-on-offer',),
                        lambda: f"request-ready changes with the offered request ({self.blame([D.o_req_rdy])}) {where()}")
          sink.oblige(B, ['P01', 'P24'], 1, vals[D.o_mresp_rdy], ('memresp-not-ready',),
                      lambda: f"memory response not accepted ({self.blame([D.o_mresp_rdy])}) {where()}")
          if sink.ok(['P23']):
            now = [vals[o] for o in self.outs]
            if base is None:
              base = now
            else:
              for o, x, y in zip(self.outs, now, base):
                sink.oblige(B, ['P23'], 1, 1 if x == y else 0, ('same-cycle', self.M.label(o)[0]),
                            lambda: f"{self.M.label(o)[0]} changes with what is offered in the same cycle ({self.blame([o])}) {where()}")
            for o, x in zip(self.outs, now):
              if x > 1 and (B.support(x) & self.in_atoms):
                sink.oblige(B, ['P23'], 1, 0, ('same-cycle', self.M.label(o)[0]),
                            lambda: f"{self.M.label(o)[0]} depends on what is offered in the same cycle ({self.blame([o])}) {where()}")
          if any(t != 1 for t in st.queue):
            sink.oblige(B, ['P27'], 1, B.NOT(rdy), ('accept-during-refill',),
                        lambda: f"a request is accepted while a refill or atomic is outstanding ({self.blame([D.o_req_rdy])}) {where()}")
        C = 1 if rq is None else rdy
        if C == 0: continue
        mt = [vals[s] for s in D.o_mreq['type_']]
        for Cv, asg in self.split(C, [vals[D.o_resp_en], vals[D.o_mreq_en]] +
                                  [nxt[s] for s in D.ctrl_slots if self.splittable(nxt[s])]):
          r_en, m_en = asg[vals[D.o_resp_en]], asg[vals[D.o_mreq_en]]
          if not friendly:
            if r_en:
              sink.oblige(B, ['P01'], Cv, calm or self.t_rr, ('resp-without-ready',),
                          lambda: f"response sent while the processor is not ready ({self.blame([D.o_resp_en])}) {where()}")
              sink.oblige(B, ['P02'], Cv, 1 if st.mon > 0 else 0, ('response-without-request',),
                            lambda: f"response sent with no request outstanding ({self.blame([D.o_resp_en])}) {where()}")
            if m_en:
              sink.oblige(B, ['P01'], Cv, calm or self.t_mr, ('memreq-without-ready',),
                          lambda: f"memory request sent while the memory is not ready ({self.blame([D.o_mreq_en])}) {where()}")
          q = st.queue[1:] if rs is not None else st.queue
          pend = st.mon + (1 if rq is not None else 0) - r_en
          if pend < 0 or pend > 6:
            sink.oblige(B, ['P02'], Cv, 0, ('pending-count',), lambda: f"{pend} requests pending {where()}")
            continue
          mts = [None]
          if m_en:
            mts = []
            for C3, a3 in self.split(Cv, mt):
              mts.append(sum(a3[b] << i for i, b in enumerate(mt)))
            if len(mts) > 4: mts = [m for m in mts if m in (0, 1)] + [3]
          for ty in dict.fromkeys(mts):
            s2 = State()
            s2.regs = self.pack(nxt, asg, Cv)
            s2.dout, s2.known, s2.C = st.dout, (), 1
            s2.queue = q + ((ty,) if ty is not None else ())
            if len(s2.queue) > 6:
              sink.oblige(B, ['P02', 'P10'], Cv, 0, ('memory-queue',), lambda: f"more than 6 memory requests outstanding {where()}")
              continue
            nf = sum(1 for t in s2.queue if t != 1)
            if ty is not None and ty != 1 and not friendly:
              sink.oblige(B, ['P27'], Cv, 1 if nf <= 1 else 0, ('two-refills',),
                          lambda: f"a second refill or atomic is sent while one is outstanding ({self.blame([D.o_mreq_en])}) {where()}")
            s2.mon = pend
            s2.parent = st
            s2.note = self.note(rq, rs, r_en, m_en, ty)
            if not friendly: self.extra(st, s2, vals, nxt, Cv, rq, rs, r_en, m_en)
            out.append(s2)
    return out

  def extra(self, *a): pass

  def liveness(self):
    """with memory answering and nothing refused, every location drains: no
    cycle before all requests are answered and the cache is ready again"""
    sink, B = self.sink, self.B
    if not sink.ok(('P24', 'P02')): return
    WHITE, GREY, BLACK = 0, 1, 2
    color = {}
    def goal(st):
      return st.mon == 0 and not st.queue and self.ready_of(st) == 1
    for root in self.order:
      if color.get(root.key()): continue
      stack = [(root, None)]
      while stack:
        st, it = stack.pop()
        k = st.key()
        if it is None:
          if color.get(k): continue
          if goal(st):
            color[k] = BLACK
            sink.oblige(B, ['P24', 'P02'], 1, 1, ('drain',), lambda: '')
            continue
          color[k] = GREY
          it = iter(self.successors(st, friendly=True))
        for s2 in it:
          c = color.get(s2.key(), WHITE)
          if c == GREY:
            sink.oblige(B, ['P24', 'P02'], 1, 0, ('no-progress', s2.mon > 0),
                        lambda: f"the cache can loop without answering although memory answers and nothing is refused: {self.name(s2)} reached again from {self.chain(s2)}")
          elif c == WHITE:
            stack.append((st, it))
            stack.append((s2, None))
            break
        else:
          color[k] = BLACK
          sink.oblige(B, ['P24', 'P02'], 1, 1, ('drain',), lambda: '')
    self.live_nodes = len(color)

  def ready_of(self, st):
    r = self.rdy.get(st.key())
    if r is None:
      vals, _ = self.propagate(st, None, None)
      r = self.rdy[st.key()] = vals[self.D.o_req_rdy]
    return r

  def note(self, rq, rs, r_en, m_en, ty):
    x = []
    if rq is not None: x.append('accept ' + rq)
    if rs is not None: x.append(f'memresp type {rs}')
    if m_en: x.append(f'memreq type {ty}')
    if r_en: x.append('response')
    return '[' + ', '.join(x) + ']' if x else '.'

  def name(self, st):
    d = {}
    for s, v in zip(self.regs[:self.ctrl_n], st.regs):
      nm, pos, w = self.M.label(s)
      if v < 2: d[nm] = d.get(nm, 0) | (v << pos)
    out = [f"{k.split('.', 2)[-1].replace('.out', '')}={v}" for k, v in sorted(d.items()) if v]
    return f"(pending={st.mon} memq={st.queue} {' '.join(out)})"
