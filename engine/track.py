"""Tracking one request through the cache.

The request R is accepted in some reachable control location; from then on the
analysis knows, as value numbers over R's fields, the contents of the set R
addresses (tag entries and lines of every way, replacement bit) and the
memory's answer.  Everything else is unknown.  Obligations compare what the
update blocks drive onto the interfaces and into the SRAMs with the reference
meaning of the request (spec.py).
"""

from netlist import AnalysisError
from spec import Spec, CLASSES
from tx import Base, State, CTX

ACCEPT = ('READ', 'WRITE', 'INIT', 'AMO', 'INV', 'FLUSH')
CLSP = {'READ': (), 'WRITE': (), 'INIT': ('P30',), 'AMO': ('P11',), 'INV': ('P12',), 'FLUSH': ('P13',),
        'RESET': ('P14',)}


class Mon:
  """monitor typestate of the tracked request (immutable)"""
  __slots__ = ('ahead', 'nreq', 'got', 'frozen', 'wr', 'succ', 'age', 'since')

  def __init__(self, ahead, nreq=0, got=0, frozen=0, wr=0, succ=0, age=0, since=0):
    self.ahead, self.nreq, self.got, self.frozen, self.wr, self.succ = ahead, nreq, got, frozen, wr, succ
    self.age, self.since = age, since

  def key(self): return (self.ahead, self.nreq, self.got, self.frozen, self.wr, self.succ, self.age, self.since)

  def __eq__(self, o): return self.key() == o.key()

  def __hash__(self): return hash(self.key())

  def __repr__(self):
    return f"(ahead={self.ahead} memreqs={self.nreq} answered={self.got} sealed={self.frozen})"

  def with_(self, **kw):
    d = dict(ahead=self.ahead, nreq=self.nreq, got=self.got, frozen=self.frozen, wr=self.wr, succ=self.succ, age=self.age, since=self.since)
    d.update(kw)
    return Mon(**d)


class Tracked(Base):

  def __init__(self, U, cls, sink, deadline=None, overlap=True, friendly=False, maxlocs=60000, fmap=None, timing=False):
    """U: the completed untracked exploration of the same design"""
    D = U.D
    super().__init__(D, sink, deadline)
    self.U, self.cls, self.overlap, self.friendly, self.maxlocs = U, cls, overlap, friendly, maxlocs
    self.const_bits = U.const_bits
    self.timing = timing
    B, cfg = self.B, self.cfg
    P = self.P
    self.xp = CLSP[cls]
    # the request
    self.set_free = cls in ('INV', 'FLUSH', 'RESET')
    K = self.atoms('K.index', 'index', cfg.idx_w)
    off = self.atoms('R.addr.offset', 'offset', cfg.off_w)
    tag = self.atoms('R.addr.tag', 'tag', cfg.tag_w)
    ridx = self.atoms('R.addr.index', 'index', cfg.idx_w) if self.set_free else K
    R = {}
    for f, s in D.i_req.items():
      n = len(s)
      if f == 'addr': R[f] = off + ridx + tag
      elif f == 'type_':
        t = CLASSES.get(cls)
        R[f] = self.atoms('R.type', 'type_', n) if t is None and cls == 'AMO' else self.cbits(t or 0, n)
      else: R[f] = self.atoms('R.' + f, f, n)
    self.R, self.K = R, K
    E = []
    for w in range(cfg.asso):
      E.append({f: self.atoms(f'E{w}.{f}', f, x[1]) for f, x in D.tag_layout.items()})
    L = [self.atoms(f'L{w}', 'data', cfg.clw) for w in range(cfg.asso)]
    MEM = self.atoms('MEM', 'data', cfg.clw)
    self.MEM = MEM
    # replacement bits
    self.rep0 = {}
    for j, s in enumerate(D.rep_slots):
      if s in self.const_bits: self.rep0[s] = self.const_bits[s]
      else: self.rep0[s] = self.atoms('rep', 'rep', len(D.rep_slots))[j]
    rep = 0
    for j, s in enumerate(D.rep_slots):
      rep = B.ITE(self.kis(j), self.rep0[s], rep)
    self.S = Spec(cfg, B, cls if cls != 'RESET' else 'INIT', R, K, E, L, rep, MEM)
    self.C0 = B.AND(self.S.legal(), self.S.unique()) if cls != 'RESET' else 1
    self.E0, self.L0 = E, L
    self.ent = {m: self.pack_entry(E[w]) for w, m in enumerate(D.tag_srams)}
    self.fmap = fmap
    # junk: values never produced by a defined source
    self.junk_cell = {}
    self.junk = set()
    for m in self.srams:
      for a in self.fresh[m]: self.junk.add(B.rank[a])
    self._natoms = 0
    self._keep = {}
    self._simp = {}
    self._proj = {}
    self.locs = {}
    self._spec_cache()

  def kis(self, k):
    B = self.B
    r = 1
    for i, b in enumerate(self.K): r = B.AND(r, b if (k >> i) & 1 else B.NOT(b))
    return r

  def pack_entry(self, e):
    n = sum(x[1] for x in self.D.tag_layout.values())
    out = [0] * len(self.D.sp[self.D.tag_srams[0]]['rdata'])
    for f, (lo, w, _) in self.D.tag_layout.items():
      out[lo:lo + w] = e[f]
    return tuple(out)

  def field(self, vec, f):
    lo, w, _ = self.D.tag_layout[f]
    return vec[lo:lo + w]

  def atoms(self, name, f, n):
    from tx import PRIO
    pr = PRIO.get(f, 5)
    out = []
    for i in range(n):
      pos = 0 if pr == 1 else (i % 32 if f == 'data' else n - 1 - i)
      a = self.B.atom((name, i), pr, pos)
      self.persist.add(self.B.rank[a])
      out.append(a)
    return tuple(out)

  def _spec_cache(self):
    S, B = self.S, self.B
    ws = list(S.ways())
    self.sp_evict = [S.evict(w) for w in ws]
    self.sp_any_evict = B.any(self.sp_evict)
    self.sp_fetch = S.fetch()
    self.sp_test = S.anyhit() if self.cls in ('READ', 'WRITE') else 0
    if self.cls == 'READ': self.sp_data = S.load(S.served())
    elif self.cls == 'AMO': self.sp_data = tuple(self.MEM[:32]) + (0,) * (self.cfg.dbw - 32)
    else: self.sp_data = (0,) * self.cfg.dbw
    self.sp_entry = [S.final_entry(w) for w in ws]
    self.sp_line = [S.final_line(w) for w in ws]
    self.sp_rep = S.final_rep()
    if self.cls == 'INIT':
      # the line becomes valid with the addressed bytes in place
      self.sp_store = S.store_data()
      self.sp_en = S.byte_en()

  # ---- small vector helpers ----------------------------------------------
  def eqv(self, x, y):
    B = self.B
    r = 1
    for p, q in zip(x, y):
      r = B.AND(r, B.XNOR(p, q))
      if r == 0: break
    return r

  def idx_is(self, bits, k_bits):
    n = max(len(bits), len(k_bits))
    x = tuple(bits) + (0,) * (n - len(bits))
    y = tuple(k_bits) + (0,) * (n - len(k_bits))
    return self.eqv(x, y)

  # ---- keeping and forgetting values -------------------------------------
  def simplify(self, x, C):
    """x as a function of the persistent atoms wherever C holds, or None"""
    B = self.B
    y = B.restrict(x, C)
    if y < 2: return y
    if self.known_fn(x): return x
    if self.known_fn(y): return y
    k = (y, C)
    r = self._simp.get(k, False)
    if r is False:
      self._simp[k] = r = None
      unk = B.support(y) - self.persist
      free = unk - B.support(C)
      if free and B.lo[y] < 2 and B.hi[y] < 2: return None
      Cy = self.project(C, unk & B.support(C))
      for a in free:
        if B.AND(Cy, B.XOR(B.cofactor(y, {a: 0}), B.cofactor(y, {a: 1}))): return None
      f1, f0 = self.forget(B.AND(Cy, y)), self.forget(B.AND(Cy, B.NOT(y)))
      if B.AND(f1, f0) == 0: r = B.restrict(f1, B.OR(f1, f0))
      self._simp[k] = r
    return r

  def project(self, C, keep):
    """C on the persistent atoms and keep"""
    k = (C, keep)
    r = self._proj.get(k)
    if r is None:
      tr = self.B.support(C) - self.persist - keep
      r = self._proj[k] = self.B.exists(C, tr) if tr else C
    return r

  def keep(self, s, x, C):
    """abstract value of register bit s at the next location"""
    k = (s, x, C)
    r = self._keep.get(k)
    if r is None:
      B = self.B
      r = self.simplify(x, C)
      if r is None:
        r = self.junk_of(s) if (B.support(B.restrict(x, C)) & self.junk) else self.cell[s]
      self._keep[k] = r
    return r

  def scan_junk(self):
    n = len(self.B.atom_of)
    if n != self._natoms:
      self._natoms = n
      for name, a in self.B.atom_of.items():
        if str(name[0]).startswith(('unread', 'undefined', 'undriven', 'latch', 'oob')): self.junk.add(self.B.rank[a])

  def junk_of(self, s):
    a = self.junk_cell.get(s)
    if a is None:
      nm, pos, w = self.M.label(s)
      a = self.B.atom(('undefined ' + nm, pos), 5, w - 1 - pos)
      self.junk_cell[s] = a
      self.junk.add(self.B.rank[a])
    return a

  def keepv(self, cells, vec, C):
    out = []
    for c, x in zip(cells, vec):
      if x > 1:
        x = self.simplify(x, C)
        if x is None: x = c
      out.append(x)
    return tuple(out)

  # ---- exploration ---------------------------------------------------------
  def add(self, s2):
    k = s2.key()
    old = self.locs.get(k)
    if old is None:
      self.locs[k] = s2
      self.todo.append(s2)
      if len(self.locs) > self.maxlocs:
        raise AnalysisError(f'more than {self.maxlocs} locations')
    else:
      c = self.B.OR(old.C, s2.C)
      if c != old.C:
        old.C = c
        if not old.pending:
          self.todo.append(old)
          old.pending = True

  def explore(self, starts):
    self.todo = []
    self.paths_done = 0
    for st in starts:
      self.step(st, accept=True)
    while self.todo:
      st = self.todo.pop()
      st.pending = False
      self.step(st)

  def start(self, u):
    """tracked state standing for an untracked location"""
    st = TState()
    st.regs = tuple(self.tail(i, v) for i, v in enumerate(u.regs))
    st.dout = tuple(self.dcell[m] for m in self.srams)
    st.known = None
    st.queue = tuple(('x', t) for t in u.queue)
    st.mon = Mon(u.mon)
    st.C = self.C0
    st.parent, st.note, st.pending = None, self.U.name(u) + ' ' + self.U.chain(u, 6), False
    return st

  def tail(self, i, v): return v

  def step(self, st, accept=False):
    mon = st.mon
    fr = self.friendly
    if accept: reqs = [self.cls]
    elif self.overlap and not fr: reqs = [None] + list(ACCEPT)
    else: reqs = [None]
    if self.cls == 'RESET':
      self.reset_edge(st)
      return
    resps = [None]
    if st.queue:
      resps = [st.queue[0]] if fr else [None, st.queue[0]]
    for rs in resps:
      rdy = None
      for rq in reqs:
        if rq is not None and not accept:
          if self.B.AND(st.C, rdy) == 0: continue
        rdy = self.edge(st, rq, rs, accept)

  def req_msg(self, rq, accept):
    if rq is None: return None
    if accept: return self.R
    return {'type_': self.cbits(CTX[rq], 4)}

  def resp_msg(self, st, rs):
    if rs is None: return None
    owner, t = rs
    ty = self.R['type_'] if t == 'a' else self.cbits({'r': 0, 'w': 1}.get(t, t), 4)
    m = {'type_': ty}
    if owner == 'R':
      m['opaque'] = self.R['opaque']
      if t in ('r', 'a') and not st.mon.got: m['data'] = self.MEM
    return m

  def edge(self, st, rq, rs, accept):
    D, B, sink, S = self.D, self.B, self.sink, self.S
    fr = self.friendly
    vals, nxt = self.propagate(st, self.req_msg(rq, accept), self.resp_msg(st, rs), 1 if fr else None, 1 if fr else None)
    rdy = vals[D.o_req_rdy]
    C = st.C
    if rq is not None:
      C = B.AND(C, rdy)
      if C == 0: return rdy
    mon = st.mon
    frozen_after = mon.frozen or (rq is not None and not accept)
    # facts to decide on this edge
    facts = [vals[D.o_resp_en], vals[D.o_mreq_en]]
    mems = []
    for m in self.srams:
      sp = D.sp[m]
      v, t = vals[sp['val'][0]], vals[sp['type'][0]]
      idx = [vals[x] for x in sp['idx']]
      if v == 0:
        mems.append((m, 0, 0, (), ()))
        continue
      if mon.frozen: eqs = ()
      elif m is D.data_sram:
        eqs = () if accept else tuple(self.idx_is(idx, f) for f in self.fmap) if self.fmap is not None else ()
      elif frozen_after: eqs = ()          # the successor's lookup
      else: eqs = (self.idx_is(idx, self.K),)
      t = B.AND(v, t)
      eqn = tuple(B.AND(v, e) for e in eqs)
      facts += [v, t] + list(eqn)
      mems.append((m, v, t, eqs, eqn))
    # which way a flush write-back belongs to
    fl = ()
    m_en = vals[D.o_mreq_en]
    if self.cls == 'FLUSH' and m_en:
      a = [vals[s] for s in D.o_mreq['addr']]
      c = self.cfg
      ours = B.AND(m_en, self.eqv(a[c.off_w:c.off_w + c.idx_w], self.K))
      fl = tuple(B.all([ours, S.dirty(w), self.eqv(a[c.off_w + c.idx_w:], self.E0[w]['tag'])]) for w in S.ways())
      facts += [ours] + list(fl)
      self._ours = ours
    facts += [nxt[s] for s in D.ctrl_slots]
    self.scan_junk()
    if sink.ok(('P22',)): self.no_junk(st, C, vals, nxt)
    for Cv, asg in self.split(C, facts):
      self.branch(st, rq, rs, accept, vals, nxt, Cv, asg, mems, fl, frozen_after)
    return rdy

  def no_junk(self, st, C, vals, nxt):
    """control never depends on a value no defined source produced"""
    D, B, sink = self.D, self.B, self.sink
    checks = [('response-valid', [D.o_resp_en]), ('memreq-valid', [D.o_mreq_en]), ('ready', [D.o_req_rdy])]
    checks += [('sram-' + n, D.sp[m][n]) for m in self.srams for n in ('val',)]
    checks += [('control ' + self.M.label(s)[0], [s]) for s in D.ctrl_slots]
    for nm, slots in checks:
      for s in slots:
        f = nxt[s] if nm.startswith('control') else vals[s]
        if f < 2: continue
        j = B.support(f) & self.junk
        if not j: continue
        js = frozenset(B.support(B.AND(C, f)) & self.junk)
        if js: bad = B.AND(B.exists(B.AND(C, f), js), B.exists(B.AND(C, B.NOT(f)), js))
        else: bad = 0
        sink.oblige(B, ('P22',), 1, B.NOT(bad), (self.cls, 'undefined', nm),
                    lambda: f'{nm} depends on a value nothing has written [{self.blame([s])}] at {self.chain(st)}')
      sink.oblige(B, ('P22',), 1, 1, (self.cls, 'undefined', nm), lambda: '')

  # ---- initialisation after reset --------------------------------------------
  def reset_start(self):
    nxt = self.U.reset_next
    st = TState()
    st.regs = tuple(nxt[s] if nxt[s] < 2 else self.cell[s] for s in self.regs)
    for s in self.D.rep_slots: self.rep0[s] = nxt[s]
    st.dout = tuple(self.dcell[m] for m in self.srams)
    st.known = (tuple(self.ent[m] for m in self.D.tag_srams), tuple(self.L0))
    st.queue, st.mon, st.C = (), Mon(0), 1
    st.parent, st.note, st.pending = None, 'reset', True
    return st

  def explore_reset(self):
    D, B, sink = self.D, self.B, self.sink
    self.todo, self.paths_done = [], 0
    st = self.reset_start()
    bad = [s for s in D.rep_slots if st.regs[self.regs.index(s)] != 0]
    sink.oblige(B, ('P14',), 1, 0 if bad else 1, ('RESET', 'rep'), lambda: f'replacement state not cleared by reset [{self.blame(bad)}]')
    self.add(st)
    while self.todo:
      st = self.todo.pop()
      st.pending = False
      self.step(st)

  def reset_edge(self, st):
    D, B, sink = self.D, self.B, self.sink
    vals, nxt = self.propagate(st, None, None)
    rdy = vals[D.o_req_rdy]
    where = lambda: f"after reset; {self.chain(st)}"
    for nm, s in (('response', D.o_resp_en), ('memory request', D.o_mreq_en)):
      sink.oblige(B, ('P14',), st.C, B.NOT(vals[s]), ('RESET', nm), lambda: f'a {nm} is sent before the cache is ready [{self.blame([s])}] {where()}')
    C = B.AND(st.C, rdy)
    if C:
      self.paths_done += 1
      for i, m in enumerate(D.tag_srams):
        e = st.known[0][i]
        b = D.sp[m]['val'] + D.sp[m]['wdata'] + D.sp[m]['idx']
        for f in ('val', 'dty'):
          sink.oblige(B, ('P14',), C, B.NOT(B.any(self.field(e, f))), ('RESET', 'ready-' + f, i),
                      lambda: f'way {i} may hold a stale {f} bit when the cache becomes ready [{self.blame(b)}] {where()}')
    C = B.AND(st.C, B.NOT(rdy))
    if C == 0: return
    facts, mems = [], []
    for m in self.srams:
      sp = D.sp[m]
      v, t = vals[sp['val'][0]], vals[sp['type'][0]]
      eq = self.idx_is([vals[x] for x in sp['idx']], self.K) if m in D.tag_srams else 0
      w = B.all([v, t, eq])
      facts.append(w)
      mems.append((m, w))
    for Cv, asg in self.split(C, facts + [nxt[s] for s in D.ctrl_slots]):
      ent = dict(zip(D.tag_srams, st.known[0]))
      for m, w in mems:
        if m in ent and asg.get(w, w) == 1:
          sp = D.sp[m]
          wd, wb = [vals[x] for x in sp['wdata']], [vals[x] for x in sp['wben']]
          ent[m] = self.keepv(self.dcell[m], [B.ITE(e, d, o) for e, d, o in zip(wb, wd, ent[m])], Cv)
      s2 = TState()
      n = len(D.ctrl_slots)
      s2.regs = tuple((asg[nxt[s]] if nxt[s] > 1 else nxt[s]) if i < n else self.keep(s, nxt[s], Cv) for i, s in enumerate(self.regs))
      s2.dout, s2.queue, s2.mon = st.dout, (), st.mon
      s2.known = (tuple(ent[m] for m in D.tag_srams), st.known[1])
      s2.C = self.project(Cv, frozenset())
      s2.parent, s2.note, s2.pending = st, '.', True
      self.add(s2)

  # ---- one resolved edge ---------------------------------------------------
  def branch(self, st, rq, rs, accept, vals, nxt, Cv, asg, mems, fl, frozen_after):
    D, B, sink, S, cfg = self.D, self.B, self.sink, self.S, self.cfg
    mon = st.mon
    resp, mreq = asg[vals[D.o_resp_en]], asg[vals[D.o_mreq_en]]
    where = lambda: f"{self.cls} request; {note} <- {self.chain(st)}"
    note = self.note(rq, rs, resp, mreq)
    new = mon
    q = st.queue[1:] if rs is not None else st.queue
    if rs is not None and rs[0] == 'R' and rs[1] in ('r', 'a'): new = new.with_(got=1)
    if self.timing and not accept: new = new.with_(age=min(mon.age + 1, 4), since=min(mon.since + 1, 6) if mon.got else 0)
    done = False

    def need(props, good, key, msg, blame=()):
      props = tuple(dict.fromkeys(props))
      return sink.oblige(B, props, Cv, good, (self.cls,) + key, lambda: f"{msg} [{self.blame(blame)}] {where()}")

    def needv(props, g, xs, ys, key, msg, blame=()):
      # bit by bit, so that a mismatch stays a small value
      props = tuple(dict.fromkeys(props))
      if not sink.ok(props): return
      bad = 0
      cg = B.AND(Cv, g)
      if cg:
        for x, y in zip(xs, ys):
          if x != y:
            bad = B.AND(cg, B.XOR(x, y))
            if bad: break
      sink.oblige(B, props, bad, 0, (self.cls,) + key, lambda: f"{msg} [{self.blame(blame)}] {where()}")
    need.v = needv
    if self.timing and not accept: self.ready_again(new, vals[D.o_req_rdy], need)

    # -- memory request ------------------------------------------------------
    if mreq:
      kind = self.memreq(st, new, vals, Cv, asg, fl, need)
      if kind is not None:
        q = q + (('R', kind),)
        new = new.with_(nreq=min(new.nreq + 1, 3))
        if fl:
          wr = new.wr
          for w in S.ways():
            if asg.get(fl[w], fl[w]) == 1: wr |= 1 << w
          new = new.with_(wr=wr)

    # -- SRAMs -----------------------------------------------------------------
    dout, known = self.memories(st, accept, rq, vals, Cv, asg, mems, frozen_after, need)

    # -- response ----------------------------------------------------------------
    if resp:
      if new.ahead > 0: new = new.with_(ahead=new.ahead - 1)
      else:
        self.response(st, new, vals, Cv, need, q)
        done = True

    # -- sealing the final contents -----------------------------------------------
    if not mon.frozen and known is not None and not accept and (done or frozen_after):
      self.final(st, nxt, known, Cv, need, rq is not None)
      new = new.with_(frozen=1)
    if frozen_after: known = None
    if done:
      self.paths_done += 1
      return
    s2 = TState()
    n = len(D.ctrl_slots)
    regs = []
    for i, s in enumerate(self.regs):
      x = nxt[s]
      if i < n: regs.append(asg[x] if x > 1 else x)
      elif x < 2: regs.append(x)
      else: regs.append(self.keep(s, x, Cv))
    if accept:
      for s, v in self.rep0.items(): regs[self.regs.index(s)] = v
    s2.regs = tuple(regs)
    s2.dout = dout
    s2.known = known
    s2.queue = q
    if rq is not None and not accept: new = new.with_(succ=min(new.succ + 1, 3))
    s2.mon = new
    s2.C = self.project(Cv, frozenset())
    s2.parent, s2.note, s2.pending = st, note, True
    if len(q) > 6: return
    self.add(s2)

  def note(self, rq, rs, resp, mreq):
    x = []
    if rq is not None: x.append('accept ' + rq)
    if rs is not None: x.append('memresp ' + str(rs[1]))
    if mreq: x.append('memreq')
    if resp: x.append('response')
    return '[' + ', '.join(x) + ']' if x else '.'

  # ---- SRAM ports ------------------------------------------------------------
  def memories(self, st, accept, rq, vals, Cv, asg, mems, frozen_after, need):
    D, B = self.D, self.B
    g = lambda n: asg.get(n, n)
    if st.known is None and not (accept):
      ent = lines = None
    elif accept:
      ent = dict(self.ent)
      lines = list(self.L0)
    else:
      ent, lines = dict(zip(D.tag_srams, st.known[0])), list(st.known[1])
    dout = []
    for m, v, t, eqs, eqn in mems:
      sp = D.sp[m]
      if g(v) == 0:
        dout.append(self.fresh[m])
        continue
      if g(t) == 1:                       # write
        dout.append(self.fresh[m])
        if ent is None or st.mon.frozen: continue
        if m is D.data_sram:
          if accept: continue             # the predecessor's store
          if self.fmap is None: continue
          hit = [w for w in range(len(eqs)) if g(eqn[w]) == 1]
          self.foreign(m, 1 if hit else 0, need)
          if not hit: continue
          wd, wb = [vals[x] for x in sp['wdata']], [vals[x] for x in sp['wben']]
          for w in hit:
            lines[w] = self.keepv(self.dcell[m], [B.ITE(e, d, o) for e, d, o in zip(wb, wd, lines[w])], Cv)
        else:
          if accept and self.cls not in ('INIT', 'RESET'):
            # the request and another tag update in the same cycle
            need(('P29',), 0, ('tag-write-on-accept',), 'a tag array is written in the cycle a request is accepted', sp['val'])
            continue
          if frozen_after: continue        # the successor's own
          self.foreign(m, 1 if g(eqn[0]) == 1 else 0, need)
          if g(eqn[0]) != 1: continue
          wd, wb = [vals[x] for x in sp['wdata']], [vals[x] for x in sp['wben']]
          ent[m] = self.keepv(self.dcell[m], [B.ITE(e, d, o) for e, d, o in zip(wb, wd, ent[m])], Cv)
        continue
      # read
      if ent is None or st.mon.frozen:
        dout.append(self.dcell[m])
      elif m is D.data_sram:
        hit = [w for w in range(len(eqs)) if g(eqn[w]) == 1]
        if hit and not accept: dout.append(lines[hit[0]])
        else: dout.append(self.dcell[m])
        if self.fmap is None: self.learn(vals, m, Cv)
      else:
        dout.append(ent[m] if eqn and g(eqn[0]) == 1 else self.dcell[m])
    known = None if ent is None else (tuple(ent[m] for m in D.tag_srams), tuple(lines))
    return tuple(dout), known

  def foreign(self, m, ok, need):
    if self.set_free: return
    what = 'data' if m is self.D.data_sram else 'tag'
    need(('P29',) + self.xp, ok, ('foreign-write', what),
         f'the {what} array is written at an index the request does not address', self.D.sp[m]['idx'])

  def learn(self, vals, m, Cv): pass

  # ---- obligations -------------------------------------------------------------
  def memreq(self, st, mon, vals, Cv, asg, fl, need):
    """a memory request while R is outstanding.  Returns the kind of answer"""
    D, B, S, cfg = self.D, self.B, self.S, self.cfg
    o = {f: [vals[s] for s in sl] for f, sl in D.o_mreq.items()}
    n = mon.nreq
    cls = self.cls
    ob = D.o_mreq
    if cls in ('INIT', 'INV', 'RESET'):
      need(('P10',) + self.xp, 0, ('unexpected-memreq',), 'a memory request is sent for a request that needs none', [D.o_mreq_en])
      return 'w'
    if cls in ('READ', 'WRITE', 'AMO'): need(('P32',), self.eqv(o['opaque'], self.R['opaque']), ('memreq-opaque',),
         'a memory request does not carry the opaque tag of the request it serves', ob['opaque'])
    tyw = S.eqk(o['type_'], 1)
    tyr = S.eqk(o['type_'], 0)
    if cls == 'FLUSH':
      need(('P13',), tyw, ('flush-type',), 'a flush sends a memory request that is not a write', ob['type_'])
      ours = asg.get(self._ours, self._ours)
      if ours == 1:
        good = 0
        for w in S.ways():
          if asg.get(fl[w], fl[w]) != 1 or (mon.wr >> w) & 1: continue
          good = B.OR(good, S.dirty(w))
        need(('P13', 'P08'), good, ('flush-line',), 'a flush writes back a line that is not dirty, or twice', ob['addr'])
        for w in S.ways():
          if asg.get(fl[w], fl[w]) == 1: self.writeback(w, o, 1, need, ('P13', 'P08', 'P06'), 'flush')
      return 'w'
    ev = self.sp_any_evict
    if n == 0:
      p = ('P08', 'P10') + self.xp
      need(p, B.XNOR(tyw, ev), ('first-memreq-type',),
           'the first memory request is a write-back exactly when the displaced line is dirty: violated', ob['type_'])
      isw = tyw
      need(('P10', 'P07') + self.xp, B.OR(ev, self.sp_fetch), ('memreq-on-hit',), 'a memory request is sent for a hit', [D.o_mreq_en])
    elif n == 1:
      need(('P10', 'P08') + self.xp, B.AND(ev, B.NOT(tyw)), ('second-memreq',),
           'a second memory request that is not the fetch following a write-back', ob['type_'])
      isw = tyw
    else:
      need(('P10',) + self.xp, 0, ('extra-memreq',), 'more memory requests than the request needs', [D.o_mreq_en])
      isw = tyw
    cw = B.AND(Cv, isw)
    if n == 0 and cw:
      for w in S.ways():
        self.writeback(w, o, B.AND(isw, self.sp_evict[w]), need, ('P08', 'P06') + self.xp, 'evict')
    nf = B.NOT(isw)
    if B.AND(Cv, nf):
      if cls == 'AMO':
        need(('P11',), B.OR(isw, self.eqv(o['type_'], self.R['type_'])), ('amo-type',),
             'the atomic is forwarded with another type', ob['type_'])
        need(('P11',), B.OR(isw, self.eqv(o['addr'], self.R['addr'])), ('amo-addr',),
             'the atomic is forwarded to another address', ob['addr'])
        need(('P11',), B.OR(isw, S.eqk(o['len'], 4)), ('amo-len',), 'the atomic is forwarded with a length other than 4', ob['len'])
        need.v(('P11',), nf, o['data'][:32], self.R['data'][:32], ('amo-data',),
             'the atomic is forwarded with another operand', ob['data'])
      else:
        need(('P10',), B.OR(isw, tyr), ('fetch-type',), 'the refill request is not a read', ob['type_'])
        need(('P10',), B.OR(isw, self.eqv(o['addr'], (0,) * cfg.off_w + tuple(self.R['addr'][cfg.off_w:]))),
             ('fetch-addr',), 'the refill request does not read the line of the request', ob['addr'])
        need(('P10',), B.OR(isw, S.eqk(o['len'], 0)), ('fetch-len',), 'the refill request is not a full line', ob['len'])
    if cw == Cv: return 'w'
    if cw == 0: return 'a' if cls == 'AMO' else 'r'
    return 'w' if n == 0 else ('a' if cls == 'AMO' else 'r')

  def writeback(self, w, o, g, need, props, tag):
    """under g the request on the memory port is the write-back of way w"""
    D, B, S, cfg = self.D, self.B, self.S, self.cfg
    if g == 0: return
    ng = B.NOT(g)
    ob = D.o_mreq
    addr = (0,) * cfg.off_w + tuple(self.K) + tuple(self.E0[w]['tag'])
    need(props, B.OR(ng, self.eqv(o['addr'], addr)), (tag + '-addr',), 'a write-back goes to an address other than that of the line', ob['addr'])
    need(props, B.OR(ng, S.eqk(o['len'], 0)), (tag + '-len',), 'a write-back is not a full line', ob['len'])
    need(props, B.OR(ng, self.eqv(o['wr_mask'], self.E0[w]['dty'])), (tag + '-mask',),
         'a write-back does not carry exactly the dirty words of the line', ob['wr_mask'])
    for k in range(cfg.ndty):
      need.v(props, B.AND(g, self.E0[w]['dty'][k]), o['data'][32 * k:32 * k + 32], self.L0[w][32 * k:32 * k + 32],
             (tag + '-data',), 'a write-back does not carry the stored data of the dirty words', ob['data'])

  def response(self, st, mon, vals, Cv, need, q):
    D, B, S = self.D, self.B, self.S
    o = {f: [vals[s] for s in sl] for f, sl in D.o_resp.items()}
    ob = D.o_resp
    cls = self.cls
    R = self.R
    if self.timing: self.on_time(mon, need)
    for f in ('type_', 'opaque', 'len'):
      need(('P03',) + (('P02',) if f == 'opaque' else ()), self.eqv(o[f], R[f]), ('resp-' + f,),
           f'the response does not echo the {f} of the request', ob[f])
    props = {'READ': ('P04',), 'WRITE': ('P04',), 'AMO': ('P11',)}.get(cls, ('P04',) + self.xp)
    need.v(props, 1, o['data'], self.sp_data, ('resp-data',), 'the response does not carry the right data', ob['data'])
    test = tuple([self.sp_test] + [0] * (len(o['test']) - 1))
    need(('P07',) + self.xp, self.eqv(o['test'], test), ('resp-test',), 'the response misreports hit or miss', ob['test'])
    if cls in ('READ', 'WRITE', 'AMO'):
      n = mon.nreq
      x = self.xp
      need(('P08',) + x, B.OR(B.NOT(self.sp_any_evict), 1 if n >= 1 else 0), ('no-writeback',),
           'the request completes without writing the dirty line back', [D.o_mreq_en])
      nf = B.OR(B.NOT(self.sp_fetch), B.ITE(self.sp_any_evict, 1 if n >= 2 else 0, 1 if n >= 1 else 0))
      need(('P10', 'P07') + x, nf, ('no-fetch',), 'the request completes without the memory access it needs', [D.o_mreq_en])
      need(('P10', 'P02') + x, B.OR(B.NOT(self.sp_fetch), mon.got), ('early-response',),
           'the request completes before memory answered', [D.o_resp_en])
    if cls == 'FLUSH':
      for w in S.ways():
        need(('P13',), B.OR(B.NOT(S.dirty(w)), (mon.wr >> w) & 1), ('flush-missing',),
             'a flush completes without writing a dirty line back', [D.o_mreq_en])
      need(('P13',), 0 if any(x[0] == 'R' for x in q) else 1, ('flush-early',),
           'a flush completes before its write-backs are acknowledged', [D.o_resp_en])

  def hit_or_init(self):
    return 1 if self.cls == 'INIT' else self.S.anyhit() if self.cls in ('READ', 'WRITE') else 0

  def ready_again(self, mon, rdy, need):
    """when the next request can be accepted, nothing being refused"""
    B, S, D = self.B, self.S, self.D
    h = self.hit_or_init()
    if self.cls == 'READ': now = h
    elif self.cls == 'WRITE':
      now = B.any([B.AND(S.hit(w), B.all([B.OR(B.NOT(t), d) for t, d in zip(S.touched(), self.E0[w]['dty'])])) for w in S.ways()])
    elif self.cls == 'INIT': now = 1
    else: now = 0
    if mon.age == 1:
      need(('P33',), B.OR(B.NOT(now), rdy), ('ready-next-cycle',), 'a hit keeps the next request waiting', [D.o_req_rdy])
    if mon.age == 2:
      need(('P33',), B.OR(B.NOT(h), rdy), ('ready-after-clean-hit',), 'a hit keeps the next request waiting for more than one cycle', [D.o_req_rdy])

  def on_time(self, mon, need):
    B, D = self.B, self.D
    h = self.hit_or_init()
    need(('P33',), B.OR(B.NOT(h), 1 if mon.age == 2 else 0), ('hit-latency',), 'a hit is not answered two cycles after it was accepted', [D.o_resp_en])
    if self.cls in ('READ', 'WRITE', 'AMO') and mon.got:
      n = 3 if self.cls == 'AMO' else 4
      need(('P33',), 1 if mon.since == n else 0, ('miss-latency',), f'the answer comes not {n} but {mon.since} cycles after memory answered', [D.o_resp_en])

  def final(self, st, nxt, known, Cv, need, at_accept):
    """contents of the addressed set once R is complete"""
    D, B, S, cfg, cls = self.D, self.B, self.S, self.cfg, self.cls
    # the tags the next request sees are those before this cycle's tag update
    ents = [self.pre_entry(st, m) if at_accept else known[0][i] for i, m in enumerate(D.tag_srams)]
    lines = known[1]
    xp = self.xp
    if cls == 'INIT':
      self.final_init(ents, lines, need)
      return
    for w, m in enumerate(D.tag_srams):
      e = ents[w]
      F = self.sp_entry[w]
      val, dty, tag = self.field(e, 'val'), self.field(e, 'dty'), self.field(e, 'tag')
      b = D.sp[m]['wdata'] + D.sp[m]['wben']
      need(xp or ('P07', 'P09'), self.eqv(val, F['val']), ('final-val', w), f'way {w} is left with the wrong valid bit', b)
      pd = xp or (('P06',) if cls == 'WRITE' else ('P06', 'P09'))
      need(pd, self.eqv(dty, F['dty']), ('final-dty', w), f'way {w} is left with the wrong dirty words', b)
      live = B.OR(F['val'][0], B.any(F['dty']))
      need(xp or ('P07', 'P09'), B.OR(B.NOT(live), self.eqv(tag, F['tag'])), ('final-tag', w), f'way {w} is left with the wrong tag', b)
      n = cfg.clw // 32
      for k in range(n):
        lv = B.OR(F['val'][0], F['dty'][k])
        p = xp or (('P05', 'P09') if cls == 'WRITE' else ('P09',))
        need.v(p, lv, lines[w][32 * k:32 * k + 32], self.sp_line[w][32 * k:32 * k + 32],
             ('final-data', w, k), f'way {w} word {k} is left with the wrong data',
             D.sp[D.data_sram]['wdata'] + D.sp[D.data_sram]['wben'])
    # replacement state
    if cls in ('READ', 'WRITE', 'AMO') and cfg.asso > 1:
      for j, s in enumerate(D.rep_slots):
        want = B.ITE(self.kis(j), self.sp_rep, self.rep0[s])
        need(('P15',), B.XNOR(nxt[s], want), ('final-rep',), 'the replacement state is not least-recently-used', [s])

  def pre_entry(self, st, m):
    return st.known[0][self.D.tag_srams.index(m)]

  def final_init(self, ents, lines, need):
    D, B, S, cfg = self.D, self.B, self.S, self.cfg
    # no way may hold a wrong byte behind a matching tag, and some way matches
    stored = [B.all([B.OR(B.NOT(self.sp_en[i // 8]), B.XNOR(lines[w][i], self.sp_store[i])) for i in range(cfg.clw)]) for w in S.ways()]
    need(('P30',), B.any(stored), ('init-stored',), 'a write-init leaves no line holding the written bytes', D.sp[D.data_sram]['wdata'] + D.sp[D.data_sram]['wben'])
    heres = [B.AND(self.field(e, 'val')[0], self.eqv(self.field(e, 'tag'), S.tag)) for e in ents]
    for w in S.ways():
      for i in range(cfg.clw):
        if lines[w][i] != self.sp_store[i]:
          need.v(('P30',), B.AND(heres[w], self.sp_en[i // 8]), [lines[w][i]], [self.sp_store[i]], ('init-data',),
                 'after a write-init a line matching the request does not hold the written bytes',
                 D.sp[D.data_sram]['idx'])
    for w, m in enumerate(D.tag_srams):
      dty = self.field(ents[w], 'dty')
      own = B.OR(S.hit(w), S.part(w))
      bad = B.any([B.AND(d, B.NOT(t)) for d, t in zip(dty, S.touched())])
      need(('P30',), B.NOT(B.all([heres[w], B.NOT(own), bad])), ('init-dirty',),
           'after a write-init words of the new line the request did not write are marked modified: they would be written back over memory', D.sp[m]['wdata'] + D.sp[m]['wben'])
    need(('P30',), B.any(heres), ('init-final',), 'after a write-init no valid line holds the written bytes',
         [x for m in D.tag_srams for x in D.sp[m]['val']] + D.sp[D.data_sram]['idx'])


class TState(State):
  __slots__ = ('pending',)


class Learner(Tracked):
  """where the data array keeps way w of set K (from the read of a hit)"""

  def learn(self, vals, m, Cv):
    B = self.B
    idx = [vals[s] for s in self.D.sp[m]['idx']]
    for w in self.S.ways():
      c = B.AND(Cv, B.all([self.S.hit(w)]))
      if c == 0 or w in self.found: continue
      f = tuple(B.restrict(x, c) for x in idx)
      ks = {B.rank[k] for k in self.K}
      if all(B.support(x) <= ks for x in f): self.found[w] = f
    if len(self.found) == self.cfg.asso: raise _Found()

  def response(self, *a): pass

  def memreq(self, *a): return 'r'

  def final(self, *a): pass

  def find(self):
    self.found = {}
    st = next(u for u in self.U.order if u.mon == 0 and not u.queue and
              self.B.AND(1, self.ready(u)) == 1)
    try: self.explore([self.start(st)])
    except _Found: pass
    if len(self.found) != self.cfg.asso: raise AnalysisError('cannot find where a hit reads the data array')
    return [self.found[w] for w in self.S.ways()]

  def ready(self, u):
    return self.U.rdy.get(u.key(), 0)


class _Found(Exception):
  pass
