"""Obligations on elaborated shapes: capacity, address partition, message
formats and type codes."""

import ast
import inspect

from jobs import register
from cache import Cfg, Design
from model import Model, is_sram
from netlist import AnalysisError, IllFormed, layout, is_struct
from tx import Sink, State, Untracked
from unitjobs import Out, clog2, params


def sram_shape(m):
  a = list(m._dsl.args)
  k = dict(getattr(m._dsl, 'kwargs', None) or {})
  words = k.get('num_words', a[1] if len(a) > 1 else None)
  if words is None: words = 1 << m.port0_idx._dsl.Type.nbits
  return m.port0_wdata._dsl.Type.nbits, words, m.port0_idx._dsl.Type.nbits


def ready_states(U, deadline):
  """control states after the initialisation walk, in which the cache accepts
  a first request (nothing has been offered or answered before)"""
  B, D = U.B, U.D
  todo, seen, out = list(U.initial()), set(), []
  while todo:
    st = todo.pop()
    if st.regs in seen: continue
    seen.add(st.regs)
    if len(seen) > 20000: raise AnalysisError('the initialisation walk does not end')
    vals, nxt = U.propagate(st, None, None)
    rdy = vals[D.o_req_rdy]
    if rdy: out.append((st, rdy))
    C = B.NOT(rdy)
    if C == 0: continue
    for Cv, asg in U.split(C, [nxt[s] for s in D.ctrl_slots]):
      s2 = State()
      s2.regs, s2.dout, s2.known, s2.queue, s2.mon, s2.C = U.pack(nxt, asg, Cv), st.dout, (), (), 0, 1
      s2.parent, s2.note = st, ''
      todo.append(s2)
  return out


def shape(out, cfg):
  p = params(cfg)
  what = f'cache({cfg})'
  n0 = out.n
  # address partition
  al = layout(p.StructAddr)
  want = {'offset': (0, cfg.off_w), 'index': (cfg.off_w, cfg.idx_w), 'tag': (cfg.off_w + cfg.idx_w, cfg.tag_w)}
  for f, (lo, w) in want.items():
    out.need(f in al and tuple(al[f][:2]) == (lo, w), 'shape/address-' + f,
             f'{what}: address field {f} is {al.get(f)}, expected {w} bits from bit {lo} (blocking_cache/CacheDerivedParams.py, cacheStructs.py mk_addr_struct)')
  # tag entry
  tl = layout(p.StructTagArray)
  for f, w in (('val', 1), ('dty', cfg.ndty), ('tag', cfg.tag_w)):
    out.need(f in tl and tl[f][1] == w, 'shape/entry-' + f,
             f'{what}: tag entry field {f} has {tl.get(f, (0, 0))[1]} bits, expected {w} (blocking_cache/cacheStructs.py mk_tag_array_struct)')
  used = sorted((lo, w) for lo, w, _ in tl.values())
  out.need(all(a + w <= b for (a, w), (b, _) in zip(used, used[1:])), 'shape/entry-overlap', f'{what}: tag entry fields overlap')
  # arrays
  D = Design(cfg)
  out.blocks += len(D.M.nl.blocks)
  b, w, i = sram_shape(D.data_sram)
  out.need(b == cfg.clw, 'shape/data-width', f'{what}: data array rows have {b} bits, expected {cfg.clw}')
  out.need(w >= cfg.nlines and (1 << i) >= cfg.nlines, 'shape/data-rows', f'{what}: the data array has {w} rows ({i} index bits) for {cfg.nlines} lines')
  out.need(len(D.tag_srams) == cfg.asso, 'shape/ways', f'{what}: {len(D.tag_srams)} tag arrays for {cfg.asso} ways')
  for m in D.tag_srams:
    b, w, i = sram_shape(m)
    out.need(b >= sum(x[1] for x in tl.values()), 'shape/tag-width', f'{what}: tag array rows have {b} bits, an entry needs {sum(x[1] for x in tl.values())}')
    out.need(w >= cfg.nblk and (1 << i) >= cfg.nblk, 'shape/tag-rows', f'{what}: a tag array has {w} rows ({i} index bits) for {cfg.nblk} sets')
  # the set a request looks up
  U = Untracked(D, Sink(want=()), overlap=False, deadline=out.job['deadline'])
  B, M = D.B, D.M
  look = [x for m in D.tag_srams for n in ('val', 'type', 'idx') for x in D.sp[m][n]]
  U.plan = M.plan(D.ctrl_slots + D.soft_slots + look + [D.o_req_rdy])
  ready = ready_states(U, out.job['deadline'])
  out.need(bool(ready), 'shape/ready', f'{what}: never becomes ready after reset')
  idx = U.t_req['addr'][cfg.off_w:cfg.off_w + cfg.idx_w]
  for st, go in ready:
    for t in (0, 1):
      vals, _ = U.propagate(st, {'type_': U.cbits(t, 4), 'addr': U.t_req['addr']}, None)
      go = vals[D.o_req_rdy]
      for m in D.tag_srams:
        sp = D.sp[m]
        g = [vals[x] for x in sp['idx']]
        same = B.all([B.NOT(B.XOR(x, y)) for x, y in zip(g, list(idx) + [0] * len(g))])
        out.need(B.AND(go, B.NOT(B.AND(vals[sp['val'][0]], B.NOT(vals[sp['type'][0]])))) == 0, 'shape/lookup',
                 f'{what}: a request does not read tag array {m!r} [{U.blame(sp["val"] + sp["type"])}]')
        out.need(B.AND(go, B.NOT(same)) == 0, 'shape/lookup-index',
                 f'{what}: tag array {m!r} is not read at the index field of the address [{U.blame(sp["idx"])}]')
  out.units.append(f'{what}: {out.n - n0}')


@register('shape')
def k_shape(job):
  out = Out(job)
  for c in job['cfgs']:
    try: shape(out, Cfg(*c))
    except IllFormed as e: out.need(False, 'shape/ill-formed', f'cache({Cfg(*c)}): {e}')
  return out.pack()


# ---------------------------------------------------------------------------
# message formats and codes
# ---------------------------------------------------------------------------

CODES = {'READ': 0, 'WRITE': 1, 'WRITE_INIT': 2, 'AMO_ADD': 3, 'AMO_AND': 4, 'AMO_OR': 5, 'AMO_SWAP': 6, 'AMO_MIN': 7,
         'AMO_MINU': 8, 'AMO_MAX': 9, 'AMO_MAXU': 10, 'AMO_XOR': 11, 'LR': 12, 'SC': 13, 'INV': 14, 'FLUSH': 15}
SHORT = {'INIT': 'WRITE_INIT'}


def codes(out):
  import mem_ifcs.MemMsg as mm
  import constants.constants as cc
  T = mm.MemMsgType
  for n, c in CODES.items():
    out.need(hasattr(T, n) and int(getattr(T, n)) == c, 'codes/type', f'mem_ifcs/MemMsg.py: MemMsgType.{n} is {getattr(T, n, None)}, the interface code is {c}')
    v = getattr(mm, 'MemMsgType_' + n, None)
    out.need(v is not None and int(v) == c and v.nbits == 4, 'codes/translated', f'mem_ifcs/MemMsg.py: MemMsgType_{n} is {v}, the interface code is 4 bits {c}')
  names = [T.str.get(c) for c in range(16)]
  out.need(None not in names and len(set(names)) == 16, 'codes/names', f'mem_ifcs/MemMsg.py: MemMsgType.str does not name every code differently: {names}')
  for n in list(CODES) + ['INIT', 'AMO']:
    if not hasattr(cc, n): continue
    c = 3 if n == 'AMO' else CODES[SHORT.get(n, n)]
    v = getattr(cc, n)
    out.need(int(v) == c and v.nbits == 4, 'codes/constants', f'constants/constants.py: {n} is {v!r}, the interface code is 4 bits {c}')
  for n, c in (('y', 1), ('n', 0), ('x', 0), ('wr', 1), ('rd', 0)):
    if hasattr(cc, n): out.need(int(getattr(cc, n)) == c and getattr(cc, n).nbits == 1, 'codes/flags', f'constants/constants.py: {n} is {getattr(cc, n)!r}, expected 1 bit {c}')
  import blocking_cache.cache_constants as k
  for pre in ('UpdateTagArrayUnit_CMD_', 'WriteBitEnGen_CMD_', 'CACHE_LINE_STATE_'):
    vs = {n: int(getattr(k, n)) for n in dir(k) if n.startswith(pre)}
    out.need(len(set(vs.values())) == len(vs), 'codes/commands', f'blocking_cache/cache_constants.py: two {pre}* constants share a code: {vs}')
  out.units.append('type codes')


def attrs(fn, mask):
  """fields of self a printer reads when has_wr_mask is mask"""
  tree = ast.parse(inspect.cleandoc('if 1:\n' + inspect.getsource(fn)))
  r = set()
  def walk(node):
    if isinstance(node, ast.If) and isinstance(node.test, ast.Name) and node.test.id == 'has_wr_mask':
      for x in (node.body if mask else node.orelse): walk(x)
      return
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == 'self': r.add(node.attr)
    for x in ast.iter_child_nodes(node): walk(x)
  walk(tree)
  return r


def message(out, opq, addr, data, mask):
  import mem_ifcs.MemMsg as mm
  req, resp = mm.mk_mem_msg(opq, addr, data, has_wr_mask=mask)
  what = f'mk_mem_msg({opq}, {addr}, {data}, {mask})'
  ln = clog2(data // 8)
  wreq = {'type_': 4, 'opaque': opq, 'addr': addr, 'len': ln, 'data': data}
  wresp = {'type_': 4, 'opaque': opq, 'test': 2, 'len': ln, 'data': data}
  if mask: wreq['wr_mask'] = wresp['wr_mask'] = data // 32
  for nm, T, want in (('request', req, wreq), ('response', resp, wresp)):
    got = {f: x[1] for f, x in layout(T).items()}
    for f in sorted(set(want) | set(got)):
      out.need(got.get(f) == want.get(f), f'messages/{nm}-{f}', f'{what}: {nm} field {f} has {got.get(f)} bits, the interface has {want.get(f)} (mem_ifcs/MemMsg.py)')
    out.need(T.data_nbits == data, 'messages/data-nbits', f'{what}: {nm}.data_nbits is {T.data_nbits}')
    fn = T.__dict__.get('__str__')
    if inspect.isfunction(fn):
      try: used = attrs(fn, mask)
      except (OSError, SyntaxError): used = set()
      bad = used - set(want)
      out.need(not bad, f'messages/{nm}-printer', f'{what}: the printer of a {nm} reads missing fields {sorted(bad)}')


@register('msg')
def k_msg(job):
  out = Out(job)
  codes(out)
  n = 0
  for opq in (1, 2, 8, 16):
    for addr in (16, 32, 40, 64):
      for data in (32, 64, 128, 256, 512):
        for mask in (False, True):
          message(out, opq, addr, data, mask)
          n += 1
  out.units.append(f'{n} message pairs')
  return out.pack()
