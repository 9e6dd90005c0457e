"""P21: the Verilog SRAM wrapper against what the cache expects of its SRAM."""

import os
import time

from bdd import BDD
from jobs import register
from netlist import AnalysisError
from tx import witness
from unitjobs import Out, clog2
from vlog import Design, elaborate


def ports_of_model(bits, words):
  """name -> (direction, width) of the component the wrapper stands in for"""
  from pymtl3 import InPort, OutPort
  from sram.SramGenericPRTL import SramGenericPRTL
  c = SramGenericPRTL(bits, words)
  c.elaborate()
  out = {}
  for p in c.get_input_value_ports(): out[p.get_field_name()] = ('input', p.get_type().nbits)
  for p in c.get_output_value_ports(): out[p.get_field_name()] = ('output', p.get_type().nbits)
  return out


class Wrap:

  def __init__(self, out, bits, words, path):
    self.out, self.bits, self.words = out, bits, words
    self.name = f'SramGenericPRTL({bits} bits, {words} words)'
    self.B = BDD()
    root = elaborate(path, 'SramGenericPRTL', {'num_bits': bits, 'num_words': words})
    self.tree, self.stubs = root

  def build(self):
    self.D = Design(self.tree, self.B)
    self.out.blocks += len(self.D.comb) + len(self.D.seq)
    return self.D

  def word(self, t, n, prio, k=0): return tuple(self.B.atom((t, i), prio, 4 * i + k) for i in range(n))

  def cycle(self, state, t, cs, we, addr):
    """one clock; t names the fresh inputs that must not matter"""
    b, B = self.bits, self.B
    ins = {'clk': (B.atom(('clk', 0), 1),), 'CE1': (B.atom(('ce' + t, 0), 1),), 'reset': (0,), 'OEB1': (B.atom(('oe' + t, 0), 2),),
           'CSB1': (cs,), 'WEB1': (we,), 'A1': addr, 'I1': self.word('data' + t, b, 4), 'WBM1': self.word('mask' + t, b, 4)}
    return self.D.step(ins, state)

  def read(self, state, addr, t):
    """what O1 shows in the cycle after a read of addr, output enabled / disabled"""
    B = self.B
    _, s1 = self.cycle(state, 'r' + t, 0, 1, addr)
    res = []
    for oe in (0, 1):
      ins = {'clk': (B.atom(('clk', 0), 1),), 'CE1': (B.atom(('ce' + t, 0), 1),), 'reset': (0,), 'OEB1': (oe,),
             'CSB1': (B.atom(('cs' + t, 0), 2),), 'WEB1': (B.atom(('we' + t, 0), 2),), 'A1': self.word('rowz' + t, len(addr), 1, 3),
             'I1': self.word('dataz' + t, self.bits, 4), 'WBM1': self.word('maskz' + t, self.bits, 4)}
      env, _ = self.D.step(ins, s1, ('O1',))
      res.append(env[self.D.topscope[0]['O1']])
    return res


def u_wrapper(out, bits, words, path):
  W = Wrap(out, bits, words, path)
  if isinstance(W.tree, str):
    out.need(False, f'wrap/elaborate {bits}x{words}', f'{W.name} does not elaborate: {W.tree}')
    return
  D, B = W.build(), W.B
  out.units.append(W.name + (f', macro {W.stubs[0]} modelled by its name' if W.stubs else '') + f': {", ".join(D.instances)}')
  have = {n: (v.el.get('dir'), v.width) for n, v in D.topscope[0].items() if isinstance(n, str) and v.el.get('dir')}
  want = ports_of_model(bits, words)
  for n, (d, w) in want.items():
    out.need(have.get(n) == (d, w), f'wrap/port {n}', f'{W.name}: the cache connects {d} {n} of {w} bits, the wrapper has {have.get(n)}')
  for n in have: out.need(n in want, f'wrap/port {n}', f'{W.name}: port {n} is not connected by the cache')
  if any(have.get(n) != want[n] for n in want): return
  for loc, m in D.width_bad: out.need(False, 'wrap/pins', f'{W.name}: {loc}: {m}')
  out.need(not D.width_bad, 'wrap/pins', '')
  aw = have['A1'][1]
  a, b = W.word('rowa', aw, 1, 0), W.word('rowb', aw, 1, 1)
  inside = 1
  if 1 << aw != words:
    lim = tuple(words >> i & 1 for i in range(aw + 1))
    inside = B.AND(D.lt(a, lim), D.lt(b, lim))
  st = D.state
  env, _ = W.cycle(st, 'c', B.atom(('csc', 0), 2), B.atom(('wec', 0), 2), a)
  for loc, edge, clk in D.clocks(env):
    ok = len(clk) == 1 and clk[0] == (B.atom(('clk', 0), 1) if edge == 'POS' else B.NOT(B.atom(('clk', 0), 1)))
    out.need(ok and edge != 'BOTH', 'wrap/clock', f'{W.name}: state at {loc} is not clocked by the rising edge of clk')
  where = ', '.join(sorted({D.loc(el) for k, el, _, _ in D.seq}))

  def same(got, exp, key, text):
    for i in range(bits):
      x = B.AND(inside, B.XOR(got[i], exp[i]))
      if x != 0:
        out.need(False, key, f'{W.name}: {text}: bit {i} differs when {witness(B, x)} (state at {where})')
        return
    out.need(True, key, '')

  R0, Z = W.read(st, a, '0')
  same(Z, (0,) * bits, 'wrap/output-off', 'O1 must be 0 while OEB1 is high')
  sup = set()
  for x in R0: sup |= {s for s in B.atoms(B.AND(inside, x))}
  bad = [s for s in sup if s[0] == 'undef' or not (s[0] in ('st', 'rowa', 'rowb'))]
  out.need(not bad, 'wrap/read-pure', f'{W.name}: what a read returns depends on {bad[:3]} (state at {where})')
  # a write changes exactly the masked bits of the addressed row
  _, s = W.cycle(st, 'w', 0, 0, b)
  R1, _ = W.read(s, a, '1')
  eq = D.eq(a, b)
  same(R1, tuple(B.ITE(B.AND(eq, m), d, o) for m, d, o in zip(W.word('maskw', bits, 4), W.word('dataw', bits, 4), R0)), 'wrap/write',
       'a write must change exactly the masked bits of its row')
  for t, cs, we, text in (('q', 1, B.atom(('weq', 0), 2), 'a deselected cycle must change nothing'), ('p', 0, 1, 'a read must change nothing')):
    _, s = W.cycle(st, t, cs, we, b)
    R, _ = W.read(s, a, t)
    same(R, R0, 'wrap/' + ('idle' if t == 'q' else 'read'), text)


@register('vlog')
def k_vlog(job):
  out = Out(job)
  path = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'sram', 'brg_gf14_sram_generic_synopsys.v')
  if not os.path.isfile(path):
    out.units.append('skipped: no Verilog wrapper')
    return out.pack()
  for b, w in job['shapes']:
    t = time.time()
    u_wrapper(out, b, w, path)
    out.units[-1] += f' ({time.time() - t:.0f} s)'
  return out.pack()
