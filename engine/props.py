"""Which analysis decides which property, in which configurations."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
with open(os.path.join(HERE, 'properties.jsonl')) as _f:
  for _l in _f:
    if _l.strip():
      _d = json.loads(_l)
      TITLES[_d['id']] = _d['title']

ENV = [
  'memory answers in order, at least one cycle after the request, with any delay',
  'requests are legal: known type, naturally aligned, length at most the data width',
  'the set the tracked request addresses holds no two live copies of one line (shown to be preserved)',
  'pymtl3 elaboration yields the netlist that is simulated and translated',
]
TRACK = ('Abstract interpretation of every update block of the elaborated cache (bit-level value numbering, '
         'canonical decision diagrams) to a fixpoint over control locations x environment typestate x monitor typestate; '
         'one request is tracked from every location in which the cache can accept it, with arbitrary back-pressure, '
         'memory delay and (overlap jobs) arbitrary following requests; ')

# (cacheline bits, data bits, bytes, ways[, address bits])
A, Bc = (64, 32, 32, 1), (64, 32, 32, 2)
SMALL = [(128, 64, 64, 1), (64, 64, 32, 2), (128, 128, 128, 2), (128, 32, 64, 1)]
WIDE = [(128, 32, 4096, 2, 32), (128, 32, 4096, 1, 32)]      # the caches the repository ships
BIG_OV = [(128, 32, 64, 2), (128, 64, 64, 1), (64, 32, 128, 1)]
BIG = [(128, 32, 256, 2, 32), (128, 128, 64, 1), (256, 32, 128, 1), (256, 128, 256, 2), (256, 128, 16384, 2, 32), (64, 32, 8192, 1, 40), (512, 64, 8192, 2, 32)]

ALL = ['READ', 'WRITE', 'AMO', 'FLUSH', 'INV', 'INIT']
WEIGHT = {'READ': 5, 'WRITE': 5, 'AMO': 4, 'FLUSH': 3, 'INV': 1, 'INIT': 2}


def nm(cfg): return 'x'.join(map(str, cfg))


def track(classes, tier, ways=(1, 2), ov1=True, ov2=True, wide=True):
  out = []
  def add(cfg, cl, ov):
    if cfg[3] not in ways or not cl: return
    w = sum(WEIGHT[c] for c in cl) * (1 + cfg[3]) * (4 if ov else 1) * (4 if len(cfg) > 4 else 1)
    out.append({'kind': 'track', 'cfg': cfg, 'overlap': ov, 'classes': cl, 'w': w,
                'name': f"{'+'.join(cl)} {nm(cfg)} {'overlapped' if ov else 'one at a time'}"})
  light = [c for c in classes if c in ('INV', 'INIT')]
  heavy = [c for c in classes if c not in light]
  if ov2:
    for c in heavy: add(Bc, [c], True)
    add(Bc, light, True)
  else: add(Bc, classes, False)
  add(A, classes, ov1)
  for cfg in SMALL: add(cfg, classes, False)
  if wide:
    # a set walk over many sets is not repeated for wide indices
    for cfg in WIDE:
      for c in classes:
        if c not in ('FLUSH', 'INV'): add(cfg, [c], False)
  if tier == 'thorough':
    for cfg in BIG_OV:
      for c in classes: add(cfg, [c], True)
    for cfg in BIG:
      for c in classes:
        if c in ('FLUSH', 'INV') and (len(cfg) > 4): continue
        add(cfg, [c], False)
  return sorted(out, key=lambda j: -j['w'])


def untracked(tier):
  out = []
  cfgs = [(128, 32, 4096, 2, 32), (128, 32, 4096, 1, 32), A, Bc, (128, 64, 64, 1), (128, 32, 128, 2)]
  if tier == 'thorough': cfgs += [(64, 32, 128, 1), (128, 128, 256, 2), (256, 32, 256, 1)]
  for c in cfgs:
    out.append({'kind': 'untracked', 'cfg': c, 'overlap': True, 'name': f'control {nm(c)} overlapped'})
  return out


def reset(tier):
  cfgs = [A, Bc, (128, 32, 64, 1), (128, 64, 128, 2), (64, 32, 256, 2), (128, 128, 256, 1, 32), (128, 32, 4096, 2, 32)]
  if tier == 'thorough': cfgs += [(128, 32, 4096, 1, 32), (128, 32, 1024, 1, 32), (64, 32, 2048, 2, 32)]
  return [{'kind': 'reset', 'cfg': c, 'name': f'reset {nm(c)}'} for c in cfgs]


def stall(tier):
  out = []
  cfgs = [(A, True), (Bc, False)] if tier == 'quick' else [(A, True), (Bc, True), ((128, 64, 64, 1), True)]
  for cfg, ov in cfgs:
    for c in ALL:
      out.append({'kind': 'stall', 'cfg': cfg, 'overlap': ov, 'classes': [c],
                  'name': f"{c} {nm(cfg)} {'overlapped' if ov else 'one at a time'}, stalls against no stalls"})
  return out


def pipe(tier):
  out = []
  cfgs = [A, Bc] if tier == 'quick' else [A, Bc, (128, 64, 64, 1), (128, 32, 64, 2)]
  for cfg in cfgs[::-1]:
    for c in ALL:
      out.append({'kind': 'pipe', 'cfg': cfg, 'overlap': True, 'classes': [c], 'name': f'{c} {nm(cfg)}, overlapped against alone'})
  return out


def tr(classes, what, **kw):
  return {'jobs': lambda tier: track(classes, tier, **kw), 'explain': TRACK + what, 'assume': ENV}


PROPS = {
  'P01': {'jobs': untracked, 'assume': ENV[:2] + ENV[3:],
          'explain': 'Fixpoint over all reachable control locations (typestate) of the elaborated cache under every request class, '
                     'memory timing and back-pressure; at each edge the valid outputs must imply the sampled readies and the readies '
                     'must not depend on the offer.'},
  'P02': {'jobs': lambda t: untracked(t) + track(ALL, t, ov2=(t == 'thorough'), wide=False), 'assume': ENV,
          'explain': TRACK + 'counts responses against accepted requests on every edge, and shows that every location drains.'},
  'P03': tr(ALL, 'at its response every echoed field must have the value number of the request field.', ov2=False, wide=False),
  'P04': tr(['READ', 'WRITE', 'FLUSH', 'INV'], 'the response data must be, bit for bit, the selected bits of the stored line, of the memory answer, or zero.'),
  'P05': tr(['WRITE'], 'the line left behind must be the old line (or memory answer) with exactly the addressed bytes replaced.'),
  'P06': tr(['READ', 'WRITE', 'AMO', 'FLUSH'], 'dirty-word bits left behind and write-back masks must be exactly the words stored.'),
  'P07': tr(['READ', 'WRITE', 'AMO', 'FLUSH', 'INV'], 'hit/miss as seen in traffic, test flag and entries must be the valid-and-tag-equal function of the entries read.'),
  'P08': tr(['READ', 'WRITE', 'AMO', 'FLUSH'], 'a dirty victim must be written back first, with its own address, mask and data.'),
  'P09': tr(['READ', 'WRITE'], 'the refilled set must be the merge of the memory answer and the dirty words, in the victim way only.'),
  'P10': tr(['READ', 'WRITE', 'AMO', 'INV', 'INIT'], 'every memory request the cache sends for it must be one the request needs, with line address and length.'),
  'P11': tr(['AMO'], 'the atomic must be forwarded once, unmodified, after the cached copy is flushed and dropped.'),
  'P12': tr(['INV'], 'every entry of an arbitrary set must end invalid with dirty words, lines and other state kept, and no traffic.'),
  'P13': tr(['FLUSH'], 'every dirty way of an arbitrary set must be written back exactly once and end clean.'),
  'P14': {'jobs': reset, 'assume': ENV[3:], 'explain': 'From the registers under reset the initialisation walk is followed to the fixpoint with '
          'arbitrary SRAM contents; when request-ready rises an arbitrary set must have every valid and dirty bit cleared and nothing was sent.'},
  'P15': tr(['READ', 'WRITE', 'AMO'], 'the replacement state of every set after the request must be the least-recently-used function.', ways=(2,)),
  'P16': {'jobs': stall, 'assume': ENV, 'explain': TRACK + 'the obligations of all properties are generated with arbitrary stalls; one that '
          'fails there but not without stalls is reported.'},
  'P22': tr(ALL, 'no control value, handshake or array strobe may depend on an undriven wire, an unread array port or a latch.', ov2=False),
  'P23': {'jobs': untracked, 'assume': ENV[3:], 'explain': 'At every reachable control location the value of each output is compared across everything '
          'that may be offered in the same cycle and its support may not contain an input of that cycle.'},
  'P24': {'jobs': untracked, 'assume': ENV, 'explain': 'The graph of control locations under a cooperative environment (answers come, nothing is refused, '
          'no new requests) must have no cycle before every request is answered and the cache is ready.'},
  'P27': {'jobs': untracked, 'assume': ENV, 'explain': 'On every edge of the control graph at most one refill or atomic may be outstanding, and request-ready '
          'must be false while one is.'},
  'P29': tr(['READ', 'WRITE', 'AMO', 'INIT'], 'every array write while the request is in flight must address the set and way of the request.', ov2=False),
  'P30': tr(['INIT'], 'a valid entry with the request tag must hold the written bytes, and no memory request may be sent.'),
  'P31': {'jobs': pipe, 'assume': ENV, 'explain': TRACK + 'the obligations of all properties are generated with overlapped requests; one that fails '
          'there but not for a request alone is reported.'},
}

UNIT_ASSUME = ['requests are legal: known type, naturally aligned, length at most the data width', ENV[3]]


def grid(tier):
  out = []
  for clw in (64, 128, 256, 512):
    for dbw in (32, 64, 128):
      if dbw > clw: continue
      for asso in (1, 2):
        for nl in (2, 4, 16, 64, 256) + ((8, 32, 128, 512, 1024) if tier == 'thorough' else ()):
          if nl // asso < 2: continue
          for abw in (32,) if tier == 'quick' else (24, 32, 40): out.append((clw, dbw, nl * clw // 8, asso, abw))
  return out


def units(*groups):
  def jobs(tier):
    g = grid(tier)
    n = 8 if tier == 'quick' else 32
    out = []
    for grp in groups:
      for i in range(n):
        cs = g[i::n]
        if cs: out.append({'kind': 'unit', 'group': grp, 'cfgs': cs, 'name': f'{grp} {i + 1}/{n}: {len(cs)} shapes'})
    return out
  return jobs


def srams(tier):
  sh = [(4, 4), (3, 8), (8, 16), (26, 32), (5, 6), (7, 12), (25, 64), (64, 32), (128, 48), (26, 128)]
  if tier == 'thorough': sh += [(1, 3), (33, 100), (8, 256), (256, 32), (512, 16), (4, 300)]
  return [{'kind': 'sram', 'shapes': [x], 'name': 'x'.join(map(str, x))} for x in sh[::-1]]


UNIT = ('The component is elaborated on its own in every shape of the grid; its outputs (and, where it has state, its outputs after any '
        'further steps) are computed as value-numbered functions of arbitrary inputs and state by abstract interpretation of its update blocks, '
        'and compared with the documented function under each legal access; ')
WRAP = [(8, 8), (5, 6), (26, 128), (25, 256), (128, 256), (128, 512), (16, 64), (33, 5)]


def wrapper(tier):
  more = [] if tier == 'quick' else [(25, 128), (26, 256), (128, 128), (128, 64), (27, 64), (64, 256), (1, 2)]
  return [{'kind': 'vlog', 'shapes': [sh], 'name': f'SRAM wrapper {sh[0]} bits x {sh[1]} words'} for sh in sorted(WRAP + more, key=lambda x: -x[0] * x[1])]


PROPS.update({
  'P20': {'jobs': srams, 'assume': [ENV[3]], 'explain': 'The SRAM is analysed with an arbitrary content: reads are value-numbered functions of row and content; ' +
          'the function after an arbitrary write, read or idle cycle is compared with the one before, for an arbitrary pair of rows.'},
  'P21': {'jobs': wrapper, 'assume': [ENV[3]], 'floor': 100, 'technique': 'static analysis: value numbering of the elaborated Verilog tree (verilator --xml-only) to a fixpoint',
          'explain': 'The Verilog wrapper is elaborated by verilator for every hard-macro shape and several generic ones; its next-state and output '
          'functions are value-numbered from the typed tree and compared, for an arbitrary pair of rows, data, mask and content, with the SRAM '
          'contract of P20; ports, directions and widths are compared with the component the translated cache instantiates, and every macro pin must be connected at its own width.',
          'note': 'Holds for all inputs and contents of the listed shapes; generic shapes are samples of the parameter grid. Trusts verilator elaboration; a vendor macro the repository does not model is modelled from its name (words x bits).'},
  'P35': {'jobs': lambda tier: [{'kind': 'translate', 'name': 'translation script'}], 'assume': ['option values are arbitrary but valid for the cache; pymtl3 translation writes <explicit_file_name>.v in the working directory'],
          'technique': 'static analysis: def-use over a partial evaluation of the script\'s syntax tree (options opaque, outside calls recorded, never made)',
          'explain': 'The script is interpreted with every option an opaque token and every outside call only recorded: which option reaches which parameter of the cache and of the message types, '
          'what is enabled on it in which order, which file is rewritten, what each class of line becomes, and that the wrapper ends up at the end of that same file.',
          'note': 'Holds for all option values; lines of the translated file are represented by one line per class (macro size or other size, instance, module header, comment, anything else). A script outside the interpreted subset of Python is reported in the evidence as not decided.'},
  'P25': {'jobs': units('bytes'), 'assume': UNIT_ASSUME, 'explain': UNIT + 'load multiplexers, write-enable generator, data replicator, offset and length selector.'},
  'P26': {'jobs': units('tags'), 'assume': UNIT_ASSUME, 'explain': UNIT + 'tag processing unit, tag update unit, data row indexer.'},
  'P28': {'jobs': units('lru', 'hold'), 'assume': UNIT_ASSUME, 'explain': UNIT + 'miss record, stall engine, walk counter, replacement bits and policy.'},
})


def timing(tier):
  cfgs = [A, Bc, (128, 64, 64, 1)] + ([] if tier == 'quick' else [(128, 64, 64, 2), (128, 32, 64, 2), (64, 32, 128, 1)])
  return [{'kind': 'timing', 'cfg': c, 'classes': [k], 'name': f'{k} {nm(c)}, nothing refused'} for c in cfgs[::-1] for k in ('INIT', 'WRITE', 'AMO', 'READ')]


PROPS.update({
  'P32': tr(['READ', 'WRITE', 'AMO'], 'every memory request sent for it must carry its opaque tag.', ov2=False, wide=False),
  'P33': {'jobs': timing, 'assume': ENV + ['nothing is refused on either interface (the documented cycle tables)'],
          'explain': TRACK + 'with a cycle count in the monitor typestate: responses and readiness must follow the documented cycle tables.'},
})


def shapes(tier):
  g = grid('quick') + [(128, 32, 4096, 1, 32), (128, 32, 4096, 2, 32), (128, 128, 16384, 1, 32), (64, 64, 1024, 2, 24), (256, 64, 2048, 1, 40)]
  if tier == 'thorough': g = grid(tier)
  g = sorted((c for c in g if c[2] * 8 // c[0] // c[3] <= (256 if tier == 'quick' else 1024)), key=lambda c: c[2] * 8 // c[0])
  n = 8 if tier == 'quick' else 32
  return [{'kind': 'shape', 'cfgs': g[i::n], 'name': f'shapes {i + 1}/{n}: {len(g[i::n])}'} for i in range(n) if g[i::n]]


PROPS.update({
  'P17': {'jobs': shapes, 'assume': [ENV[3]], 'explain': 'For every cache shape of the grid the elaborated design is inspected: bit layout of the address and tag-entry '
          'types, number, width and depth of the SRAMs instantiated; and by value numbering of the control location reached after initialisation, that every '
          'way is looked up at exactly the index field of the address offered.'},
  'P18': {'jobs': lambda tier: [{'kind': 'msg', 'name': 'messages and codes'}], 'assume': [], 'explain': 'The message types generated by mk_mem_msg are inspected for a '
          'grid of widths (field names, widths, order of use by the printers over their syntax trees) and the type codes of every module that states them are compared.'},
})

def forms(tier):
  g = grid(tier)
  g += [(c, d, 4 * c // 8, a, 32, 8) for c in (256, 512) for d in (256,) for a in (1, 2)] + [(128, 32, 4096, 1, 32, 8), (128, 32, 4096, 2, 32, 8)]
  g += [(64, 32, 64, 1, 40), (128, 64, 128, 2, 40), (256, 64, 2048, 1, 48), (64, 64, 128, 2, 24), (128, 32, 256, 1, 20), (128, 128, 128, 2, 64), (64, 32, 128, 2, 33)]
  g = [tuple(c) + ((1, 2, 8, 16)[i % 4],) if len(c) == 5 else c for i, c in enumerate(g)]
  g = sorted((c for c in g if c[2] * 8 // c[0] <= (256 if tier == 'quick' else 1024)), key=lambda c: (c[0], c[2]))
  n = 8 if tier == 'quick' else 32
  return [{'kind': 'form', 'cfgs': g[i::n], 'name': f'form of shapes {i + 1}/{n}: {len(g[i::n])}'} for i in range(n)]


PROPS.update({
  'P34': {'jobs': forms, 'assume': [ENV[3]], 'explain': 'For every cache shape of the grid the design is elaborated and its netlist inspected: one driver per bit, nothing read that is '
          'undriven, no combinational cycle; every update block is abstractly interpreted for all inputs: every feasible assignment fits its target, every slice, extension, '
          'constant and comparison is in range, and every combinational bit is assigned on every path.'},
})


def fl(tier):
  cfgs = [(64, 32, 32, 1), (64, 64, 32, 2), (128, 64, 64, 2), (128, 32, 64, 2), (128, 128, 64, 2), (128, 32, 128, 1), (256, 64, 128, 2), (512, 64, 256, 2)]
  if tier == 'thorough': cfgs += [(64, 64, 64, 2), (128, 32, 128, 2), (64, 32, 64, 4), (512, 64, 128, 1), (256, 128, 256, 1), (128, 64, 256, 1)]
  return [{'kind': 'fl', 'cfgs': [c], 'name': f'functional model {nm(c)}'} for c in cfgs]


PROPS.update({
  'P19': {'jobs': fl, 'assume': ['requests are legal: known type, naturally aligned, length at most the data width',
                                 'no set holds two valid copies of one tag (preserved: a way is filled only on a miss)'],
          'explain': 'The functional model is interpreted abstractly (guarded bit-level values, heap objects) from an arbitrary state: every operation, length and '
          'atomic function is compared with the reference answer, memory effect, tag, valid and order update; construction and the message helpers likewise.'},
})

for k, v in PROPS.items(): v['title'] = TITLES.get(k, '')


def jobs_for(pid, tier): return PROPS[pid]['jobs'](tier)
