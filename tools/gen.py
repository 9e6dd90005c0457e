"""Random legal request sequences for demonstrations."""
import random
from simlib import RD, WR, INIT, INV, FLUSH


def gen(seed, n=40, clw=64, dbw=32, size=32, asso=1, abw=32, kinds=(RD, WR), tags=3, high=False, pinv=0.04, pflush=0.04, pamo=0.08):
  r = random.Random(seed)
  nb, d = clw // 8, dbw // 8
  nset = size // nb // asso
  span = nset * nb
  bases = [t * span for t in range(tags)]
  if high: bases += [(1 << (abw - 1)) + t * span for t in range(tags)]
  out = []
  for i in range(n):
    o = i & 0xff
    x = r.random()
    if INV in kinds and x < pinv:
      out.append((INV, o, 0, 0, 0))
      continue
    if FLUSH in kinds and x < pinv + pflush:
      out.append((FLUSH, o, 0, 0, 0))
      continue
    base = r.choice(bases)
    if 3 in kinds and x < pinv + pflush + pamo:
      t = r.randint(3, 11)
      a = base + 4 * r.randrange(span // 4)
      out.append((t, o, a, 0 if dbw == 32 else 4, r.getrandbits(32)))
      continue
    t = r.choice([k for k in kinds if k in (RD, WR)])
    l = r.choice([k for k in (1, 2, 4, 8, 16) if k <= d])
    a = base + l * r.randrange(span // l)
    out.append((t, o, a, 0 if l == d else l, r.getrandbits(8 * l) if t == WR else 0))
  return out
