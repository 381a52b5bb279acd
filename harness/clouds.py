"""Generation of point clouds on an integer lattice.

All coordinates, radii and cell sizes are integers times a power of two, so
that every sum, difference and comparison of the contract is exact in float32
and the specification can judge it with integers.
"""
SCALES = [1.0, 0.25, 0.03125, 4.0]


def batch_ids(rng, n, bs, mode):
  if mode == 'sorted':
    ids = sorted(rng.randrange(bs) for _ in range(n))
  elif mode == 'full':     # every element occupied, if possible
    ids = sorted([b % bs for b in range(n)])
  elif mode == 'gaps':     # some elements empty
    keep = [b for b in range(bs) if rng.random() < 0.5] or [bs - 1]
    ids = sorted(rng.choice(keep) for _ in range(n))
  else:                    # unsorted
    ids = [rng.randrange(bs) for _ in range(n)]
  return ids


def points(rng, n, dim, mode, ext):
  lo = rng.choice([0, 0, -ext // 2, -3 * ext, 5])
  if mode == 'random':
    return [[lo + rng.randrange(ext + 1) for _ in range(dim)] for _ in range(n)]
  if mode == 'same':
    p = [lo + rng.randrange(ext + 1) for _ in range(dim)]
    return [list(p) for _ in range(n)]
  if mode == 'cluster':
    cs = [[lo + rng.randrange(ext + 1) for _ in range(dim)] for _ in range(3)]
    return [[c + rng.randrange(-1, 2) for c in rng.choice(cs)]
            for _ in range(n)]
  if mode == 'line':
    d = rng.randrange(dim)
    p = [lo] * dim
    out = []
    for _ in range(n):
      r = list(p)
      r[d] = lo + rng.randrange(ext + 1)
      out.append(r)
    return out
  if mode == 'mesh':
    side = max(2, int(round(n ** (1.0 / dim))))
    step = max(1, ext // side)
    out = []
    for k in range(n):
      r, kk = [], k
      for _ in range(dim):
        r.append(lo + step * (kk % side))
        kk //= side
      out.append(r)
    rng.shuffle(out)
    return out
  raise ValueError(mode)


def cloud(rng, nmax=24, dims=(2, 3), bsmax=3, ext=None, bmode=None, pmode=None,
          nmin=1):
  dim = rng.choice(dims)
  n = rng.randrange(nmin, nmax + 1)
  bs = rng.randrange(1, bsmax + 1)
  ext = ext or rng.choice([3, 6, 10, 16])
  pmode = pmode or rng.choice(['random', 'random', 'random', 'cluster', 'mesh',
                               'line', 'same'])
  bmode = bmode or rng.choice(['sorted', 'full', 'gaps', 'unsorted', 'unsorted'])
  return {'pts': points(rng, n, dim, pmode, ext),
          'bids': batch_ids(rng, n, bs, bmode), 'bs': bs, 'dim': dim,
          'ext': ext, 'u': rng.choice(SCALES), 'mode': pmode + '/' + bmode}


def radii(rng, dim, ext, pow2=None):
  pow2 = (dim > 3 or rng.random() < 0.5) if pow2 is None else pow2
  pool = [1, 2, 4, 8] if pow2 else [1, 2, 3, 4, 5, 6]
  if dim > 3:
    pool = [2, 4]
  if rng.random() < 0.5:
    return [rng.choice(pool)] * dim
  return [rng.choice(pool) for _ in range(dim)]


def centers(rng, c, n):
  """Centers: members of the cloud, lattice points inside and outside."""
  out, ids = [], []
  # now and then all centers belong to one element
  only = rng.choice([0, c['bs'] - 1, rng.randrange(c['bs'])]) \
      if rng.random() < 0.2 else None
  for _ in range(n):
    if rng.random() < 0.4:
      k = rng.randrange(len(c['pts']))
      out.append(list(c['pts'][k]))
      ids.append(c['bids'][k] if rng.random() < 0.8 else rng.randrange(c['bs']))
    else:
      k = rng.randrange(len(c['pts']))
      out.append([x + rng.randrange(-c['ext'] // 2 - 3, c['ext'] // 2 + 4)
                  if rng.random() < 0.7 else x for x in c['pts'][k]])
      ids.append(rng.randrange(c['bs']))
  if only is not None:
    ids = [only] * n
  return out, ids


def shift(s, by):
  """Moves a case."""
  for k in ('pts', 'ctr'):
    if s.get(k):
      s[k] = [[x + y for x, y in zip(p, by)] for p in s[k]]
