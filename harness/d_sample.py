"""C05, C06, C22: sampling and hierarchies."""
import itertools

import core
from core import attempt, attr, ints, q, qa
import clouds
import d_grid

T = 'TraceSample'
MC = dict(XS='{0, 1, 3}', YS='{0, 2}', NP=3, NB=2, RadX='{1, 2}', RadY='{2}',
          Variant='"ok"')
INV = ['Sep', 'Distinct', 'Cover', 'PerElement']


def lib():
  import numpy as np
  import tensorflow as tf
  import pylib.pc as pc
  return np, tf, pc


class Schedule:
  """Drives the random choices of the sampling: each draw takes the first
  allowed candidate of a given priority list.  Without effect on code which
  draws in another way."""

  def __init__(self, prio):
    self.prio = prio

  def __enter__(self):
    np, tf, pc = lib()
    self.orig = tf.random.categorical

    def pick(logits, num_samples, *a, **k):
      lg = np.asarray(logits)
      if lg.ndim != 2 or num_samples != 1 or lg.shape[1] != len(self.prio):
        return self.orig(logits, num_samples, *a, **k)
      out = []
      for row in lg:
        ok = [i for i in self.prio if np.isfinite(row[i])]
        if not ok:
          return self.orig(logits, num_samples, *a, **k)
        out.append([ok[0]])
      return tf.constant(out, k.get('dtype') or tf.int64)
    tf.random.categorical = pick
    return self

  def __exit__(self, *a):
    lib()[1].random.categorical = self.orig


def design(c):
  k = dict(MC)
  if core.THOROUGH:
    k.update(XS='{0, 1, 3, 4}', RadX='{1, 2, 3}', RadY='{2, 3}')
  c.design('SamplingMC', k, INV, workers=4 if core.THOROUGH else 2)
  for v, e in {'onlySelf': ['Sep'], 'allBatches': ['Cover', 'PerElement'],
               'stopEarly': ['Cover', 'PerElement'],
               'firstRadius': ['Sep', 'Cover']}.items():
    c.mutant('SamplingMC', dict(MC, RadX='{1, 2, 3}', RadY='{2, 3}',
                                Variant='"%s"' % v), INV, label=v, expect=e)


def base(case, i, kind):
  return {'case': '%s#%d' % (case['mode'], i), 'kind': kind,
          'pts': case['pts'], 'bids': case['bids'], 'bs': case['bs'],
          'u': str(case['u']), 'err': '', 'spts': [], 'sbids': [], 'sbs': -1}


def sampled(s, u, scale=1):
  np, tf, pc = lib()
  return {'spts': q(attr(s, '_points'), 1 / u) if scale == 1 else
          qa(attr(s, '_points'), scale / u),
          'sbids': ints(attr(s, '_batch_ids')),
          'sbs': int(attr(s, '_batch_size'))}


def cloud_of(case):
  np, tf, pc = lib()
  f = lambda a: (np.array(a, np.float32) * np.float32(case['u'])).astype(np.float32)
  return pc.PointCloud(f(case['pts']), np.array(case['bids']), case['bs']), f


def poisson(c, case, i, entry, prio=None):
  np, tf, pc = lib()
  rec = base(case, i, 'poissonNoId' if entry in ('noid',) else 'poisson')
  rec.update(rad=case['rad'], ids=[], entry=entry)

  def go():
    cl, f = cloud_of(case)
    rad = f(case['rad'])
    if len(set(case['rad'])) == 1 and i % 3 == 0:
      rad = float(rad[0])
    if entry == 'noid':
      return pc.poisson_disk_sampling(cl, rad), []
    if entry == 'radius':
      return pc.poisson_disk_sampling(cl, rad, return_ids=True)
    # grids with larger cells than the radius
    grid = pc.Grid(cl, f(case['cell']))
    nb = pc.Neighborhood(grid, rad)
    if entry == 'nb':
      return pc.poisson_disk_sampling(cl, neighborhood=nb, return_ids=True)
    return pc.sample(nb, entry)
  if prio is not None:
    with Schedule(prio):
      r, err = attempt(go)
  else:
    r, err = attempt(go)
  rec['err'] = err
  if r is not None:
    rec.update(sampled(r[0], case['u']))
    if rec['kind'] == 'poisson':
      rec['ids'] = ints(r[1])
  c.record(T, **rec)


ENTRIES = ['radius', 'nb', 'noid', 'poisson', 'Poisson disk', 'poisson_disk']


def c05(c):
  np, tf, pc = lib()
  design(c)
  rng = c.rng
  tf.random.set_seed(core.SEED)
  # all choice orders of a few tiny clouds
  tiny = [dict(pts=[[0, 0], [1, 0], [2, 0], [3, 0]], bids=[0] * 4, bs=1,
               rad=[2, 2], cell=[2, 2]),
          dict(pts=[[0, 0], [1, 1], [0, 0], [1, 0]], bids=[1, 0, 0, 1], bs=3,
               rad=[2, 1], cell=[2, 2])]
  n = 0
  for t in tiny:
    t.update(u=1.0, mode='orders', dim=2, ext=4)
    for perm in itertools.permutations(range(4)):
      n += 1
      if core.THOROUGH or n % 2:
        poisson(c, t, n, ENTRIES[n % 4], list(perm))
  for i in range(300 if core.THOROUGH else 36):
    s = clouds.cloud(rng, nmax=26 if i % 5 else 40, dims=(2, 3, 3, 4), bsmax=4)
    s['rad'] = clouds.radii(rng, s['dim'], s['ext'])
    s['cell'] = d_grid.with_cells(rng, s, s['rad'])
    prio = None
    if i % 2:
      prio = list(range(len(s['pts'])))
      if i % 4 == 1:
        rng.shuffle(prio)
    poisson(c, s, i, ENTRIES[(i + i // 6) % 6], prio)
  # many points: dense discs and many samples
  for i in range(12 if core.THOROUGH else 3):
    s = clouds.cloud(rng, nmax=180, nmin=120, dims=(2, 3), bsmax=3,
                     ext=[8, 14, 5][i % 3], pmode='random')
    r = [8, 2, 3][i % 3]
    s['rad'] = [r] * s['dim']
    s['cell'] = d_grid.with_cells(rng, s, s['rad'])
    poisson(c, s, i, ENTRIES[(i * 2) % 6])
  # discs of some hundred points
  for i in range(4 if core.THOROUGH else 1):
    s = clouds.cloud(rng, nmax=380, nmin=330, dims=(2, 3), bsmax=1, ext=3, pmode='random')
    s['rad'] = s['cell'] = [3 if i % 2 == 0 else 2] * s['dim']
    poisson(c, s, i, ENTRIES[i % 6])
  for i in range(10 if core.THOROUGH else 2):     # millions of cells
    s = d_grid.wide(rng, i, True)
    s['rad'] = s['cell'] = [[1, 2, 3][i % 3]] * s['dim']
    poisson(c, s, i, ENTRIES[i % 6])


def c06(c):
  np, tf, pc = lib()
  d_grid.design(c, ['KeyIsCell'])
  rng = c.rng
  for i in range(500 if core.THOROUGH else 70):
    big = i % 35 == 34
    s = clouds.cloud(rng, nmax=40, dims=(2, 3, 3, 4), bsmax=4,
                     ext=rng.choice([4, 8, 12])) if not big else \
        clouds.cloud(rng, nmax=1000, nmin=600, dims=(2, 3), bsmax=12,
                     ext=rng.choice([6, 20]), pmode='random')
    if big:                            # far from the origin
      clouds.shift(s, [rng.choice([-1, 1]) << 15 for _ in range(s['dim'])])
    s['cell'] = [rng.randrange(1, 8) for _ in range(s['dim'])]
    if i % 3 == 0:
      s['cell'] = [s['cell'][0]] * s['dim']
    scale = 16 if big else 256
    if i % 14 == 13:                   # millions and billions of cells
      scale = 4
      while True:
        s = d_grid.wide(rng, i, True)
        if max(max(p) for p in s['pts']) <= 1 << 20:
          break
    entry = ['cells', 'grid', 'average', 'cell average', 'cell_average', 'op'][(i + i // 6) % 6]
    average(c, s, i, entry, scale)


def average(c, s, i, entry, scale):
  np, tf, pc = lib()
  rec = base(s, i, 'average')
  rec.update(cell=s['cell'], scale=scale, entry=entry, ids=[])

  def go():
    cl, f = cloud_of(s)
    cell = f(s['cell'])
    if entry == 'cells':
      if len(set(s['cell'])) == 1 and i % 2:
        cell = float(cell[0])
      return pc.cell_average_sampling(cl, cell)
    grid = pc.Grid(cl, cell)
    if entry == 'grid':
      return pc.cell_average_sampling(cl, grid=grid)
    rad = cell if i % 2 else np.float32(np.min(cell) / 2)
    nb = pc.Neighborhood(grid, rad)
    if entry == 'op':
      # the operation itself, which also names a point of each cell
      p, b, ids = pc.custom_ops.sampling(nb, 1)
      rec['ids'] = ints(np.asarray(attr(grid, '_sorted_indices'))[np.asarray(ids)])
      return pc.PointCloud(p, b, s['bs'])
    return pc.sample(nb, entry)[0]
  r, rec['err'] = attempt(go)
  if r is not None:
    rec.update(sampled(r, s['u'], scale))
  c.record(T, **rec)


M = 144      # every mean of up to four points, twice in a row, is a multiple


def hierarchy(c, i, mode, rng):
  np, tf, pc = lib()
  s = clouds.cloud(rng, nmax=16, dims=(2, 3, 3) if i % 7 != 3 else (3,), bsmax=4, ext=6,
                   pmode=rng.choice(['random', 'cluster', 'mesh']), nmin=2)
  steps = rng.choice([1, 2, 2, 3]) if mode == 'poisson' else rng.choice([1, 2])
  m = 1
  if mode != 'poisson':
    m = M
  s['pts'] = [[x * m for x in p] for p in s['pts']]
  s['u'] = rng.choice([1.0, 0.25, 0.0078125])
  cells, args = [], []
  for k in range(steps):
    base_ = [1, 2, 4, 8][k + (0 if mode == 'poisson' else rng.randrange(2))]
    some = s['dim'] > 2 and (i % 7 in (3, 4) or rng.random() < 0.2)
    if rng.random() < 0.5 and not some:
      cells.append([base_ * m] * s['dim'])
      args.append(cells[-1][:rng.choice([0, 1, s['dim']])] or cells[-1][0])
    else:
      cells.append([base_ * m * rng.choice([1, 2]) for _ in range(s['dim'])])
      args.append(list(cells[-1]))
      if some:
        # the last size counts for the remaining dimensions
        cells[-1][0] = base_ * m * (2 if cells[-1][1] == base_ * m else 1)
        cells[-1][2:] = [cells[-1][1]] * (s['dim'] - 2)
        args[-1] = cells[-1][:2]
  # shape of the batch
  padded = i % 3 == 0
  shapes = [[s['bs']], [1, s['bs']], [s['bs'], 1]]
  if s['bs'] == 4:
    shapes.append([2, 2])
  shape = rng.choice(shapes)
  if padded:
    s['bids'] = sorted(s['bids'])
  return s, cells, args, padded, shape


def on_lattice(s, cells):
  """Whether all means of all levels are integers (selects inputs only)."""
  pts, ids = [list(p) for p in s['pts']], list(s['bids'])
  low = {b: [min(x) for x in zip(*[p for p, i in zip(pts, ids) if i == b])]
         for b in set(ids)}
  top = {b: [max(x) for x in zip(*[p for p, i in zip(pts, ids) if i == b])]
         for b in set(ids)}
  for cell in cells:
    last = [max(1, max(-(-(top[b][d] - low[b][d]) // cell[d]) for b in low)) - 1
            for d in range(len(cell))]
    groups = {}
    for p, b in zip(pts, ids):
      k = tuple(min(int((p[d] - low[b][d]) // cell[d]), last[d])
                for d in range(len(cell)))
      groups.setdefault((b, k), []).append(p)
    pts, ids = [], []
    for (b, _), g in groups.items():
      for x in zip(*g):
        if sum(x) % len(g):
          return False
      pts.append([sum(x) // len(g) for x in zip(*g)])
      ids.append(b)
  return True


def run_hierarchy(c, i, mode, rng):
  np, tf, pc = lib()
  while True:
    s, cells, args, padded, shape = hierarchy(c, i, mode, rng)
    if mode == 'poisson' or on_lattice(s, cells):
      break
  u = s['u']
  f = lambda a: (np.array(a, np.float32) * np.float32(u)).astype(np.float32)
  late = (not padded) and i % 2 == 0     # shape set on the hierarchy
  setfirst = (not padded) and not late and i % 4 == 1
  eff = shape if (padded or late or setfirst) else [s['bs']]
  rec = base(s, i, 'hierarchy')
  rec.update(mode='poisson' if mode == 'poisson' else 'average', cells=cells,
             shape=eff, levels=[], nbs=[], tnbs=[], sizes=[], padded=[],
             elem=[], eid=0, len=-1, neg=[], idx=[], gcells=[], hist=[], one=[],
             shape0=shape if (padded or late or setfirst) else [])

  def go():
    if padded:
      n = [s['bids'].count(b) for b in range(s['bs'])]
      v = max(n) + 1
      arr = np.zeros((s['bs'], v, s['dim']), np.float32)
      k = 0
      for b in range(s['bs']):
        for j in range(n[b]):
          arr[b, j] = f(s['pts'])[k]
          k += 1
      cl = pc.PointCloud(arr.reshape(shape + [v, s['dim']]),
                         sizes=np.array(n).reshape(shape))
    else:
      cl = pc.PointCloud(f(s['pts']), np.array(s['bids']), s['bs'])
      if setfirst:
        cl.set_batch_shape(shape)
    names = ['poisson', 'poisson disk'] if mode == 'poisson' else \
        ['cell average', 'average', 'cell_average']
    # sizes without an explicit type
    plain = u == 1.0 and i % 4 < 2
    h = pc.PointHierarchy(cl, [a if plain else f(a) for a in args], names[i % len(names)])
    if late:
      h.set_batch_shape(shape)
    return h
  h, err = attempt(go)
  rec['err'] = err
  if h is None:
    c.record(T, **rec)
    return
  n = len(cells)
  rec['eid'] = rng.randrange(s['bs'])

  def obs():
    o = {'len': len(h)}
    pcs = [h[k] for k in range(len(h))]
    o['levels'] = [{'pts': q(p._points, 1 / u), 'bids': ints(p._batch_ids),
                    'bs': int(p._batch_size)} for p in pcs]
    o['gcells'] = [q(x, 1 / u) for x in attr(h, '_cell_sizes')]
    nbs = h.get_neighborhood()
    tnbs = h.get_neighborhood(transposed=True)
    o['nbs'] = [ints(attr(x, '_original_neigh_ids')) for x in nbs]
    o['tnbs'] = [ints(attr(x, '_original_neigh_ids')) for x in tnbs]
    o['neg'] = ints(h.get_neighborhood(-1)._original_neigh_ids)
    o['one'] = [{'i': k, 't': t, 'nb': ints(h.get_neighborhood(
        k, transposed=bool(t))._original_neigh_ids)}
                for k in range(-n, n) for t in (0, 1)]
    o['idx'] = q(h[-2]._points, 1 / u)
    o['sizes'] = []
    for z in h.get_sizes():
      z = np.asarray(z)
      o['sizes'].append({'shape': list(z.shape), 'rows': ints(z.reshape(-1))})
    mx = max(max(x['rows']) for x in o['sizes']) + 2
    o['padded'] = []
    for z in h.get_points(max_num_points=mx):
      z = np.asarray(z)
      o['padded'].append({'shape': list(z.shape[:-2]), 'v': z.shape[-2], 'want': mx,
                          'rows': q(z.reshape([-1, z.shape[-1]]), 1 / u)})
    o['elem'] = [q(z, 1 / u) for z in h.get_points(batch_id=rec['eid'])]
    return o
  before = i % 5 == 1 or (i // 2) % 3 == 0    # reshaped before or after reading
  if before:
    rec['hist'] = reshape_history(h, s, rng, rec['shape0'])
    h.set_batch_shape(eff)
  o, rec['err'] = attempt(obs)
  if o is not None:
    rec.update(o)
  if not before:
    rec['hist'] = reshape_history(h, s, rng, rec['shape0'])
  c.record(T, **rec)


def reshape_history(h, s, rng, cur):
  """Batch shapes set one after the other on the whole hierarchy."""
  np, tf, pc = lib()
  bs, u = s['bs'], s['u']
  legal = [[bs], [1, bs], [bs, 1], [1, bs, 1], []] + \
      ([[2, 2], [2, 1, 2]] if bs == 4 else [])
  out = []
  for _ in range(rng.choice([2, 3, 4])):
    arg = rng.choice(legal + [[bs + 1], [bs, 2], []])
    one = {'shape': arg, 'sizes': [], 'padded': [], 'eid': 0, 'elem': [],
           'multi': [], 'melem': []}
    _, one['seterr'] = attempt(lambda: h.set_batch_shape(arg or None))
    k = 1
    for x in arg:
      k *= x
    if k == bs or not arg:
      cur = arg
    if rng.random() < 0.25:       # nothing read in between
      one['err'] = 'unread'
      out.append(one)
      continue

    def read():
      r = {'sizes': [], 'padded': []}
      order = ['sizes', 'padded', 'elem', 'multi']
      rng.shuffle(order)
      for what in order:
        if what == 'sizes':
          for z in h.get_sizes():
            z = np.asarray(z)
            r['sizes'].append({'shape': list(z.shape), 'rows': ints(z.reshape(-1))})
        elif what == 'padded':
          mx = len(s['pts']) + rng.randrange(3)
          for z in h.get_points(max_num_points=mx):
            z = np.asarray(z)
            r['padded'].append({'shape': list(z.shape[:-2]), 'v': z.shape[-2],
                                'want': mx, 'rows': q(z.reshape([-1, z.shape[-1]]), 1 / u)})
        elif what == 'elem':
          r['eid'] = rng.randrange(bs)
          r['elem'] = [q(z, 1 / u) for z in h.get_points(r['eid'])]
        elif cur:
          r['multi'] = [rng.randrange(x) for x in cur]
          r['melem'] = [q(z, 1 / u) for z in h.get_points(batch_id=list(r['multi']))]
      return r
    r, one['err'] = attempt(read)
    if r is not None:
      one.update(r)
    out.append(one)
  return out


def c22(c):
  np, tf, pc = lib()
  tf.random.set_seed(core.SEED)
  design(c)
  rng = c.rng
  for i in range(150 if core.THOROUGH else 22):
    run_hierarchy(c, i, 'poisson' if i % 2 else 'average', rng)


CHECKS = {'C05': c05, 'C06': c06, 'C22': c22}
