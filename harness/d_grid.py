"""C01-C04: grid, neighbor search, bookkeeping."""
import core
from core import attempt, attr, ints, q
import clouds

T = 'TraceGrid'
MC = dict(XS='{2, 4, 11}', YS='{2, 3}', CXS='{0, 4, 13}', CYS='{1, 3}', NP=2,
          NB=2, CellX='{3}', CellY='{1, 2}', RadX='{1, 2}', RadY='{1, 2}',
          Variant='"ok"')
INV = ['KeysInRange', 'KeysSeparateBatches', 'KeyIsCell', 'DSPartition',
       'SearchExact']


def lib():
  import numpy as np
  import tensorflow as tf
  import pylib.pc as pc
  from pylib.pc.Neighborhood import compute_neighborhoods
  return np, tf, pc, compute_neighborhoods


def design(c, inv):
  k = dict(MC)
  if core.THOROUGH:
    k.update(NP=3)
  c.design('GridSearchMC', k, inv, workers=4 if core.THOROUGH else 2)
  wrong = {'cellFromRadius': {}, 'firstRadius': {}, 'noBatchMask': {},
           'noPointClip': {}, 'ownColumn': dict(XS='{2, 3, 8}', CellX='{2, 3}')}
  want = {'noPointClip': ['KeyIsCell', 'KeysInRange']}
  for v, o in wrong.items():
    if (v == 'noPointClip') == ('SearchExact' not in inv):
      kk = dict(MC, NP=3, Variant='"%s"' % v, **o)
      c.mutant('GridSearchMC', kk, INV, label=v,
               expect=want.get(v, ['SearchExact']))


def build(case):
  """Runs the library on a case and returns the recorded observations."""
  np, tf, pc, cn = lib()
  u = case['u']
  f = lambda a: (np.array(a, np.float32) * np.float32(u)).astype(np.float32)
  o = {}

  def grid():
    cloud = pc.PointCloud(f(case['pts']), np.array(case['bids']), case['bs'])
    cell = case['cell']
    cell_arg = f(cell)
    if case.get('scalar') and len(set(cell)) == 1:
      cell_arg = float(f(cell[0])) if case['scalar'] == 1 else f(cell[:1])
    box = None
    if case.get('boxpts'):
      bp, bb = case['boxpts']
      box = pc.PointCloud(f(bp), np.array(bb), case['bs']).get_AABB()
    return cloud, pc.Grid(cloud, cell_arg, box)
  r, err = attempt(grid)
  if err:
    return None, None, err
  return r[0], r[1], ''


def grid_obs(case, cloud, g):
  np, tf, pc, _ = lib()
  from pylib.pc.custom_ops import compute_keys
  u = case['u']
  o = {'ckeys': ints(attr(g, '_cur_keys')), 'skeys': ints(attr(g, '_sorted_keys')),
       'order': ints(attr(g, '_sorted_indices')),
       'spts': q(attr(g, '_sorted_points'), 1 / u),
       'sbids': ints(attr(g, '_sorted_batch_ids')),
       'nc': ints(attr(g, '_num_cells')),
       'gcell': q(attr(g, '_cell_sizes'), 1 / u)}
  if case.get('boxpts'):
    o['opkeys'] = o['ckeys']
  else:
    o['opkeys'] = ints(compute_keys(cloud, attr(g, '_num_cells'),
                                    attr(g, '_cell_sizes')))
  return o


def boxes_of(pts, bids, bs):
  """The per element boxes of the points whose box is passed to the grid."""
  out = []
  for b in range(bs):
    ps = [p for p, i in zip(pts, bids) if i == b]
    out.append([[min(x) for x in zip(*ps)], [max(x) for x in zip(*ps)]])
  return out


def base(case, i):
  return {'case': '%s#%d' % (case['mode'], i), 'pts': case['pts'],
          'bids': case['bids'], 'bs': case['bs'], 'cell': case['cell'],
          'u': str(case['u'])}


def with_cells(rng, c, rad):
  """cell sizes: at least the radius in every dimension"""
  m = rng.random()
  if m < 0.4:
    return list(rad)
  if m < 0.7:
    return [x + rng.randrange(0, 4) for x in rad]
  return [max(rad)] * len(rad) if m < 0.85 else [x * 2 for x in rad]


def search_case(rng, i, nmax, nc, **kw):
  c = clouds.cloud(rng, nmax=nmax, **kw)
  c['rad'] = clouds.radii(rng, c['dim'], c['ext'])
  c['cell'] = with_cells(rng, c, c['rad'])
  if rng.random() < 0.35:
    c['self'] = True
  else:
    c['self'] = False
    c['ctr'], c['cbids'] = clouds.centers(rng, c, rng.randrange(1, nc + 1))
  c['max'] = 0
  return c


SPECIAL = [
    # boundary distances, points at the upper border of the box, one point
    dict(pts=[[0, 0], [2, 0], [0, 2], [4, 4], [2, 2]], bids=[0] * 5, bs=1,
         rad=[2, 2], cell=[2, 2], self=True),
    dict(pts=[[8, 8, 8], [0, 0, 0], [8, 0, 8], [8, 8, 0], [4, 4, 4]],
         bids=[0] * 5, bs=1, rad=[4, 4, 4], cell=[4, 4, 4], self=False,
         ctr=[[8, 8, 8], [9, 9, 9], [12, 8, 8], [11, 8, 8], [-3, 0, 0], [4, 4, 6]],
         cbids=[0] * 6),
    dict(pts=[[3, 3]], bids=[0], bs=1, rad=[1, 1], cell=[1, 1], self=True),
    dict(pts=[[3, 3], [3, 3]], bids=[1, 0], bs=2, rad=[4, 4], cell=[4, 4],
         self=True),
    dict(pts=[[0, 0], [0, 0], [0, 0]], bids=[2, 2, 0], bs=4, rad=[1, 1],
         cell=[3, 3], self=False, ctr=[[0, 0], [0, 0], [0, 0], [0, 0]],
         cbids=[0, 1, 2, 3]),
    # cells much larger than the radius, centers far outside
    dict(pts=[[x, y] for x in range(0, 12, 3) for y in range(0, 12, 3)],
         bids=[0] * 16, bs=1, rad=[4, 4], cell=[8, 16], self=False,
         ctr=[[9, 9], [0, 0], [12, 12], [-9, 5], [5, 40], [9, 6], [4, 9]],
         cbids=[0] * 7),
    # long thin boxes: many cells in one dimension, one in the other
    dict(pts=[[k * 2, 7] for k in range(12)], bids=[k % 2 for k in range(12)],
         bs=2, rad=[4, 1], cell=[4, 1], self=True),
    dict(pts=[[7, k * 2, 1] for k in range(12)], bids=[k % 2 for k in range(12)],
         bs=2, rad=[1, 4, 2], cell=[1, 4, 2], self=True),
    # dimension 4 and 5
    dict(pts=[[a, b, c_, d] for a in (0, 3) for b in (0, 3) for c_ in (0, 3)
              for d in (0, 3)], bids=[0] * 16, bs=1, rad=[4, 4, 4, 2],
         cell=[4, 4, 4, 2], self=False,
         ctr=[[0, 0, 0, 0], [3, 3, 3, 3], [1, 1, 1, 1], [2, 2, 1, 4]],
         cbids=[0] * 4),
    dict(pts=[[a, b, a, b, a] for a in range(4) for b in range(4)],
         bids=[0] * 8 + [1] * 8, bs=2, rad=[2, 2, 2, 4, 2], cell=[2, 2, 4, 4, 4],
         self=False, ctr=[[0, 0, 0, 0, 0], [2, 1, 2, 1, 2], [3, 3, 3, 3, 3]],
         cbids=[0, 1, 1]),
    # ten batch elements
    dict(pts=[[k % 5, k % 3] for k in range(30)], bids=[k % 10 for k in range(30)],
         bs=10, rad=[2, 2], cell=[2, 2], self=False,
         ctr=[[k % 5, k % 3] for k in range(10)], cbids=list(range(10))),
]


def specials():
  for k, s in enumerate(SPECIAL):
    c = dict(s)
    c.update(dim=len(s['pts'][0]), ext=8, u=clouds.SCALES[k % 4], max=0,
             mode='special')
    yield c


def run_search(case, i, kind, c, keep=None):
  """keep: holds the cloud and grid object used by consecutive searches."""
  np, tf, pc, cn = lib()
  u = case['u']
  f = lambda a: (np.array(a, np.float32) * np.float32(u)).astype(np.float32)
  rec = base(case, i)
  rec.update(kind=kind, rad=case['rad'], max=case['max'], own=case['self'],
             ctr=case.get('ctr', []), cbids=case.get('cbids', []), err='',
             ob=[], nb=[], rg=[], order=[], ex=[], exr=[], exs=[])

  def go():
    if keep:
      cloud, g = keep
    else:
      cloud, g, err = build(case)
      if err:
        raise RuntimeError(err)
      if keep is not None:
        keep.extend([cloud, g])
    cc = None
    if not case['self']:
      cc = pc.PointCloud(f(case['ctr']), np.array(case['cbids']), case['bs'])
    rad = f(case['rad'])
    if case.get('scalar') and len(set(case['rad'])) == 1:
      rad = float(rad[0]) if case['scalar'] == 1 else rad[:1]
    nb = pc.Neighborhood(g, rad, cc, max_neighbors=case['max'])
    ex, exr = cn(g, rad, cc, max_neighbors=case['max'], return_ranges=True)
    exs = None
    if kind == 'book':
      exs = cn(g, rad, cc, max_neighbors=case['max'], return_sorted_ids=True)
    return g, nb, ex, exr, exs
  r, err = attempt(go)
  if err:
    rec['err'] = err
  else:
    g, nb, ex, exr, exs = r
    rec['ob'] = ints(attr(nb, '_original_neigh_ids'))
    rec['nb'] = ints(attr(nb, '_neighbors'))
    rec['rg'] = ints(attr(nb, '_samples_neigh_ranges'))
    rec['order'] = ints(attr(g, '_sorted_indices'))
    rec['ex'], rec['exr'] = ints(ex), ints(exr)
    if exs is not None:
      rec['exs'] = ints(exs)
    if case['self']:
      s = attr(nb, '_point_cloud_sampled')
      rec['ctr'] = q(s._points, 1 / u)
      rec['cbids'] = ints(s._batch_ids)
  c.record(T, **rec)


def scalar_mode(rng, case):
  case['scalar'] = rng.choice([0, 0, 1, 2])
  return case


def again(rng, case, nc):
  """Another search on the same grid: other radius, centers and limit."""
  s = dict(case)
  s['rad'] = [rng.randrange(1, x + 1) for x in s['cell']]
  if rng.random() < 0.3:
    s['rad'] = [min(s['rad'])] * s['dim']
  if s['dim'] > 3:
    s['rad'] = [1 << (x.bit_length() - 1) for x in s['rad']]
    s['rad'] = [max(min(x, 4), 2) for x in s['rad']]
    if any(x > y for x, y in zip(s['rad'], s['cell'])):
      s['rad'] = list(case['rad'])
  s['self'] = rng.random() < 0.2
  if not s['self']:
    s['ctr'], s['cbids'] = clouds.centers(rng, s, rng.randrange(1, nc + 1))
  s['mode'] = case['mode'] + '+again'
  return scalar_mode(rng, s)


def dense(rng, nc):
  """Hundreds of neighbors for every center."""
  s = clouds.cloud(rng, nmax=300, nmin=200, dims=(2, 3), bsmax=2, ext=9,
                   pmode='random')
  r = rng.choice([5, 8, 12])
  s['rad'] = [r] * s['dim']
  s['cell'] = with_cells(rng, s, s['rad'])
  s['self'], s['max'] = False, 0
  s['ctr'], s['cbids'] = clouds.centers(rng, dict(s, ext=2), nc)
  s['mode'] = 'dense'
  return s


def wide(rng, i, flat):
  """Clouds in grids with billions of cells (more than 32 bits of keys)."""
  dim = [3, 3, 4][i % 3]
  bs = rng.choice([1, 2, 5, 9])
  low = lambda: rng.choice([3, 8, 17])
  if dim == 4:
    ext = [low(), low(), 1 << 12, 1 << rng.choice([12, 14])]
  elif flat or i % 2:
    ext = [low(), low(), 1 << rng.choice([20, 23])]
  else:
    ext = [1 << 10, 1 << 9, 1 << rng.choice([12, 14])]
  n = rng.randrange(8, 26)
  pts = [[rng.randrange(e + 1) for e in ext] for _ in range(n)]
  for k in range(0, n - 1, 2):        # near pairs
    pts[k + 1] = [min(max(x + rng.choice([-1, 0, 0, 1]), 0), e)
                  for x, e in zip(pts[k], ext)]
  bids = [rng.randrange(bs) for _ in range(n)]
  for k in range(0, n - 1, 2):
    bids[k + 1] = bids[k]
  for k in range(min(bs, n // 2)):    # span the whole extent
    bids[2 * k] = bids[2 * k + 1] = k % bs
    pts[2 * k], pts[2 * k + 1] = [0] * dim, list(ext)
  cell = [rng.choice([1, 2]) for _ in range(dim)]
  return dict(pts=pts, bids=bids, bs=bs, dim=dim, ext=8, cell=cell,
              u=rng.choice([1.0, 0.0625]), mode='wide', max=0)


def parts(keys, nc):
  """Keys as (2D column, rest)."""
  p = 1
  for x in nc[2:]:
    p *= int(x)
  return [[max(-core.NAN, min(core.NAN, int(k) // p)), int(k) % p] for k in keys]


def far(rng, s):
  """Far from the origin (coordinates and differences stay exact)."""
  clouds.shift(s, [rng.randrange(-1 << 19, 1 << 19) for _ in range(s['dim'])])


def c01(c):
  design(c, ['SearchExact'])
  rng = c.rng
  for i, s in enumerate(specials()):
    run_search(s, i, 'search', c)
  n = 400 if core.THOROUGH else 34
  for i in range(n):
    kw = dict(dims=(2, 2, 3, 3, 4) if i % 6 else (5,))
    if i % 3 == 0:
      kw['bsmax'] = 7
    s = scalar_mode(rng, search_case(rng, i, 30 if i % 5 else 60, 12, **kw))
    keep = []
    if i % 7 == 3:
      far(rng, s)
    run_search(s, i, 'search', c, keep)
    if i % 3 == 0:
      run_search(again(rng, s, 8), i, 'search', c, keep)
      run_search(again(rng, s, 8), i, 'search', c, keep)
  for i in range(8 if core.THOROUGH else 2):
    run_search(dense(rng, 12), i, 'search', c)
  for i in range(30 if core.THOROUGH else 6):
    s = wide(rng, i, True)
    s['rad'], s['self'] = list(s['cell']), i % 2 == 0
    s['ctr'], s['cbids'] = clouds.centers(rng, dict(s, ext=-4), 8)
    run_search(s, i, 'search', c)
  # many cells and points, few centers
  for i in range(40 if core.THOROUGH else 4):
    s = search_case(rng, i, 160, 30, dims=(2, 3), bsmax=4, nmin=120,
                    ext=rng.choice([24, 40]))
    if s['self']:
      s['self'] = False
      s['ctr'], s['cbids'] = clouds.centers(rng, s, 25)
    run_search(s, i, 'search', c)
  no_grid(c)


def no_grid(c):
  """The search without a grid is the same relation (isotropic radius)."""
  np, tf, pc, cn = lib()
  from pylib.pc.custom_ops import custom_ops_tf as ops
  rng = c.rng
  for i in range(200 if core.THOROUGH else 60):
    case = search_case(rng, i, 40, 12)
    r0 = case['rad'][0]
    case['rad'] = [r0] * case['dim']
    if case['self'] or i % 2:
      case['ctr'], case['cbids'] = clouds.centers(rng, case, 8)
    case['self'] = False
    if i % 4 == 1:
      far(rng, case)
    u = case['u']
    f = lambda a: (np.array(a, np.float32) * np.float32(u)).astype(np.float32)
    rec = base(case, i)
    rec.update(kind='nogrid', rad=case['rad'], ctr=case['ctr'],
               cbids=case['cbids'], err='', ob=[], rg=[])

    def go():
      cloud = pc.PointCloud(f(case['pts']), np.array(case['bids']), case['bs'])
      cc = pc.PointCloud(f(case['ctr']), np.array(case['cbids']), case['bs'])
      return ops.find_neighbors_no_grid(cloud, cc, np.float32(r0 * u))
    r, rec['err'] = attempt(go)
    if r is not None:
      rec['rg'], rec['ob'] = ints(r[0]), ints(r[1])
    c.record(T, **rec)


def c02(c):
  design(c, ['DSPartition', 'SearchExact'])
  rng = c.rng
  for i, s in enumerate(specials()):
    run_search(dict(s, max=(i % 3)), i, 'book', c)
  for i in range(300 if core.THOROUGH else 24):
    s = scalar_mode(rng, search_case(rng, i, 30 if i % 5 else 50, 10))
    s['max'] = rng.choice([0, 0, 1, 2, 3, 5, 100])
    keep = []
    run_search(s, i, 'book', c, keep)
    if i % 3 == 0:
      s = again(rng, s, 8)
      s['max'] = rng.choice([0, 0, 1, 2, 4])
      run_search(s, i, 'book', c, keep)
  for i in range(8 if core.THOROUGH else 2):
    s = dense(rng, 10)
    s['max'] = [0, 70, 128, 1][i % 4]
    run_search(s, i, 'book', c)


def run_grid(c, case, i):
  rec = base(case, i)
  gb = []
  if case.get('boxpts'):
    gb = boxes_of(case['boxpts'][0], case['boxpts'][1], case['bs'])
  rec.update(kind='grid', gbox=gb, err='', ckeys=[], skeys=[], order=[],
             spts=[], sbids=[], nc=[], gcell=[], opkeys=[])
  cloud, g, err = build(case)
  rec['err'] = err
  if not err:
    o, err = attempt(lambda: grid_obs(case, cloud, g))
    rec['err'] = err
    if o:
      rec.update(o)
  c.record(T, **rec)


def other_box(rng, s):
  """A box from other points: larger, smaller or shifted."""
  bp, bb = [], []
  for b in range(s['bs']):
    for _ in range(2):
      bp.append([x + rng.randrange(-6, 7) for x in rng.choice(s['pts'])])
      bb.append(b)
  s['boxpts'] = (bp, bb)


def run_wide(c, case, i):
  np = lib()[0]
  rec = base(case, i)
  rec.update(kind='wide', gbox=[], err='', ckeys=[], skeys=[], order=[],
             spts=[], sbids=[], nc=[])
  cloud, g, err = build(case)

  def obs():
    nc = ints(attr(g, '_num_cells'))
    return {'nc': nc, 'ckeys': parts(np.asarray(attr(g, '_cur_keys')), nc),
            'skeys': parts(np.asarray(attr(g, '_sorted_keys')), nc),
            'order': ints(attr(g, '_sorted_indices')),
            'spts': q(attr(g, '_sorted_points'), 1 / case['u']),
            'sbids': ints(attr(g, '_sorted_batch_ids'))}
  if not err:
    o, err = attempt(obs)
    rec.update(o or {})
  rec['err'] = err
  c.record(T, **rec)


def c03(c):
  design(c, ['KeysInRange', 'KeysSeparateBatches', 'KeyIsCell'])
  rng = c.rng
  for i, s in enumerate(specials()):
    run_grid(c, s, i)
  for i in range(1500 if core.THOROUGH else 200):
    s = clouds.cloud(rng, nmax=60, dims=(2, 3, 3, 4, 5), bsmax=5)
    s['cell'] = [rng.randrange(1, 9) for _ in range(s['dim'])]
    if rng.random() < 0.3:
      s['cell'] = [s['cell'][0]] * s['dim']
    scalar_mode(rng, s)
    if i % 3 == 0:
      other_box(rng, s)
    run_grid(c, s, i)
  for i in range(150 if core.THOROUGH else 20):
    run_wide(c, wide(rng, i, False), i)


def run_wideds(c, case, i):
  rec = base(case, i)
  rec.update(kind='wideds', gbox=[], err='', order=[], ds=[])
  cloud, g, err = build(case)
  if not err:
    r, err = attempt(lambda: g.get_DS())
    if r is not None:
      rec['ds'], rec['order'] = ints(r), ints(attr(g, '_sorted_indices'))
  rec['err'] = err
  c.record(T, **rec)


def run_ds(c, case, i):
  rec = base(case, i)
  rec.update(kind='ds', gbox=[], err='', order=[], ds=[], again=[])
  cloud, g, err = build(case)
  if not err:
    r, err = attempt(lambda: (g.get_DS(), g.get_DS()))
    if r is not None:
      rec['ds'], rec['again'] = ints(r[0]), ints(r[1])
      rec['order'] = ints(attr(g, '_sorted_indices'))
  rec['err'] = err
  c.record(T, **rec)


def c04(c):
  design(c, ['DSPartition'])
  rng = c.rng
  for i in range(60 if core.THOROUGH else 10):
    run_wideds(c, wide(rng, i, True), i)
  for i, s in enumerate(specials()):
    run_ds(c, s, i)
  for i in range(800 if core.THOROUGH else 120):
    s = clouds.cloud(rng, nmax=50, dims=(2, 2, 3, 3, 4, 5), bsmax=5)
    s['cell'] = [rng.randrange(2, 9) for _ in range(s['dim'])]
    run_ds(c, s, i)


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04}
