"""C34-C37: the CUDA operations.

The operations are compiled for the processor and executed by an emulator
(../gpu), which interleaves the threads of each launch in a chosen way.  The
library on top of them is the real one, so the runners and the specifications
of the other checks are used as they are.
"""
import os
import sys

import core
from core import attempt, ints, q, qa
import clouds
import d_density
import d_grid
import d_layers
import d_rel
import d_sample
import d_train

T = 'TraceGpu'
GPU = os.path.join(core.VERIF, 'gpu')


def tree():
  return os.environ.get('VERIF_REPO', '/repo')


def load():
  """The emulated operations; to be called before the library is imported."""
  if GPU + '/py' not in sys.path:
    sys.path.insert(0, GPU + '/py')
  import tfg_custom_ops as ops
  import pylib.pc.custom_ops as co
  if not co.CUSTOM:
    raise core.Machinery('the library does not use the CUDA operations')
  d_layers.GPU = True
  return ops


def compile_ops():
  sys.path.insert(0, GPU)
  import build
  try:
    os.environ['GPU_LIB'] = build.build(tree(), os.path.join(core.scratch(), 'ops'))
  except Exception as ex:
    raise core.Machinery(str(ex))


def crashed(item, how):
  """An item during which the process died or did not come to an end."""
  how = 'does not end' if how == 'SIGPROF' else how
  return T, dict(kind='op', op=item['what'], error=how, faults=[how], launches=[],
                 info=item)


def schedule(rng, i):
  ops = load()
  del ops.log[:]
  ops.config(seed=rng.randrange(1 << 20), mode=(i + i // 6) % 6, mps=rng.choice([1, 1, 2, 3]),
             blocks=rng.choice([1, 2, 3]))
  return ops


# ------------------------------------------- inputs with exact reciprocals

def pow2(x):
  return 1 << max(0, int(x).bit_length() - 1)


def dyadic(s):
  s['rad'] = [pow2(x) for x in s['rad']]
  s['cell'] = [max(pow2(x), r) for x, r in zip(s['cell'], s['rad'])]
  return s


def gpu_search(rng, i, nmax=40, nc=12):
  dims = [(2,), (3,), (3,), (4,), (2, 3), (5,), (3,), (6,)][i % 8]
  kw = dict(dims=dims, bsmax=4)
  if i % 9 == 8:               # more points than one block of the scan holds
    s = clouds.cloud(rng, nmax=60, nmin=20, dims=(2, 3), bsmax=3, ext=8)
  else:
    s = clouds.cloud(rng, nmax=nmax, **kw)
  s['rad'] = clouds.radii(rng, s['dim'], s['ext'], True)
  s['cell'] = d_grid.with_cells(rng, s, s['rad'])
  dyadic(s)
  s['self'] = rng.random() < 0.3 and i % 9 != 8
  if not s['self']:
    n = rng.choice([513, 600, 1025]) if i % 9 == 8 else rng.randrange(1, nc + 1)
    s['ctr'], s['cbids'] = clouds.centers(rng, s, n)
  s['max'] = 0
  return s


def draw(c, i, rng):
  """A limited search, repeated."""
  import numpy as np
  from pylib.pc import Grid, Neighborhood, PointCloud
  dim, cap = [2, 3][i % 2], rng.choice([2, 5, 8])
  n = rng.randrange(2 * cap + 4, 3 * cap + 7)
  pts = np.array([[rng.randrange(8) for _ in range(dim)] for _ in range(n)] +
                 [[100] * dim] * 5, np.float32)
  perm = np.array(rng.sample(range(n + 5), n + 5))
  def run():
    out = []
    pc = PointCloud(pts[perm], np.zeros(n + 5, np.int32), 1)
    ctr = PointCloud(np.full([1, dim], 4, np.float32), np.zeros(1, np.int32), 1)
    for k in range(120):
      # (the same order of the threads)
      schedule(rng, 0)
      nb = Neighborhood(Grid(pc, np.full(dim, 16, np.float32)),
                        np.full(dim, 16, np.float32), ctr, cap)
      out.append(ints(nb._original_neigh_ids.numpy()[:, 0]))
    return out
  runs, err = attempt(run)
  c.record(T, kind='draw', cap=cap, runs=runs or [], err=err or '',
           near=[k for k in range(n + 5) if perm[k] < n])


def grids(c, i, it):
  """One case of C34."""
  rng = c.rng
  schedule(rng, i)
  what = it['what']
  if what == 'draw':
    draw(c, i, rng)
  elif what == 'special':
    s = dyadic(dict(list(d_grid.specials())[it['n']]))
    if it['n'] % 2:
      s['max'] = it['n'] % 3
    d_grid.run_search(s, i, 'book' if s['max'] else 'search', c)
  elif what == 'search':
    s = d_grid.scalar_mode(rng, gpu_search(rng, i))
    d_grid.run_search(s, i, 'search', c)
  elif what == 'book':
    s = d_grid.scalar_mode(rng, gpu_search(rng, i))
    s['max'] = rng.choice([0, 1, 1, 2, 3, 5, 40])
    d_grid.run_search(s, i, 'book', c)
  elif what == 'dense':
    s = d_grid.dense(rng, 8)
    dyadic(s)
    s['max'] = [0, 3, 70, 128, 1][i % 5]
    d_grid.run_search(s, i, 'book', c)
  elif what == 'again':
    s = gpu_search(rng, i)
    keep = []
    d_grid.run_search(s, i, 'book', c, keep)
    for _ in range(2):
      s2 = d_grid.again(rng, s, 8)
      s2['rad'] = [pow2(x) for x in s2['rad']]
      s2['max'] = rng.choice([0, 0, 2])
      d_grid.run_search(s2, i, 'book', c, keep)
  elif what in ('grid', 'ds'):
    s = clouds.cloud(rng, nmax=60 if i % 7 else 400, dims=(2, 3, 3, 4, 5, 6), bsmax=5)
    s['cell'] = [rng.choice([1, 2, 4, 8]) for _ in range(s['dim'])]
    if s['dim'] > 4:
      s['cell'] = [rng.choice([4, 8, 16]) for _ in range(s['dim'])]
    d_grid.scalar_mode(rng, s)
    if what == 'grid' and i % 3 == 0:
      d_grid.other_box(rng, s)
    (d_grid.run_grid if what == 'grid' else d_grid.run_ds)(c, s, i)
  else:
    s = d_grid.wide(rng, i, what != 'wide')
    if what == 'widesearch':
      s['rad'], s['self'] = list(s['cell']), i % 2 == 0
      s['ctr'], s['cbids'] = clouds.centers(rng, dict(s, ext=-4), 8)
      d_grid.run_search(s, i, 'search', c)
    else:
      (d_grid.run_wide if what == 'wide' else d_grid.run_wideds)(c, s, i)


SCAN = ['Prefix', 'BlockSum', 'RaceFree']
STORE = ['InArray', 'Placed', 'Distinct', 'Ends']


def design_ranges(c):
  k = dict(NX=2, NY=2, NZ=3, N=4, Variant='"ok"')
  if core.THOROUGH:
    k.update(N=5)
  c.design('RangesMC', k, ['Exact', 'Shrinks'], workers=4 if core.THOROUGH else 2)
  for v in ['noRow', 'strict', 'oneEnd']:
    c.mutant('RangesMC', dict(k, N=4, Variant='"%s"' % v), ['Exact', 'Shrinks'],
             label=v, expect=['Exact'])


def design_store(c):
  k = dict(F1=2, F2=3, Limit=2, Threads=2, Variant='"ok"')
  c.design('StoreMC', dict(k, Threads=3) if core.THOROUGH else k, STORE)
  c.design('StoreMC', dict(k, F2=2, Limit=0), STORE, label='StoreMC, no limit')
  for v in ['oneCounter', 'sharedSlots', 'plainCounter', 'wholeRow']:
    c.mutant('StoreMC', dict(k, Variant='"%s"' % v), STORE, label=v, expect=STORE)


def design_scan(c):
  k = dict(T=2, N=3, Variant='"ok"')
  for t, n in [(2, 1), (2, 4), (4, 7)] + ([(4, 8), (8, 13)] if core.THOROUGH else []):
    c.design('ScanMC', dict(k, T=t, N=n), SCAN, label='ScanMC %d/%d' % (t, n), workers=1)
  for v in ['noUpBarrier', 'noDownBarrier', 'lateSum', 'inclusive']:
    c.mutant('ScanMC', dict(k, Variant='"%s"' % v), SCAN, label=v,
             expect=['Prefix'] if v == 'inclusive' else ['RaceFree'])


def design_parity(c):
  k = dict(XS='{0, 1, 2, 4}', YS='{0, 1, 2}', NP=3, Cell=2, Rad=2, Variant='"ok"')
  inv = ['Separated', 'Covering', 'RaceFree']
  c.design('ParityMC', dict(k, NP=4, XS='{0, 1, 2, 4, 5}', YS='{0, 1, 2, 3}')
           if core.THOROUGH else k, inv, workers=4 if core.THOROUGH else 2)
  for v in ['oneLaunch', 'oneDimension', 'laterOnly']:
    c.mutant('ParityMC', dict(k, Variant='"%s"' % v), inv, label=v,
             expect=['Separated'] if v == 'laterOnly' else ['RaceFree', 'Separated'])


def counts(quick, thorough):
  return quick if not core.THOROUGH else thorough


def c34(c):
  design_ranges(c)
  design_store(c)
  design_scan(c)
  compile_ops()
  items = [dict(what='special', n=k) for k in range(len(d_grid.SPECIAL))]
  n = counts(1, 8)
  for what, k in (('search', 44), ('book', 36), ('dense', 5), ('again', 6),
                  ('grid', 36), ('ds', 28), ('wide', 4), ('wideds', 4), ('widesearch', 4), ('draw', 2)):
    items += [dict(what=what)] * (k * n)
  c.spread('d_gpu', 'grids', items, crash=crashed)


# ------------------------------------------------------------------ sampling

def samples(c, i, it):
  rng = c.rng
  schedule(rng, i)
  what = it['what']
  if what == 'poisson':
    s = clouds.cloud(rng, nmax=26 if i % 5 else 60, dims=[(2,), (3,), (3,), (4,), (5,)][i % 5],
                     bsmax=4)
    if i % 12 == 11:
      s = clouds.cloud(rng, nmax=180, nmin=120, dims=(2, 3), bsmax=3, ext=[8, 14, 5][i % 3],
                       pmode='random')
    s['rad'] = clouds.radii(rng, s['dim'], s['ext'], True)
    s['cell'] = d_grid.with_cells(rng, s, s['rad'])
    dyadic(s)
    d_sample.poisson(c, s, i, d_sample.ENTRIES[(i + i // 6) % 6])
  elif what == 'average':
    s = clouds.cloud(rng, nmax=40, dims=(2, 3, 3, 4), bsmax=4, ext=rng.choice([4, 8, 12])) \
        if i % 10 else clouds.cloud(rng, nmax=420, nmin=200, dims=(2, 3), bsmax=8,
                                    ext=rng.choice([6, 20]), pmode='random')
    s['cell'] = [rng.choice([1, 2, 4, 8]) for _ in range(s['dim'])]
    if i % 3 == 0:
      s['cell'] = [s['cell'][0]] * s['dim']
    d_sample.average(c, s, i, ['cells', 'op', 'grid', 'average', 'op'][i % 5], 256)
  else:
    d_sample.run_hierarchy(c, i, 'poisson', rng)


def c35(c):
  design_parity(c)
  compile_ops()
  n = counts(1, 8)
  items = []
  for what, k in (('poisson', 48), ('average', 40), ('hierarchy', 10)):
    items += [dict(what=what)] * (k * n)
  c.spread('d_gpu', 'samples', items, crash=crashed)


# ------------------------------------------- densities, projection and layers

def aggregates(c, i, it):
  rng = c.rng
  schedule(rng, i)
  what = it['what']
  if what == 'kde':
    s = d_density.crowd(rng, i % 16 in (7, 15)) if i % 4 == 3 else \
        d_density.case_of(rng, dims=[(2,), (3,), (4,), (3,)][i % 4])
    s['n'], s['cap'] = i, rng.choice([0, 0, 1, 2, 4])
    d_density.kde(c, s, i)
  elif what == 'proj':
    s = d_layers.scene(rng, nmax=20, cmax=12, dims=(2, 3, 3, 4)) if i % 9 else \
        d_layers.scene(rng, dims=(2, 3), ext=rng.choice([4, 8]), **d_layers.BIG)
    h = rng.choice([8, 16, 32, 64]) if i % 9 else 8
    w = rng.choice([1, 2, 3, 7, 8, 16, 24]) if i % 9 else 3
    d_layers.proj(c, s, i, w, h)
  elif what == 'mc':
    mode = ['unit', 'given', 'kde', 'own', 'normalized'][i % 5]
    d_layers.chain(rng, lambda k, prev, big: d_layers.mc_case(c, i, mode, rng, prev), 2, False, 1)
  elif what == 'pointconv':
    mode = ['unit', 'given', 'kde', 'own', 'normalized'][i % 5]
    d_layers.chain(rng, lambda k, prev, big: d_layers.pc_case(c, i, mode, rng, prev), 2, False, 1)
  elif what in ('kp', 'kpdeform'):
    d_layers.kp_case(c, i, rng, what != 'kp')
  elif what == 'same':
    d_layers.same(c, i, ['mc', 'pointconv', 'kp'][i % 3], rng)
  elif what.startswith('train:'):
    d_train.derivative(c, i, what.split(':')[1])
  else:
    d_rel.gradient(c, i, what.split(':')[1])


def c36(c):
  d_layers.design(c)
  compile_ops()
  n = counts(1, 8)
  items = []
  for what, k in (('kde', 24), ('proj', 32), ('mc', 16), ('pointconv', 14), ('kp', 16),
                  ('kpdeform', 8), ('same', 4), ('grad:mc', 6), ('grad:pointconv', 6),
                  ('grad:kp', 6), ('train:mc', 3), ('train:pointconv', 3), ('train:kp', 3),
                  ('train:kpdeform', 3), ('train:density', 3)):
    items += [dict(what=what)] * (k * n)
  c.spread('d_gpu', 'aggregates', items, crash=crashed)


# ------------------------------------------------------- memory and schedules

def random_cloud(rng, i):
  """Coordinates without any structure: only memory accesses are judged."""
  dim = [2, 3, 3, 4, 5, 3, 6, 2][i % 8]
  n = rng.choice([1, 2, 7, 25, 60]) if i % 7 else rng.choice([300, 520])
  n = 1 if i % 10 == 5 else n
  bs = rng.randrange(1, 5)
  ext = rng.choice([0.0, 0.3, 1.0, 3.0])
  far = rng.choice([0.0, 0.0, -40.0, 1000.0])
  pts = [[far + rng.uniform(-ext, ext) for _ in range(dim)] for _ in range(n)]
  bids = clouds.batch_ids(rng, n, bs, rng.choice(['sorted', 'full', 'gaps', 'unsorted']))
  return dim, n, bs, ext, pts, bids


def calls(c, ops, info):
  """One record for every operation since the last call."""
  for e in ops.log:
    c.record(T, kind='op', op=e['op'], error=e['error'], faults=e['faults'],
             launches=e['launches'], mode=e['mode'], mps=e['mps'],
             blocks=e['blocks'], seed=e['seed'], info=info)
  del ops.log[:]


def memory(c, i, it):
  import numpy as np
  import tensorflow as tf
  rng = c.rng
  ops = schedule(rng, i)
  from pylib.pc import Grid, Neighborhood, PointCloud, custom_ops, sample, layers
  dim, n, bs, ext, pts, bids = random_cloud(rng, i)
  def cloud_of(p, b):
    p = np.asarray(p, np.float32).reshape([-1, dim])
    return PointCloud(p, np.asarray(b, np.int32), bs)
  pc = cloud_of(pts, bids)
  size = max(ext, .2)
  rad = np.array([rng.uniform(.1, 1.1) * size for _ in range(dim)], np.float32)
  cell = rad * np.float32(rng.choice([1, 1, 1.7]))
  if dim > 4:
    rad, cell = rad + np.float32(size), cell + np.float32(2 * size)
  m = rng.choice([1, 3, 12, 40])
  near = [[x + rng.uniform(-size, size) for x in rng.choice(pts)] for _ in range(m)]
  where = rng.choice(['self', 'near', 'near', 'far']) if i % 10 != 5 else 'self'
  if where == 'far':
    near = [[x + 50 * size for x in p] for p in near]
  ctr = cloud_of(near, clouds.batch_ids(rng, m, bs, 'unsorted')) if where != 'self' else None
  cap = rng.choice([0, 0, 1, 2, 9])
  info = dict(dim=dim, n=n, bs=bs, centers=where, m=m, cap=cap, what=it['what'])
  h = rng.choice([8, 16, 32, 64])
  w = rng.choice([1, 2, 3, 5, 7, 8, 16, 24])

  def run():
    g = Grid(pc, cell)
    g.get_DS()
    nb = Neighborhood(g, rad, ctr, cap) if ctr is not None else \
        Neighborhood(g, rad, max_neighbors=cap)
    if it['what'] == 'ops':
      if ctr is None:
        bw = np.full(dim, rng.uniform(.1, 1), np.float32)
        with tf.GradientTape() as tape:
          tape.watch(g._sorted_points)
          pdf = custom_ops.compute_pdf(nb, bw, rng.randrange(2))
        tape.gradient(pdf, g._sorted_points)
        custom_ops.sampling(nb, 0)
        if cap == 0:
          custom_ops.sampling(nb, 1)
      k = nb._neighbors.shape[0]
      basis = tf.Variable(np.float32(np.random.RandomState(i).randn(k, h)))
      feat = tf.Variable(np.float32(np.random.RandomState(i + 1).randn(n, w)))
      with tf.GradientTape() as tape:
        o = tf.reduce_sum(custom_ops.basis_proj(basis, feat, nb) ** 2)
      tape.gradient(o, [basis, feat])
    elif it['what'] == 'sample':
      for mode in ('poisson', 'average'):
        sample(nb, mode)
    else:
      out = pc if ctr is None else ctr
      if dim > 4:
        return
      lay = [lambda: layers.MCConv(w, 6, dim, 1 if h > 32 else rng.choice([1, 2]), [h]), lambda: layers.PointConv(w, 3, dim, h),
             lambda: layers.KPConv(w, 3, rng.choice([5, 7, 13, 15, 18]), deformable=bool(i % 2))]
      lay = lay[i % (3 if dim == 3 else 2)]()
      feat = tf.Variable(np.float32(np.random.RandomState(i).randn(n, w)))
      with tf.GradientTape() as tape:
        args = dict(kernel_influence_dist=float(size)) if isinstance(lay, layers.KPConv) else {}
        o = tf.reduce_sum(lay(feat * 1., pc, out, float(rad[0]), **args) ** 2)
      tape.gradient(o, [feat] + list(lay.trainable_variables))
  if it['what'] == 'sample':
    ctr, cap = None, 0
  _, err = attempt(run)
  c.record(T, kind='empty', err=err or '', shape=[], want=[], vals=[], info=info)
  calls(c, ops, info)


EMPTY = ['far', 'far_self', 'no_centers', 'no_points', 'nothing', 'gap']


def empty(c, i, it):
  """Searches without points, centers or neighbors and what follows them."""
  import numpy as np
  import tensorflow as tf
  rng = c.rng
  ops = schedule(rng, i)
  from pylib.pc import Grid, Neighborhood, PointCloud, custom_ops
  what, bs, dim = EMPTY[i % len(EMPTY)], 1 + i % 3, [3, 2, 3, 4][i // 6 % 4]
  n = 0 if what in ('no_points', 'nothing') else rng.choice([1, 3, 30])
  m = 0 if what in ('no_centers', 'nothing') else rng.choice([1, 5, 40])
  cap, h, w = rng.choice([0, 0, 1, 3]), rng.choice([8, 16, 32, 64]), rng.choice([1, 3, 8, 16])
  def cloud_of(k, off, only=None):
    p = np.array([[off + rng.randrange(3) for _ in range(dim)] for _ in range(k)],
                 np.float32).reshape([k, dim])
    b = np.array([rng.randrange(bs) if only is None else only for _ in range(k)], np.int32)
    return PointCloud(p, b, bs)
  if what == 'gap' and bs > 1:
    pc, ctr = cloud_of(n, 0, 0), cloud_of(m, 0, 1)
  else:
    pc, ctr = cloud_of(n, 0), cloud_of(m, 100)
  rad = np.full(dim, 1, np.float32)
  info = dict(what=what, n=n, m=m, bs=bs, dim=dim, cap=cap, h=h, w=w)
  def put(label, fn, want):
    r, err = attempt(fn)
    rec = dict(kind='empty', label=label, err=err or '', shape=[], want=want, vals=[], info=info)
    if not err:
      r = np.asarray(r)
      rec.update(shape=list(r.shape), vals=[q(x) for x in r.reshape(-1)[:200]])
    c.record(T, **rec)
    return err
  box = {}
  def search():
    box['g'] = Grid(pc, rad)
    box['nb'] = Neighborhood(box['g'], rad, ctr, cap)
    return box['nb']._neighbors.numpy()
  if not put('pairs', search, [0, 2]):
    nb = box['nb']
    put('ranges', lambda: nb._samples_neigh_ranges.numpy(), [m])
    put('original', lambda: nb._original_neigh_ids.numpy(), [0, 2])
    if n == 0:
      put('keys', lambda: box['g']._sorted_keys.numpy(), [0])
      put('structure', lambda: np.zeros(box['g'].get_DS().shape[3:]), [2])
      own = Neighborhood(box['g'], rad)
      put('density', lambda: own.get_pdf(bandwidth=.5).numpy(), [0])
      for mode in (0, 1):
        put('sampling%d' % mode, lambda: custom_ops.sampling(own, mode)[0].numpy(), [0, dim])
        put('sampling%d ids' % mode, lambda: custom_ops.sampling(own, mode)[2].numpy(), [0])
    basis, feat = tf.Variable(tf.zeros([0, h])), tf.Variable(tf.ones([n, w]))
    with tf.GradientTape() as tape:
      err = put('projection', lambda: box.update(o=custom_ops.basis_proj(basis * 1, feat * 1, nb))
                or box['o'].numpy(), [m, w, h])
      s = tf.reduce_sum(box['o']) if not err else None
    if not err:
      def grads():
        box['d'] = tape.gradient(s, [basis, feat])
        return box['d'][1].numpy()
      if not put('gradient features', grads, [n, w]):
        put('gradient basis', lambda: box['d'][0].numpy(), [0, h])
  calls(c, ops, info)


def schedules(c, i, it):
  """One call under every order of the threads and two sizes of the device."""
  import numpy as np
  import tensorflow as tf
  rng = c.rng
  from pylib.pc import Grid, Neighborhood, PointCloud, custom_ops
  s = gpu_search(rng, i, nmax=60)
  dim, u = s['dim'], s['u']
  rad, cell = [np.array(s[k], np.float32) * u for k in ('rad', 'cell')]
  pts, bids = np.array(s['pts'], np.float32) * u, np.array(s['bids'], np.int32)
  h, w = rng.choice([8, 16, 32, 64]), rng.choice([1, 3, 7, 8, 16])
  draw = np.random.RandomState(rng.randrange(1 << 30))
  basis_of = draw.randint(-4, 5, (4096, h)).astype(np.float32)
  feat = draw.randint(-4, 5, (len(pts), w)).astype(np.float32)
  runs = {}
  errs = []
  for mode in range(6):
    ops = schedule(rng, mode)
    ops.config(mps=[1, 1, 2, 3, 2, 1][mode], blocks=[1, 3, 2, 1, 1, 2][mode])
    def run():
      pc = PointCloud(pts, bids, s['bs'])
      g = Grid(pc, cell)
      ctr = None if s['self'] else PointCloud(
          np.array(s['ctr'], np.float32) * u, np.array(s['cbids'], np.int32), s['bs'])
      nb = Neighborhood(g, rad, ctr)
      pairs = nb._original_neigh_ids.numpy()
      order = np.lexsort((pairs[:, 0], pairs[:, 1]))
      out = dict(structure=g.get_DS().numpy(), ranges=nb._samples_neigh_ranges.numpy(),
                 pairs=pairs[order])
      own = nb if s['self'] else Neighborhood(g, rad)
      pdf = custom_ops.compute_pdf(own, np.full(dim, .5, np.float32), 0).numpy()
      # (points of one cell come in any order, and cells too)
      by = np.argsort(g._sorted_indices.numpy())
      out['density'] = np.array([q(x, 1000, 1e9) for x in pdf[by]])
      a = custom_ops.sampling(own, 0)
      out['averages'] = np.array(sorted(
          [int(b)] + [q(x, 1000, 1e9) for x in p] for p, b in zip(a[0].numpy(), a[1].numpy())))
      # the weight of a pair does not depend on its place
      wt = (pairs[:, 0] * 31 + pairs[:, 1] * 17) % 4096
      b, f = tf.Variable(basis_of[wt].reshape([-1, h])), tf.Variable(feat)
      with tf.GradientTape() as tape:
        o = custom_ops.basis_proj(b * 1, f * 1, nb)
        t = tf.reduce_sum(o * o) / 2
      d = tape.gradient(t, [b, f])
      out['projection'] = o.numpy()
      out['basis gradient'], out['feature gradient'] = d[0].numpy()[order], d[1].numpy()
      return {k: [int(x) % 1000003 for x in np.asarray(v).reshape(-1)[:150]] +
              [int(np.abs(np.asarray(v, np.float64)).sum()) % 1000003] for k, v in out.items()}
    r, err = attempt(run)
    errs.append(err or '')
    for k, v in (r or {}).items():
      runs.setdefault(k, []).append(v)
    calls(c, ops, dict(what='schedules', mode=mode))
  c.record(T, kind='schedules', what='all', err=''.join(errs), runs=[], tol=0)
  for k, v in runs.items():
    c.record(T, kind='schedules', what=k, err='', runs=v,
             tol=2 if k in ('density', 'averages') else 0)


def refusals(rng):
  """Inputs whose parts do not fit, for every operation."""
  import numpy as np
  d, n, m, k, b = 3, rng.randrange(3, 9), rng.randrange(2, 7), rng.randrange(4, 12), 2
  f = lambda *s: np.ones(s, np.float32)
  z = lambda *s: np.zeros(s, np.int32)
  # pairs (point, center) sorted by center
  ends = sorted(rng.randrange(k + 1) for _ in range(m - 1)) + [k]
  own = sorted(rng.randrange(k + 1) for _ in range(n - 1)) + [k]
  def pairs(e):
    c = [sum(1 for x in e if x <= j) for j in range(k)]
    return np.array([[rng.randrange(n), x] for x in c], np.int32)
  keys = np.zeros(n, np.int64)
  cells = np.ones(d, np.int32)
  h = 8
  base = {
      'compute_keys': [f(n, d), z(n), f(b, d), cells, f(d)],
      'build_grid_ds': [keys, cells, cells, b],
      'find_neighbors': [f(m, d), z(m), f(n, d), keys, z(b, 1, 1, 2), cells, f(b, d), f(d), f(d), 0],
      'sampling': [f(n, d), z(n), keys, cells, pairs(own), np.array(own, np.int32), 1],
      'compute_pdf': [f(n, d), pairs(own), np.array(own, np.int32), f(d), f(d), 0],
      'compute_pdf_with_pt_grads': [f(n, d), pairs(own), np.array(own, np.int32), f(d), f(d), 0],
      'compute_pdf_pt_grads': [f(n, d), pairs(own), np.array(own, np.int32), f(d), f(d), f(n), 0],
      'basis_proj': [f(k, h), f(n, 4), pairs(ends), np.array(ends, np.int32)],
      'basis_proj_grads': [f(k, h), f(n, 4), pairs(ends), np.array(ends, np.int32), f(m, 4, h)],
  }
  bad = [
      ('compute_keys', {0: f(n, 1), 2: f(b, 1), 3: cells[:1], 4: f(1)}),
      ('compute_keys', {0: f(n, 7), 2: f(b, 7), 3: np.ones(7, np.int32), 4: f(7)}),
      ('compute_keys', {1: z(n - 1)}), ('compute_keys', {1: z(n + 1)}),
      ('compute_keys', {2: f(b, d - 1)}), ('compute_keys', {3: cells[:2]}),
      ('compute_keys', {4: f(d - 1)}), ('compute_keys', {4: f(d + 1)}),
      ('build_grid_ds', {1: cells[:1], 2: cells[:1]}), ('build_grid_ds', {3: 0}),
      ('build_grid_ds', {3: -1}), ('build_grid_ds', {2: cells[:2]}),
      ('build_grid_ds', {1: np.ones(7, np.int32), 2: np.ones(7, np.int32)}),
      ('find_neighbors', {1: z(m - 1)}), ('find_neighbors', {1: z(m + 2)}),
      ('find_neighbors', {2: f(n, d - 1)}), ('find_neighbors', {3: keys[1:]}),
      ('find_neighbors', {4: z(b, 1, 2)}), ('find_neighbors', {4: z(b, 1, 1, 3)}),
      ('find_neighbors', {5: cells[:2]}), ('find_neighbors', {6: f(b, 2)}),
      ('find_neighbors', {7: f(2)}), ('find_neighbors', {8: f(2)}),
      ('sampling', {1: z(n - 1)}), ('sampling', {2: keys[1:]}), ('sampling', {3: cells[:2]}),
      ('sampling', {4: z(k, 3)}), ('sampling', {4: z(k)}), ('sampling', {5: z(n - 1)}),
      ('sampling', {6: 2}), ('sampling', {6: -1}),
      ('basis_proj', {0: f(k, 7)}), ('basis_proj', {0: f(k, 12)}), ('basis_proj', {0: f(k, 128)}),
      ('basis_proj', {0: f(k - 1, h)}), ('basis_proj', {0: f(k + 1, h)}),
      ('basis_proj', {1: f(n, 9)}), ('basis_proj', {1: f(n, 12)}), ('basis_proj', {2: z(k, 3)}),
      ('basis_proj_grads', {0: f(k, 7), 4: f(m, 4, 7)}), ('basis_proj_grads', {0: f(k - 1, h)}),
      ('basis_proj_grads', {1: f(n, 9), 4: f(m, 9, h)}), ('basis_proj_grads', {4: f(m - 1, 4, h)}),
      ('basis_proj_grads', {4: f(m, 3, h)}), ('basis_proj_grads', {4: f(m, 4, 16)}),
      ('basis_proj_grads', {4: f(m, 4 * h)}), ('basis_proj_grads', {2: z(k, 3)}),
      ('compute_pdf_pt_grads', {5: f(n - 1)}), ('compute_pdf_pt_grads', {5: f(n + 1)}),
  ]
  for op in ('compute_pdf', 'compute_pdf_with_pt_grads', 'compute_pdf_pt_grads'):
    last = len(base[op]) - 1
    bad += [(op, {0: f(n, 1), 3: f(1), 4: f(1)}), (op, {0: f(n, 7), 3: f(7), 4: f(7)}),
            (op, {3: f(2)}), (op, {4: f(4)}), (op, {1: z(k, 3)}), (op, {2: z(n - 1)}),
            (op, {last: 2}), (op, {last: -1})]
  return base, bad


def refuse(c, i, it):
  import tensorflow as tf
  ops = schedule(c.rng, i)
  base, bad = refusals(c.rng)
  for op, args in base.items():
    _, err = attempt(lambda: getattr(ops, op)(*args))
    c.record(T, kind='empty', label=op, err=err or '', shape=[], want=[], vals=[])
    calls(c, ops, dict(what='base'))
  for op, change in bad:
    args = [change.get(k, x) for k, x in enumerate(base[op])]
    refused, crashed, text = False, False, ''
    try:
      getattr(ops, op)(*args)
    except ops.Crash as ex:
      crashed, text = True, str(ex)
    except Exception as ex:
      refused, text = True, '%s: %s' % (type(ex).__name__, ex)
    faults = [x for e in ops.log for x in e['faults']]
    del ops.log[:]
    c.record(T, kind='refuse', op=op, refused=refused, crashed=crashed or bool(faults),
             text=text[:200], faults=faults[:3],
             change=[[k, list(getattr(x, 'shape', [x]))] for k, x in change.items()])


def dispatch(c, i, it):
  {'empty': empty, 'schedules': schedules, 'refuse': refuse}.get(it['what'], memory)(
      c, it.get('k', i), it)


def c37(c):
  design_store(c)
  design_scan(c)
  design_parity(c)
  compile_ops()
  n = counts(1, 8)
  items = []
  for what, k in (('ops', 28), ('sample', 10), ('layer', 12), ('empty', 18),
                  ('schedules', 8), ('refuse', 1)):
    items += [dict(what=what, k=j) for j in range(k * n)]
  c.spread('d_gpu', 'dispatch', items, crash=crashed)


CHECKS = {'C34': c34, 'C35': c35, 'C36': c36, 'C37': c37}
