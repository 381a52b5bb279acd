"""C14-C20, C30: poolings, basis projection and convolutions."""
import math

import core
from core import attempt, attr, ints, q, qa
import clouds
import d_density

T = 'TraceLayers'
LAYOUTS = ['flat', 'sorted', 'padded']
GPU = False      # the CUDA projection has fixed widths


def lib():
  import numpy as np
  import tensorflow as tf
  import pylib.pc as pc
  return np, tf, pc


def design(c):
  k = dict(N=2, M=2, Vals='{1, 2}', Variant='"ok"')
  if core.THOROUGH:
    k.update(N=3)
  c.design('AggregateMC', k, ['Definition', 'Partial'],
           workers=4 if core.THOROUGH else 2)
  for v in ['sortedIds', 'allBatches', 'overwrite']:
    c.mutant('AggregateMC', dict(k, N=2, Variant='"%s"' % v), ['Definition'],
             label=v, expect=['Definition'])


def factor(rng, bs):
  out = [[bs], [1, bs], [bs, 1]]
  if bs % 2 == 0:
    out.append([2, bs // 2])
  if bs == 4:
    out.append([2, 1, 2])
  return rng.choice(out)


def fl(a, u=1.0):
  np, tf, pc = lib()
  return (np.array(a, np.float32) * np.float32(u)).astype(np.float32)


def side(rng, pts, bids, bs, u, padded=None):
  """A point cloud with its construction: segmented (with or without shape) or
  padded.  Returns the abstract side and a function building the object."""
  np, tf, pc = lib()
  dim = len(pts[0])
  mode = rng.choice(['seg', 'seg', 'shaped', 'padded']) if padded is None else padded
  s = {'pts': pts, 'bids': bids, 'bs': bs, 'vin': 0, 'shape': []}
  if mode == 'seg':
    s['build'] = lambda: pc.PointCloud(fl(pts, u), np.array(bids), bs)
  elif mode == 'shaped':
    s['shape'] = factor(rng, bs)

    def build():
      p = pc.PointCloud(fl(pts, u), np.array(bids), bs)
      p.set_batch_shape(s['shape'])
      return p
    s['build'] = build
  else:
    order = sorted(range(len(pts)), key=lambda k: bids[k])
    s['pts'] = [pts[k] for k in order]
    s['bids'] = [bids[k] for k in order]
    s['shape'] = factor(rng, bs)
    n = [s['bids'].count(b) for b in range(bs)]
    v = max(n) + rng.randrange(0, 3)
    s['vin'] = v

    def build():
      arr = np.array([rng.randrange(-9, 9) for _ in range(bs * v * dim)],
                     np.float32).reshape([bs, v, dim]) * np.float32(u)
      k = 0
      for b in range(bs):
        for j in range(n[b]):
          arr[b, j] = fl(s['pts'][k], u)
          k += 1
      return pc.PointCloud(arr.reshape(s['shape'] + [v, dim]),
                           sizes=np.array(n).reshape(s['shape']))
    s['build'] = build
  return s


def features(rng, s, width, lo=-4, hi=4, whole=True):
  """Feature rows, flat or padded (padding filled with garbage), and array."""
  np, tf, pc = lib()
  row = lambda: [rng.randrange(lo, hi + 1) for _ in range(width)]
  kind = rng.randrange(6)

  def typed(rows, shape):
    """arrays, integers, lists and tensors are all accepted"""
    a = np.array(rows, [np.float32, np.float32, np.float64, np.int32,
                        np.float32, np.float32][kind]).reshape(shape)
    if kind == 3 and not whole:
      a = a.astype(np.float32)
    if kind == 4:
      return a.tolist()
    return tf.constant(a) if kind == 5 else a
  if rng.random() < 0.5:
    rows = [row() for _ in s['pts']]
    return rows, 0, typed(rows, [-1, width])
  v = max(s['bids'].count(b) for b in range(s['bs'])) + rng.randrange(0, 3)
  if s['vin']:
    v = s['vin']
  rows = [row() for _ in range(s['bs'] * v)]
  shape = s['shape'] or [s['bs']]
  return rows, v, typed(rows, shape + [v, width])


def output(x, layout, enc):
  np, tf, pc = lib()
  a = np.asarray(x)
  return {'layout': layout, 'shape': list(a.shape),
          'rows': enc(a.reshape([-1, a.shape[-1]]))}


NO_OUT = {'layout': 'flat', 'shape': [], 'rows': []}


def scene(rng, nmax=14, cmax=8, dims=(2, 3), kde=False, ext=None, bsmax=4,
          shared=True, nmin=1, prev=None, pmode=None):
  """Input and output cloud and radius.  With a previous scene the new one
  has its dimension, and may use the same objects, or clouds of the same
  sizes with other points."""
  if prev is not None:
    dims = (prev['dim'],)
    m = rng.random()
    if m < 0.35:
      return same_clouds(rng, prev, kde)
  if kde:
    s = d_density.case_of(rng, nmax=nmax, dims=dims, bsmax=bsmax, ext=ext,
                          nmin=nmin, pmode=pmode)
    w = s['ws'][0]
    s['ws'] = [w] * s['dim']
    p = rng.choice(d_density.BY_W[w])
    s['k2'], s['t'] = [p[0]] * s['dim'], [p[1]] * s['dim']
  else:
    s = clouds.cloud(rng, nmax=nmax, dims=dims, bsmax=bsmax, nmin=nmin, pmode=pmode,
                     ext=ext or rng.choice([2, 3, 5]))
    r = rng.choice([1, 2, 2, 4, 4, 8])
    s['rad'] = [r] * s['dim']
  if prev is not None and not prev['in']['vin'] and m < 0.7:
    # the same shapes, other points
    n = len(prev['in']['pts'])
    s['pts'] = clouds.points(rng, n, prev['dim'], 'random', 5)
    s['bids'], s['bs'] = list(prev['in']['bids']), prev['bs']
    rng.shuffle(s['bids'])
  lo = [min(x) for x in zip(*s['pts'])]
  s['pts'] = [[x - o for x, o in zip(p, lo)] for p in s['pts']]
  u = s['u']
  i = side(rng, s['pts'], s['bids'], s['bs'], u)
  if shared and rng.random() < 0.3:
    o = i
  else:
    cp, cb = clouds.centers(rng, dict(s, ext=2), rng.randrange(1, cmax + 1))
    o = side(rng, cp, cb, s['bs'], u)
  s['in'], s['out'] = i, o
  s['kde'] = kde
  return measures(s)


def same_clouds(rng, prev, kde):
  """The same point cloud objects, another radius and maybe another output."""
  s = dict(prev)
  dim = s['dim']
  if kde:
    w = rng.choice([1, 2, 4, 8, 16])
    p = rng.choice(d_density.BY_W[w])
    s['ws'], s['k2'], s['t'] = [w] * dim, [p[0]] * dim, [p[1]] * dim
  else:
    s['rad'] = [rng.choice([1, 2, 4, 8])] * dim
  m = rng.random()
  if m < 0.3:
    s['in'], s['out'] = s['out'], s['in']
  elif m < 0.5:
    s['out'] = s['in']
  s['kde'] = kde
  s['mode'] = prev['mode'].split('+')[0] + '+same'
  return measures(s)


def measures(s):
  u = s['u']
  if s['kde']:
    s['radius'] = d_density.radius(u, s['k2'][0], s['t'][0])
    s['bw'] = d_density.bandwidth(s['k2'][0])
    s['lat'] = s['radius'] / u          # radius in lattice units
  else:
    s['radius'] = s['rad'][0] * u
    s['lat'] = float(s['rad'][0])
  return s


def base(s, i, kind):
  a, b = s['in'], s['out']
  return dict(case='%s#%d' % (s['mode'], i), kind=kind, pts=a['pts'],
              bids=a['bids'], bs=a['bs'], vin=a['vin'], shape=a['shape'],
              ctr=b['pts'], cbids=b['bids'], ovin=b['vin'], oshape=b['shape'],
              kde=s['kde'], rad=s.get('rad', []), t=s.get('t', []),
              k2=s.get('k2', []), u=str(s['u']), err='', out=NO_OUT)


def obj(x):
  """The point cloud of a side, built once."""
  if 'obj' not in x:
    x['obj'] = x['build']()
  return x['obj']


def clouds_of(s):
  return obj(s['in']), obj(s['out'])


def layout_args(rng, i):
  lay = LAYOUTS[i % 3]
  kw = {}
  if lay == 'sorted':
    kw['return_sorted'] = True
  elif lay == 'padded':
    kw['return_padded'] = True
    if rng.random() < 0.5:
      kw['return_sorted'] = rng.random() < 0.5
  return lay, kw


# ---------------------------------------------------------------- poolings

def chain(rng, make, n, big, scenes):
  """Runs n cases; a layer object is used for up to three of them."""
  state, left = None, 0
  for i in range(n):
    if left == 0 or state is None:
      state, left = None, rng.choice([1, 1, 2, 3])
    state = make(i, state, big and i % scenes == scenes - 1)
    left -= 1


BIG = dict(nmax=330, nmin=140, cmax=5, shared=False)


def c14(c):
  np, tf, pc = lib()
  design(c)
  rng = c.rng

  def one(i, prev, big):
    s = scene(rng, nmax=20, dims=(2, 3, 3, 5), bsmax=6,
              prev=prev and prev['s']) if not big else \
        scene(rng, dims=(3,), bsmax=rng.choice([3, 24]), **BIG)
    op = prev['op'] if prev else ('max' if i % 2 else 'average')
    st = prev or {'op': op}
    st['s'] = s
    w = rng.choice([1, 2, 3]) if not big else rng.choice([5, 12])
    rows, fv, arr = features(rng, s['in'], w, -20, 20, whole=False)
    padded = i % 4 > 1
    scale = 1 if op == 'max' else 4096
    rec = base(s, i, 'global')
    rec.update(op=op, frows=rows, fv=fv, scale=scale)

    def go():
      cl = obj(s['in'])
      if 'layer' not in st:
        st['layer'] = pc.layers.GlobalMaxPooling() if op == 'max' else \
            pc.layers.GlobalAveragePooling()
      return st['layer'](arr, cl, **({'return_padded': True} if padded else {}))
    r, rec['err'] = attempt(go)
    if r is not None:
      rec['out'] = output(r, 'padded' if padded else 'flat',
                          lambda a: qa(a, scale) if scale > 1 else q(a))
    c.record(T, **rec)
    return st
  chain(rng, one, 900 if core.THOROUGH else 160, True, 40)


def c15(c):
  np, tf, pc = lib()
  design(c)
  rng = c.rng

  def one(i, prev, big):
    s = scene(rng, nmax=18, cmax=12, dims=(2, 3, 3, 4),
              prev=prev and prev['s']) if not big else \
        scene(rng, dims=(2, 3), ext=rng.choice([4, 9]), **BIG)
    op = prev['op'] if prev else ('max' if i % 2 else 'average')
    st = prev or {'op': op}
    st['s'] = s
    if rng.random() < 0.4 and not big:
      s['rad'] = [rng.choice([1, 2, 4, 8]) for _ in range(s['dim'])]
    rows, fv, arr = features(rng, s['in'], rng.choice([1, 2, 3]), -20, 20,
                             whole=False)
    scale = 1 if op == 'max' else 4096
    lay, kw = layout_args(rng, i)
    rec = base(s, i, 'local')
    rec.update(op=op, frows=rows, fv=fv, scale=scale)

    def go():
      a, b = clouds_of(s)
      rad = fl(s['rad'], s['u'])
      if len(set(s['rad'])) == 1:
        rad = [rad, float(rad[0]), rad[:1]][i % 3]
      if 'layer' not in st:
        st['layer'] = pc.layers.MaxPooling() if op == 'max' else \
            pc.layers.AveragePooling()
      return st['layer'](arr, a, b, rad, **kw)
    r, rec['err'] = attempt(go)
    if r is not None:
      rec['out'] = output(r, lay, lambda a: qa(a, scale))
    c.record(T, **rec)
    return st
  chain(rng, one, 500 if core.THOROUGH else 70, True, 30)


def c20(c):
  np, tf, pc = lib()
  design(c)
  rng = c.rng

  def one(i, prev, big):
    st = prev or {'ci': rng.randrange(1, 5), 'co': rng.randrange(1, 5)}
    s = scene(rng, nmax=16, dims=(2, 3, 4), bsmax=5, prev=prev and prev['s']) \
        if not big else scene(rng, dims=(3,), bsmax=rng.choice([3, 20]), **BIG)
    if big and not prev:
      st.update(ci=rng.choice([7, 19]), co=rng.choice([6, 11]))
    st['s'] = s
    ci, co = st['ci'], st['co']
    rows, fv, arr = features(rng, s['in'], ci, -9, 9)
    lay, kw = layout_args(rng, i)
    w = [[rng.randrange(-5, 6) for _ in range(co)] for _ in range(ci)]
    b = [rng.randrange(-5, 6) for _ in range(co)]
    rec = base(s, i, 'one')
    rec.update(frows=rows, fv=fv, w=w, b=b)

    def go():
      cl = obj(s['in'])
      if 'layer' not in st:
        st['layer'] = pc.layers.Conv1x1(ci, co, *(['a'] if i % 2 else []))
      layer = st['layer']
      attr(layer, '_weights_tf').assign(w)
      attr(layer, '_bias_tf').assign([b])
      return layer(arr, cl, **kw)
    r, rec['err'] = attempt(go)
    if r is not None:
      rec['out'] = output(r, lay, q)
    c.record(T, **rec)
    return st
  chain(rng, one, 900 if core.THOROUGH else 150, True, 50)


# ------------------------------------------------- neighborhoods and density

def neighborhood(s, a, b):
  np, tf, pc = lib()
  rad = np.full([len(s['pts'][0])], s['radius'], np.float32)
  return pc.Neighborhood(pc.Grid(a, rad), rad, b, s.get('cap', 0))


def c30(c):
  design(c)
  rng = c.rng
  for i in range(500 if core.THOROUGH else 70):
    big = i % 35 == 34
    s = scene(rng, nmax=20, cmax=12, dims=(2, 3, 3, 4)) if not big else \
        scene(rng, dims=(2, 3), ext=rng.choice([4, 8]), **BIG)
    w, h = rng.choice([1, 2, 3]), rng.choice([1, 2, 8])
    if i % 10 == 9:
      w, h = rng.choice([5, 17]), rng.choice([3, 16]) if not big else 2
    proj(c, s, i, w, h)


def proj(c, s, i, w, h):
  np, tf, pc = lib()
  from pylib.pc.custom_ops import basis_proj
  rng = c.rng
  rows = [[rng.randrange(-9, 10) for _ in range(w)] for _ in s['in']['pts']]
  rec = base(s, i, 'proj')
  rec.update(frows=rows, fv=0, h=h, basis=[], pairs=[], oshp=[], res=[],
             up=[rng.randrange(1, 19) for _ in range(3)], gshp=[], gbasis=[], gfeat=[])

  def go():
    a, b = clouds_of(s)
    nb = neighborhood(s, a, None if (i % 5 == 0 and a is b) else b)
    if nb._equal_samples:
      rec['ctr'] = q(nb._point_cloud_sampled._points, 1 / s['u'])
      rec['cbids'] = ints(nb._point_cloud_sampled._batch_ids)
    rec['pairs'] = ints(attr(nb, '_original_neigh_ids'))
    rec['basis'] = [[rng.randrange(-9, 10) for _ in range(h)]
                    for _ in rec['pairs']]
    x = tf.constant(np.array(rec['basis'], np.float32).reshape([-1, h]))
    f = tf.constant(np.array(rows, np.float32))
    with tf.GradientTape() as tape:
      tape.watch([x, f])
      o = basis_proj(x, f, nb)
    # (the derivative of the sum of the results times whole numbers)
    at = np.indices(o.shape)
    up = (rec['up'][0] * at[0] + rec['up'][1] * at[1] + rec['up'][2] * at[2]) % 19 - 9
    return [np.asarray(o)] + [np.asarray(tf.convert_to_tensor(g)) for g in tape.gradient(
        o, [x, f], output_gradients=tf.constant(up, tf.float32))]
  r, rec['err'] = attempt(go)
  if r is not None:
    rec['oshp'], rec['res'] = list(r[0].shape), q(r[0])
    rec['gshp'] = [list(r[1].shape), list(r[2].shape)]
    rec['gbasis'], rec['gfeat'] = q(r[1]), q(r[2])
  c.record(T, **rec)


ACTS = {'relu': ['relu', 'ReLU'], 'leaky': ['leaky_relu', 'lrelu', 'lReLU',
                                            'leaky_ReLU', 'leakyrelu'],
        'elu': ['elu', 'ELU']}


def mat(rng, a, b, lo=-2, hi=2):
  return [[rng.randrange(lo, hi + 1) for _ in range(b)] for _ in range(a)]


def densities(rng, rec, s, a, b, mode, i):
  """The neighborhood passed to a layer (None: the layer computes its own),
  and the densities it holds."""
  np, tf, pc = lib()
  if mode == 'own':
    return None
  nb = neighborhood(s, a, b)
  rec['pairs'] = ints(attr(nb, '_original_neigh_ids'))
  m = len(rec['pairs'])
  if mode == 'kde':
    nb.compute_pdf(bandwidth=np.full([len(s['pts'][0])], s['bw'], np.float32))
  elif mode == 'unit':
    nb.compute_pdf(mode=pc.KDEMode.no_pdf)
    rec['inv'] = [1] * m
  elif mode == 'normalized':
    nb.compute_pdf(mode=pc.KDEMode.no_pdf, normalize=True)
    cnt = {}
    for _, j in rec['pairs']:
      cnt[j] = cnt.get(j, 0) + 1
    rec['inv'] = [cnt[j] for _, j in rec['pairs']]
  else:
    attr(nb, '_pdf')
    vals = [rng.choice([0.25, 0.5, 1.0, 2.0]) for _ in range(m)]
    nb._pdf = tf.constant(vals, tf.float32)
    rec['inv'] = [int(2 / v) for v in vals]
    rec['given'] = vals
  return nb


def mc_case(c, i, mode, rng, prev=None, big=False):
  np, tf, pc = lib()
  kde = mode in ('kde', 'own')
  if prev and (prev['act'] == 'elu' and mode != 'unit' or
               prev['act'] == 'leaky' and kde or big):
    prev = None
  s = scene(rng, nmax=10 if kde else 14, cmax=6, dims=(2, 3, 3), kde=kde,
            prev=prev and prev['s']) if not big else \
      scene(rng, dims=(2, 3), ext=rng.choice([3, 6]), **BIG)
  dim = len(s['pts'][0])
  act = rng.choice(['relu', 'leaky', 'elu'] if mode == 'unit' else
                   ['relu', 'relu', 'leaky'] if not kde else ['relu'])
  ci = rng.choice([1, 2, 3])
  k = rng.choice([1, 2, 4]) if not kde else rng.choice([1, 2])
  o = rng.choice([1, 2]) if k < 4 else 1
  sizes = [rng.choice([1, 2, 3])] if act != 'relu' or kde else \
      rng.choice([[2], [3], [2, 2], [8], [1, 3]])
  if act == 'leaky' and rng.random() < 0.4:
    sizes = [2, 2]
  if big:
    act, sizes, k, o, ci = 'relu', [rng.choice([2, 3])], 2, 2, rng.choice([2, 9])
  if mode == 'given' and act == 'elu':
    act = 'relu'
  if prev:
    act, ci, k, o, sizes = (prev[x] for x in ('act', 'ci', 'k', 'o', 'sizes'))
  real = sizes[-1]           # units with weights
  if GPU and not prev:
    sizes = sizes[:-1] + [rng.choice([8, 8, 16])]
    ci = rng.choice([1, 2, 3, 8])
  st = prev or dict(act=act, ci=ci, k=k, o=o, sizes=sizes, real=real)
  st['s'] = s
  rows, fv, arr = features(rng, s['in'], ci, -2, 2)
  lay, kw = layout_args(rng, i)
  ws, bs = [], []
  for m in range(k):
    ws.append([])
    bs.append([])
    prev = dim
    for n in sizes:
      ws[-1].append(mat(rng, prev, n))
      bs[-1].append([rng.randrange(-2, 4) for _ in range(n)])
      prev = n
  wf = [mat(rng, ci * sizes[-1], o, -1, 1) for _ in range(k)]
  if GPU:
    for m in range(k):
      keep = set(rng.sample(range(sizes[-1]), st['real']))
      bs[m][-1] = [x if n in keep else 0 for n, x in enumerate(bs[m][-1])]
      ws[m][-1] = [[x if n in keep else 0 for n, x in enumerate(r)] for r in ws[m][-1]]
  iscale = {'given': 2, 'own': 1024, 'kde': 1024}.get(mode, 1)
  scale = {'relu': 1, 'leaky': 5, 'elu': 65536}[act] ** len(sizes) * iscale
  rec = base(s, i, 'mc')
  rec.update(frows=rows, fv=fv, act=act, ws=ws, bs_=bs, wf=wf, inv=[], pairs=[])

  def go():
    a, b = clouds_of(s)
    if 'layer' not in st:
      st['layer'] = pc.layers.MCConv(
          ci, k * o, dim, k, list(sizes), rng.choice(ACTS[act])) if i % 2 else \
          pc.layers.MCConv(ci, k * o, num_dims=dim, num_mlps=k,
                           mlp_size=list(sizes),
                           non_linearity_type=rng.choice(ACTS[act]))
    layer = st['layer']
    for n in range(len(sizes)):
      f = s['lat'] if n == 0 else 1.0
      attr(layer, '_weights_tf')[n].assign(fl([ws[m][n] for m in range(k)], f))
      attr(layer, '_bias_tf')[n].assign(fl([[bs[m][n]] for m in range(k)]))
    attr(layer, '_final_weights_tf').assign(fl(wf))
    nb = densities(rng, rec, s, a, b, mode, i)
    args = dict(kw)
    if nb is not None:
      args['neighborhood'] = nb
    else:
      args['bandwidth'] = s['bw']
    return layer(arr, a, b, float(s['radius']), **args)
  r, rec['err'] = attempt(go)
  if r is not None:
    rec['out'] = output(r, lay, lambda x: qa(x, scale))
  c.record(T, **rec)
  return st


def same(c, i, which, rng):
  """Neighborhood given or computed by the layer: the same values."""
  np, tf, pc = lib()
  s = scene(rng, nmax=12, cmax=6, dims=(2, 3), kde=True)
  dim = len(s['pts'][0])
  ci, co = rng.choice([1, 2]), 4
  rows, fv, arr = features(rng, s['in'], ci)
  rec = dict(case='same#%d' % i, kind='same', err='', a=[], b=[])
  bw = rng.choice([0.2, 0.3, 0.7])

  def go():
    a, b = clouds_of(s)
    tf.random.set_seed(i)
    kw = {}
    if which == 'mc':
      layer = pc.layers.MCConv(ci, co, dim)
    elif which == 'pointconv':
      layer = pc.layers.PointConv(ci, co, dim)
    else:
      layer = pc.layers.KPConv(
          ci, co, num_kernel_points=4, num_dims=dim,
          custom_kernel_points=fl(mat(rng, 4, dim, -2, 2), 0.4))
    nb = neighborhood(s, a, b)
    if which != 'kp':
      if bw != 0.2 or i % 2:
        kw['bandwidth'] = bw
      nb.compute_pdf(bandwidth=bw if 'bandwidth' in kw else 0.2)
    x = layer(arr, a, b, float(s['radius']), **kw)
    y = layer(arr, a, b, float(s['radius']), neighborhood=nb, **kw)
    return np.asarray(x), np.asarray(y)
  r, rec['err'] = attempt(go)
  if r is not None:
    # the transform of PointConv may be close to zero: compare relatively
    m = max(1.0, float(np.max(np.abs(r[0]))))
    rec['a'], rec['b'] = qa(r[0] / m, 1 << 14), qa(r[1] / m, 1 << 14)
  c.record(T, **rec)


def c16(c):
  design(c)
  rng = c.rng
  modes = ['unit', 'normalized', 'given', 'own', 'kde', 'own', 'unit']
  chain(rng, lambda i, prev, big: mc_case(
      c, i, 'unit' if big else modes[i % 7], rng, prev, big),
        400 if core.THOROUGH else 56, True, 28)
  for i in range(30 if core.THOROUGH else 6):
    same(c, i, 'mc', rng)


def pc_case(c, i, mode, rng, prev=None, big=False):
  np, tf, pc = lib()
  kde = mode in ('kde', 'own')
  if prev and (prev['real'] > 3 and kde or big):
    prev = None
  s = scene(rng, nmax=10 if kde else 14, cmax=6, dims=(2, 3, 3), kde=kde,
            prev=prev and prev['s']) if not big else \
      scene(rng, dims=(2, 3), ext=rng.choice([3, 6]), **BIG)
  dim = len(s['pts'][0])
  act = rng.choice(['relu', 'leaky'])
  ci, co = rng.choice([1, 2, 3]), rng.choice([1, 2])
  h = rng.choice([1, 2, 3, 8])
  if kde:
    h = min(h, 3)
  if big:
    ci, h = rng.choice([1, 5]), 2
  real = h
  if GPU and not prev:
    h, ci = rng.choice([8, 16]), rng.choice([1, 2, 3, 8])
  if prev:
    act, ci, co, h, real = (prev[x] for x in ('act', 'ci', 'co', 'h', 'real'))
  st = prev or dict(act=act, ci=ci, co=co, h=h, real=real)
  st['s'] = s
  rows, fv, arr = features(rng, s['in'], ci, -2, 2)
  lay, kw = layout_args(rng, i)
  w1, b1 = mat(rng, dim, h), [rng.randrange(-2, 4) for _ in range(h)]
  wf = mat(rng, ci * h, co, -1, 1)
  if GPU:
    keep = set(rng.sample(range(h), st['real']))
    b1 = [x if n in keep else 0 for n, x in enumerate(b1)]
    w1 = [[x if n in keep else 0 for n, x in enumerate(r)] for r in w1]
  pa = [rng.choice([1, 2, 1, -1, 0]) for _ in range(16)]
  pb = [rng.choice([0, 0, 1, -1]) for _ in range(16)]
  pcw = [rng.choice([0, 1, 0, 0]) for _ in range(16)]
  pd = 1
  scale = {'relu': 1, 'leaky': 5}[act] * 1024
  rec = base(s, i, 'pointconv')
  rec.update(frows=rows, fv=fv, act=act, w1=w1, b1=b1, wf=wf, pa=pa, pb=pb,
             pc=pcw, pd=pd, inv=[], pairs=[])

  def go():
    a, b = clouds_of(s)
    if 'layer' not in st:
      st['layer'] = pc.layers.PointConv(ci, co, dim, h, rng.choice(ACTS[act]))
    layer = st['layer']
    attr(layer, '_basis_axis_tf').assign(fl(w1, 1 / s['u']))
    attr(layer, '_basis_bias_tf').assign(fl([b1]))
    attr(layer, '_weights').assign(fl(wf))
    attr(layer, '_weights_pdf')[0].assign(fl([pa]))
    attr(layer, '_weights_pdf')[1].assign(fl([[x] for x in pcw]))
    attr(layer, '_biases_pdf')[0].assign(fl([pb]))
    attr(layer, '_biases_pdf')[1].assign([[float(pd)]])
    nb = densities(rng, rec, s, a, b, mode, i)
    if mode == 'given':
      rec['inv'] = [int(4 * v) for v in rec.pop('given')]
    elif mode == 'normalized':
      rec['inv'] = [1] * len(rec['inv'])   # equal in each neighborhood
    args = dict(kw)
    if nb is not None:
      args['neighborhood'] = nb
    else:
      args['bandwidth'] = s['bw']
    return layer(arr, a, b, float(s['radius']), **args)
  r, rec['err'] = attempt(go)
  if r is not None:
    rec['out'] = output(r, lay, lambda x: qa(x, scale))
  c.record(T, **rec)
  return st


def c17(c):
  design(c)
  rng = c.rng
  modes = ['given', 'unit', 'own', 'given', 'kde', 'own', 'normalized']
  chain(rng, lambda i, prev, big: pc_case(
      c, i, 'unit' if big else modes[i % 7], rng, prev, big),
        400 if core.THOROUGH else 56, True, 28)
  for i in range(30 if core.THOROUGH else 6):
    same(c, i, 'pointconv', rng)


# ------------------------------------------------------------------- KPConv

def kp_case(c, i, rng, deform, kind='kp', prev=None, big=False):
  np, tf, pc = lib()
  if prev and (prev['deform'] != deform or big):
    prev = None
  s = scene(rng, nmax=12, cmax=5, dims=(2, 3, 3), shared=True,
            prev=prev and prev['s']) if not big else \
      scene(rng, dims=(2, 3), ext=rng.choice([4, 8]), **BIG)
  if prev:
    s['rad'] = list(prev['s']['rad'])
    measures(s)
  line = prev['line'] if prev else deform and rng.random() < 0.5
  if line:
    # everything on a line: integer distances
    for x in (s['in'], s['out']):
      if 'obj' not in x:
        for p in x['pts']:
          p[1:] = [0] * (len(p) - 1)
  if kind == 'kpreg' and i % 3:
    # every center has a neighbor
    s['out'] = s['in']
  R = s['rad'][0]
  dim = len(s['pts'][0])
  ci, co = rng.choice([1, 2]), rng.choice([1, 2])
  k = rng.choice([1, 2, 3, 4, 8, 9, 15, 16, 17]) if not deform else \
      rng.choice([1, 2, 3])
  corr = rng.choice(['linear', 'gaussian']) if not deform else \
      rng.choice(['linear', 'linear', 'gaussian'])
  if big:
    k = 5
  elif deform and i % 8 == 7:
    k = 9
  if prev:
    ci, co, k, corr = (prev[x] for x in ('ci', 'co', 'k', 'corr'))
  kp = mat(rng, k, dim, -2, 2)
  if line:
    kp = [[p[0]] + [0] * (dim - 1) for p in kp]
  if prev:
    kp = prev['kp']
  st = prev or dict(ci=ci, co=co, k=k, corr=corr, deform=deform, line=line,
                    kp=kp)
  st['s'] = s
  rows, fv, arr = features(rng, s['in'], ci, -2, 2)
  lay, kw = layout_args(rng, i)
  default = False
  if corr == 'gaussian':
    sn, sd = rng.choice([1, 2]), 1
    sigma = 3 / math.sqrt(sn * math.log(2))
    mult = 1 << 11
  else:
    sn, sd = rng.choice([(1, 1), (2, 1), (3, 1), (1, 2), (4, 1), (3, 2)])
    mult = 1
    if deform:
      sn, sd = rng.choice([(2, 1), (4, 1), (1, 1)]) if line else \
          rng.choice([(1, 1), (1, 2)])
      mult = sn
    elif rng.random() < 0.3:
      default, sn, sd = True, 2 * R, 5       # conv_radius / 2.5
    sigma = sn / sd
  if corr == 'gaussian' and deform:
    # offsets must be on the lattice: only weights which cancel the fractions
    # are possible for small exponents
    woff = mat(rng, ci * k, k * dim, 0, 0)
  else:
    woff = [[mult * x for x in r] for r in mat(rng, ci * k, k * dim, -1, 1)]
  wf = mat(rng, ci * k, co, -2, 2)
  rec = base(s, i, kind)
  rec.update(frows=rows, fv=fv, kp=kp, corr=corr, sn=sn, sd=sd, wf=wf,
             woff=woff if deform else [], deform=deform, reg=core.NAN,
             inv=[], pairs=[])

  def go():
    a, b = clouds_of(s)
    if 'layer' not in st:
      st['layer'] = pc.layers.KPConv(
          ci, co, num_kernel_points=k, num_dims=dim, deformable=deform,
          kp_interpolation=corr,
          custom_kernel_points=(np.array(kp, np.float64) / (0.75 * R)).astype(
              np.float32))
    layer = st['layer']
    attr(layer, '_weights').assign(fl(wf))
    if deform:
      attr(layer, '_kernel_offsets_weights').assign(fl(woff, 1.0 / R))
    args = dict(kw)
    if not default:
      args['kernel_influence_dist'] = sigma * s['u']
    if i % 2:
      args['neighborhood'] = neighborhood(s, a, b)
    x = layer(arr, a, b, float(s['radius']), **args)
    if kind == 'kpreg':
      return x, layer.regularization_loss()
    return x, None
  r, rec['err'] = attempt(go)
  if r is not None:
    rec['out'] = output(r[0], lay, lambda x: qa(x, 1 << 11))
    if r[1] is not None:
      rec['reg'] = qa(r[1], 1 << 11)
  c.record(T, **rec)
  return st


def c18(c):
  design(c)
  rng = c.rng
  # rigid and deformable kernels in turn, layers used repeatedly
  n = 400 if core.THOROUGH else 56
  chain(rng, lambda i, prev, big: kp_case(
      c, i, rng, i >= (n * 2) // 3, 'kp', prev, big and i < (n * 2) // 3),
        n, True, 28)
  for i in range(30 if core.THOROUGH else 6):
    same(c, i, 'kp', rng)


def c19(c):
  design(c)
  rng = c.rng
  chain(rng, lambda i, prev, big: kp_case(c, i, rng, True, 'kpreg', prev),
        300 if core.THOROUGH else 50, False, 1)


CHECKS = {'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18,
          'C19': c19, 'C20': c20, 'C30': c30}
