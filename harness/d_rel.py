"""C21, C23, C29: relations between runs."""
import core
from core import attempt, attr, ints, q, qa
import clouds
import d_density
import d_layers
from d_layers import fl, lib, scene, clouds_of, neighborhood, mat

T = 'TraceRel'


# ------------------------------------------------------------ transposition

def c23(c):
  np, tf, pc = lib()
  import importlib
  nbm = importlib.import_module('pylib.pc.Neighborhood')
  k = dict(N=2, M=3 if core.THOROUGH else 2, Variant='"ok"')
  inv = ['Converse', 'Ids', 'RangesRight']
  c.design('TransposeMC', k, inv)
  for v, e in {'noSort': ['RangesRight'], 'countsOnly': ['RangesRight'],
               'oldOrder': ['Ids']}.items():
    c.mutant('TransposeMC', dict(N=2, M=2, Variant='"%s"' % v), inv, label=v,
             expect=e)
  rng = c.rng
  for i in range(300 if core.THOROUGH else 48):
    s = scene(rng, nmax=16 if i % 4 else 40, cmax=12 if i % 4 else 24,
              dims=(2, 3, 3), kde=True, ext=[None, 9, 14][i % 3])
    if i % 24 in (22, 23):
      # many points: some thousand rows
      s = scene(rng, nmin=2100, nmax=2600, cmax=5, dims=(2, 3), kde=True,
                ext=60, pmode='random')
    own = i % 5 == 0 and len(s['pts']) < 100
    # limited numbers of neighbors: relations which no search yields
    s['cap'] = rng.choice([1, 2, 3, 5]) if i % 3 == 0 else 0
    rec = d_layers.base(s, i, 'transpose')
    rec.update(own=own and not s['cap'], cap=s['cap'], how='reordered' if i % 2 else 'recomputed', ob=[], nb=[],
               tob=[], tnb=[], trg=[], torder=[], tt=[], again=[], pdf=[])
    for x in ('out', 'vin', 'ovin', 'shape', 'oshape'):
      rec.pop(x)

    def go():
      a, b = clouds_of(s)
      nb = neighborhood(s, a, None if own else b)
      if own:
        p = attr(nb, '_point_cloud_sampled')
        rec['ctr'], rec['cbids'] = q(p._points, 1 / s['u']), ints(p._batch_ids)
        # the centers are the sorted points, so are those of the transposed one
        # unless the relation is not symmetric
        if not s['cap']:
          rec['pts'], rec['bids'] = rec['ctr'], rec['cbids']
      tr = nbm._NeighborhoodTransposed if i % 2 else (lambda x: x.transpose())
      t = tr(nb)
      rec['ob'] = ints(attr(nb, '_original_neigh_ids'))
      rec['nb'] = ints(attr(nb, '_neighbors'))
      rec['tob'] = ints(attr(t, '_original_neigh_ids'))
      rec['tnb'] = ints(attr(t, '_neighbors'))
      rec['trg'] = ints(attr(t, '_samples_neigh_ranges'))
      rec['torder'] = ints(attr(t.get_grid(), '_sorted_indices'))
      rec['tt'] = ints(tr(t)._original_neigh_ids)
      rec['again'] = ints(tr(nb)._original_neigh_ids)
      bw = np.full([len(s['pts'][0])], s['bw'], np.float32)
      rec['pdf'] = qa(t.get_pdf(bandwidth=bw), d_density.BITS)
      if rec['own']:
        # densities in the order of the sorted points
        rec['tob'], rec['ob'] = rec['tnb'], rec['nb']
        rec['tt'] = ints(tr(t)._neighbors)
        rec['again'] = ints(tr(nb)._neighbors)
        rec['torder'] = list(range(len(rec['ctr'])))
      return 1
    _, rec['err'] = attempt(go)
    c.record(T, **rec)


# ---------------------------------------------------------------- gradients

def layer_fn(name, s, rng, ci, i):
  """A layer with real valued weights as a function of the features."""
  np, tf, pc = lib()
  dim = len(s['pts'][0])
  tf.random.set_seed(i)
  rad = float(s['radius'])
  if name == 'mc':
    layer = pc.layers.MCConv(ci, 4, dim, 2, [8 if d_layers.GPU else 3])
    for b in layer._bias_tf:
      b.assign(tf.random.normal(b.shape, seed=i))
  elif name == 'pointconv':
    layer = pc.layers.PointConv(ci, 2, dim, 8)
    for w in layer._weights_pdf:
      w.assign(tf.abs(w))
    layer._biases_pdf[1].assign([[1.0]])
    layer._basis_axis_tf.assign(layer._basis_axis_tf / s['u'])
    layer._basis_bias_tf.assign(tf.random.normal(layer._basis_bias_tf.shape,
                                                 seed=i))
  elif name in ('kp', 'kpdeform'):
    layer = pc.layers.KPConv(
        ci, 2, num_kernel_points=5, num_dims=dim, deformable=name != 'kp',
        kp_interpolation=rng.choice(['linear', 'gaussian']),
        custom_kernel_points=fl(mat(rng, 5, dim, -4, 4), 0.25))
  elif name == 'avg':
    layer = pc.layers.AveragePooling()
  elif name == 'max':
    layer = pc.layers.MaxPooling()
  elif name == 'gavg':
    layer = pc.layers.GlobalAveragePooling()
  elif name == 'gmax':
    layer = pc.layers.GlobalMaxPooling()
  else:
    layer = pc.layers.Conv1x1(ci, 3)

  def f(x, a, b, nb, **kw):
    if name in ('gavg', 'gmax'):
      return layer(x, a)
    if name == 'one':
      return layer(x, a)
    if name in ('avg', 'max'):
      return layer(x, a, b, rad, **kw)
    if name in ('mc', 'pointconv'):
      kw['bandwidth'] = s['bw']
    return layer(x, a, b, rad, neighborhood=nb, **kw)
  return f


def c29(c):
  np, tf, pc = lib()
  d_layers.design(c)
  rng = c.rng
  names = ['mc', 'pointconv', 'kp', 'avg', 'gavg', 'one', 'max', 'gmax']
  for i in range(240 if core.THOROUGH else 48):
    gradient(c, i, names[i % 8])


def gradient(c, i, name):
  np, tf, pc = lib()
  rng = c.rng
  s = scene(rng, nmax=6, cmax=4, dims=(2, 3, 3), kde=True, bsmax=3)
  ci = rng.choice([1, 2])
  a_, b_ = s['in'], s['out']
  glob = name in ('gavg', 'gmax')
  if name == 'one':
    b_ = a_
  kind = 'maxgrad' if name in ('max', 'gmax') else 'adjoint'
  scale = 1 << 14
  n = len(a_['pts'])
  rec = dict(case='%s#%d' % (name, i), kind=kind, err='', pts=a_['pts'],
             bids=a_['bids'], ctr=b_['pts'], cbids=b_['bids'], t=s['t'],
             k2=s['k2'], C=ci, O=0, fwd=[], grad=[], scale=scale)
  rec['global'] = glob
  if glob:
    rec['ctr'], rec['cbids'] = [], list(range(s['bs']))
  feat = [[rng.randrange(-3, 4) for _ in range(ci)] for _ in range(n)]
  rec['feat'] = feat
  if name == 'one':
    # the only neighbor of a point is the point itself
    rec['pts'] = rec['ctr'] = [[100 * k] * len(a_['pts'][0]) for k in range(n)]

  def go():
    a, b = clouds_of(s)
    nb = neighborhood(s, a, b)
    f = layer_fn(name, s, rng, ci, i)
    x = tf.constant(feat, tf.float32)
    with tf.GradientTape(persistent=True) as tape:
      tape.watch(x)
      y = f(x, a, b, nb)
    g = np.asarray(tape.jacobian(y, x, experimental_use_pfor=False))
    o = {'O': y.shape[1], 'fwd': []}
    # the scale keeps the largest coefficient representable
    m = max(1.0, float(np.max(np.abs(g))) / 8 if g.size else 1.0)
    if kind == 'maxgrad':
      m = 1.0
    o['grad'] = qa(g / m, scale)
    if kind == 'adjoint':
      for p in range(n):
        o['fwd'].append([])
        for ch in range(ci):
          e = np.zeros([n, ci], np.float32)
          e[p, ch] = 1
          z = np.asarray(f(tf.constant(e), a, b, nb))
          if name == 'one':
            z = z - np.asarray(f(tf.zeros([n, ci]), a, b, nb))
          o['fwd'][-1].append(qa(z / m, scale))
    return o
  r, rec['err'] = attempt(go)
  if r is not None:
    rec.update(r)
  c.record(T, **rec)


# -------------------------------------------------------------- related runs

SUBJECTS = ['cells', 'pairs', 'density', 'mc', 'pointconv', 'kp', 'kpdeform', 'avg',
            'max', 'gavg', 'gmax', 'cells', 'pdf', 'box']
CHANGES = ['permute', 'single', 'relabel', 'translate', 'extend', 'all']


def related(rng, s, change):
  """The second run: points, centers, elements and their maps to the first."""
  a, b, bs = s['in'], s['out'], s['bs']
  dim = len(a['pts'][0])
  pm, cm = list(range(len(a['pts']))), list(range(len(b['pts'])))
  bm = list(range(bs))
  mv = [[0] * dim for _ in range(bs)]
  if change in ('permute', 'all'):
    rng.shuffle(pm)
    rng.shuffle(cm)
  if change in ('relabel', 'all'):
    rng.shuffle(bm)
  if change in ('translate', 'all'):
    mv = [[rng.randrange(-20, 21) for _ in range(dim)] for _ in range(bs)]
  if change == 'single':
    e = rng.choice(sorted(set(a['bids'])))
    pm = [k for k in pm if a['bids'][k] == e]
    cm = [k for k in cm if b['bids'][k] == e]
    bm, mv = [e], [[0] * dim]
  inv = {x: k for k, x in enumerate(bm)}
  move = lambda p, e: [x + y for x, y in zip(p, mv[inv[e]])]
  new = dict(
      pts=[move(a['pts'][k], a['bids'][k]) for k in pm],
      bids=[inv[a['bids'][k]] for k in pm],
      ctr=[move(b['pts'][k], b['bids'][k]) for k in cm],
      cbids=[inv[b['bids'][k]] for k in cm], bs=len(bm))
  return pm, cm, bm, mv, new


def run_subject(name, pts, bids, ctr, cbids, bs, feat, s, f, cell):
  np, tf, pc = lib()
  u = s['u']
  a = pc.PointCloud(fl(pts, u), np.array(bids), bs)
  b = pc.PointCloud(fl(ctr, u), np.array(cbids), bs)
  import importlib
  nbm = importlib.import_module('pylib.pc.Neighborhood')
  rad = np.full([len(pts[0])], s['radius'], np.float32)
  if name == 'pairs':
    return ints(neighborhood(s, a, b)._original_neigh_ids)
  if name == 'density':
    return np.asarray(nbm.density_estimation(a, s['bw'], rad))[:, None]
  if name == 'pdf':
    # mean density of the neighbors of each center
    nb = neighborhood(s, a, b)
    nb.compute_pdf(s['bw'], normalize=True)
    return np.asarray(tf.math.unsorted_segment_sum(
        nb.get_pdf(), nb._original_neigh_ids[:, 1], len(ctr)))[:, None]
  if name == 'cells':
    smp = pc.cell_average_sampling(a, fl(cell, u))
    p = qa(np.asarray(smp._points), 1 / u * 64)
    return [[int(x), y] for x, y in zip(np.asarray(smp._batch_ids), p)]
  if name == 'box':
    d = np.asarray(a.get_AABB().get_diameter())
    return (d / u)[:, None]
  nb = neighborhood(s, a, b)
  return np.asarray(f(tf.constant(feat, tf.float32), a, b, nb))


def c21(c):
  np, tf, pc = lib()
  d_layers.design(c)
  rng = c.rng
  n = 0
  for i in range(560 if core.THOROUGH else 84):
    name = SUBJECTS[i % 14]
    change = CHANGES[(i + i // 14) % 6]
    if name in ('kpdeform', 'kp') and change == 'extend':
      change = 'all'
    crowd = i % 14 != 10 and (i // 14 + i) % 4 == 0
    if crowd:
      # more than 64 or 128 neighbors
      s = {'ws': [9]}
      while s['ws'][0] > 2:
        s = scene(rng, nmin=80, nmax=170, cmax=6, dims=(2, 3, 3), kde=True,
                  bsmax=2, ext=rng.choice([1, 2]), pmode='random')
    else:
      s = scene(rng, nmax=14, cmax=8, dims=(2, 3, 3), kde=True, bsmax=4)
    a, b = s['in'], s['out']
    if change in ('single', 'extend'):
      # the element taken alone needs a center
      e = rng.choice(sorted(set(a['bids'])))
      b['bids'] = list(b['bids'])
      b['pts'] = list(b['pts'])
      for x in sorted(set(a['bids'])):
        if x not in b['bids']:
          b['bids'].append(x)
          b['pts'].append(list(a['pts'][a['bids'].index(x)]))
      if change == 'extend':
        change = 'single'
    pm, cm, bm, mv, new = related(rng, s, change)
    if name == 'cells':
      # a point on the upper border of the largest box joins the last cell, so
      # an element alone is cut differently if its extent is a multiple
      cell = []
      for d in range(len(a['pts'][0])):
        ex = {max(v) - min(v) for v in (
            [p[d] for p, z in zip(a['pts'], a['bids']) if z == y]
            for y in set(a['bids']))}
        ok = [k for k in (1, 2, 3, 4, 5)
              if change != 'single' or all(e == 0 or e % k for e in ex)]
        cell.append(rng.choice(ok or [1 + max(ex)]))
    else:
      cell = None
    ci = rng.choice([1, 2])
    feat = [[rng.randrange(-4, 5) / 4 for _ in range(ci)] for _ in a['pts']]
    kinds = {'pairs': 'pairs', 'density': 'points', 'cells': 'samples',
             'gavg': 'elements', 'gmax': 'elements', 'box': 'elements'}
    rec = dict(case='%s/%s#%d' % (name, change, i), kind='related', err='',
               subject=kinds.get(name, 'centers'), pts=a['pts'], pm=pm, cm=cm,
               bm=bm, mv=[[64 * x for x in v] for v in mv], a=[], b=[], tol=6,
               bids=a['bids'], ctr=b['pts'], cbids=b['bids'], new=new)

    def go():
      f = layer_fn(name, s, rng, ci, i) if name not in (
          'pairs', 'density', 'cells', 'pdf', 'box') else None
      x = run_subject(name, a['pts'], a['bids'], b['pts'], b['bids'], s['bs'],
                      feat, s, f, cell)
      y = run_subject(name, new['pts'], new['bids'], new['ctr'], new['cbids'],
                      new['bs'], [feat[k] for k in pm], s, f, cell)
      return x, y
    r, rec['err'] = attempt(go)
    if r is not None:
      x, y = r
      if name not in ('pairs', 'cells'):
        x, y = np.array(x), np.array(y)
        # elements and centers without points are unspecified
        full = sorted(set(a['bids']))
        if rec['subject'] == 'elements':
          for k, e in enumerate(bm):
            if e not in full:
              x[e] = 0
              y[k] = 0
        elif name == 'max':
          x = np.maximum(x, -1e3)
          y = np.maximum(y, -1e3)
        m = max(1.0, float(np.max(np.abs(x)))) if x.size else 1.0
        x, y = qa(x / m, 1 << 14), qa(y / m, 1 << 14)
      rec['a'], rec['b'] = x, y
    c.record(T, **rec)


CHECKS = {'C21': c21, 'C23': c23, 'C29': c29}
