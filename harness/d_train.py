"""C38: derivatives of all layers with respect to everything they depend on."""
import math

import core
from core import attempt
import clouds
import d_layers
from d_layers import lib

T = 'TraceTrain'
STEPS = [2.0 ** -6, 2.0 ** -8, 2.0 ** -10]
SCALE = 1 << 14

LAYERS = ['mc', 'pointconv', 'kp', 'kpdeform', 'one', 'kpreg', 'kpzero', 'density',
          'avg', 'gavg', 'max', 'gmax']
NETS = ['plain', 'neck', 'spatial']


def cloud(rng, n, dim, bs, ext):
  ids = [k if k < bs else rng.randrange(bs) for k in range(n)]
  rng.shuffle(ids)
  return [[rng.uniform(0, ext) for _ in range(dim)] for _ in range(n)], ids


def model(name, rng, i, dim, ci, u, pts):
  """A layer, its variables and f(features, points, centers, neighborhood)."""
  np, tf, pc = lib()
  L = pc.layers
  tf.random.set_seed(i + 1000 * core.SEED)
  wide = d_layers.GPU
  import importlib
  nbm = importlib.import_module('pylib.pc.Neighborhood')
  # (every layer in all combinations of options)
  t = i // len(LAYERS)
  kw = {'bandwidth': rng.choice([0.2, 0.4])} if t % 2 else {}
  if name == 'mc':
    m = L.MCConv(ci, 4, dim, 2, rng.choice([[8], [3, 8]] if wide else [[3], [4, 3]]),
                 rng.choice(['relu', 'leaky_relu', 'elu']))
  elif name == 'pointconv':
    m = L.PointConv(ci, 2, dim, 8 if wide else 5, rng.choice(['relu', 'leaky_relu', 'elu']))
  elif name in ('kp', 'kpdeform', 'kpreg', 'kpzero'):
    k = rng.choice([2, 4])
    sigma = rng.choice([0.5, 0.9]) if t % 2 else 0.4
    for _ in range(2000):
      kp = [[rng.uniform(-0.6, 0.6) for _ in range(dim)] for _ in range(k)]
      if name != 'kpzero':
        break
      # (the only kinks are those at distance zero)
      kp[0] = [0.0] * dim
      sigma = rng.uniform(0.3, 0.9)
      dist = [math.dist([(x - y) / u for x, y in zip(p, q)], [0.75 * x for x in z])
              for p in pts for q in pts for z in kp]
      if all(abs(x - sigma) > 0.004 and not 0 < x < 0.004 for x in dist):
        break
    # without the option now and then
    de = {} if name == 'kp' and t % 3 else {'deformable': name != 'kp'}
    m = L.KPConv(ci, 2, k, dim, kp_interpolation=rng.choice(['linear', 'gaussian']),
                 custom_kernel_points=np.array(kp, np.float32), **de)
    kw = {'kernel_influence_dist': u * sigma} if t % 2 or name == 'kpzero' else {}
  elif name == 'one':
    m = L.Conv1x1(ci, 3)
  elif name in ('avg', 'max', 'gavg', 'gmax'):
    m = {'avg': L.AveragePooling, 'max': L.MaxPooling, 'gavg': L.GlobalAveragePooling,
         'gmax': L.GlobalMaxPooling}[name]()
  else:
    m = None
  r = np.random.RandomState(i + core.SEED)
  vs = list(getattr(m, 'trainable_variables', ()))
  for v in vs:
    if not np.any(v):
      v.assign(r.uniform(-0.5, 0.5, v.shape))
  if name == 'pointconv':
    # keep the transform of the density away from zero
    for v in d_layers.attr(m, '_weights_pdf'):
      v.assign(tf.abs(v))
    d_layers.attr(m, '_biases_pdf')[1].assign([[1.0]])
  if name == 'kpzero':
    d_layers.attr(m, '_kernel_offsets_weights').assign(
        tf.zeros_like(d_layers.attr(m, '_kernel_offsets_weights')))

  def f(x, a, b, nb):
    if name == 'density':
      return nbm.density_estimation(a, 0.3, u)[:, None]
    if name == 'one':
      return m(x, a)
    if name in ('gavg', 'gmax'):
      return m(x, a)
    if name in ('avg', 'max'):
      return m(x, a, b, u)
    y = m(x, a, b, u, **({'neighborhood': nb} if nb is not None else {}), **kw)
    return m.regularization_loss() if name == 'kpreg' else y
  return m, vs, f


def network(name, rng, i, dim, u):
  np, tf, pc = lib()
  L = pc.layers
  tf.random.set_seed(i + 1000 * core.SEED)
  lt = ['MCConv', 'KPConv', 'PointConv'][i // 3 % 3]
  ckw = {'MCConv': {'num_mlps': 2, 'mlp_size': [3]}, 'PointConv': {'size_hidden': 4},
         'KPConv': {'num_kernel_points': 4, 'deformable': i % 2 == 0,
                    'custom_kernel_points': np.random.RandomState(i).uniform(
                        -0.6, 0.6, [4, dim]).astype(np.float32)}}[lt]
  kind = {'plain': L.PointResNet, 'neck': L.PointResNetBottleNeck,
          'spatial': L.PointResNetSpatialBottleNeck}[name]
  args = (4, 2, rng.choice([1, 2]), dim) if name == 'neck' else (4, rng.choice([1, 2]), dim)
  # a smooth activation (the kinks of others are those of the layers)
  m = kind(*args, layer_type=lt, projection_shortcuts=bool(rng.randrange(2)),
           activation=tf.nn.elu, **ckw)

  def f(x, a, b, nb):
    if name == 'spatial':
      return m(x, a, b, np.array([u, u * 1.5, u], np.float32), True)
    return m(x, a, u, True)
  return m, f


def derivative(c, i, name):
  np, tf, pc = lib()
  rng = c.rng
  dim, bs = rng.choice([2, 3]), rng.choice([1, 2])
  net = name in NETS
  ci = 4 if net else rng.choice([1, 2])
  u = rng.choice([0.8, 1.3])
  n, k = rng.randrange(bs + 2, 8), rng.randrange(bs, 5)
  pts, ids = cloud(rng, n, dim, bs, 1.5)
  ctr, cids = cloud(rng, k, dim, bs, 1.5)
  if name in ('kpreg', 'kpzero'):
    # every center has a neighbor, itself
    ctr, cids = [list(p) for p in pts], list(ids)
  rec = dict(case='%s#%d' % (name, i), kind='derivative', err='', fixed=0, vars=0,
             none=[], wants=[], steps=len(STEPS), scale=SCALE, value=0)

  def go():
    r = np.random.RandomState(1000 * core.SEED + i)
    feat = tf.Variable(r.uniform(-1, 1, [n, ci]).astype(np.float32) +
                       (1.5 if name == 'kpzero' else 0.0))
    P = tf.Variable(np.array(pts, np.float32))
    C = tf.Variable(np.array(ctr, np.float32))
    own = name in ('kpreg', 'kpzero')
    if net:
      m, f = network(name, rng, i, dim, u)
    else:
      m, vs, f = model(name, rng, i, dim, ci, u, pts)
    given = (not net) and i // len(LAYERS) // 2 % 2 == 0
    up = []

    def loss():
      # (clouds of their own: the coordinates change)
      a = pc.PointCloud(P.value(), np.array(ids), bs)
      b = pc.PointCloud(C.value(), np.array(cids), bs)
      nb = pc.Neighborhood(pc.Grid(a, np.full([dim], u, np.float32)),
                           np.full([dim], u, np.float32), b) if given else None
      y = f(feat.value(), a, b, nb)
      if not up:
        up.append(r.uniform(-1, 1, y.shape).astype(np.float32))
      return tf.reduce_sum(y * up[0])
    loss()
    if net:
      vs = list(m.trainable_variables)
      for v in vs:
        if not np.any(v):
          v.assign(r.uniform(-0.5, 0.5, v.shape))
        if 'pdf_weights' in v.name:
          v.assign(tf.abs(v))
        if 'pdf_biases_2' in v.name:
          v.assign([[1.0]])
    if vs:
      # everything but the statistics of normalisations is trained
      rec['vars'] = len(vs)
      rec['fixed'] = sum('moving' not in v.name for v in m.variables) - len(vs)
    # on what the result depends
    
    on = [] if name == 'density' else [('features', feat)]
    if name in ('mc', 'pointconv', 'density'):
      on.append(('points', P))
    if name in ('mc', 'pointconv', 'kp') and not own:
      on.append(('centers', C))
    if name == 'kp':
      on.append(('points', P))
    on += [('weights %s' % v.name, v) for v in vs]
    if name == 'kpreg':
      # (the weights of the convolution have no influence)
      on = [(t, v) for t, v in on if 'conv_weights' not in t]
    with tf.GradientTape() as tape:
      y = loss()
    g = tape.gradient(y, [v for _, v in on])
    here = [v.numpy() for _, v in on]
    grads = []
    for (t, v), d in zip(on, g):
      if d is None:
        rec['none'].append(t)
        d = np.zeros(v.shape, np.float32)
      grads.append(np.asarray(tf.convert_to_tensor(d)))
    if rec['none']:
      return float(y), []
    # directions: one entry of a variable, a variable as a whole, all of them
    ways = []
    for e, ((t, v), d) in enumerate(zip(on, grads)):
      way = r.uniform(-1, 1, v.shape)
      ways.append((t, {e: way / np.linalg.norm(way)}))
      if not net or core.THOROUGH:
        way = np.zeros(d.size)
        way[int(np.argmax(np.where(np.isfinite(d), np.abs(d), np.inf)))] = 1
        ways.append((t, {e: way.reshape(v.shape)}))
    if net and not core.THOROUGH:
      ways = rng.sample(ways, min(len(ways), 7))
    if on:
      way = [r.uniform(-1, 1, v.shape) for _, v in on]
      norm = np.sqrt(sum(np.sum(x ** 2) for x in way))
      ways.append(('all', {e: x / norm for e, x in enumerate(way)}))
    wants = []
    for t, way in ways:
      q = []
      for h in STEPS:
        for s in (-1, 1):
          for e, x in way.items():
            on[e][1].assign(here[e] + np.float32(s * h) * x.astype(np.float32))
          q.append((float(loss()) - float(y)) / (s * h))
      for e in way:
        on[e][1].assign(here[e])
      wants.append((t, float(sum(np.sum(grads[e].astype(np.float64) * x)
                                 for e, x in way.items())), q))
    return float(y), wants
  r, rec['err'] = attempt(go)
  if r is not None:
    y, wants = r
    top = max([abs(y) / 20, 1e-6] + [abs(x) for _, g, q in wants for x in [g] + q[-2:]
                                     if math.isfinite(x)])
    enc = lambda x: core.qa([x / top], SCALE)[0] if math.isfinite(x) else core.NAN
    rec['wants'] = [{'of': t, 'g': enc(g), 'q': [enc(x) for x in q]} for t, g, q in wants]
  c.record(T, **rec)


INV = ['Gradient', 'Local']


def design(c):
  k = dict(N=2, M=2, Vals='{0, 3}', Variant='"ok"')
  if core.THOROUGH:
    c.design('TrainMC', dict(k, M=1, Vals='{0, 1, 3}'), INV, label='TrainMC, one center')
  c.design('TrainMC', k, INV)
  for v in ('overwrite', 'noMask', 'lastNeighbor', 'detached'):
    c.mutant('TrainMC', dict(k, Variant='"%s"' % v), INV, label=v, expect=INV)


def one(c, i, it):
  derivative(c, i, it['what'])


def c38(c):
  lib()
  design(c)
  n = 12 if core.THOROUGH else 1
  items = [dict(what=w) for _ in range(4 * n) for w in LAYERS] + \
      [dict(what=w) for _ in range(9 * n) for w in NETS]
  c.spread('d_train', 'one', items)


CHECKS = {'C38': c38}
