"""C31: traced functions against eager calls."""
import importlib

import core
from core import attempt, attr, ints, q, qa
import clouds
import d_layers
from d_layers import fl, lib, mat

T = 'TraceGraph'
W = 1 << 14
MODS = {}


def design(c):
  k = dict(Objs='{1, 2}', Graphs='{1, 2}', Inputs='{1, 2}',
           MaxSteps=10 if core.THOROUGH else 8, Variant='"ok"')
  inv = ['Usable', 'Right', 'Kept']
  c.design('GraphMC', k, inv, view='View', workers=4 if core.THOROUGH else 2)
  for v, e in {'always': 'Usable', 'frozen': 'Right'}.items():
    c.mutant('GraphMC', dict(k, Variant='"%s"' % v), [e], label=v, expect=[e],
             view='View')


# ------------------------------------------------------------------ inputs

MODES = ['seg', 'seg', 'nobs', 'sizes', 'padded', 'full', 'shaped', 'bsarg']
SWEEPS = ['bsarg', 'sizes', 'padded', 'bsarg', 'nobs', 'full', 'shaped', 'seg']


def inputs(rng, mode, dim, bs, u, ext):
  """One input: points, segmentation, features, centers."""
  n = [rng.randrange(0 if mode in ('seg', 'shaped', 'bsarg', 'sizes', 'padded')
                     else 1, 6) for _ in range(bs)]
  # (without the size of the batch its last element cannot be empty)
  k = len(n) - 1 if mode == 'nobs' else rng.randrange(len(n))
  n[k] = max(1, n[k])
  if mode not in ('nobs', 'full') and rng.random() < 0.3:
    n[0], n[-1] = max(1, n[0]), 0
  if mode == 'full':
    n = [rng.randrange(1, 6)] * bs
  ids = [b for b in range(bs) for _ in range(n[b])]
  pts = clouds.points(rng, len(ids), dim, rng.choice(
      ['random', 'random', 'cluster', 'mesh']), ext)
  if mode in ('seg', 'nobs', 'shaped', 'bsarg'):
    rng.shuffle(ids)
  m = rng.randrange(1, 7)
  ctr, cids = clouds.centers(
      rng, dict(pts=pts, bids=ids, bs=bs, ext=2), m)
  v = {'pts': pts, 'bids': ids, 'n': n, 'ctr': ctr, 'cids': cids}
  v['feat'] = [[rng.randrange(-4, 5) / 4 for _ in range(2)] for _ in ids]
  return v


def factor(bs):
  return [2, bs // 2] if bs % 2 == 0 else [bs, 1]


def arguments(v, mode, bs, u):
  """The arguments of a traced function."""
  np, tf, pc = lib()
  x, seg = fl(v['pts'], u), np.array(v['bids'], np.int32)
  if mode == 'sizes':
    seg = np.array(v['n'], np.int32).reshape(factor(bs))
  elif mode in ('padded', 'full'):
    w = max(v['n']) + (len(v['pts']) % 3 if mode == 'padded' else 0)
    a = np.full([bs, w, len(v['pts'][0])], 7 * u, np.float32)
    k = 0
    for b in range(bs):
      a[b, :v['n'][b]] = x[k:k + v['n'][b]]
      k += v['n'][b]
    x = a.reshape(factor(bs) + list(a.shape[1:]))
    seg = np.array(v['n'], np.int32).reshape(factor(bs))
  return [tf.constant(z) for z in (
      x, seg, np.array(v['feat'], np.float32), fl(v['ctr'], u),
      np.array(v['cids'], np.int32), np.int32(bs))]


def signature(args, mode, rng):
  np, tf, pc = lib()
  x, seg = args[0], args[1]
  # the batch shape is known or not
  known = [k if rng.random() < 0.5 else None for k in x.shape[:-2]]
  sx = [None, x.shape[1]] if x.shape.ndims == 2 else known + [None, x.shape[3]]
  ss = [None] * seg.shape.ndims if rng.random() < 0.5 else list(seg.shape)
  if mode in ('seg', 'nobs', 'shaped', 'bsarg'):
    ss = [None]
  return [tf.TensorSpec(sx), tf.TensorSpec(ss, tf.int32),
          tf.TensorSpec([None, 2]), tf.TensorSpec([None, x.shape[-1]]),
          tf.TensorSpec([None], tf.int32), tf.TensorSpec([], tf.int32)]


class Bundle:
  """The objects made from one input, built at once."""

  def __init__(self, args, env):
    np, tf, pc = lib()
    self.env = env
    x, seg, self.f, ctr, cids, bs_t = args
    mode, bs = env['mode'], env['bs']
    if mode in ('seg', 'shaped'):
      self.a = pc.PointCloud(x, seg, bs)
      if mode == 'shaped':
        self.a.set_batch_shape(factor(bs))
    elif mode == 'nobs':
      self.a = pc.PointCloud(x, seg)
    elif mode == 'bsarg':
      self.a, bs = pc.PointCloud(x, seg, bs_t), bs_t
    elif mode == 'full':
      self.a = pc.PointCloud(x)
    else:
      self.a = pc.PointCloud(x, sizes=seg)
    self.b = pc.PointCloud(ctr, cids, bs)
    need = env['need']
    r = np.full([env['dim']], env['radius'], np.float32)
    if 'grid' in need or 'nb' in need:
      self.grid = pc.Grid(self.a, r)
    if 'nb' in need:
      self.nb = pc.Neighborhood(self.grid, r, self.b)
      self.own = pc.Neighborhood(self.grid, r)
    if 'hier' in need:
      self.hier = pc.PointHierarchy(self.a, [r, 2 * r], 'cell average')
    self.r = r


# --------------------------------------------------------------- questions
# name -> (objects needed, function of a bundle to a list of (kind, value))

def flat(x):
  np, tf, pc = lib()
  return tf.reshape(x, [-1, x.shape[-1]])


def q_points(B):
  return [('close', B.a.get_points()), ('close', B.b.get_points(max_num_points=9))]


def q_element(B):
  if B.env['mode'] in ('shaped', 'sizes', 'padded', 'full'):
    return [('close', B.a.get_points([1, 0]))]
  return [('close', B.a.get_points(B.env['bs'] - 1)), ('close', B.b.get_points(0))]


def q_sizes(B):
  return [('exact', B.a.get_sizes()), ('exact', B.b.get_sizes())]


def q_box(B):
  np, tf, pc = lib()
  # the boxes of empty elements are unspecified
  some = tf.reshape(B.a.get_sizes(), [-1]) > 0
  d = tf.reshape(B.a.get_AABB().get_diameter(), [-1])
  e = tf.reshape(B.a.get_AABB().get_diameter(ord=np.inf), [-1])
  return [('close', tf.where(some, d, 0.0)), ('close', tf.where(some, e, 0.0)),
          ('exact', tf.shape(B.a.get_AABB().get_diameter()))]


def q_unflatten(B):
  return [('close', B.a.get_unflatten()(B.f)),
          ('close', B.a.get_unflatten(max_num_points=8)(B.f))]


def q_reshape(B):
  np, tf, pc = lib()
  p = pc.PointCloud(B.a._points, B.a._batch_ids, B.env['bs'])
  p.get_sizes()
  p.set_batch_shape([1, B.env['bs'], 1])
  out = [('exact', p.get_sizes()), ('close', p.get_points())]
  p.set_batch_shape(None)
  return out + [('exact', p.get_sizes())]


def q_grid(B):
  return [('exact', B.grid._sorted_keys), ('exact', B.grid.get_DS()),
          ('exact', B.grid._num_cells)]


def q_search(B):
  np, tf, pc = lib()
  n = pc.Neighborhood(B.grid, B.r, B.b)
  capped = pc.Neighborhood(B.grid, B.r, B.b, 2)
  return [('set', n._original_neigh_ids), ('exact', n._samples_neigh_ranges),
          ('exact', capped._samples_neigh_ranges)]


def q_nogrid(B):
  m = MODS['ops']
  r, n = m.find_neighbors_no_grid(B.a, B.b, float(B.r[0]))
  return [('exact', r), ('set', n)]


def q_compute(B):
  m = MODS['nb']
  n, r = m.compute_neighborhoods(B.grid, B.r, B.b, return_ranges=True)
  n2 = m.compute_neighborhoods(B.grid, float(B.r[0]))
  return [('set', n), ('exact', r), ('set', n2)]


def q_pdf(B):
  return [('close', B.nb.get_pdf(bandwidth=0.3)), ('close', B.own.get_pdf(bandwidth=0.3))]


def q_transposed(B):
  t = B.nb.transpose()
  return [('set', t._original_neigh_ids), ('exact', t._samples_neigh_ranges),
          ('close', t.get_pdf(bandwidth=0.3))]


def q_reordered(B):
  m = MODS['nb']
  t = m._NeighborhoodTransposed(B.nb)
  return [('set', t._original_neigh_ids), ('exact', t._samples_neigh_ranges)]


def q_normalised(B):
  np, tf, pc = lib()
  n = pc.Neighborhood(B.grid, B.r, B.b)
  n.compute_pdf(0.3, normalize=True)
  m = MODS['nb']
  return [('close', n.get_pdf()),
          ('close', m.density_estimation(B.a, 0.3, B.r)),
          ('close', m.density_estimation_in_neighborhoods(
              B.a, n._original_neigh_ids, 0.3, B.r))]


def q_inside(B):
  np, tf, pc = lib()
  m = MODS['ops']
  n = pc.Neighborhood(B.grid, B.r, B.b)
  bw = np.full([B.env['dim']], 0.3, np.float32)
  return [('close', m.compute_pdf_inside_neighborhoods_tf(n, bw, 0))]


def q_average(B):
  np, tf, pc = lib()
  s = pc.cell_average_sampling(B.a, B.r)
  return [('close', s._points), ('exact', s._batch_ids), ('exact', s.get_sizes())]


def q_poisson(B):
  np, tf, pc = lib()
  s = pc.poisson_disk_sampling(B.a, B.r)
  rows = tf.concat((tf.cast(s._batch_ids, tf.float32)[:, None],
                    s._points / B.env['u']), axis=1)
  p, i = pc.sample(B.own, 'poisson')
  rows2 = tf.concat((tf.cast(p._batch_ids, tf.float32)[:, None],
                     tf.gather(B.a._points, tf.cast(i, tf.int32)) / B.env['u']), axis=1)
  return [('poisson', rows), ('poisson', rows2)]


def q_levels(B):
  pts = B.hier.get_points()
  return [('close', p) for p in pts] + [('exact', s) for s in B.hier.get_sizes()]


def q_relations(B):
  a, b = B.hier.get_neighborhood(0), B.hier.get_neighborhood(1, transposed=True)
  return [('set', a._original_neigh_ids), ('set', b._original_neigh_ids)]


def q_build(B):
  np, tf, pc = lib()
  h = pc.PointHierarchy(B.a, [float(B.r[0])], 'cell average')
  return [('close', h[1]._points), ('exact', h.get_sizes()[1])]


def layer(env, name):
  """Layers are made once, outside of the functions."""
  np, tf, pc = lib()
  if name in env['layers']:
    return env['layers'][name]
  dim, rng = env['dim'], env['rng']
  L = pc.layers
  tf.random.set_seed(env['seed'])
  kp = fl(mat(rng, 5, dim, -4, 4), 0.25)
  if name == 'mc':
    y = L.MCConv(2, 4, dim, 2, [3])
  elif name == 'pointconv':
    y = L.PointConv(2, 3, dim, 4)
    for w in y._weights_pdf:
      w.assign(tf.abs(w))
    y._biases_pdf[1].assign([[1.0]])
  elif name in ('kp', 'kpdeform'):
    y = L.KPConv(2, 3, num_kernel_points=5, num_dims=dim, custom_kernel_points=kp,
                 deformable=name != 'kp')
  elif name == 'one':
    y = L.Conv1x1(2, 3)
  elif name == 'resnet':
    y = L.PointResNet(2, 2, dim, num_mlps=2, mlp_size=[3], projection_shortcuts=True)
  elif name == 'neck':
    y = L.PointResNetBottleNeck(2, 1, 2, dim, num_mlps=1, mlp_size=[3])
  elif name == 'spatial':
    y = L.PointResNetSpatialBottleNeck(2, 1, dim, layer_type='PointConv', size_hidden=4)
  env['layers'][name] = y
  return y


def conv(name):
  def ask(B):
    np, tf, pc = lib()
    y = layer(B.env, name)
    kw = {'bandwidth': 0.3} if name in ('mc', 'pointconv') else {}
    r = float(B.r[0])
    out = [('close', y(B.f, B.a, B.b, r, **kw))]
    if name == 'kpdeform':
      out.append(('close', y.regularization_loss()))
    out.append(('close', y(B.f, B.a, B.b, r, neighborhood=B.nb, **kw)))
    return out + [('close', y(B.f, B.a, B.b, r, return_padded=True, **kw))]
  return ask


def q_one(B):
  y = layer(B.env, 'one')
  return [('close', y(B.f, B.a)), ('close', y(B.f, B.a, return_padded=True))]


def pool(name):
  def ask(B):
    np, tf, pc = lib()
    L = pc.layers
    if name == 'gavg' or name == 'gmax':
      y = L.GlobalAveragePooling() if name == 'gavg' else L.GlobalMaxPooling()
      z = y(B.f, B.a, return_padded=True)
      some = B.a.get_sizes() > 0      # empty elements are unspecified
      z = tf.where(tf.expand_dims(some, -1), z, tf.zeros_like(z))
      return [('close', z)]
    y = L.AveragePooling() if name == 'avg' else L.MaxPooling()
    return [('close', tf.maximum(y(B.f, B.a, B.b, float(B.r[0])), -100.0))]
  return ask


def net(name):
  def ask(B):
    y = layer(B.env, name)
    r = float(B.r[0])
    if name == 'spatial':
      return [('close', y(B.f, B.a, B.b, [r, 2 * r, r], training=False))]
    return [('close', y(B.f, B.a, r, training=False)),
            ('close', y(B.f, B.a, r, training=False, return_padded=True))]
  return ask


def gradient(name):
  def ask(B):
    np, tf, pc = lib()
    y = layer(B.env, name)
    vs = list(y.trainable_variables) if not hasattr(y, '_conv_layers') else \
        [w for l in y._conv_layers for w in l.trainable_variables]
    with tf.GradientTape() as tape:
      tape.watch(B.f)
      z = y(B.f, B.a) if name == 'one' else y(B.f, B.a, B.b, float(B.r[0]))
      loss = tf.reduce_sum(z * z)
    g = tape.gradient(loss, [B.f] + vs)
    return [('close', tf.convert_to_tensor(x)) for x in g if x is not None]
  return ask


def q_maxgrad(B):
  np, tf, pc = lib()
  with tf.GradientTape() as tape:
    tape.watch(B.f)
    z = pc.layers.AveragePooling()(B.f, B.a, B.b, float(B.r[0]))
    loss = tf.reduce_sum(z * z)
  return [('close', tf.convert_to_tensor(tape.gradient(loss, B.f)))]


QUESTIONS = {
    'points': ('', q_points), 'element': ('', q_element), 'sizes': ('', q_sizes),
    'box': ('', q_box), 'unflatten': ('', q_unflatten),
    'reshape': ('', q_reshape), 'grid': ('grid', q_grid),
    'search': ('grid', q_search), 'nogrid': ('', q_nogrid),
    'compute': ('grid', q_compute), 'pdf': ('nb', q_pdf),
    'transposed': ('nb', q_transposed), 'reordered': ('nb', q_reordered),
    'normalised': ('grid', q_normalised), 'inside': ('grid', q_inside),
    'average': ('', q_average), 'poisson': ('nb', q_poisson),
    'levels': ('hier', q_levels), 'relations': ('hier', q_relations),
    'build': ('', q_build), 'one': ('', q_one),
    'gavg': ('', pool('gavg')), 'gmax': ('', pool('gmax')),
    'avg': ('', pool('avg')), 'max': ('', pool('max')),
    'mc': ('nb', conv('mc')), 'kp': ('nb', conv('kp')),
    'kpdeform': ('nb', conv('kpdeform')), 'pointconv': ('nb', conv('pointconv')),
    'resnet': ('', net('resnet')), 'neck': ('', net('neck')),
    'spatial': ('', net('spatial')),
    'grad mc': ('', gradient('mc')), 'grad kp': ('', gradient('kp')),
    'grad pointconv': ('', gradient('pointconv')), 'grad one': ('', gradient('one')),
    'grad avg': ('', q_maxgrad),
}
CACHES = ['sizes', 'box', 'grid', 'pdf', 'transposed', 'unflatten', 'points', 'levels',
          'relations', 'element', 'search', 'compute']
OTHERS = [k for k in QUESTIONS if k not in CACHES]


def encode(vals, m=None):
  """Lists of integers; close values relative to their largest magnitude."""
  np, tf, pc = lib()
  out, ms = [], []
  for k, (kind, x) in enumerate(vals):
    a = np.asarray(x)
    d = {'kind': kind, 'shape': list(a.shape)}
    if kind == 'close':
      a = a.astype(np.float64)
      f = a[np.isfinite(a)]
      s = m[k] if m and k < len(m) else max(1e-6, float(np.max(np.abs(f))) if f.size else 1.0)
      ms.append(s)
      d['vals'] = qa(a.reshape(-1) / s, W)
    else:
      ms.append(1.0)
      d['vals'] = ints(a if kind in ('set', 'poisson') else a.reshape(-1))
    out.append(d)
  return out, ms


def history(c, i, steps, menu, rng, relaxed=False):
  np, tf, pc = lib()
  mode = (SWEEPS if relaxed else MODES)[i % 8]
  dim, bs = rng.choice([2, 3, 3]), rng.choice([2, 3, 4])
  if set(menu) & {'resnet', 'neck', 'spatial'}:
    dim = 3
  u, ext = rng.choice([1.0, 0.25]), rng.choice([2, 3, 5])
  rad = rng.choice([1, 2, 2, 4])
  need = {QUESTIONS[k][0] for k in menu}
  env = dict(mode=mode, dim=dim, bs=bs, u=u, radius=rad * u, need=need, layers={},
             rng=rng, seed=i + 1000 * core.SEED)
  ins = [inputs(rng, mode, dim, bs, u, ext) for _ in range(3)]
  rec = dict(case='%s/%s#%d' % (mode, '+'.join(menu), i), kind='graph', err='',
             mode=mode, tol=8, rad=[rad] * dim, fresh=[], steps=[], traces=[],
             objs=[{'home': -1, 'v': 1} for _ in range(3)],
             scene=[{'pts': v['pts'], 'bids': v['bids']} for v in ins])
  args = [arguments(v, mode, bs, u) for v in ins]
  scale = []
  asked = {}            # the kinds of answers

  def go():
    for v in range(3):
      rec['fresh'].append([])
      scale.append([])
      for name in menu:
        vals = QUESTIONS[name][1](Bundle(args[v], env))
        asked[name] = [k for k, _ in vals]
        e, m = encode(vals)
        rec['fresh'][-1].append(e)
        scale[-1].append(m)
    return 1
  _, rec['err'] = attempt(go)
  if rec['err']:
    c.record(T, **rec)
    return

  objs, functions = {}, {}
  pick = iter([])

  def answer(g, o, qi, v, again, vals, err):
    src = rec['objs'][o - 1]
    m = scale[(src['v'] if src['home'] == 0 else v) - 1][qi]
    got = None
    if not err:
      # placeholders of a trace have no value here
      got, err = attempt(lambda: encode(list(zip(asked[menu[qi]], vals)), m)[0])
    got = got or []
    rec['steps'].append(dict(g=g, o=o, q=qi + 1, v=v, again=again, got=got, err=err))

  def call(g, v, again):
    f, asks = functions[g]['fn'], functions[g]['asks']
    r, err = attempt(lambda: f(*args[v - 1]))
    for k, (o, qi) in enumerate(asks):
      answer(g, o, qi, v, again, r[k] if r is not None else [], err)

  steps = list(steps)
  turn = rng.randrange(len(menu))
  k = 0
  while k < len(steps):
    s = steps[k]
    k += 1
    if s['do'] == 'make':
      objs[s['o']] = None
      rec['objs'][s['o'] - 1] = {'home': 0, 'v': s['v']}
      b, err = attempt(lambda: Bundle(args[s['v'] - 1], env))
      objs[s['o']] = b
      if err:
        rec['err'] = err
        break
    elif s['do'] == 'ask':
      turn += 1
      qi = turn % len(menu)
      r, err = attempt(lambda: [x for _, x in QUESTIONS[menu[qi]][1](objs[s['o']])])
      answer(0, s['o'], qi, 1, False, r, err)
    elif s['do'] == 'again':
      if s['g'] in functions:
        call(s['g'], s['v'], True)
    elif s['do'] == 'begin':
      g, body, asks = s['g'], [], []
      while k < len(steps) and steps[k]['do'] != 'end':
        b = dict(steps[k])
        if b['do'] == 'make':
          rec['objs'][b['o'] - 1] = {'home': g, 'v': 1}
        else:
          turn += 1
          b['q'] = turn % len(menu)
          asks.append((b['o'], b['q']))
        body.append(b)
        k += 1
      k += 1
      if not asks:
        continue
      policy = ['relaxed', 'relaxed', 'static'][0 if relaxed else (i + g) % 3]
      functions[g] = {'asks': asks, 'n': 0, 'policy': policy}

      def fn(*a, g=g, body=body):
        functions[g]['n'] += 1
        inner, outs = {}, []
        for b in body:
          if b['do'] == 'make':
            inner[b['o']] = Bundle(a, env)
          else:
            o = inner[b['o']] if b['o'] in inner else objs[b['o']]
            outs.append([x for _, x in QUESTIONS[menu[b['q']]][1](o)])
        return outs
      functions[g]['fn'] = tf.function(
          fn, autograph=(i + g) % 2 == 0,
          input_signature=signature(args[0], mode, rng) if policy == 'relaxed' else None)
      call(g, s['v'], False)
  rec['traces'] = [f['n'] for f in functions.values() if f['policy'] == 'relaxed']
  c.record(T, **rec)


def run_history(c, i, item):
  np, tf, pc = lib()
  tf.get_logger().setLevel('ERROR')
  MODS['ops'] = importlib.import_module('pylib.pc.custom_ops.custom_ops_tf')
  MODS['nb'] = importlib.import_module('pylib.pc.Neighborhood')
  history(c, i, item['steps'], item['menu'], c.rng, 'relaxed' in item)


def score(h):
  """Histories with questions in functions, called again, come first."""
  kinds = {(s['do'], s['g'] > 0) for s in h}
  return len(kinds & {('ask', True), ('ask', False), ('again', True)})


def c31(c):
  design(c)
  n = 160 if core.THOROUGH else 32
  k = dict(Objs='{1, 2, 3}', Graphs='{1, 2, 3}', Inputs='{1, 2, 3}', MaxSteps=12,
           Variant='"ok"')
  job = c.generate('GraphMC', k, 13, 3 * n, invariants=['Emit'])
  got, hs = set(), []
  for p in c.take(job):
    # one of the histories which differ in the last step only
    key = str(p['steps'][:-1])
    if key not in got:
      got.add(key)
      hs.append(p['steps'])
  rng = c.rng
  rng.shuffle(hs)
  hs.sort(key=lambda h: -score(h))
  items = []
  for i, steps in enumerate(hs[:n]):
    menu = {CACHES[i % 12], OTHERS[(i + core.SEED) % len(OTHERS)],
            rng.choice(list(QUESTIONS))}
    items.append({'steps': steps, 'menu': sorted(menu)})
  # one function which answers many questions about the object it makes, for
  # inputs of unknown sizes
  names = sorted(QUESTIONS)
  rng.shuffle(names)
  for i in range(64 if core.THOROUGH else 24):
    menu = {names[(7 * i + k) % len(names)] for k in range(7)}
    if SWEEPS[len(items) % 8] in ('bsarg', 'sizes', 'padded'):
      menu |= {'gavg', 'gmax', 'sizes', 'unflatten'}
    menu = sorted(menu)
    items.append({'menu': menu, 'relaxed': True, 'steps':
                  [{'do': 'begin', 'g': 1, 'v': 1}, {'do': 'make', 'g': 1, 'o': 1, 'v': 1}] +
                  [{'do': 'ask', 'g': 1, 'o': 1, 'v': 1} for _ in menu] + [{'do': 'end'}] +
                  [{'do': 'again', 'g': 1, 'v': v} for v in (2, 3, 1)]})
  c.spread('d_graph', 'run_history', items)


CHECKS = {'C31': c31}
