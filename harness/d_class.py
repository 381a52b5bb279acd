"""C32, C33: the classification networks of the scripts."""
import ast
import hashlib
import os
import sys
import types

import core
from core import attempt, attr, qa
import clouds
import d_net
from d_layers import lib, mat, scene, side

T = 'TraceClassify'
SCRIPTS = ('modelnet40.py', 'modelnet40_small.py')
W = 1 << 14


def design(c):
  k = dict(Shapes='{1, 2}', Batch=2, MaxCalls=5 if core.THOROUGH else 4,
           Variant='"ok"')
  inv = ['RightRows', 'Trained']
  c.design('ClassifyMC', k, inv, view='View')
  for v, e in {'leak': 'RightRows', 'memo': 'RightRows', 'learns': 'Trained'}.items():
    c.mutant('ClassifyMC', dict(k, Variant='"%s"' % v), inv, label=v, expect=[e],
             view='View')


def load(script, **g):
  """Classes and functions of a script as a module with source code."""
  np, tf, pc = lib()
  with open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), script)) as f:
    t = ast.parse(f.read(), script)
  # constants, classes and functions
  t.body = [n for n in t.body if isinstance(n, (ast.ClassDef, ast.FunctionDef))]
  name = 'nets_' + script[:-3]
  path = os.path.join(core.scratch(), name + '.py')
  with open(path, 'w') as f:
    f.write(ast.unparse(t))
  m = types.ModuleType(name)
  m.__dict__.update(dict(np=np, tf=tf, pc=pc, layers=pc.layers, __file__=path), **g)
  sys.modules[name] = m
  with open(path) as f:
    exec(compile(f.read(), path, 'exec'), m.__dict__)
  return m


# parameters in units of the lattice; no distance of averages meets them exactly
SETS = {
    'cells': [dict(pool=[1.37, 3.71], conv=[2.13, 5.47]),
              dict(pool=[1.37, 2.71, 5.23], conv=[2.13, 4.21, 7.39]),
              dict(pool=[2.37, 2.71], conv=[3.61, 3.13]),
              dict(pool=[1.87], conv=[2.57])],
    'one cell': [dict(pool=[1.37, 71.3], conv=[2.13, 91.7]),
                 dict(pool=[2.37, 3.71, 71.3], conv=[3.61, 5.47, 91.7])],
    'disks': [dict(pool=[.43, .67], conv=[2.13, 3.47]),
              dict(pool=[.43, .67, .91], conv=[2.57, 2.13, 3.61])],
}


def clear(shape, p, eps=2e-3):
  """No distance or cell border is met by rounding only."""
  np, tf, pc = lib()
  x = np.array(shape, np.float32)
  h = pc.PointHierarchy(pc.PointCloud(x, np.zeros([len(x)], np.int32), 1),
                        [np.float32(v) for v in p['pool']], 'cell average')
  lev = [np.asarray(y._points, np.float64) for y in h.get_levels()] \
      if hasattr(h, 'get_levels') else \
      [np.asarray(h[k]._points, np.float64) for k in range(len(p['pool']) + 1)]
  rads = list(p['pool']) + list(p['conv'])
  for k, y in enumerate(lev):
    for z in lev[k:k + 2]:
      d = np.sqrt(((y[:, None] - z[None]) ** 2).sum(-1))
      if any(np.any(np.abs(d - r) < eps * r) for r in rads):
        return False
    if k < len(p['pool']):
      f = (y - y.min(0)) / p['pool'][k]
      if np.any((np.abs(f - np.round(f)) < eps) & (np.round(f) > 0)):
        return False
  return True


def padded(batch, u, pad):
  np, tf, pc = lib()
  x = np.full([len(batch), max(len(v) for v in batch) + pad, 3], 50.0, np.float32)
  for j, v in enumerate(batch):
    x[j, :len(v)] = np.array(v, np.float32)
  return x * np.float32(u), np.array([len(v) for v in batch], np.int32)


def digest(m):
  np, tf, pc = lib()
  h = hashlib.md5()
  for v in m.variables:
    h.update(np.ascontiguousarray(v.numpy()).tobytes())
  return h.hexdigest()


def classify(c, i, calls):
  np, tf, pc = lib()
  rng = c.rng
  script = SCRIPTS[i % 2]
  lt = ('MCConv', 'KPConv', 'PointConv')[i // 2 % 3]
  small = 'small' in script
  how = 'one cell' if small else ['cells', 'cells', 'disks'][i // 6 % 3]
  p = rng.choice(SETS[how])
  u = rng.choice([1.0, 0.25, 0.0625])
  b = len(calls[0]['shapes'])
  classes = rng.choice([2, 3, 5])
  shapes = []
  while len(shapes) < 3:
    n, ext = rng.randrange(3, 22), rng.choice([3, 5, 8])
    s = clouds.points(rng, n, 3, rng.choice(['random', 'cluster', 'mesh']), ext)
    if how == 'disks':
      s = [list(x) for x in sorted({tuple(x) for x in s})]
      rng.shuffle(s)
    if len(s) > 1 and clear(s, p):
      shapes.append(s)
  rec = dict(case='%s/%s/%s#%d' % (script[:-3], lt, how, i), kind='classify', err='',
             classes=classes, tol=12, calls=[], untrained=[])

  def go():
    tf.random.set_seed(i + 1000 * core.SEED)
    np.random.seed(i + 1000 * core.SEED)
    m = load(script, batch_size=b, samples_per_model=8)
    nl = len(p['pool'])
    w = [rng.choice([4, 8]) for _ in range(nl)]
    sizes = ([1] if small else []) + w + [rng.choice([4, 6]), classes]
    method = 'poisson disk' if how == 'disks' else 'cell average'
    net = m.mymodel(sizes, np.array(p['pool']) * u, np.array(p['conv']) * u, lt,
                    method, dropout_rate=rng.choice([0.0, 0.5]))
    rows, ver, vers = [], 0, []
    for k, call in enumerate(calls):
      batch = []
      for s in call['shapes']:
        x = [list(v) for v in shapes[s - 1]]
        rng.shuffle(x)
        mv = [rng.randrange(-9, 10) for _ in range(3)]
        batch.append([[a + t for a, t in zip(v, mv)] for v in x])
      x, sz = padded(batch, u, rng.choice([0, 0, 3]))
      args = (x, np.ones(x.shape[:2] + (1,), np.float32), sz)
      tf.config.run_functions_eagerly(call['mode'] == 'eager')
      if k == 0:
        # create the variables of the layers
        _, e = attempt(lambda: net(*args, training=False))
      o = dict(call, before=digest(net), rows=[], err='')
      if call['do'] == 'infer':
        y, o['err'] = attempt(lambda: np.asarray(net(*args, training=False)))
        if y is not None:
          o['rows'] = y
      else:
        def step():
          with tf.GradientTape() as tape:
            y = net(*args, training=True)
            lab = tf.one_hot([s % classes for s in call['shapes']], classes)
            loss = tf.reduce_mean(tf.nn.softmax_cross_entropy_with_logits(lab, y))
          vs = net.trainable_variables
          gs = tape.gradient(loss, vs)
          ids = {id(v) for v in vs}
          lost = sum(g is None for g in gs)
          if call['mode'] == 'eager':
            lost += sum(id(v) not in ids for v in tape.watched_variables())
          for g, v in zip(gs, vs):
            if g is not None:
              v.assign_sub(0.05 * tf.clip_by_norm(tf.convert_to_tensor(g), 1.0))
          rec['untrained'].append(int(lost))
          return 1
        _, o['err'] = attempt(step)
        ver += 1
      o['after'] = digest(net)
      vers.append(ver)
      rec['calls'].append(o)
    return vers
  try:
    vers, rec['err'] = attempt(go)
  finally:
    tf.config.run_functions_eagerly(False)
  for v in set(vers or []):
    mine = [o for o, x in zip(rec['calls'], vers) if x == v and len(o['rows'])]
    if mine:
      top = max(float(np.max(np.abs(o['rows']))) for o in mine)
      for o in mine:
        o['rows'] = qa(np.asarray(o['rows']) / max(top, 1e-6), W)
  for o in rec['calls']:
    if not isinstance(o['rows'], list):
      o['rows'] = qa(o['rows'], W)
  c.record(T, **rec)


def c32(c):
  design(c)
  n = 72 if core.THOROUGH else 18
  k = dict(Shapes='{1, 2, 3}', MaxCalls=6, Variant='"ok"')
  jobs = [c.generate('ClassifyMC', dict(k, Batch=b), 7, n, invariants=['Emit'])
          for b in (2, 3)]
  got = [[p['calls'] for p in c.take(j)] for j in jobs]
  c.spread('d_class', 'classify', [got[i % 5 % 2][i // 2 % len(got[i % 5 % 2])]
                                   for i in range(n)])


# ------------------------------------------------- blocks and chains of layers

class Calls(d_net.Recorder):
  """Records calls with their arguments."""

  def __init__(self, classes):
    self.classes = classes
    self.events, self.on, self.depth = [], False, 0

  def wrap(self, cls, kind):
    # the classes call each other: only the outermost call is recorded
    orig = cls.__call__
    rec = self

    def call(obj, features, *a, **kw):
      rec.depth += 1
      try:
        y = orig(obj, features, *a, **kw)
      finally:
        rec.depth -= 1
      if rec.on and rec.depth == 0:
        rec.events.append((kind, obj, features, y, a, kw))
      return y
    own = '__call__' in cls.__dict__
    cls.__call__ = call
    return cls, orig, own

  def __enter__(self):
    self.undo = [self.wrap(c, k) for k, c in self.classes.items()]
    return self


def tune(rng, seen, convs):
  """Integer normalisations, convolutions of moderate size."""
  np, tf, pc = lib()
  par = {}
  for k, obj, x, y, _, _ in seen:
    w = int(y.shape[-1])
    if k == 'bn':
      g = [rng.choice([-1, 1, 1, 2]) for _ in range(w)]
      m = [rng.randrange(-1, 2) for _ in range(w)]
      b = [rng.randrange(-1, 3) for _ in range(w)]
      obj.gamma.assign(g)
      obj.beta.assign(b)
      obj.moving_mean.assign(m)
      obj.moving_variance.assign([1 - obj.epsilon] * w)
      par[id(obj)] = (g, m, b)
    elif k == 'one':
      attr(obj, '_bias_tf').assign(
          [[rng.randrange(-2, 3) for _ in range(w)]])
    elif k == 'conv' and isinstance(obj, pc.layers.PointConv):
      for v in attr(obj, '_weights_pdf'):
        v.assign(tf.abs(v))
      attr(obj, '_biases_pdf')[1].assign([[1.0]])
  return par


def level_out(rng, seen, call, rec):
  """Lets every convolution weigh as much as the other values."""
  np, tf, pc = lib()
  for k, obj, x, y, _, _ in seen:
    if k != 'conv':
      continue
    rec.events = []
    call()
    top = max(float(np.max(np.abs(z))) for _, o, _, z, _, _ in rec.events if o is obj)
    v = getattr(obj, '_final_weights_tf', getattr(obj, '_weights', None))
    if v is not None and 0 < top < 1e6:
      v.assign(v * (6.0 / top))


def encode(rec, evs, par, extra):
  """Scales all recorded values alike."""
  np, tf, pc = lib()
  out, ids = [], []
  top = max([1.0] + [float(np.max(np.abs(z))) for e in evs for z in (e[2], e[3])
                     if np.asarray(z).size])
  scale = 1
  while scale < 4096 and top * scale * 2 < 1 << 18:
    scale *= 2
  for k, obj, x, y, ref in evs:
    if not any(o is obj for o in ids):
      ids.append(obj)
    g, m, b = par.get(id(obj), ([], [], []))
    out.append({'op': k, 'id': [o is obj for o in ids].index(True),
                'inn': qa(np.asarray(x), scale), 'out': qa(np.asarray(y), scale),
                'ref': [] if ref is None else qa(np.asarray(ref), scale),
                'g': g, 'm': m, 'b': b})
  rec['ev'], rec['scale'] = out, scale
  for k, v in extra.items():
    rec[k] = qa(np.asarray(v), scale)


def kinds(lt):
  np, tf, pc = lib()
  L = pc.layers
  return {'conv': getattr(L, lt), 'one': L.Conv1x1, 'pool': L.MaxPooling,
          'gavg': L.GlobalAveragePooling,
          'bn': tf.keras.layers.BatchNormalization, 'dense': tf.keras.layers.Dense}


def block(c, i, _):
  """conv_block on its own."""
  np, tf, pc = lib()
  rng = c.rng
  lt = ('MCConv', 'KPConv', 'PointConv')[i % 3]
  s = scene(rng, nmax=12, cmax=2, dims=(3,), kde=True, bsmax=3,
            ext=rng.choice([2, 3, 4]))
  a = s['in']
  strided = i % 2 == 0
  w0 = rng.choice([4, 8])
  w1 = rng.choice([w for w in (4, 8, 12) if w != w0]) if i // 2 % 2 == 0 else w0
  rows = mat(rng, len(a['pts']), w0, -3, 3)
  b = a
  if strided:
    # the coarse points, each with a neighbor
    keep = [k for k in range(len(a['pts'])) if rng.random() < 0.5 or k == 0]
    rng.shuffle(keep)
    b = side(rng, [a['pts'][k] for k in keep], [a['bids'][k] for k in keep],
             s['bs'], s['u'], padded='seg')
  training = i % 5 == 4
  rec = dict(case='block/%s#%d' % (lt, i), kind='block', err='', strided=strided,
             proj=w0 != w1, small=w1 // 4, training=training, ev=[], x=[], y=[],
             scale=1)
  r1 = float(s['radius'])
  r2 = r1 * rng.choice([0.5, 1, 1.5, 2]) if strided else None

  def go():
    tf.random.set_seed(i + 1000 * core.SEED)
    m = load('modelnet40.py', batch_size=s['bs'], samples_per_model=8)
    with Calls(kinds(lt)) as r:
      net = m.conv_block(w0, w1, lt, strided=strided)
      cl = a['build']()
      co = b['build']() if strided else cl
      x = tf.constant(rows, tf.float32)
      call = lambda t=False: net(x, cl, co, r1, r2, training=t) if strided else \
          net(x, cl, co, r1, training=t)
      r.on = True
      call()
      seen = []
      for e in r.events:
        if not any(o[1] is e[1] for o in seen):
          seen.append(e)
      par = tune(rng, seen, None)
      level_out(rng, seen, call, r)
      r.events = []
      y = call(training)
      r.on = False
      evs = []
      for k, obj, x_, z, _, _ in r.events:
        ref = None
        if k == 'conv':
          ref = obj(x_, cl, co, r1)
        elif k == 'one':
          ref = obj(x_, cl if int(x_.shape[0]) == len(a['pts']) else co)
        elif k == 'pool':
          ref = obj(x_, cl, co, r2)
        evs.append((k, obj, x_, z, ref))
      encode(rec, evs, par, {'x': x, 'y': y})
    return 1
  _, rec['err'] = attempt(go)
  c.record('TraceBlock', **rec)


def chain(c, i, _):
  """The stages of mymodel."""
  np, tf, pc = lib()
  rng = c.rng
  script = SCRIPTS[i % 2]
  small = i % 2 == 1
  lt = ('MCConv', 'KPConv', 'PointConv')[i // 2 % 3]
  p = rng.choice(SETS['one cell' if small else 'cells'])
  u, b = rng.choice([1.0, 0.25]), rng.choice([1, 2, 3])
  shapes = []
  while len(shapes) < b:
    s = clouds.points(rng, rng.randrange(3, 12), 3, rng.choice(
        ['random', 'cluster', 'mesh']), rng.choice([3, 5]))
    if clear(s, p):
      shapes.append(s)
  nl = len(p['pool'])
  rec = dict(case='chain/%s/%s#%d' % (script[:-3], lt, i), kind='chain', err='',
             net='small' if small else 'resnet', levels=nl, training=False,
             ev=[], x=[], y=[], scale=1)

  def go():
    tf.random.set_seed(i + 1000 * core.SEED)
    m = load(script, batch_size=b, samples_per_model=8)
    w = [rng.choice([4, 8]) for _ in range(nl)]
    pool, conv = np.array(p['pool']) * u, np.array(p['conv']) * u
    x, sz = padded(shapes, u, rng.choice([0, 2]))
    f = np.ones(x.shape[:2] + (1,), np.float32)
    ks = dict(kinds(lt), **({} if small else {'block': m.conv_block}))
    with Calls(ks) as r:
      net = m.mymodel(([1] if small else []) + w + [4, 3], pool, conv, lt,
                      'cell average', dropout_rate=0.5)
      r.on = True
      call = lambda: net(x, f, sz, training=False)
      call()
      seen = []
      for e in r.events:
        if not any(o[1] is e[1] for o in seen):
          seen.append(e)
      par = tune(rng, seen, None)
      level_out(rng, seen, call, r)
      r.events = []
      y = call()
      r.on = False
      h = pc.PointHierarchy(pc.PointCloud(x, sizes=sz, batch_size=b),
                            pool.reshape(-1, 1), 'cell average')
      evs, nb, nc = [], 0, 0
      for k, obj, x_, z, a, kw in r.events:
        ref = None
        if k == 'block':
          lv = (nb + 1) // 2            # block, then pairs (strided, block)
          if nb % 2:
            # the radius of strided convolutions is not specified
            rad = float(a[2] if len(a) > 2 else kw['conv_radius'])
            if rad not in (float(pool[lv]), float(conv[lv])):
              rad = float(conv[lv])
            ref = obj(x_, h[lv], h[lv + 1], rad, float(pool[lv]), training=False)
          else:
            ref = obj(x_, h[lv + 1], h[lv + 1], float(conv[lv]), training=False)
          nb += 1
        elif k == 'conv' and small:
          last = {'return_sorted': True} if nc == nl - 1 else {}
          if nc < nl:
            ref = obj(x_, h[nc], h[nc + 1], float(conv[nc]), **last)
          nc += 1
        elif k == 'conv':
          ref = obj(x_, h[1], h[1], float(conv[0]))
        elif k == 'one':
          ref = obj(x_, h[min(nc, nl)])
        elif k == 'gavg':
          ref = obj(x_, h[nl])
        elif k == 'dense':
          ref = tf.matmul(x_, obj.kernel) + obj.bias
        flat = lambda t: np.asarray(t).reshape([-1, np.asarray(t).shape[-1]])
        evs.append((k, obj, flat(x_), flat(z), ref))
      encode(rec, evs, par, {'x': f.reshape([-1, 1]), 'y': y})
    return 1
  tf.config.run_functions_eagerly(True)
  try:
    _, rec['err'] = attempt(go)
  finally:
    tf.config.run_functions_eagerly(False)
  c.record('TraceBlock', **rec)


def part(c, i, kind):
  return block(c, i, kind) if kind == 'block' else chain(c, i, kind)


def c33(c):
  W = '{0, 1, 2}' if core.THOROUGH else '{0, 2}'
  for strided in ('TRUE', 'FALSE'):
    for proj in ('TRUE', 'FALSE'):
      k = dict(Strided=strided, Proj=proj, Vals='{0, 1, 2, 3}', Weights=W,
               Variant='"ok"')
      inv = ['Definition', 'AnyOrder', 'Identity']
      c.design('BlockMC', k, inv, label='BlockMC/%s/%s' % (strided, proj))
      for v in ('skipAct', 'poolLate', 'noAdd'):
        if (v == 'poolLate' and strided == 'FALSE'):
          continue
        c.mutant('BlockMC', dict(k, Variant='"%s"' % v), inv,
                 label=v + strided + proj, expect=inv)
  n = 36 if not core.THOROUGH else 180
  c.spread('d_class', 'part', ['chain' if i % 3 == 2 else 'block' for i in range(n)])


CHECKS = {'C32': c32, 'C33': c33}
