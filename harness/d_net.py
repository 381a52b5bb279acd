"""C24: residual networks."""
import core
from core import attempt, attr, q, qa
import d_layers
from d_layers import fl, lib, scene, side, mat, output, features, layout_args, \
    NO_OUT

T = 'TraceNet'


class Recorder:
  """Records the calls of point layers and batch normalisations."""

  def __init__(self, classes, bn):
    self.classes, self.bn = classes, bn
    self.events, self.on, self.depth = [], False, 0

  def wrap(self, cls, kind):
    orig = cls.__call__
    rec = self

    def call(obj, features, *a, **kw):
      rec.depth += 1
      try:
        y = orig(obj, features, *a, **kw)
      finally:
        rec.depth -= 1
      if rec.on and rec.depth == 0:
        rec.events.append((kind, obj, features, y))
      return y
    own = '__call__' in cls.__dict__
    cls.__call__ = call
    return cls, orig, own

  def __enter__(self):
    self.undo = [self.wrap(c, k) for k, c in self.classes.items()]
    self.undo.append(self.wrap(self.bn, 'bn'))
    return self

  def __exit__(self, *a):
    for cls, orig, own in self.undo:
      if own:
        cls.__call__ = orig
      else:
        del cls.__call__


def c24(c):
  np, tf, pc = lib()
  L = pc.layers
  W = '{0, 1, 2}' if core.THOROUGH else '{0, 2}'
  inv = ['Definition', 'InStep', 'BackHome', 'ZeroBody']
  for kind in ('plain', 'neck', 'spatial'):
    k = dict(Kind='"%s"' % kind, Blocks=2, Vals='{0, 1, 2, 3}', Weights=W,
             Variant='"ok"')
    c.design('NetworkMC', k, inv, label='NetworkMC/' + kind)
    for v in ('skipLate', 'skipOnce', 'noAct'):
      c.mutant('NetworkMC', dict(k, Variant='"%s"' % v), inv,
               label=kind + '/' + v, expect=['Definition', 'ZeroBody'])
  rng = c.rng
  convs = ['MCConv', 'KPConv', 'PointConv']
  for i in range(220 if core.THOROUGH else 30):
    spatial = i % 5 in (1, 3)
    s = scene(rng, nmax=14 if spatial else 10, cmax=2, dims=(3,), kde=True,
              bsmax=rng.choice([1, 2]) if spatial else 3, nmin=6 if spatial else 1,
              ext=rng.choice([3, 4, 6]) if spatial else rng.choice([2, 3]),
              pmode='random' if spatial else None)
    a_ = s['in']
    net = 'spatial' if spatial else ['plain', 'neck'][i % 2]
    turn = i // 5 * 2 + i % 5 // 2
    lt = convs[turn % 3] if spatial else convs[i % 3]
    name = rng.choice({'MCConv': ['MCConv', 'mc', 'mcconv', 'mc_conv'],
                       'KPConv': ['KPConv', 'kp', 'kp_conv'],
                       'PointConv': ['PointConv', 'point_conv']}[lt])
    blocks = rng.choice([1, 2, 2, 3])
    proj = i // 2 % 2 == 1
    act = ['relu', 'relu', 'quarter', 'identity'][(i + i // 4) % 4]
    width, small = (4, 4) if net != 'neck' else (4, 2)
    given = rng.random() < (0.2 if spatial else 0.4)
    training = i % 7 == 6
    rows, fv, arr = features(rng, a_, width, -3, 3)
    lay, kw = layout_args(rng, i)
    rec = dict(case='%s/%s#%d' % (net, lt, i), kind='net', err='', net=net,
               blocks=blocks, proj=proj, act=act, width=width, small=small,
               training=training, bids=a_['bids'], bs=a_['bs'], vin=a_['vin'],
               shape=a_['shape'], frows=rows, fv=fv, scale=1, ev=[], pr=[],
               out=NO_OUT)
    # a subset of the points as coarse cloud
    keep = [k for k in range(len(a_['pts']))
            if rng.random() < 0.6 or k == 0]
    rng.shuffle(keep)
    coarse = side(rng, [a_['pts'][k] for k in keep],
                  [a_['bids'][k] for k in keep], s['bs'], s['u'], padded='seg')
    rad = [s['radius']] * 3
    if net == 'spatial':
      rad = [rad[0] * f for f in (
          [1, 2, 1.5], [1, 1.5, 1], [2, 1, 0.75], [1, 1, 1], [2, 0.75, 1],
          [0.75, 1, 2], [1.5, 2, 0.5], [2, 2, 1])[turn % 8]]
    ckw = {'num_mlps': 2, 'mlp_size': [3]} if lt == 'MCConv' else (
        {'size_hidden': 4} if lt == 'PointConv' else
        {'num_kernel_points': 5, 'deformable': i % 5 == 0,
         'custom_kernel_points': fl(mat(rng, 5, 3, -4, 4), 0.25)})
    nkw = {'bandwidth': s['bw']} if lt != 'KPConv' else {}
    g = [[rng.choice([-1, 1, 1, 2]) for _ in range(width)] for _ in range(40)]
    m = [[rng.randrange(-1, 2) for _ in range(width)] for _ in range(40)]
    b = [[rng.randrange(-1, 3) for _ in range(width)] for _ in range(40)]

    def go():
      tf.random.set_seed(i + 1000 * core.SEED)
      kw2 = {}
      if act == 'quarter':
        kw2['activation'] = lambda x: tf.where(x >= 0, x, x / 4)
      elif act == 'identity':
        kw2['activation'] = tf.identity
      classes = {'conv': getattr(L, lt), 'one': L.Conv1x1}
      with Recorder(classes, tf.keras.layers.BatchNormalization) as r:
        kind = {'plain': L.PointResNet, 'neck': L.PointResNetBottleNeck,
                'spatial': L.PointResNetSpatialBottleNeck}[net]
        args = (width, small, blocks, 3) if net == 'neck' else (width, blocks, 3)
        model = kind(*args, layer_type=name, projection_shortcuts=proj, **kw2,
                     **ckw)
        cl, down = a_['build'](), coarse['build']()
        nb = lambda x, y, j: pc.Neighborhood(
            pc.Grid(x, np.full([3], rad[j], np.float32)),
            np.full([3], rad[j], np.float32), y)
        if net == 'spatial':
          pairs = [(cl, down), (down, down), (down, cl)]
          nbs = [nb(x, y, j) for j, (x, y) in enumerate(pairs)]
          mine = [nb(x, y, j) for j, (x, y) in enumerate(pairs)] if given else nbs
          call = lambda t, use=None: model(
              arr, cl, down, np.array(rad, np.float32), t,
              **({'neighborhoods': use or nbs} if given or use else {}),
              **kw, **nkw)
        else:
          pairs = [(cl, cl)]
          nbs = [nb(cl, cl, 0)]
          mine = [nb(cl, cl, 0)] if given else nbs
          call = lambda t, use=None: model(
              arr, cl, float(rad[0]), t,
              **({'neighborhood': (use or nbs)[0]} if given or use else {}),
              **kw, **nkw)
        r.on = True
        call(False, nbs)
        # layers exist now: set their parameters
        seen = []
        for k, obj, x, y in r.events:
          if any(o is obj for o in seen):
            continue
          seen.append(obj)
          j = len(seen) - 1
          if k == 'bn':
            w = int(x.shape[-1])
            obj.gamma.assign(g[j][:w])
            obj.beta.assign(b[j][:w])
            obj.moving_mean.assign(m[j][:w])
            obj.moving_variance.assign([1 - obj.epsilon] * w)
          elif k == 'conv' and lt == 'PointConv':
            for v in attr(obj, '_weights_pdf'):
              v.assign(tf.abs(v))
            attr(obj, '_biases_pdf')[1].assign([[1.0]])
          if k == 'conv':
            for v in obj.trainable_variables:
              if not np.any(v):             # biases start as zeros
                v.assign(np.random.RandomState(i).uniform(0.1, 1, v.shape))
          elif k == 'one':
            attr(obj, '_bias_tf').assign([b[j][:int(y.shape[-1])]])
        # let every convolution weigh as much as the skip connection
        for j in [j for j, o in enumerate(seen)
                  if isinstance(o, getattr(L, lt))]:
          r.events = []
          call(False, nbs)
          top = max(float(np.max(np.abs(z))) for k, obj, x, z in r.events
                    if obj is seen[j])
          v = getattr(seen[j], '_final_weights_tf',
                      getattr(seen[j], '_weights', None))
          if v is not None and 0 < top < 1e6:
            v.assign(v * (6.0 / top))
        r.events = []
        y = call(training)
        r.on = False
        ev, pr = [], []
        nconv = 0
        for k, obj, x, z in r.events:
          ci, co = int(x.shape[-1]), int(z.shape[-1])
          j = [o is obj for o in seen].index(True)
          e = {'op': k, 'id': j, 'inn': np.asarray(x), 'out': np.asarray(z),
               'ref': np.zeros([0, co]), 'g': [], 'm': [], 'b': []}
          if k == 'bn':
            e.update(g=g[j][:ci], m=m[j][:ci], b=b[j][:ci])
          elif k == 'one':
            e['ref'] = np.asarray(obj(x, cl))
            if net == 'neck' and ci != co:
              e['op'] = 'down' if ci > co else 'up'
          else:
            t = nconv % len(pairs)
            nconv += 1
            if int(x.shape[0]) == len(pairs[t][0]._points):
              e['ref'] = np.asarray(obj(x, pairs[t][0], pairs[t][1], rad[t],
                                        neighborhood=mine[t], **nkw))
          (pr if e['op'] == 'one' else ev).append(e)
        return y, ev, pr
    r, rec['err'] = attempt(go)
    if r is not None:
      y, ev, pr = r
      top = max([1.0] + [float(np.max(np.abs(e[f]))) for e in ev + pr
                         for f in ('inn', 'out') if e[f].size])
      scale = 1
      while scale < 4096 and top * scale * 2 < 1 << 18:
        scale *= 2
      rec['scale'] = scale
      for e in ev + pr:
        for f in ('inn', 'out', 'ref'):
          e[f] = qa(e[f], scale)
      rec['ev'], rec['pr'] = ev, pr
      rec['out'] = output(y, lay, lambda a: qa(a, scale))
    c.record(T, **rec)


CHECKS = {'C24': c24}
