"""C09-C13: the PointCloud object."""
import core
from core import attempt, attr, ints, q, qa
import clouds

T = 'TracePC'
WRONG = {'keepUnflatten': ['NoHistory'], 'keepAabb': ['NoHistory'],
         'keepSizes': ['NoHistory'], 'cacheMax': ['NoHistory'],
         'rejectedShapeKept': ['ShapeLegal', 'NoHistory'],
         'staleIndex': ['NoHistory']}


def lib():
  import numpy as np
  import tensorflow as tf
  import pylib.pc as pc
  return np, tf, pc


def design(c):
  for kind in (['segmented', 'padded', 'sizes'] if core.THOROUGH
               else [c.rng.choice(['segmented', 'padded'])]):
    k = dict(BS=6 if core.THOROUGH else 4, Kind='"%s"' % kind, Depth=0,
             Variant='"ok"')
    c.design('PointCloudMC', k, ['NoHistory', 'ShapeLegal'],
             label='PointCloudMC/' + kind)
  for v, e in WRONG.items():
    k = dict(BS=4, Kind='"%s"' % ('segmented' if v == 'staleIndex' else 'padded'),
             Depth=0, Variant='"%s"' % v)
    c.mutant('PointCloudMC', k, ['NoHistory', 'ShapeLegal'], label=v, expect=e)


def factorings(n, rng):
  out = [[n]]
  for a in range(1, n + 1):
    if n % a == 0:
      out.append([a, n // a])
  out.append([1, n, 1])
  return rng.choice(out)


def make(rng, bs, kind, vmax=4, vin=5, dim=None, full=True):
  """A construction: the spec derives the abstract cloud from the same data."""
  dim = dim or rng.choice([2, 3, 3, 4])
  sizes = [rng.randrange(0, vmax + 1) for _ in range(bs)]
  if kind == 'padded' and full and rng.random() < 0.25:
    sizes = []          # no padding: every row counts
  elif rng.random() < 0.5:
    sizes[rng.randrange(bs)] = vmax
  if sizes and sum(sizes) == 0:
    sizes[0] = vmax
  p = lambda: [rng.randrange(-8, 9) for _ in range(dim)]
  m = {'kind': kind, 'dim': dim, 'u': rng.choice(clouds.SCALES), 'how': rng.randrange(4)}
  if kind == 'padded':
    m.update(shape=factorings(bs, rng), v=vin, sizes=sizes,
             rows=[p() for _ in range(bs * vin)])
  elif kind == 'sizes':
    m.update(pts=[p() for _ in range(sum(sizes))], sizes=sizes,
             sshape=factorings(bs, rng))
  else:
    ids = [b for b in range(bs) for _ in range(sizes[b])]
    if kind == 'unsorted':
      rng.shuffle(ids)
      m['kind'] = 'ids'
    m.update(pts=[p() for _ in ids], bids=ids,
             bs=bs if (rng.random() < 0.8 or max(ids) != bs - 1) else -1)
  return m


def element_sizes(m):
  if m['kind'] == 'padded':
    n = len(m['rows']) // m['v']
    return m['sizes'] or [m['v']] * n
  if m['kind'] == 'sizes':
    return m['sizes']
  bs = m['bs'] if m['bs'] > 0 else max(m['bids']) + 1
  return [m['bids'].count(b) for b in range(bs)]


def construct(m):
  np, tf, pc = lib()
  f = lambda a: np.array(a, np.float32) * np.float32(m['u'])
  # arrays of other types, lists and tensors
  how = m.get('how', 0)
  num = [lambda a: np.array(a, np.int32), np.array, lambda a: np.array(a).tolist(),
         lambda a: tf.constant(a, tf.int32)][how]
  if how == 2:
    f = lambda a: np.array(a, np.float32).astype(np.float64) * m['u']
  if m['kind'] == 'padded':
    pts = f(m['rows']).reshape(m['shape'] + [m['v'], m['dim']])
    kw = {}
    if m['sizes']:
      kw['sizes'] = num(np.reshape(m['sizes'], m['shape']))
    return pc.PointCloud(pts, **kw)
  if m['kind'] == 'sizes':
    return pc.PointCloud(f(m['pts']),
                         sizes=num(np.reshape(m['sizes'], m['sshape'])))
  if m['bs'] > 0:
    return pc.PointCloud(f(m['pts']), num(m['bids']), m['bs'])
  return pc.PointCloud(f(m['pts']), num(m['bids']))


def arr(x, scale):
  """array observation: shape and rows"""
  np, tf, pc = lib()
  a = np.asarray(x)
  return {'shape': list(a.shape),
          'rows': q(a.reshape([-1, a.shape[-1]]) if a.size or a.shape[-1]
                    else np.zeros([0, 0]), scale)}


def call(pcl, o, m, rng):
  """Performs one call of a history and adds the observation to it."""
  np, tf, pc = lib()
  from pylib.pc.utils import _flatten_features
  u = m['u']
  n = sum(element_sizes(m))
  op = o['op']
  o['err'] = ''
  empty = {'shape': [], 'rows': []}

  def feats(rows, w=2):
    return [[rng.randrange(-50, 51) for _ in range(w)] for _ in range(rows)]
  if op == 'new':
    o.update(pts=q(attr(pcl, '_points'), 1 / u), bids=ints(attr(pcl, '_batch_ids')),
             bs=int(attr(pcl, '_batch_size')))
  elif op == 'sizes':
    r, o['err'] = attempt(lambda: np.asarray(pcl.get_sizes()))
    o['res'] = empty if r is None else {
        'shape': list(r.shape), 'rows': ints(r.reshape(-1))}
  elif op == 'points':
    r, o['err'] = attempt(lambda: np.asarray(pcl.get_points(
        max_num_points=o['max'] or None) if o['max'] else pcl.get_points()))
    o['res'] = empty if r is None else arr(r, 1 / u)
  elif op == 'unflatten':
    o['data'] = feats(n, rng.choice([1, 2, 3]))
    r, o['err'] = attempt(lambda: np.asarray(pcl.get_unflatten(
        max_num_points=o['max'] or None)(tf.constant(o['data'], tf.float32))))
    o['res'] = empty if r is None else arr(r, 1)
  elif op == 'element':
    r, e = attempt(lambda: np.asarray(pcl.get_points(id=o['id'])))
    o['err'] = e.split(':')[0]
    o['res'] = [] if r is None else q(r, 1 / u)
  elif op == 'multi':
    r, o['err'] = attempt(lambda: np.asarray(pcl.get_points(id=o['id'])))
    o['res'] = [] if r is None else q(r, 1 / u)
  elif op == 'features':
    if o['padded']:
      bs = len(element_sizes(m))
      v = max(element_sizes(m)) + rng.choice([0, 1, 3])
      o['v'] = v
      o['rows'] = feats(bs * v)
      shape = o.pop('_shape')
      x = np.array(o['rows'], np.float32).reshape(shape + [v, 2])
    else:
      o['rows'] = feats(n)
      x = np.array(o['rows'], np.float32)
    r, o['err'] = attempt(lambda: np.asarray(_flatten_features(tf.constant(x), pcl)))
    o['res'] = [] if r is None else q(r, 1)
  elif op == 'badfeatures':
    x = np.array(feats(n + 1), np.float32)
    _, o['err'] = attempt(lambda: _flatten_features(tf.constant(x), pcl))
  elif op == 'roundtrip':
    o['data'] = feats(n)
    r, o['err'] = attempt(lambda: np.asarray(_flatten_features(
        pcl.get_unflatten(max_num_points=o['max'] or None)(
            tf.constant(o['data'], tf.float32)), pcl)))
    o['res'] = [] if r is None else q(r, 1)
  elif op == 'box':
    def go():
      b = pcl.get_AABB()
      ds = [np.asarray(b.get_diameter(), np.float64),
            np.asarray(b.get_diameter(ord=1), np.float64),
            np.asarray(b.get_diameter(ord=np.inf), np.float64),
            np.asarray(b.get_diameter(ord=3), np.float64)]
      return (np.asarray(attr(b, '_aabb_min')), np.asarray(attr(b, '_aabb_max')), ds)
    r, o['err'] = attempt(go)
    if r is not None:
      lo, hi, ds = r
      clip = lambda a: np.clip(a, -1e6, 1e6)
      o.update(min=q(clip(lo), 1 / u), max=q(clip(hi), 1 / u),
               dshape=list(ds[0].shape))
      for name, d, s in zip(['e', 'one', 'inf', 'three'], ds, [64, 64, 64, 8]):
        o[name] = qa(np.clip(d, -1e6, 1e6).reshape(-1), s / u)
  elif op == 'set':
    _, o['err'] = attempt(lambda: pcl.set_batch_shape(o['shape'] or None))
  else:
    raise core.Machinery('unknown call ' + op)
  return o


def run_history(c, m, ops, label, rng):
  """ops: abstract calls; executed in order on one fresh object."""
  rec = dict(kind='history', case=label, make=m, ops=[])
  pcl, err = attempt(lambda: construct(m))
  if err:
    rec['ops'].append({'op': 'new', 'err': err})
    c.record(T, **rec)
    return
  bs = len(element_sizes(m))
  shape = m['shape'] if m['kind'] == 'padded' else (
      m['sshape'] if m['kind'] == 'sizes' else [])
  rec['ops'].append(call(pcl, {'op': 'new'}, m, rng))
  for o in ops:
    o = dict(o)
    if o['op'] == 'end':
      continue
    if o['op'] == 'features' and o['padded']:
      o['_shape'] = shape or [bs]
    if o['op'] == 'multi':
      if not shape:
        continue
      o['id'] = [rng.randrange(s) for s in shape]
    call(pcl, o, m, rng)
    if o['op'] == 'set':
      p = 1
      for s in o['shape']:
        p *= s
      if not o['shape'] or p == bs:
        shape = o['shape']
    rec['ops'].append(o)
  c.record(T, **rec)


KINDS = ['padded', 'sizes', 'ids', 'unsorted']


def tests(pid):
  def run(c):
    rng = c.rng
    gens = []
    if pid == 'C10':
      for bs, kind in [(4, 'segmented'), (4, 'padded'), (6, 'sizes')]:
        k = dict(BS=bs, Kind='"%s"' % kind, Depth=9, Variant='"ok"')
        gens.append((bs, kind, c.generate('PointCloudMC', k, 12,
                                          150 if core.THOROUGH else 22)))
    design(c)
    big = core.THOROUGH
    if pid == 'C09':
      for i in range(500 if big else 90):
        bs = rng.choice([1, 2, 3, 4, 6, 8])
        kind = KINDS[i % 4]
        m = make(rng, bs, kind, vmax=rng.choice([1, 3, 5]),
                 vin=rng.choice([5, 5, 7]))
        top = max(element_sizes(m))
        ops = [{'op': 'points', 'max': 0}, {'op': 'sizes'},
               {'op': 'points', 'max': top + rng.choice([0, 1, 4])},
               {'op': 'roundtrip', 'max': 0}, {'op': 'multi'},
               {'op': 'roundtrip', 'max': top + 2}] + \
            [{'op': 'element', 'id': b} for b in range(bs)]
        rng.shuffle(ops)
        run_history(c, m, ops, '%s#%d' % (kind, i), rng)
    elif pid == 'C10':
      for bs, kind, g in gens:
        for i, b in enumerate(c.take(g)):
          kk = kind if kind != 'segmented' else rng.choice(['ids', 'unsorted'])
          m = make(rng, bs, kk, vmax=3, full=False)
          ops = [dict(o) for o in b['ops']]
          run_history(c, m, ops, 'replay/%s#%d' % (kind, i), rng)
      # every call directly after every other call
      calls = [{'op': 'sizes'}, {'op': 'points', 'max': 0},
               {'op': 'points', 'max': 6}, {'op': 'box'},
               {'op': 'unflatten', 'max': 0}, {'op': 'unflatten', 'max': 5},
               {'op': 'features', 'padded': 1}, {'op': 'set', 'shape': [2, 2]},
               {'op': 'set', 'shape': []}, {'op': 'set', 'shape': [4, 2]},
               {'op': 'element', 'id': 7}, {'op': 'badfeatures'},
              {'op': 'multi'}, {'op': 'set', 'shape': [4]}]
      for kind in KINDS:
        seq = []
        for a in calls:
          for b in calls:
            seq += [dict(a), dict(b)]
        for part in range(0, len(seq), 24 if big else 48):
          run_history(c, make(rng, 4, kind, vmax=4),
                      seq[part:part + 24 if big else part + 48],
                      'pairs/%s#%d' % (kind, part), rng)
    elif pid == 'C11':
      for i in range(500 if big else 90):
        bs = rng.choice([1, 2, 3, 4, 6, 9])
        m = make(rng, bs, KINDS[i % 4], vmax=rng.choice([1, 2, 4]),
                 dim=rng.choice([2, 3, 3, 5]))
        ops = [{'op': 'box'}]
        if rng.random() < 0.5:
          ops += [{'op': 'set', 'shape': factorings(bs, rng)}, {'op': 'box'}]
        run_history(c, m, ops, '%s#%d' % (KINDS[i % 4], i), rng)
    elif pid == 'C13':
      for i in range(500 if big else 100):
        bs = rng.choice([1, 2, 3, 4, 6])
        m = make(rng, bs, KINDS[i % 4], vmax=rng.choice([1, 2, 4]))
        ops = [{'op': 'features', 'padded': 1}, {'op': 'features', 'padded': 0},
               {'op': 'badfeatures'},
               {'op': 'unflatten', 'max': 0}, {'op': 'roundtrip', 'max': 0},
               {'op': 'unflatten', 'max': 5}]
        rng.shuffle(ops)
        if rng.random() < 0.4:
          ops.insert(rng.randrange(4), {'op': 'set', 'shape': factorings(bs, rng)})
        run_history(c, m, ops, '%s#%d' % (KINDS[i % 4], i), rng)
  return run


def c12(c):
  np, tf, pc = lib()
  design(c)
  rng = c.rng

  def snap(x):
    """everything the object shows"""
    if x is None:
      return ''
    if isinstance(x, pc.PointHierarchy):
      return '|'.join(snap(p) for p in x._point_clouds)
    return repr([np.asarray(x.get_sizes()).tolist(),
                 np.asarray(x.get_points()).tolist(),
                 np.asarray(x._batch_ids).tolist(),
                 np.asarray(x.get_AABB().get_diameter()).tolist()])

  def rej(what, fn, expect=(), obj=None):
    before = snap(obj)
    _, err = attempt(fn)
    after, broken = attempt(lambda: snap(obj))
    c.record(T, kind='reject', case=what, what=what, err=err.split(':')[0],
             expect=list(expect), before=before, after=broken or after)
  fl = lambda *s: np.array([rng.randrange(-4, 5) for _ in range(
      int(np.prod(s)))], np.float32).reshape(s)
  for i in range(30 if core.THOROUGH else 6):
    n, d = rng.randrange(2, 9), rng.choice([2, 3])
    bs = rng.choice([1, 2, 3, 4])
    ids = [k % bs for k in range(n)]
    P = pc.PointCloud
    rej('points_without_segmentation', lambda: P(fl(n, d)), ['ValueError'])
    rej('points_without_segmentation',
        lambda: P(fl(n, d), batch_size=bs), ['ValueError'])
    rej('one_dimensional_points', lambda: P(fl(n), ids), ['ValueError'])
    rej('one_dimensional_points', lambda: P(fl(n), sizes=[n]), ['ValueError'])
    rej('batch_ids_of_wrong_length', lambda: P(fl(n, d), ids + [0], bs))
    rej('batch_ids_of_wrong_length', lambda: P(fl(n, d), ids[:-1], bs))
    x = pc.PointCloud(fl(n, d), ids, bs)
    y = pc.PointCloud(fl(bs, 4, d), sizes=[1 + k % 4 for k in range(bs)])
    for obj in (x, y):
      for s in ([bs + 1], [bs, 2], [2, bs + 1], [bs + 3, 1]):
        rej('wrong_batch_shape', lambda: obj.set_batch_shape(s), obj=obj)
      for k in (bs, bs + 1, -1, -bs, 100):
        rej('id_out_of_range', lambda: obj.get_points(id=k), ['IndexError'],
            obj=obj)
    if bs > 1:
      z = pc.PointCloud(fl(n, d), ids, bs)
      z.set_batch_shape([1, bs])
      rej('wrong_batch_shape', lambda: z.set_batch_shape([2, bs]), obj=z)
    rej('poisson_without_radius', lambda: pc.poisson_disk_sampling(x),
        ['ValueError'], x)
    rej('average_without_cells', lambda: pc.cell_average_sampling(x),
        ['ValueError'], x)
    grid = pc.Grid(x, np.float32(3))
    nb = pc.Neighborhood(grid, np.float32(3))
    rej('unknown_sample_mode', lambda: pc.sample(nb, 'median'), obj=x)
    rej('unknown_sample_mode', lambda: pc.PointHierarchy(x, [2.0], 'random'), obj=x)
    rej('too_many_cell_sizes',
        lambda: pc.PointHierarchy(x, [np.ones(d + 1, np.float32)]), obj=x)
    h = pc.PointHierarchy(x, [np.float32(3)], 'cell average')
    rej('hierarchy_wrong_batch_shape', lambda: h.set_batch_shape([bs + 1]), obj=h)
    rej('hierarchy_id_out_of_range', lambda: h.get_points(batch_id=bs),
        ['IndexError'], h)
    rej('features_of_wrong_length',
        lambda: pc.layers.Conv1x1(2, 3)(fl(n + 1, 2), x), obj=x)
    rej('features_of_wrong_length', lambda: pc.layers.MCConv(2, 4, d, 2)(
        fl(n + 1, 2), x, x, np.float32(2)), obj=x)
    rej('features_of_wrong_length', lambda: pc.layers.PointConv(2, 4, d, 2)(
        fl(n + 1, 2), x, x, np.float32(2)), obj=x)
  # a rejected call in the middle of a history changes nothing
  for i in range(100 if core.THOROUGH else 16):
    bs = rng.choice([1, 2, 4])
    m = make(rng, bs, KINDS[i % 4], vmax=3)
    ops = []
    for _ in range(4):
      ops.append(rng.choice([{'op': 'sizes'}, {'op': 'points', 'max': 0},
                             {'op': 'box'}, {'op': 'unflatten', 'max': 0},
                             {'op': 'set', 'shape': factorings(bs, rng)}]))
      ops.append(rng.choice([{'op': 'set', 'shape': [bs + 1]},
                             {'op': 'set', 'shape': [bs, 3]},
                             {'op': 'element', 'id': bs}, {'op': 'element', 'id': -1},
                             {'op': 'badfeatures'}]))
    ops += [{'op': 'sizes'}, {'op': 'points', 'max': 0}, {'op': 'box'}]
    run_history(c, m, ops, 'rejected/%s#%d' % (KINDS[i % 4], i), rng)


CHECKS = {p: tests(p) for p in ('C09', 'C10', 'C11', 'C13')}
CHECKS['C12'] = c12
