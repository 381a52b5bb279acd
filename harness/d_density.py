"""C07, C08: kernel density estimates."""
import math

import core
from core import attempt, attr, ints, qa
import clouds

T = 'TraceDensity'
BITS = 1 << 20


def lib():
  import numpy as np
  import tensorflow as tf
  import pylib.pc as pc
  return np, tf, pc


# (k2 = 2k, t): radius weight w = t * k2^2
BY_W = {1: [(1, 1)], 2: [(1, 2)], 4: [(1, 4), (2, 1)], 8: [(1, 8), (2, 2)],
        16: [(1, 16), (2, 4), (4, 1)]}


def radius(u, k2, t):
  return u * math.sqrt(math.pi / (math.log(2) * t)) / (k2 / 2)


def bandwidth(k2):
  return k2 / 2 / math.sqrt(2 * math.pi)


def case_of(rng, nmax=24, ext=None, **kw):
  s = clouds.cloud(rng, nmax=nmax, ext=ext or rng.choice([2, 3, 5]), **kw)
  d = s['dim']
  ws = [rng.choice([1, 2, 4, 8, 16])] * d if rng.random() < 0.4 else \
      [rng.choice([1, 2, 4, 8, 16]) for _ in range(d)]
  pick = [rng.choice(BY_W[w]) for w in ws]
  s['ws'] = ws
  s['k2'] = [p[0] for p in pick]
  s['t'] = [p[1] for p in pick]
  s['own'] = rng.random() < 0.5
  if not s['own']:
    s['ctr'], s['cbids'] = clouds.centers(rng, dict(s, ext=3), rng.randrange(1, 12))
  return s


def crowd(rng, more=False):
  """More than 64 or 128 neighbors, or some hundred."""
  s = case_of(rng, nmin=280 if more else 66, nmax=340 if more else 150,
              ext=rng.choice([1, 2]), bsmax=1, dims=(2, 3),
              pmode=rng.choice(['random', 'mesh']))
  w = rng.choice([1, 2])
  s['ws'] = [w] * s['dim']
  s['k2'], s['t'] = [1] * s['dim'], [w] * s['dim']
  s['own'] = False
  s['ctr'], s['cbids'] = clouds.centers(rng, dict(s, ext=1),
                                        rng.randrange(1, 3 if more else 6))
  return s


def setup(s, watch=None):
  """Grid and neighborhood of a case (the lattice makes all values dyadic)."""
  np, tf, pc = lib()
  f = lambda a: (np.array(a, np.float32) * np.float32(s['u'])).astype(np.float32)
  pts = f(s['pts'])
  if watch:
    pts = tf.constant(pts)
    watch(pts)
    s['watched'] = pts
  cl = pc.PointCloud(pts, np.array(s['bids']), s['bs'])
  rad = [radius(s['u'], k, t) for k, t in zip(s['k2'], s['t'])]
  bw = [bandwidth(k) for k in s['k2']]
  ra = np.array(rad, np.float32)
  ba = np.array(bw, np.float32)
  if len(set(rad)) == 1 and s['n'] % 2:
    ra = float(rad[0])
  if len(set(bw)) == 1 and s['n'] % 3:
    ba = bw[0] if s['n'] % 3 == 1 else np.array(bw[:1], np.float32)
  grid = pc.Grid(cl, ra)
  cc = None
  if not s['own']:
    cc = pc.PointCloud(f(s['ctr']), np.array(s['cbids']), s['bs'])
  nb = pc.Neighborhood(grid, ra, cc, s.get('cap', 0))
  return cl, nb, ra, ba, np.array(rad, np.float32), np.array(bw, np.float32)


def base(s, i, kind):
  return dict(case='%s#%d' % (s['mode'], i), kind=kind, pts=s['pts'],
              bids=s['bids'], bs=s['bs'], t=s['t'], k2=s['k2'],
              ctr=s.get('ctr', []), cbids=s.get('cbids', []), u=str(s['u']), cap=s.get('cap', 0),
              err='', pairs=[])


def centers_of(rec, s, nb):
  if s['own']:
    p = attr(nb, '_point_cloud_sampled')
    rec['ctr'] = core.q(p._points, 1 / s['u'])
    rec['cbids'] = ints(p._batch_ids)
  rec['pairs'] = ints(attr(nb, '_original_neigh_ids'))


def c07(c):
  rng = c.rng
  for i in range(300 if core.THOROUGH else 40):
    # now and then more than 64 or 128 neighbors
    s = crowd(rng, i % 20 == 19) if i % 10 == 9 else case_of(rng)
    s['n'] = i
    s['cap'] = rng.choice([0, 0, 1, 2, 4])
    kde(c, s, i)


def kde(c, s, i):
  np, tf, pc = lib()
  import importlib
  nbm = importlib.import_module('pylib.pc.Neighborhood')
  ops = importlib.import_module('pylib.pc.custom_ops.custom_ops_tf')
  rec = base(s, i, 'kde')
  n, m = len(s['pts']), len(s['pts'][0])
  rec.update(pdf=[], cloud=[], innb=[], innbn=[], ones=[], onesnb=[], inside=[],
             cloudn=[], grad=[], gradnb=[], times=[], up=[c.rng.randrange(-2, 4) for _ in range(n)])

  def go():
    cl, nb, ra, ba, rad, bw = setup(s)
    centers_of(rec, s, nb)
    nb.compute_pdf(ba)
    o = {'pdf': nb.get_pdf(), 'cloud': nbm.density_estimation(cl, ba, ra)}
    ids = nb._original_neigh_ids
    if len(rec['pairs']):
      o['innb'] = nbm.density_estimation_in_neighborhoods(cl, ids, ba, ra)
      o['innbn'] = nbm.density_estimation_in_neighborhoods(
          cl, ids, ba, ra, normalize=True)
      o['inside'] = ops.compute_pdf_inside_neighborhoods_tf(nb, bw, 0)
      o['onesnb'] = nbm.density_estimation_in_neighborhoods(
          cl, ids, ba, ra, mode=pc.KDEMode.no_pdf)
    o['ones'] = nbm.density_estimation(cl, ba, ra, mode=pc.KDEMode.no_pdf)
    o['cloudn'] = nbm.density_estimation(cl, ba, ra, normalize=True)
    o = {k: qa(v, BITS) for k, v in o.items()}
    # derivatives of weighted sums of the densities, in units of the lattice
    up = np.array(rec['up'], np.float32)
    with tf.GradientTape(persistent=True) as tape:
      cl, nb, ra, ba, rad, bw = setup(s, tape.watch)
      a = tf.reduce_sum(up * nbm.density_estimation(cl, ba, ra))
      nb.compute_pdf(ba)
      b = tf.reduce_sum(tf.gather(up, nb._original_neigh_ids[:, 0]) * nb.get_pdf())
    # (a limited search may choose other neighbors)
    o['times'] = np.bincount(nb._original_neigh_ids[:, 0], minlength=n).tolist()
    for k, x in (('grad', a), ('gradnb', b)):
      g = tape.gradient(x, s['watched'])
      o[k] = [] if g is None else qa(np.asarray(tf.convert_to_tensor(g), np.float64) * s['u'] / (2 * math.log(2)), 1 << 16)
    del s['watched']
    return o
  r, rec['err'] = attempt(go)
  if r:
    rec.update(r)
  c.record(T, **rec)


INV = ['Definition']


def c08(c):
  np, tf, pc = lib()
  k = dict(Variants='{1, 2, 3}', Depth=3, Export='FALSE', Variant='"ok"')
  c.design('DensityMC', dict(k, Variants='{1, 2}', Depth=4) if core.THOROUGH
           else dict(k, Variants='{1, 2}'), INV)
  for v in ['getRecomputes', 'computeOnce', 'normalizeTwice', 'modeIgnored']:
    c.mutant('DensityMC', dict(k, Variant='"%s"' % v), INV, label=v, expect=INV)
  n = 250 if core.THOROUGH else 40
  job = c.generate('DensityMC', dict(k, Depth=6, Export='TRUE'), 8, n)
  rng = c.rng
  histories = [p['ops'] for p in c.take(job)]
  mode = {'constant': pc.KDEMode.constant, 'no_pdf': pc.KDEMode.no_pdf}
  for i, ops in enumerate(histories):
    s = crowd(rng) if i % 10 == 9 else case_of(rng, nmax=12)
    s['n'] = i
    s['cap'] = rng.choice([0, 0, 1, 2, 4])
    # the same radius with different bandwidths
    pick = [[rng.choice(BY_W[w]) for w in s['ws']] for _ in range(2)]
    ts = [s['t']] + [[p[1] for p in x] for x in pick]
    k2s = [s['k2']] + [[p[0] for p in x] for x in pick]
    rec = base(s, i, 'history')
    rec.update(ts=ts, k2s=k2s, ops=[])

    def go():
      cl, nb, ra, ba, rad, bw = setup(s)
      centers_of(rec, s, nb)
      for o in ops:
        o = dict(o)
        v, m, norm = o['opt']
        kw = dict(bandwidth=np.array([bandwidth(x) for x in k2s[v - 1]],
                                     np.float32), mode=mode[m], normalize=norm)
        if o['op'] == 'compute':
          _, o['err'] = attempt(lambda: nb.compute_pdf(**kw))
          o['pdf'] = []
        else:
          r, o['err'] = attempt(lambda: nb.get_pdf(**kw))
          o['pdf'] = [] if r is None else qa(r, BITS)
        rec['ops'].append(o)
      return 1
    _, rec['err'] = attempt(go)
    c.record(T, **rec)
  for i in range(20 if core.THOROUGH else 4):
    s = case_of(rng)
    s['n'] = i
    rec = dict(case='default#%d' % i, kind='default', err='', a=[], b=[], c=[])

    def go():
      _, x, _, _, _, _ = setup(s)
      _, y, _, _, _, _ = setup(s)
      rec['a'] = qa(x.get_pdf(), 1 << 16)
      y.compute_pdf(bandwidth=0.2, mode=pc.KDEMode.constant, normalize=False)
      rec['b'] = qa(y.get_pdf(), 1 << 16)
      rec['c'] = qa(x.get_pdf(bandwidth=0.5), 1 << 16)
      return 1
    _, rec['err'] = attempt(go)
    c.record(T, **rec)


CHECKS = {'C07': c07, 'C08': c08}
