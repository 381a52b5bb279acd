"""C27: kernel point templates and random rotations."""
import core
from core import attempt, attr, q, qa

T = 'TraceKernels'


def c27(c):
  import numpy as np
  import tensorflow as tf
  import pylib.pc as pc
  from pylib.pc.layers import utils
  k = dict(Pts=2 if core.THOROUGH else 1, Variant='"ok"')
  inv = ['Gram', 'Orientation', 'Balanced', 'Sizes']
  c.design('KernelsMC', k, inv)
  for v, e in {'mirror': ['Orientation'], 'shear': ['Gram'],
               'firstOnly': ['Gram', 'Orientation']}.items():
    c.mutant('KernelsMC', dict(k, Pts=2, Variant='"%s"' % v), inv, label=v,
             expect=e)
  rng = c.rng
  tf.random.set_seed(core.SEED)

  def template(case, fn, n, num=1, den=1):
    rec = dict(case=case, kind='template', err='', n=n, num=num, den=den,
               shape=[], first=[], gram=[])
    r, rec['err'] = attempt(fn)
    if r is not None:
      p = np.asarray(r, np.float64)
      rec.update(shape=list(p.shape), first=qa(p[0], 1 << 14),
                 gram=qa(p @ p.T, 1 << 14))
    c.record(T, **rec)

  for n in (5, 7, 13, 15, 18):
    for j in range(20 if core.THOROUGH else 3):
      template('kp%d/rotated%d' % (n, j), lambda: utils.spherical_kernel_points(
          n, **({'rotate': True} if j % 2 else {})), n)
    template('kp%d' % n, lambda: utils.spherical_kernel_points(n, False), n)
    for deform in (False, True):
      template('KPConv%d/%s' % (n, deform), lambda: attr(
          pc.layers.KPConv(2, 2, num_kernel_points=n, deformable=deform),
          '_kernel_points'), n, 9, 16)

    def draws():
      f = lambda rot: {repr(qa(np.asarray(
          utils.spherical_kernel_points(n, rot)), 256)) for _ in range(4)}
      return len(f(True)), len(f(False))
    rec = dict(case='draws%d' % n, kind='draws', different=0, fixed=0)
    r, rec['err'] = attempt(draws)
    if r is not None:
      rec['different'], rec['fixed'] = r
    c.record(T, **rec)
  for i in range(600 if core.THOROUGH else 80):
    n = rng.choice([1, 2, 3, 4, 6, 9])
    pts = [[rng.randrange(-2, 3) for _ in range(3)] for _ in range(n)]
    rec = dict(case='rotation#%d' % i, kind='rotation', err='', pts=pts, out=[],
               gram=[])
    r, rec['err'] = attempt(lambda: utils.random_rotation(
        np.array(pts, np.float32) if i % 2 else tf.constant(pts, tf.float32)))
    if r is not None:
      p = np.asarray(r, np.float64)
      rec['out'], rec['gram'] = qa(p, 128), qa(p @ p.T, 1 << 14)
    c.record(T, **rec)
  for n in (2, 3, 4, 5, 9):
    rec = dict(case='cube%d' % n, kind='cube', err='', n=n, pts=[])
    r, rec['err'] = attempt(lambda: utils.cube_kernel_points(n, 'x'))
    if r is not None:
      rec['pts'] = q(r, n - 1)
    c.record(T, **rec)
  for i in range(40 if core.THOROUGH else 8):
    d, n = rng.choice([2, 3, 4, 5]), rng.choice([1, 3, 5, 8])
    pts = [[rng.randrange(-8, 9) for _ in range(d)] for _ in range(n)]
    rec = dict(case='custom%d' % i, kind='custom', err='', pts=pts, out=[])
    r, rec['err'] = attempt(lambda: attr(pc.layers.KPConv(
        2, 2, num_kernel_points=n, num_dims=d,
        custom_kernel_points=np.array(pts, np.float32) / 8), '_kernel_points'))
    if r is not None:
      rec['out'] = q(r, 32)
    c.record(T, **rec)
  bad = [('points%d' % n, lambda n=n: utils.spherical_kernel_points(n))
         for n in (0, 1, 6, 14, 16, 20, -5)]
  bad += [('dims%d' % d, lambda d=d: pc.layers.KPConv(2, 2, num_dims=d))
          for d in (2, 4)]
  for name, f in bad:
    try:
      f()
      got = 'accepted'
    except Exception as ex:
      got = type(ex).__name__
    c.record(T, case=name, kind='error', got=got, want='ValueError')


CHECKS = {'C27': c27}
