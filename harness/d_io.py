"""C25, C26: point files."""
import os
import shutil
import tempfile

import core
from core import attempt, q

T = 'TraceIO'


def lib():
  import numpy as np
  import tensorflow as tf
  import pylib.io as pio
  import pylib.io.points as pts
  return np, tf, pts


def design(c, inv):
  k = dict(MaxLines=2, NumFiles=3 if core.THOROUGH else 2, MaxArg=2,
           Variant='"ok"')
  c.design('IOMC', k, inv)
  for v, e in {'offByOne': ['ReadsTheFiles'], 'keepLine': ['ReadsTheFiles'],
               'shortPad': ['Fits'], 'paddedSizes': ['RoundTrip']}.items():
    c.mutant('IOMC', dict(k, NumFiles=2, Variant='"%s"' % v),
             ['ReadsTheFiles', 'RoundTrip', 'Fits'], label=v, expect=e)


def number(rng, x):
  """One of the spellings of x / 8."""
  v = x / 8
  m = rng.randrange(6)
  if m == 0 and v == int(v):
    return '%d' % v
  if m == 1:
    return '%.3f' % v
  if m == 2:
    return '%.12e' % v
  if m == 3:
    return '%.3f000' % v
  return repr(v)


def rows_of(rng, n, w, top=900):
  return [[rng.randrange(-top, top) if rng.random() < 0.9 else 0
           for _ in range(w)] for _ in range(n)]


def write(rng, path, rows, delim, final):
  text = '\n'.join(delim.join(number(rng, x) for x in r) for r in rows)
  with open(path, 'w') as f:
    f.write(text + ('\n' if final and rows else ''))


def obs(a, scale=8):
  import numpy as np
  a = np.asarray(a)
  w = a.shape[-1] if a.ndim else 0
  n = 1
  for d in a.shape[:-1]:
    n *= d
  return {'shape': list(a.shape), 'rows': q(a.reshape([n, w]), scale, 1e-6)}


NONE = {'shape': [], 'rows': []}


def base(i, kind, files, dim, **kw):
  r = dict(case='%s#%d' % (kind, i), kind=kind, err='', files=files, dim=dim,
           max=-1, points=NONE, feats=NONE, dtype='', wanttype='')
  r.update(kw)
  return r


def c25(c):
  np, tf, pts = lib()
  design(c, ['ReadsTheFiles'])
  rng = c.rng
  d = tempfile.mkdtemp(prefix='vio_')
  try:
    for i in range(1500 if core.THOROUGH else 240):
      dim = rng.choice([1, 2, 3, 3, 3, 4, 6])
      w = dim + rng.choice([0, 1, 2, 3, 5])
      n = rng.choice([1, 1, 2, 3, 5, 8, 17, 40])
      dt = rng.choice(['float32', 'float32', 'float64'])
      files = [rows_of(rng, n, w, 900 if dt == 'float32' else 1 << 29)]
      delim = rng.choice([',', ';', ' ', '\t', ', ', '|'])
      path = os.path.join(d, 'f%d.%s' % (i, rng.choice(['txt', 'pts', 'csv'])))
      write(rng, path, files[0], delim, rng.random() < 0.5)
      npy = i % 3 > 0
      mx = -1
      kw = {}
      if delim != ',' or rng.random() < 0.3:
        kw['delimiter'] = delim
      if dim != 3 or rng.random() < 0.3:
        kw['dimension'] = dim
      if dt != 'float32' or rng.random() < 0.3:
        kw['dtype'] = getattr(np if npy else tf, dt)
      if npy:
        if rng.random() < 0.7:
          mx = rng.choice([1, 2, 3, max(1, n - 1), n, n + 1, 100])
          kw['max_num_points'] = mx
        elif rng.random() < 0.3:
          kw['max_num_points'] = None
      rec = base(i, 'file', files, dim, max=mx, wanttype=dt)

      def go():
        f = pts.load_points_from_file_to_numpy if npy else \
            pts.load_points_from_file_to_tensor
        return f(path, **kw)
      r, rec['err'] = attempt(go)
      if r is not None:
        rec['points'], rec['feats'] = obs(r[0]), obs(r[1])
        t = [getattr(x, 'dtype', type(x)) for x in r]
        t = [getattr(x, 'name', str(x)) for x in t]
        rec['dtype'] = t[0] if t[0] == t[1] else ','.join(t)
      c.record(T, **rec)
    bad = [('missing', os.path.join(d, 'nothing.txt'), 'FileNotFoundError'),
           ('number', 17, 'TypeError'), ('list', ['a.txt'], 'TypeError'),
           ('none', None, 'TypeError'), ('bytes', b'abc', 'TypeError')]
    for name, arg, want in bad:
      for f in (pts.load_points_from_file_to_numpy,
                pts.load_points_from_file_to_tensor):
        try:
          f(arg)
          got = 'accepted'
        except Exception as ex:
          got = type(ex).__name__
        c.record(T, case=name, kind='error', got=got, want=want)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def write_obj(rng, path, verts):
  """A mesh with every vertex used once or more."""
  n = len(verts)
  with open(path, 'w') as f:
    for v in verts:
      f.write('v %s\n' % ' '.join(repr(x / 8) for x in v))
    for k in range(n - 2):
      f.write('f %d %d %d\n' % (k + 1, k + 2, k + 3))


def c26(c):
  np, tf, pts = lib()
  import pylib.pc as pc
  from pylib.pc.utils import _flatten_features
  design(c, ['RoundTrip', 'Fits'])
  rng = c.rng
  meshes = mesh_loader()
  d = tempfile.mkdtemp(prefix='vio_')
  try:
    for i in range(1000 if core.THOROUGH else 170):
      mesh = meshes and i % 4 == 3
      dim = 3 if mesh else rng.choice([2, 3, 3, 3, 4])
      w = dim + (0 if mesh else rng.choice([0, 1, 2, 4]))
      bs = rng.choice([1, 2, 3, 4, 4, 6, 6])
      top = rng.choice([1, 3, 6, 12])
      dt = rng.choice(['float32', 'float32', 'float64'])
      files, names = [], []
      for k in range(bs):
        n = rng.randrange(1, top + 1) if not mesh else rng.randrange(3, 4 + top)
        rows = rows_of(rng, n, w, 900 if mesh or dt == 'float32' else 1 << 29)
        if mesh:
          # distinct vertices, no merging by the loader
          rows = [[x * 8 + 64 * j, y, z] for j, (x, y, z) in enumerate(rows)]
        files.append(rows)
        names.append(os.path.join(d, '%d_%d.%s' % (i, k, 'obj' if mesh else 'txt')))
      delim = rng.choice([',', ';', ' '])
      for nme, rows in zip(names, files):
        if mesh:
          write_obj(rng, nme, rows)
        else:
          write(rng, nme, rows, delim, rng.random() < 0.5)
      shapes = [[bs], [1, bs], [bs, 1]] + ([[2, bs // 2], [bs // 2, 2]]
                                           if bs % 2 == 0 else [])
      shape = rng.choice([[]] + shapes)
      kw = {}
      if shape:
        kw['batch_shape'] = shape
      if not mesh:
        if delim != ',':
          kw['delimiter'] = delim
        if dim != 3:
          kw['point_dimension'] = dim
      if dt != 'float32':
        kw['dtype'] = getattr(tf, dt)
      if mesh:
        kw['process'] = False
      rec = base(i, 'batch', files, dim, wanttype=dt, shape=shape,
                 hasfeats=not mesh, hascloud=dt == 'float32', sizes=NONE, cloud=[], cfeats=[])

      def go():
        if mesh:
          p, sizes = pts.load_batch_of_meshes(names, **kw)
          f = None
        else:
          p, f, sizes = pts.load_batch_of_points(names, **kw)
        # clouds hold single precision points
        p32 = tf.cast(p, tf.float32)
        cl = pc.PointCloud(p32, sizes=sizes)
        o = {'points': obs(p), 'sizes': {
            'shape': list(sizes.shape),
            'rows': [int(x) for x in np.asarray(sizes).reshape(-1)]}}
        els = []
        for b in range(bs):
          m = np.asarray(cl._batch_ids) == b
          els.append(q(np.asarray(cl._points)[m], 8, 1e-6))
        o['cloud'] = els
        o['dtype'] = p.dtype.name
        if f is not None:
          o['feats'] = obs(f)
          if f.dtype != p.dtype:
            o['dtype'] += ',' + f.dtype.name
          if w > dim:
            o['cfeats'] = q(_flatten_features(f, cl), 8, 1e-6)
        return o
      r, rec['err'] = attempt(go)
      if r is not None:
        rec.update(r)
      c.record(T, **rec)
    # shapes which do not hold the files
    names = []
    for k in range(4):
      names.append(os.path.join(d, 'e%d.txt' % k))
      write(rng, names[-1], rows_of(rng, 2 + k, 4), ',', True)
    for shape in ([3], [2, 3], [5], [4, 0], [1, 2]):
      try:
        pts.load_batch_of_points(names, batch_shape=shape)
        got = 'accepted'
      except Exception as ex:
        got = type(ex).__name__
      c.record(T, case='shape %s' % shape, kind='error', got=got,
               want='ValueError')
    try:
      pts.load_batch_of_points(names[:2] + [os.path.join(d, 'no.txt')])
      got = 'accepted'
    except Exception as ex:
      got = type(ex).__name__
    c.record(T, case='missing', kind='error', got=got, want='FileNotFoundError')
  finally:
    shutil.rmtree(d, ignore_errors=True)


def mesh_loader():
  """The installed trimesh requires methods the installed tensorflow_graphics
  does not define; allow its resolver to be created."""
  try:
    from tensorflow_graphics.io import triangle_mesh
    triangle_mesh.GFileResolver.__abstractmethods__ = frozenset()
    return True
  except Exception:
    return False


CHECKS = {'C25': c25, 'C26': c26}
