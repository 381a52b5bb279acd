"""C28: data generators, data loading and training loops of the scripts."""
import ast
import contextlib
import inspect
import io
import os
import re
import shutil
import sys
import tempfile
import types

import core
from core import attempt, ints

T = 'TraceEpoch'
SCRIPTS = ('modelnet40.py', 'modelnet40_small.py')


def nodes(script):
  with open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), script)) as f:
    return ast.parse(f.read(), script).body


def names(node):
  return [t.id for t in getattr(node, 'targets', []) if isinstance(t, ast.Name)]


def calls(node, *fns):
  return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
             n.func.id in fns for n in ast.walk(node))


def run_nodes(script, sel, g):
  m = types.ModuleType('script_' + script[:-3])
  m.__dict__.update(g)
  sys.modules[m.__name__] = m
  for n in sel:
    exec(compile(ast.Module([n], []), script, 'exec'), m.__dict__)
  return m.__dict__


def classes(script, **g):
  """Classes and functions of a script, without running it."""
  import numpy as np
  import tensorflow as tf
  import pylib.pc as pc
  from pylib.pc import layers
  g = dict(dict(np=np, tf=tf, pc=pc, layers=layers), **g)
  return run_nodes(script, [n for n in nodes(script) if isinstance(
      n, (ast.ClassDef, ast.FunctionDef))], g)


def whole(script, over):
  """Executes a script up to its training, with other constants."""
  sel = []
  for n in nodes(script):
    hit = [x for x in names(n) if x in over]
    if hit and isinstance(n.value, ast.Constant):
      n = ast.parse('%s = %r' % (hit[0], over[hit[0]])).body[0]
    elif not isinstance(n, (ast.ClassDef, ast.FunctionDef)) and \
        calls(n, 'training', 'mymodel'):
      continue
    sel.append(n)
  return run_nodes(script, sel, {})


def code(m, j, d):
  return 1 if j == 0 else m + 16 * j + 128 * d


def cloud(m, p):
  return [[code(m, j, d) for d in range(3)] for j in range(p)]


def decode(pts):
  """Ids of the models and scales (times 10^4) of a batch of points."""
  import numpy as np
  a = np.asarray(pts, np.float64)
  out, scales = [], []
  for e in a:
    i = -1
    if e.ndim == 2 and len(e) > 1 and np.all(e[0] != 0):
      r = e / e[0]
      m = int(round(r[1][0] - 16))
      if np.abs(r - np.array(cloud(m, len(e)))).max() < 1e-3:
        i = m
    out.append(i)
    scales.append([int(round(min(max(x, -1e4), 1e4) * 1e4)) for x in e[0]])
  return out, scales


def event(ev, fn, k=0):
  import numpy as np
  e = dict(ev=ev, k=k, ids=[], labels=[], shape=[], fshape=[], ones=False,
           scales=[])
  r, e['err'] = attempt(fn)
  if r is not None:
    try:
      pts, feat, lab = (np.asarray(x) for x in r)
      e['shape'], e['fshape'] = list(pts.shape), list(feat.shape)
      e['ones'] = bool(np.all(feat == 1))
      e['labels'] = ints(lab)
      e['ids'], e['scales'] = decode(pts)
    except Exception as ex:
      e['err'] = 'unusable batch: ' + type(ex).__name__
  return e


def end():
  return dict(ev='end', k=0, ids=[], labels=[], shape=[], fshape=[], ones=False,
              scales=[], err='')


def life(c, script, case, n, b, augment, plan, as_list=False):
  """plan: list of epochs, each 'call', 'iter', 'get' or 'mixed'."""
  import numpy as np
  rng = c.rng
  p = rng.choice([2, 3, 5])
  extra = rng.choice([0, 2])
  labels = [rng.randrange(5) for _ in range(n)]
  pts = np.array([cloud(m, p + extra) for m in range(1, n + 1)], np.float64)
  src = list(pts) if as_list else pts
  keep = pts.copy()
  rec = dict(case=case, kind='life', n=n, b=b, labels=labels, augment=augment,
             samples=p, events=[], length=-1, sizes=[], unchanged=True)

  def run():
    g = classes(script, samples_per_model=p)
    gen = g['modelnet_data_generator'](src, labels if as_list else
                                       np.array(labels), b, augment)
    rec['length'] = len(gen)
    rec['sizes'] = ints(gen.sizes)
    nb = n // b
    ev = rec['events']
    for e, mode in enumerate(plan):
      if e:
        gen.on_epoch_end()
        ev.append(end())
      if mode == 'call':
        for _ in range(rng.randrange(nb + 1) if rng.random() < .3 else nb):
          ev.append(event('call', gen))
      elif mode == 'iter':
        k = 0
        for batch in gen:
          ev.append(event('get', lambda: batch, k))
          k += 1
          if k > nb + 2:
            break
        ev.append(dict(end(), ev='iterated'))
      else:
        ks = [rng.randrange(nb) for _ in range(nb + 2)] if nb else []
        for k in ks:
          ev.append(event('get', lambda: gen[k], k))
          if mode == 'mixed' and rng.random() < .4 and \
              sum(x['ev'] == 'call' for x in ev) < nb:
            ev.append(event('call', gen))
    return 1
  _, rec['err'] = attempt(run)
  rec['unchanged'] = bool((pts == keep).all())
  c.record(T, **rec)


def shuffles(c, script, n):
  import numpy as np
  rec = dict(case='%s/shuffle%d' % (script, n), kind='shuffle', n=n, orders=[])

  def run():
    g = classes(script, samples_per_model=2)
    pts = np.array([cloud(m, 2) for m in range(1, n + 1)], np.float64)
    gen = g['modelnet_data_generator'](pts, [0] * n, 1, False)
    for _ in range(120):
      rec['orders'].append([decode(gen[k][0])[0][0] for k in range(n)])
      gen.on_epoch_end()
    return 1
  _, rec['err'] = attempt(run)
  c.record(T, **rec)


def write_data(d, rng, ntrain, ntest, p):
  """A small data set in the layout of ModelNet; points encode the model."""
  cats = ['tv_stand'] + rng.sample(['airplane', 'bed', 'night_stand', 'tv'], 2)
  rng.shuffle(cats)
  with open(d + 'modelnet40_shape_names.txt', 'w') as f:
    f.write('\n'.join(cats) + '\n')
  out = {}
  for part, n in (('train', ntrain), ('test', ntest)):
    pick = [rng.randrange(3) for _ in range(n)]
    pick[rng.randrange(n)] = cats.index('tv_stand')
    lines = []
    for m, ci in enumerate(pick, 1):
      name = '%s_%04d' % (cats[ci], m + (100 if part == 'test' else 0))
      lines.append(name)
      os.makedirs(d + cats[ci], exist_ok=True)
      with open(d + cats[ci] + '/' + name + '.txt', 'w') as f:
        for row in cloud(m, p + rng.choice([0, 3])):
          f.write(','.join('%.6f' % x for x in row + [0, 0, 1]) + '\n')
    with open(d + 'modelnet40_%s.txt' % part, 'w') as f:
      f.write('\n'.join(lines) + ('\n' if rng.random() < .7 else ''))
    out[part] = pick
  return cats, out


class Stub:
  """Stands in for the network: predicts the label of some models only."""
  def __init__(self, tf, labels, classes_, opt, batches, wrong):
    self.tf, self.labels, self.nc, self.opt = tf, labels, classes_, opt
    self.v = tf.Variable(1.0)
    self.trainable_variables = [self.v]
    self.calls, self.wrong = batches, wrong

  def __call__(self, points, features, sizes, training):
    tf = self.tf
    training = bool(training)
    ids, _ = decode(points)
    right = [i % self.wrong != 0 for i in ids]
    lab = self.labels[training]
    pred = [(lab[i - 1] if 0 < i <= len(lab) else 0) + (0 if ok else 1)
            for i, ok in zip(ids, right)]
    self.calls.append((training, dict(ids=ids, right=right, sizes=ints(sizes)),
                       int(self.opt().iterations.numpy())))
    return tf.one_hot([x % self.nc for x in pred], self.nc) * 10 * self.v

  def save_weights(self, *a, **k):
    pass


def scripts(c, script, n):
  import numpy as np
  import tensorflow as tf
  rng = c.rng
  d = tempfile.mkdtemp(dir=core.scratch()) + '/'
  old = sys.modules.get('data_paths')
  try:
    data, cache = d + 'data/', d + 'cache'
    os.mkdir(data)
    ntrain, ntest = rng.choice([6, 7, 9]), rng.choice([4, 5, 6])
    b = rng.choice([2, 3])
    p = rng.choice([3, 4])
    cats, want = write_data(data, rng, ntrain, ntest, p)
    dp = types.ModuleType('data_paths')
    dp.data_dir, dp.hdf5_tmp_dir = data, cache
    sys.modules['data_paths'] = dp
    over = dict(points_per_file=p, samples_per_model=p, batch_size=b)
    for turn in ('files', 'cache'):
      case = '%s#%d/%s' % (script, n, turn)
      out = io.StringIO()
      with contextlib.redirect_stdout(out):
        g, err = attempt(lambda: whole(script, over))
      for part in ('train', 'test'):
        rec = dict(case=case + '/' + part, kind='data', err=err, labels=[],
                   points=[], classes=-1, wantLabels=want[part],
                   wantPoints=[cloud(m, p) for m in range(1, len(want[part]) + 1)],
                   wantClasses=len(cats))
        if g is not None:
          rec.update(labels=ints(g[part + '_labels']), classes=g['num_classes'],
                     points=core.q(g[part + '_data_points']))
        c.record(T, **rec)
      if g is None:
        continue
      epochs = 3
      rec = dict(case=case, kind='script', train=ntrain, test=ntest, b=b,
                 samples=p, epochs=epochs, phases=[], accuracy=[], updates=[],
                 loss=[])
      seen = []
      stub = Stub(tf, {True: want['train'], False: want['test']}, len(cats),
                  lambda: g['optimizer'], seen, rng.choice([2, 3]))
      kw = dict(model=stub, optimizer=g['optimizer'], num_epochs=epochs,
                loss_function=g['loss_function'])
      ps = inspect.signature(g['training']).parameters
      out = io.StringIO()
      with contextlib.redirect_stdout(out):
        _, rec['err'] = attempt(lambda: g['training'](
            **{k: v for k, v in kw.items() if k in ps}))
      starts = []
      for tr, batch, it in seen:
        if not rec['phases'] or rec['phases'][-1]['training'] != tr:
          rec['phases'].append(dict(training=tr, batches=[]))
          starts.append(it)
        rec['phases'][-1]['batches'].append(batch)
      starts.append(int(g['optimizer'].iterations.numpy()))
      rec['updates'] = [y - x for x, y in zip(starts, starts[1:])]
      rec['accuracy'] = [int(round(float(x) * 1000)) for x in re.findall(
          r'(?:Training|Validation):.*?Accuracy: ([0-9.]+)%', out.getvalue())]
      c.record(T, **rec)
  finally:
    if old is not None:
      sys.modules['data_paths'] = old
    else:
      sys.modules.pop('data_paths', None)
    shutil.rmtree(d)


def c28(c):
  import numpy as np
  import tensorflow as tf
  big = core.THOROUGH
  k = dict(MaxN=4 if big else 3, MaxEpochs=3 if big else 2, Variant='"ok"')
  inv = ['Epochs', 'Fresh', 'Counts']
  c.design('EpochMC', k, inv)
  for v, e in {'ceil': ['Epochs', 'Counts'], 'replacement': ['Epochs'],
               'overlap': ['Epochs'], 'noReset': ['Fresh']}.items():
    c.mutant('EpochMC', dict(k, MaxN=4, MaxEpochs=2, Variant='"%s"' % v), inv,
             label=v, expect=e)
  rng = c.rng
  np.random.seed(core.SEED)
  tf.random.set_seed(core.SEED)
  for script in SCRIPTS:
    for i in range(60 if big else 10):
      n = rng.choice([1, 2, 3, 5, 6, 8, 12])
      b = rng.randrange(1, n + 1)
      plan = [rng.choice(['call', 'iter', 'get', 'mixed'])
              for _ in range(rng.choice([1, 2, 4]))]
      life(c, script, '%s#%d' % (script, i), n, b, bool(i % 2), plan,
           as_list=i % 3 == 0)
    life(c, script, script + '/exact', 6, 2, True, ['iter', 'call', 'iter'])
    life(c, script, script + '/remainder', 7, 3, True, ['iter', 'call', 'call'])
    for j in range(6 if big else 2):       # batches of the size in the scripts
      n = rng.choice([33, 40, 64, 70])
      life(c, script, '%s/large%d' % (script, j), n, rng.choice([16, 17, 20, 32, 33]),
           bool(j % 2), rng.choice([['call', 'iter'], ['iter', 'get'], ['mixed', 'call']]),
           as_list=j % 3 == 1)
    for n in (2, 3):
      shuffles(c, script, n)
    for i in range(4 if big else 1):
      scripts(c, script, i)


CHECKS = {'C28': c28}
