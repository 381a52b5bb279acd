"""The custom operations as the library imports them, run by the emulator.

GPU_LIB names the library built by build.py.  `config` chooses the schedule of
the next operations; `log` keeps, for every operation, what the emulator saw.
"""
import ctypes
import json
import os
import re

import numpy as np
import tensorflow as tf
from tensorflow.python.framework import ops as _ops

_lib = ctypes.CDLL(os.environ['GPU_LIB'])
for _f in ('emu_ops', 'emu_error', 'emu_log'):
  getattr(_lib, _f).restype = ctypes.c_char_p
_lib.emu_output.restype = ctypes.c_void_p
_DEFS = json.loads(_lib.emu_ops().decode())
_NP = {'float32': np.float32, 'float': np.float32, 'int32': np.int32,
       'int64': np.int64}
_CODE = {1: np.float32, 3: np.int32, 9: np.int64}

log = []
_state = {'seed': 1, 'mps': 2, 'blocks': 2, 'mode': None}


class Crash(Exception):
  """The operation would end the process, or leave the device's memory."""


def config(**kw):
  _state.update(kw)


def _split(s):
  name, kind = s.split(':')
  return name.strip(), kind.strip()


def run(name, inputs, attrs):
  d = _DEFS[name]
  arrays = []
  for x, s in zip(inputs, d['in']):
    _, kind = _split(s)
    x = x.numpy() if hasattr(x, 'numpy') else np.asarray(x)
    if x.dtype != _NP[kind]:
      raise TypeError('%s: %s is of type %s' % (name, s, x.dtype))
    arrays.append(np.ascontiguousarray(x).reshape(x.shape))
  n = len(arrays)
  _state['seed'] += 1
  mode = _state['mode']
  if mode is None:
    mode = _state['seed'] % 6
  _lib.emu_config(ctypes.c_uint(_state['seed']), _state['mps'], _state['blocks'], mode)
  ptrs = (ctypes.c_void_p * n)(*[a.ctypes.data for a in arrays])
  nd = (ctypes.c_int * n)(*[a.ndim for a in arrays])
  dims = [k for a in arrays for k in a.shape]
  dims = (ctypes.c_long * max(1, len(dims)))(*dims)
  names = (ctypes.c_char_p * max(1, len(attrs)))(*[k.encode() for k in attrs])
  vals = (ctypes.c_int * max(1, len(attrs)))(*[int(v) for v in attrs.values()])
  r = _lib.emu_call(name.encode(), n, ptrs, nd, dims, len(attrs), names, vals)
  entry = json.loads(_lib.emu_log().decode())
  entry.update(op=name, mode=mode, seed=_state['seed'], mps=_state['mps'],
               blocks=_state['blocks'], result=r, error=_lib.emu_error().decode())
  log.append(entry)
  if r == 1:
    raise tf.errors.InvalidArgumentError(None, None, entry['error'])
  if r:
    raise Crash('%s: %s' % (name, entry['error']))
  out = []
  for i in range(len(d['out'])):
    t, k = ctypes.c_int(), ctypes.c_int()
    sh = (ctypes.c_long * 8)()
    p = _lib.emu_output(i, ctypes.byref(t), ctypes.byref(k), sh)
    shape = tuple(sh[:k.value])
    size = int(np.prod(shape)) if shape else 1
    a = np.zeros(shape, _CODE[t.value])
    if size:
      ctypes.memmove(a.ctypes.data, p, a.nbytes)
    out.append(tf.constant(a))
  return out


class _Op:
  """An executed operation, as a gradient function sees it."""

  def __init__(self, inputs, outputs, attrs):
    self.inputs, self.outputs, self._attrs = inputs, outputs, attrs

  def get_attr(self, name):
    return self._attrs[name]


def _make(op, d):
  ins = [_split(s) for s in d['in']]
  attr_names = [_split(s)[0] for s in d['attr']]
  order = [n for n, _ in ins] + attr_names

  def call(*args, name=None, **kw):
    vals = dict(zip(order, args))
    vals.update(kw)
    missing = [n for n in order if n not in vals]
    if missing or len(vals) > len(order):
      raise TypeError('%s: arguments %s' % (op, sorted(vals)))
    inputs = [tf.convert_to_tensor(vals[n], dtype=_NP[k]) for n, k in ins]
    attrs = {n: int(vals[n]) for n in attr_names}
    try:
      grad_fn = _ops.gradient_registry.lookup(op)
    except LookupError:
      grad_fn = None
    if grad_fn is None:
      # (no gradient)
      out = run(op, [tf.stop_gradient(x) for x in inputs], attrs)
    else:
      @tf.custom_gradient
      def f(*xs):
        outs = run(op, xs, attrs)

        def back(*g):
          res = grad_fn(_Op(list(xs), outs, attrs), *g)
          return [r for r in res]
        return (outs[0] if len(outs) == 1 else outs), back
      out = f(*inputs)
      out = list(out) if isinstance(out, (list, tuple)) else [out]
    return out[0] if len(out) == 1 else tuple(out)
  call.__name__ = op
  return call


for _name, _d in _DEFS.items():
  globals()[re.sub(r'(?<!^)(?=[A-Z])', '_', _name).lower()] = _make(_name, _d)
