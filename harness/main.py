import importlib
import sys
import traceback

MODULES = ('d_grid', 'd_pc', 'd_sample', 'd_density', 'd_layers', 'd_rel',
           'd_net', 'd_io', 'd_kernels', 'd_epoch', 'd_graph', 'd_class', 'd_gpu',
           'd_train')

if __name__ == '__main__':
  try:
    import core
    reg = {}
    for m in MODULES:
      reg.update(importlib.import_module(m).CHECKS)
  except Exception:
    traceback.print_exc()
    print('CHECK-ERROR: the harness cannot be loaded')
    sys.exit(2)
  sys.exit(core.main(reg))
