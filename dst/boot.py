"""Installs every seam, then imports the code under test from /repo."""

import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env():
  """Environment of a check process."""
  e = {
      'JAX_PLATFORMS': 'cpu',
      'CUDA_VISIBLE_DEVICES': '',
      'TF_CPP_MIN_LOG_LEVEL': '3',
      'TF_ENABLE_ONEDNN_OPTS': '0',
      'NO_GCE_CHECK': 'true',
      'PYTHONDONTWRITEBYTECODE': '1',
      'OMP_NUM_THREADS': '1',
      'GRPC_VERBOSITY': 'NONE',
      'XLA_FLAGS': ('--xla_force_host_platform_device_count=4 '
                    '--xla_cpu_multi_thread_eigen=false '
                    'intra_op_parallelism_threads=1'),
  }
  return e


def install(modules=()):
  for k, v in env().items():
    os.environ[k] = v
  for p in (REPO, os.path.join(VERIF, 'stubs'), VERIF):
    if p in sys.path:
      sys.path.remove(p)
    sys.path.insert(0, p)
  from dst import patch_threads
  patch_threads.install()
  from dst import simfs
  simfs.install_os()
  # The C++ start-up chatter goes to /dev/null.
  saved = os.dup(2)
  null = os.open(os.devnull, os.O_WRONLY)
  os.dup2(null, 2)
  try:
    import warnings
    warnings.simplefilter('ignore')
    import tensorflow as tf
    tf.get_logger().setLevel('ERROR')
    from absl import logging as absl_logging
    import logging
    logging.disable(logging.CRITICAL)
    simfs.install_gfile()
    simfs.install_tensorstore()
    simfs.install_tfdata()
    from dst import simhosts
    simhosts.install()
    simhosts.install_orbax()
    import importlib
    for m in modules:
      importlib.import_module(m)
  finally:
    os.dup2(saved, 2)
    os.close(saved)
    os.close(null)
