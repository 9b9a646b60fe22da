from props import common as c
from props import world_orbax_best

QUICK = 600
THOROUGH = 10000
NONTRIVIAL = ['delete', 'removed-by-metric', 'crashed', 'failed']
RULE = ('A case is one job saving through the Orbax manager while the metric that its checkpoints are kept by is written to event files, with crashes, disk errors and restarts; non-trivial when a checkpoint was removed or a fault hit.')
REAL = c.REAL_CKPT
STUBS = c.STUBS_HOST
ASSUMES = c.ASSUMES_FS


def world(run):
  world_orbax_best.world(run)
