from props import common as c
from props import world_ckpt

QUICK = 900
THOROUGH = 30000
NONTRIVIAL = ['commit']
RULE = ('A case is one job history with keep / keep_dataset_checkpoints, pins and unpins, crashes and errors during deletion, and a concurrent reader; non-trivial when a checkpoint was committed.')
REAL = c.REAL_CKPT
STUBS = c.STUBS_HOST
ASSUMES = c.ASSUMES_FS


def world(run):
  world_ckpt.world(run, 'retention')
