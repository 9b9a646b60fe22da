from props import common as c
from props import world_ckpt

QUICK = 900
THOROUGH = 30000
NONTRIVIAL = ['commit']
RULE = ('A case is one job history: a drawn state tree, topology and options, 1-3 incarnations with a crash, an I/O error or none at a drawn operation of each; non-trivial when a checkpoint was committed.')
REAL = c.REAL_CKPT
STUBS = c.STUBS_HOST
ASSUMES = c.ASSUMES_FS


def world(run):
  world_ckpt.world(run, 'crash')
