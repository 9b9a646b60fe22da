from props import common as c
from props import world_ckpt

QUICK = 900
THOROUGH = 30000
NONTRIVIAL = ['commit']
RULE = ('A case is one job history of 1-4 hosts under drawn host interleavings, skew and crashes of one or two hosts; non-trivial when a checkpoint was committed.')
REAL = c.REAL_CKPT
STUBS = c.STUBS_HOST
ASSUMES = c.ASSUMES_FS


def world(run):
  world_ckpt.world(run, 'hosts')
