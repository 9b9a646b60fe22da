from props import common as c
from props import world_orbax

QUICK = 300
THOROUGH = 10000
NONTRIVIAL = ['restore', 'reader-ok', 'crashed', 'failed']
RULE = ('A case is one job saving through the Orbax manager, with crashes, disk errors, restarts and a concurrent reader; non-trivial when something was restored or a fault hit.')
REAL = c.REAL_CKPT
STUBS = c.STUBS_HOST
ASSUMES = c.ASSUMES_FS


def world(run):
  world_orbax.world(run)
