from props import common as c
from props import world_rt

QUICK = 900
THOROUGH = 30000
NONTRIVIAL = ['restored-plain', 'restored-loader', 'restored-rename', 'restored-fallback', 'refused']
RULE = ('A case is one writer job plus 1-2 reader jobs with independently drawn topologies, dtypes, restore modes and read faults; non-trivial when a restore was compared.')
REAL = c.REAL_CKPT
STUBS = c.STUBS_HOST
ASSUMES = c.ASSUMES_FS


def world(run):
  world_rt.world(run)
