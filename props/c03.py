from props import common as c
from props import world_fail

QUICK = 1500
THOROUGH = 40000
NONTRIVIAL = ['saved', 'save-raised']
RULE = ('A case is one job saving 1-3 steps with drawn write errors, producer errors, stalls, lost writes and memory budget; non-trivial when a save completed or raised.')
REAL = c.REAL_CKPT
STUBS = c.STUBS_HOST
ASSUMES = c.ASSUMES_FS


def world(run):
  world_fail.world(run)
