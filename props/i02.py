from props import common as c
from props import world_infer

QUICK = 280
THOROUGH = 12000
NONTRIVIAL = ['chunk']
RULE = ('A case is one inference job (1-3 shards, 1-2 tasks, 1-4 hosts) restarted until it completes, with a drawn crash, kill, write error or failing writer in each round; non-trivial when a chunk was completed.')
REAL = world_infer.REAL
STUBS = world_infer.STUBS
ASSUMES = c.ASSUMES_FS


def world(run):
  world_infer.world(run, 'error')
