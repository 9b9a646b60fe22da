from props import common as c
from props import world_eval

QUICK = 700
THOROUGH = 40000
NONTRIVIAL = ['finished-after-restart', 'raised']
RULE = ('A case is a directory of 1-8 checkpoints and up to four evaluation '
        'jobs of 1-3 hosts over it, all but the last disturbed by a crash, a '
        'kill or an error; non-trivial when a job failed or one finished '
        'after a restart.')
REAL = world_eval.REAL
STUBS = world_eval.STUBS
ASSUMES = c.ASSUMES_FS[:2]


def world(run):
  world_eval.world(run)
