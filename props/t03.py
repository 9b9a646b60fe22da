from props import common as c
from props import world_train as wt
from props import world_train_restore

QUICK = 500
THOROUGH = 30000
NONTRIVIAL = ['start-resumed', 'start-pretrained']
RULE = ('A case is a job that makes pretrained checkpoints, then a training '
        'job of 1-2 hosts configured to start from them (or not), crashed or '
        'killed up to twice and started again; non-trivial when it started '
        'from a checkpoint.')
REAL = wt.REAL
STUBS = wt.STUBS
ASSUMES = c.ASSUMES_FS[:2]


def world(run):
  world_train_restore.world(run)
