from props import common as c
from props import world_train as wt
from props import world_train_cadence

QUICK = 700
THOROUGH = 40000
NONTRIVIAL = ['listed-steps', 'resumed']
RULE = ('A case is a training job with a drawn save period, listed steps, '
        'retention, evaluation, statistics and garbage collection periods, '
        'ended up to twice by a crash or kill and started again; non-trivial '
        'when extra steps were listed or training resumed.')
REAL = wt.REAL
STUBS = wt.STUBS
ASSUMES = c.ASSUMES_FS[:2]


def world(run):
  world_train_cadence.world(run)
