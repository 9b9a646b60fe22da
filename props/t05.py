from props import common as c
from props import world_train as wt
from props import world_train_metrics

QUICK = 700
THOROUGH = 40000
NONTRIVIAL = ['summary']
RULE = ('A case is a training job of 1-3 hosts with drawn statistics, '
        'evaluation and save periods, step times, slow or failing metric '
        'writers; non-trivial when summaries were written.')
REAL = wt.REAL
STUBS = wt.STUBS
ASSUMES = c.ASSUMES_FS[:1]


def world(run):
  world_train_metrics.world(run)
