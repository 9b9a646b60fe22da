from props import common as c
from props import world_train as wt
from props import world_train_stop

QUICK = 700
THOROUGH = 40000
NONTRIVIAL = ['stopped-early']
RULE = ('A case is a training job of 1-3 hosts whose actions (after training '
        'windows, evaluations and inference evaluations) ask to stop at drawn '
        'steps or on a non-finite loss; non-trivial when it stopped early.')
REAL = wt.REAL
STUBS = wt.STUBS
ASSUMES = c.ASSUMES_FS[:2]


def world(run):
  world_train_stop.world(run)
