from props import common as c
from props import world_train as wt
from props import world_train_resume

QUICK = 500
THOROUGH = 30000
NONTRIVIAL = ['resumed', 'preempted']
RULE = ('A case is a training job of 1-2 hosts and 3-10 steps, disturbed up to '
        'three times by a crash, a kill, a preemption or an I/O error and '
        'started again; non-trivial when training resumed from a checkpoint '
        'or an emergency checkpoint was due.')
REAL = wt.REAL
STUBS = wt.STUBS
ASSUMES = c.ASSUMES_FS[:2]


def world(run):
  world_train_resume.world(run)
