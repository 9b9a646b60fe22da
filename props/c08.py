from props import common as c
from props import world_eval as we
from props import world_live
from props import world_train as wt

QUICK = 300
THOROUGH = 20000
NONTRIVIAL = ['evaluated', 'started']
RULE = ('A case is a job of 2-4 hosts that evaluates, or trains from, the '
        'checkpoints of a directory in which another process saves and removes '
        'checkpoints meanwhile; non-trivial when it used a checkpoint.')
REAL = we.REAL + ['t5x.train.train and t5x.trainer.Trainer']
STUBS = we.STUBS + ['for training jobs, the other job: directories that appear '
                    'and disappear as a save and a removal make them do']
ASSUMES = c.ASSUMES_FS[:2]


def world(run):
  world_live.world(run)
