from props import common as c
from props import world_infer
from props import world_step

QUICK = 500
THOROUGH = 30000
NONTRIVIAL = ['compared', 'refused']
RULE = ('A case is three jobs of 1-4 hosts, each running one or two inference '
        'functions over drawn dataset lengths, batch sizes, data layouts, '
        'output kinds and random keys; non-trivial when results were compared '
        'with the model function or an inconsistent dataset was refused.')
REAL = ['t5x.utils.get_infer_fn', 't5x.partitioning data layout',
        'tf.data pipelines']
STUBS = world_infer.STUBS
ASSUMES = []


def world(run):
  world_step.world(run)
