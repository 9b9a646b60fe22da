from props import common as c
from props import world_gc
from props import world_train as wt

QUICK = 700
THOROUGH = 40000
NONTRIVIAL = ['controlled', 'imported']
RULE = ('A case is a training job (run once or again, stopped early or not) '
        'with a drawn garbage collection period, or up to three threads in '
        'nested scopes that switch collection off; non-trivial when '
        'collection was under manual control.')
REAL = wt.REAL + ['t5x.disable_gc_during_import']
STUBS = wt.STUBS + ['the switch of the garbage collector, one per host']
ASSUMES = c.ASSUMES_FS[:1]


def world(run):
  world_gc.world(run)
