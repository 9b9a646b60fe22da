from props import common as c
from props import world_inter

QUICK = 150
THOROUGH = 12000
NONTRIVIAL = ['resumed', 'went-on', 'evaluate', 'loop']
RULE = ('A case is one to three sessions of up to four calls each (training '
        'steps and loops, predictions, scores, metrics, explicit saves) on 1-2 '
        'hosts, all but the last disturbed by a crash, a kill or an I/O error; '
        'non-trivial when a session resumed or went on after an error, or '
        'metrics or a loop were asked for.')
REAL = world_inter.REAL
STUBS = world_inter.STUBS
ASSUMES = c.ASSUMES_FS[:2]


def world(run):
  world_inter.world(run)
