from props import common as c
from props import world_best

QUICK = 900
THOROUGH = 30000
NONTRIVIAL = ['removed']
RULE = ('A case is one job history of 1-2 hosts that save under a retention '
        'by metric while another thread writes event files of the metric, '
        'with pins, crashes and errors; non-trivial when a checkpoint was '
        'removed.')
REAL = c.REAL_CKPT + ['t5x.checkpoints.SaveBestCheckpointer',
                      'TensorBoard event file readers']
STUBS = c.STUBS_HOST + ['the writer of event files, with TensorBoard records']
ASSUMES = c.ASSUMES_FS


def world(run):
  world_best.world(run)
