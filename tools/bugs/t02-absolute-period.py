PROPERTY = 'T02'
NEEDS = 'training that resumes from a step that is not a multiple of the checkpoint period, for instance an emergency checkpoint'
BREAKS = 'The checkpoint period is counted from step 0 at the end of an epoch but from the first step elsewhere, so no periodic checkpoint is saved after such a restart.'
EDITS = [
    ('t5x/train.py',
     '        and (final_epoch or step_offset % checkpoint_period == 0)\n        and checkpoint_manager\n',
     '        and (final_epoch or host_step % checkpoint_period == 0)\n        and checkpoint_manager\n'),
]
DEMO = '''
import demo_lib as d, demo_train as t
t.train(d.TMP + '/a', 3, period=3)
t.train(d.TMP + '/a', 12, period=4)
d.done(t.steps(d.TMP + '/a') == [0, 3, 7, 11, 12], t.steps(d.TMP + '/a'))
'''
