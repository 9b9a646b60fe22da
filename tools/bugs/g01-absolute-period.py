PROPERTY = 'G01'
NEEDS = 'training that starts from a step that is not a multiple of the garbage collection period'
BREAKS = 'The collection period is counted from step 0 while epochs are counted from the first step, so that no collection happens before the end.'
EDITS = [
    ('t5x/train.py',
     '    if gc_period and (final_epoch or step_offset % gc_period == 0):\n',
     '    if gc_period and (final_epoch or host_step % gc_period == 0):\n'),
]
DEMO = '''
import demo_lib as d, demo_train as t, gc
t.train(d.TMP + '/a', 3, period=3)
n = []
real = gc.collect
gc.collect = lambda *a: n.append(1) or real()
t.train(d.TMP + '/a', 11, period=4, gc_period=2)
d.done(len(n) >= 4, n)
'''
