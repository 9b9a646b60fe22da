PROPERTY = 'T04'
NEEDS = 'an action that asks to stop and a further action of the same kind after it'
BREAKS = 'Actions after the one that asks to stop are no longer run.'
EDITS = [
    ('t5x/train.py',
     '      stop_training |= action.run(train_state, metrics_by_task=metrics_by_task)\n',
     '      stop_training = stop_training or action.run(\n          train_state, metrics_by_task=metrics_by_task\n      )\n'),
]
DEMO = '''
import demo_lib as d, demo_train as t
seen = []
t.train(d.TMP + '/a', 8, period=4, stats=1, concurrent_metrics=False, actions={'TRAIN': [
    t.Act(lambda step, m: step == 3), t.Act(lambda step, m: seen.append(step))]})
d.done(seen == [1, 2, 3], seen)
'''
