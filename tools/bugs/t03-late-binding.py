PROPERTY = 'T03'
NEEDS = 'two or more restore transformations and a restart from the own directory'
BREAKS = 'When resuming, the closures over the transformations all refer to the last one, which is applied several times while the others are not applied.'
EDITS = [
    ('t5x/train.py',
     '        functools.partial(fn, is_resuming=True)\n        for fn in',
     '        lambda *args, **kwargs: fn(*args, is_resuming=True, **kwargs)\n        for fn in'),
]
DEMO = '''
import demo_lib as d, demo_train as t
from t5x import utils
t.train(d.TMP + '/pre', 2, period=2)
calls = []
def first(state, target, *, is_resuming=False):
  calls.append(('first', is_resuming))
  return state
def second(state, target, *, is_resuming=False):
  calls.append(('second', is_resuming))
  return state
r = utils.RestoreCheckpointConfig(path=d.TMP + '/pre', mode='latest', state_transformation_fns=[first, second])
t.train(d.TMP + '/a', 4, period=1, restore=r)
calls.clear()
t.train(d.TMP + '/a', 6, period=1, restore=r)
d.done(calls == [('first', True), ('second', True)], calls)
'''
