PROPERTY = 'T05'
NEEDS = 'training that starts from a step that is not a multiple of the evaluation period and ends on a period counted from there'
BREAKS = 'The number of epochs is computed from step 0, so that an epoch without steps is appended and the last evaluation is done twice.'
EDITS = [
    ('t5x/train.py',
     '  num_epochs = first_epoch + math.ceil(\n      (total_steps - first_step) / steps_per_epoch\n  )\n',
     '  num_epochs = math.ceil(total_steps / steps_per_epoch)\n'),
]
DEMO = '''
import demo_lib as d, demo_train as t
import tensorflow as tf, numpy as np
ds = tf.data.Dataset.from_tensor_slices({'x': np.ones((1, 4, 2), np.float32)})
t.train(d.TMP + '/a', 3, period=3)
t.WRITTEN.clear()
t.train(d.TMP + '/a', 11, period=4, eval_period=4, evals={'ev': ds})
got = [s for n, s, m in t.WRITTEN if n == 'training_eval/ev' and 'loss' in m]
d.done(got == [7, 11], got)
'''
