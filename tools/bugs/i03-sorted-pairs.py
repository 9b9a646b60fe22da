PROPERTY = 'I03'
NEEDS = 'several data shards with three or more examples per shard in a batch (the permutation must not be its own inverse)'
BREAKS = 'Results are assumed to be in order after one application of the permutation of the shards, so indices are paired with the results of other examples.'
EDITS = [
    ('t5x/utils.py',
     '    all_indices = all_indices[all_indices]\n\n',
     '    all_indices = np.arange(len(all_indices), dtype=all_indices.dtype)\n\n'),
]
DEMO = '''
import demo_lib as d, demo_infer as i, jax
import numpy as np, tensorflow as tf, types
from t5x import utils
H = d.Hosts(2).install()
jax.experimental.multihost_utils.host_local_array_to_global_array = lambda x, *a: x
jax.experimental.multihost_utils.global_array_to_host_local_array = lambda x, *a: x
dss = [tf.data.Dataset.from_tensor_slices({'inputs': np.stack([np.arange(12), np.arange(12)], 1)}).enumerate() for _ in range(2)]
def host(h):
  part = i.Part(h, 2, H)
  axes = types.SimpleNamespace(params=None, flax_mutables=None)
  fn = utils.get_infer_fn(i.Model().predict_batch, 6, axes, part)
  return fn(dss[h], train_state=types.SimpleNamespace(params={}, flax_mutables={}))
res, err = H.run(host)
bad = [(k, v) for r in res.values() for k, v in r if list(v) != [k + 1, k]]
d.done(len(res) == 2 and not bad and not err, f'{bad[:3]} {err}')
'''
