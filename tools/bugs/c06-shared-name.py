PROPERTY = 'C06'
NEEDS = 'several hosts where more than one host feeds the same data shard'
BREAKS = 'Iterator states are named after the host instead of the data shard, so a host that shares a shard finds no state, or another topology restores the wrong one.'
EDITS = [('t5x/checkpoints.py', """        f'{data_layout.shard_id:03}-of-{data_layout.num_shards:03}'
    )
    self._should_write_dataset_ckpt = (
        dataset_iterator and""", """        f'{min(jax.process_index(), data_layout.num_shards - 1):03}'
        f'-of-{data_layout.num_shards:03}'
    )
    self._should_write_dataset_ckpt = (
        dataset_iterator and""")]
DEMO = '''
import demo_lib as d
import os
H = d.Hosts(4).install()
from t5x import checkpoints
checkpoints._sync_global_devices = H.sync

class It:
  def __init__(self, shard):
    self.shard, self.pos = shard, 0
  def save(self, f):
    open(f, 'w').write(f'{self.shard} {self.pos}')
  def load(self, f):
    s, p = open(f).read().split()
    assert int(s) == self.shard, (s, self.shard)
    self.pos = int(p)

def host(i):
  shard = i // 2  # hosts 0 and 1 feed shard 0, hosts 2 and 3 shard 1
  it = It(shard)
  it.pos = 10 + shard
  ck = checkpoints.Checkpointer(d.make_state(1), d.make_partitioner((shard, 2, i % 2 == 0), False), d.TMP + '/ck', dataset_iterator=it)
  ck.save(d.make_state(1))
  it.pos = 0
  ck.restore(step=1)
  return it.pos

res, err = H.run(host)
d.done(not err and [res.get(i) for i in range(4)] == [10, 10, 11, 11], f'{res} {err}')
'''
