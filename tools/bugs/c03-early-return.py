PROPERTY = 'C03'
NEEDS = 'several arrays whose total exceeds the limit, with the writes of one slow while the next is admitted'
BREAKS = 'Bytes are returned to the budget when the array is opened instead of when it is written, so arrays in flight exceed concurrent_gb.'
EDITS = [('t5x/checkpoints.py', """            context=ts.Context({'file_io_concurrency': {'limit': 128}}),
        )
        await t.write(arr)
      await bytes_cv.return_bytes(n_bytes)
""", """            context=ts.Context({'file_io_concurrency': {'limit': 128}}),
        )
        write_future = t.write(arr)
        await write_future.copy
        await bytes_cv.return_bytes(n_bytes)
        n_bytes = 0
        await write_future.commit
      await bytes_cv.return_bytes(n_bytes)
""")]
DEMO = '''
import demo_lib as d
import asyncio
import numpy as np
from t5x import checkpoints
st = d.make_state(1, leaves=[(f'w{i}', (8,)) for i in range(6)])
ck = checkpoints.Checkpointer(st, d.make_partitioner(), d.TMP + '/ck')
live = [0, 0]
real_open = checkpoints.ts.open

class W:
  def __init__(self, t, arr):
    self.t, self.n = t, arr.nbytes
    live[0] += self.n
    live[1] = max(live)
    self.fut = t.write(arr)
    self.copy = self.fut.copy
  async def _end(self):
    await asyncio.sleep(0.02)
    await self.fut
    live[0] -= self.n
  def __await__(self):
    return self._end().__await__()
  @property
  def commit(self):
    return self

class T:
  def __init__(self, t):
    self.t = t
  def write(self, arr):
    return W(self.t, arr)

class Open:
  def __init__(self, f):
    self.f = f
  async def _w(self):
    return T(await self.f)
  def __await__(self):
    return self._w().__await__()

class TS:
  def __getattr__(self, n):
    return getattr(d_ts, n)
  def open(self, *a, **k):
    return Open(real_open(*a, **k))
d_ts = checkpoints.ts
checkpoints.ts = TS()
ck.save(st, concurrent_gb=64e-9)
checkpoints.ts = d_ts
d.done(live[1] <= 64, f'{live[1]} bytes in flight, limit 64')
'''
