"""utils.get_infer_fn over simulated hosts: order, padding, sharding, keys."""

import types

import jax
import numpy as np
import tensorflow as tf

from dst import core
from dst import simhosts
from dst.simfs import quiet_options
from dst.simfs import with_nopreempt
from props import common as c
from props import world_infer as wi
from t5x import utils


def draw_case(ch):
  k = {}
  k['mult'] = ch.pick([1, 2, 3], 'per-shard-batch')
  k['n'] = 1 + ch.draw(13, 'examples')
  k['kind'] = ch.pick(['scores', 'tokens', 'aux', 'nested'], 'kind')
  k['rng'] = ch.pick(['key', 'none', 'absent'], 'rng')
  k['mutables'] = ch.chance(300)
  k['np'] = ch.chance(300)
  k['odd'] = ch.weighted([(None, 6), ('length', 1), ('shape', 1)], 'odd-host')
  return k


def make_step(k, log):
  """The model's step; remembers the keys it was given."""
  def out(params, batch, rng, mutables):
    x = np.asarray(batch['x'])
    if params['w'] != 3 or (mutables or {}).get('m') != (
        4 if k['mutables'] else None):
      raise ValueError('the step was not given the state')
    log.append(None if rng is None else tuple(np.asarray(rng).ravel().tolist()))
    base = x[:, 0] * 3 + x[:, 1]
    if k['kind'] == 'scores':
      return base.astype(np.float32)
    toks = np.stack([x[:, 0] + 5, base], 1).astype(np.int32)
    if k['kind'] == 'tokens':
      return toks
    if k['kind'] == 'nested':
      return {'t': toks, 's': {'b': base.astype(np.float32)}}
    return toks, {'scores': (x[:, 0] * 0.5).astype(np.float32),
                  'more': {'y': x[:, 1] + 7}}

  if k['rng'] == 'absent':
    if k['mutables']:
      return lambda params, batch, flax_mutables=None: out(
          params, batch, None, flax_mutables)
    return lambda params, batch: out(params, batch, None, None)
  if k['mutables']:
    return lambda params, batch, rng, flax_mutables=None: out(
        params, batch, rng, flax_mutables)
  return lambda params, batch, rng: out(params, batch, rng, None)


def want(k, i):
  base = i * 3 + (i * i % 11)
  if k['kind'] == 'scores':
    return float(base)
  toks = [i + 5, base]
  if k['kind'] == 'nested':
    return {'t': toks, 's': {'b': float(base)}}
  return toks


class World:

  def __init__(self, run):
    self.run, self.ch = run, run.ch
    self.s = run.sim()
    self.s.preempt = self.ch.pick([0, 50, 400], 'preempt')

  def host_main(self, host, cases, n_hosts, rep, k_per):
    gm = c.fake_mesh(n_hosts // rep * k_per, rep, n_hosts // rep, rep,
                     host.index)
    part = wi.InferPartitioner(gm, None)
    for k in cases:
      # get_data_layout demands a multiple of the data mesh
      part.batch = batch = n_hosts // rep * k_per * k['mult']
      log = []
      fn = utils.get_infer_fn(
          make_step(k, log), batch,
          types.SimpleNamespace(params=None, flax_mutables=None), part,
          keep_aux_as_numpy=k['np'])
      n = k['n']
      width = 2
      odd = k['odd'] if n_hosts > 1 and host.index == k['odd_host'] else None
      if odd == 'length':
        n += batch
      if odd == 'shape':
        width = 3
      ids = np.arange(n)
      rows = np.stack([ids, ids * ids % 11] + [ids] * (width - 2), 1)

      def make():
        return tf.data.Dataset.from_tensor_slices(
            {'x': rows}).with_options(quiet_options()).enumerate()

      ds = with_nopreempt(core.current(), make)
      kw = {} if k['rng'] != 'key' else {'rng': jax.random.PRNGKey(k['n'])}
      state = types.SimpleNamespace(
          params={'w': 3}, flax_mutables={'m': 4} if k['mutables'] else {})
      try:
        res = fn(ds, state, **kw)
      except AssertionError:
        if k['odd'] is None:
          raise
        self.run.probe('refused')
        raise
      if k['odd'] is not None and n_hosts > 1:
        self.returned.add(host.index)
        if len(self.returned) == n_hosts:
          self.s.fail('mismatch-accepted', 'hosts with different datasets all '
                      f'got results: {k}')
        return
      with_nopreempt(core.current(), lambda: self.check(host, k, res, log,
                                                        batch))

  def check(self, host, k, res, log, batch):
    fail = lambda why: self.s.fail('wrong-result', f'{host.name} {k}: {why}')
    aux = None
    if k['kind'] == 'aux':
      if not isinstance(res, tuple):
        fail('no auxiliary values were returned')
      res, aux = res
    got = [int(i) for i, _ in res]
    if sorted(got) != list(range(k['n'])):
      fail(f'indices {got}, expected each of {k["n"]} once')
    for j, (i, out) in enumerate(res):
      i = int(i)
      if out != want(k, i):
        fail(f'example {i} got {out}, expected {want(k, i)}')
      if aux is not None:
        a = (float(aux['scores'][j]), int(aux['more']['y'][j]))
        if a != (i * 0.5, i * i % 11 + 7):
          fail(f'aux values at position {j} (example {i}) are {a}')
    if aux is not None:
      if len(aux['scores']) != k['n'] or len(aux['more']['y']) != k['n']:
        fail('auxiliary values are not as long as the results')
      if isinstance(aux['scores'][0], np.ndarray) != k['np'] and not (
          k['np'] and isinstance(aux['scores'][0], np.generic)):
        fail(f'auxiliary values are {type(aux["scores"][0])}')
    # With several hosts only some run the step here, all through one batch.
    if k['rng'] == 'key':
      if len(set(log)) != len(log):
        fail('two batches were given the same random key')
    elif any(x is not None for x in log):
      fail('a random key appeared from nowhere')
    self.run.probe('compared')

  def supervise(self):
    ch, s = self.ch, self.s
    for job in range(3):
      n = ch.pick([1, 2, 3, 4], 'hosts')
      rep = 2 if n in (2, 4) and ch.chance(400) else 1
      k_per = ch.pick([1, 2], 'devices-per-host')
      cases = [draw_case(ch) for _ in range(1 + ch.draw(2, 'cases'))]
      for k in cases:
        k['odd_host'] = ch.draw(n, 'odd')
      self.run.note(**{f'job{job}': [n, rep, k_per, cases]})
      self.returned = set()
      g = simhosts.Group(s, n, f'j{job}')
      hosts = [s.add_host(i, f'j{job}h{i}', group=g) for i in range(n)]
      tasks = [s.spawn(h, lambda h=h: self.host_main(h, cases, n, rep, k_per),
                       'main') for h in hosts]
      for t in tasks:
        t.expected = True
      while not all(t.done for t in tasks):
        if any(t.done and t.exc is not None for t in tasks):
          s.sleep(0.1)
          for h in hosts:
            s.crash_host(h, 'killed with its job')
          break
        s.sleep(0.1)
      for t in tasks:
        s.join(t)
      for t in tasks:
        if t.exc is None or isinstance(t.exc, (core.SimKilled, core.SimStop)):
          continue
        if n > 1 and any(k['odd'] for k in cases):
          s.fault('inconsistent-dataset')
          continue
        self.run.unexpected(t.exc, t.tb, t.host.name)


def world(run):
  w = World(run)
  w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
  run.go(w.s)
