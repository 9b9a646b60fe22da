"""Save / restore round trips across topologies, dtypes and completion orders.

One job writes checkpoints; other jobs, with another number of hosts, another
layout and other options, restore them, some with read failures injected.
"""

import os

import flax
import jax
import ml_dtypes
import numpy as np

from dst import core
from dst import simhosts
from dst.simfs import FaultPlan
from props import common as c
from t5x import state_utils

checkpoints = c.checkpoints
BF16 = ml_dtypes.bfloat16


def grid(n, rep):
  return n // rep, rep


class World:

  def __init__(self, run):
    self.run = run
    self.ch = ch = run.ch
    place = c.draw_place(ch, odd=True)
    c.use_prefix(place['prefix'])
    self.dir = os.path.join(run.scratch, place['dirname'])
    os.makedirs(self.dir)
    self.s = run.sim()
    self.s.fs = FaultPlan(ch)
    self.s.preempt = ch.pick([0, 50, 300], 'preempt')
    self.s.ts_latency = ch.pick([0, 40, 300], 'ts-latency')
    cfg = self.cfg = place
    cfg['leaves'] = ch.pick([['w', 'b'], ['w'], ['w', 'b', 'emb', 's']],
                            'leaves')
    cfg['moments'] = ch.chance(600)
    cfg['mutables'] = ch.chance(300)
    cfg['dtype'] = ch.pick([np.float32, BF16], 'dtype')
    cfg['save_dtype'] = ch.pick([np.float32, BF16], 'save-dtype')
    cfg['unpart'] = []
    if ch.chance(500):
      cfg['unpart'] = ch.subset(
          [f'target/p/{n}' for n in cfg['leaves']]
          + [f'state/param_states/{n}/m' for n in cfg['leaves']], 300)
    cfg['axis0'] = ch.pick(['data', None, 'model'], 'axis0')
    cfg['input'] = ch.pick(['np', 'lazy', 'jax', 'mixed', 'sharded'],
                           'input')
    cfg['chunk'] = ch.pick([None, 16, 64], 'chunk-bytes')
    cfg['gb'] = ch.pick([128, 1e-7, 3e-7, 2e-8], 'concurrent-gb')
    cfg['hosts'] = ch.pick([1, 2, 3, 4], 'hosts')
    if cfg['input'] in ('jax', 'mixed', 'sharded'):
      cfg['hosts'] = 1
    run.note(**{k: str(v) for k, v in cfg.items()})
    # A knob, not a behaviour: how small TensorStore chunks get.
    if hasattr(checkpoints, '_DESIRED_CHUNK_SIZE_BYTES'):
      self.old_chunk = checkpoints._DESIRED_CHUNK_SIZE_BYTES
      if cfg['chunk']:
        checkpoints._DESIRED_CHUNK_SIZE_BYTES = cfg['chunk']

  def restore_knobs(self):
    if hasattr(self, 'old_chunk'):
      checkpoints._DESIRED_CHUNK_SIZE_BYTES = self.old_chunk

  # ---- states
  def leafs(self, state):
    """The state as the caller of save() passes it in."""
    kind = self.cfg['input']
    if kind == 'np':
      return state
    n = [0]

    def conv(x):
      n[0] += 1
      x = np.asarray(x)
      k = kind if kind != 'mixed' else ('np', 'lazy', 'jax')[n[0] % 3]
      if k == 'jax':
        return jax.numpy.asarray(x)
      if k == 'lazy':
        return checkpoints.LazyThreadPoolArray(x.shape, x.dtype,
                                               lambda x=x: self.produce(x))
      return x

    sd = state.state_dict()
    sd = dict(sd)
    if kind == 'sharded':
      axes = c.axes_of(self.cfg, state)
      for part in ('target', 'state'):
        sd[part] = jax.tree_util.tree_map(
            lambda x, a: x if a is None else jax.device_put(
                x, jax.sharding.NamedSharding(c.four_mesh(), a)),
            sd[part], axes[part])
      return state.restore_state(sd)
    sd['target'] = jax.tree_util.tree_map(conv, sd['target'])
    return state.restore_state(sd)

  def produce(self, x):
    self.s.sleep(0.01 * (x.size % 7))
    return x

  def job(self, name, n, fn, expect_errors=False):
    """Runs fn on n hosts; returns the tasks."""
    s = self.s
    group = simhosts.Group(s, n, name)
    hosts = [s.add_host(i, f'{name}{i}', group=group) for i in range(n)]
    tasks = [s.spawn(h, lambda h=h: fn(h), 'main') for h in hosts]
    for t in tasks:
      t.expected = True
    while not all(t.done for t in tasks):
      if any(t.done and t.exc is not None for t in tasks):
        s.sleep(0.5)
        for h in hosts:
          s.crash_host(h, 'killed with its job')
        break
      s.sleep(0.5)
    for t in tasks:
      s.join(t)
    for t in tasks:
      if t.exc is not None and not isinstance(
          t.exc, (core.SimKilled, core.SimStop)) and not expect_errors:
        self.run.unexpected(t.exc, t.tb, t.host.name)
    return tasks

  # ---- writer
  def writer(self, host):
    cfg = self.cfg
    n, rep = cfg['hosts'], self.rep
    gm = c.fake_mesh(n // rep * self.k, rep, n // rep, rep, host.index)
    part = c.SimPartitioner(gm, c.axes_of(cfg, c.state_of(cfg, 0, 0)))
    template = c.state_of(cfg, 0, 't')
    if cfg['input'] == 'sharded':
      template = self.leafs(template)
    ck = checkpoints.Checkpointer(
        template, part, self.dir, save_dtype=cfg['save_dtype'])
    for step in self.steps:
      ck.save(self.leafs(c.state_of(cfg, step, 'w')),
              state_transformation_fns=self.save_fns,
              concurrent_gb=cfg['gb'])

  def expected(self, step):
    want = c.on_disk(self.cfg, c.state_of(self.cfg, step, 'w'))
    if self.save_fns:
      want = {k: v for k, v in want.items() if not k.endswith('/m')}
    return want

  # ---- reader
  def reader_cfg(self, i):
    ch = self.ch
    r = {}
    r['hosts'] = ch.pick([1, 2, 3], f'reader-hosts')
    r['lazy'] = ch.chance(350)
    r['on_devices'] = not r['lazy'] and not ch.chance(300)
    r['restore_dtype'] = ch.pick([None, np.float32, BF16], 'restore-dtype')
    r['axis0'] = ch.pick(['data', None, 'model'], 'reader-axis0')
    r['four'] = r['on_devices'] and ch.chance(400)
    r['unpart'] = ch.subset(
        [f'target/p/{n}' for n in self.cfg['leaves']], 200)
    r['mode'] = ch.weighted([
        ('plain', 6), ('fallback', 2), ('rename', 2), ('missing', 1),
        ('shape', 1), ('loader', 3)], 'reader-mode')
    if r['mode'] == 'fallback' and not self.cfg['moments']:
      r['mode'] = 'plain'  # merging states drops nodes that are empty
    r['step'] = ch.pick(self.steps, 'reader-step')
    r['how'] = ch.pick(['step', 'path', 'file'], 'how')
    r['faults'] = ch.pick([0, 0, 1, 2], 'read-faults')
    r['fault_at'] = [1 + ch.draw(40, 'fault-at') for _ in range(r['faults'])]
    return r

  def template(self, r):
    cfg = dict(self.cfg)
    cfg['axis0'] = r['axis0']
    cfg['unpart'] = r['unpart']
    st = c.state_of(cfg, 0, 'r')
    if self.save_fns and r['mode'] not in ('fallback',):
      sd = dict(st.state_dict())
      ps = {n: {'v': d['v']} for n, d in
            sd['state']['param_states'].items()}
      sd['state'] = {**sd['state'], 'param_states': ps}
      st = self.rebuild(st, sd)
    if r['mode'] in ('fallback', 'missing'):
      sd = dict(st.state_dict())
      t = dict(sd['target'])
      t['p'] = {**t['p'], 'zz': c.arr((12, 2), np.float32, 'zz')}
      sd['target'] = t
      st = self.rebuild(st, sd)
    if r['mode'] == 'rename':
      sd = dict(st.state_dict())
      t = dict(sd['target'])
      p = dict(t['p'])
      p['w2'] = p.pop('w')
      t['p'] = p
      sd['target'] = t
      st = self.rebuild(st, sd)
    if r['mode'] == 'shape':
      sd = dict(st.state_dict())
      t = dict(sd['target'])
      t['p'] = {**t['p'], 'w': c.arr((12, 8), np.float32, 'zz')}
      sd['target'] = t
      st = self.rebuild(st, sd)
    return cfg, st

  def rebuild(self, st, sd):
    opt = c.optimizers.Optimizer(
        c.PlainDef(), c.optimizers.OptimizerState(
            sd['state']['step'], sd['state']['param_states']), sd['target'])
    mut = st.flax_mutables
    return c.train_state_lib.FlaxOptimTrainState(opt, flax_mutables=mut)

  def make_ck(self, host, r):
    n = r['hosts']
    gm = c.fake_mesh(n, 1, n, 1, host.index)
    cfg, st = self.template(r)
    part = c.SimPartitioner(gm, c.axes_of(cfg, st),
                            on_devices=r['on_devices'],
                            real_mesh=c.four_mesh() if r['four'] else None)
    return checkpoints.Checkpointer(
        st, part, self.dir, restore_dtype=r['restore_dtype']), st

  def want_restored(self, r, template):
    want = self.expected(r['step'])
    if r['mode'] == 'rename':
      want['target/p/w2'] = want.pop('target/p/w')
    out = {}
    for k, v in want.items():
      if k.startswith('target/') and r['restore_dtype'] is not None:
        v = v.astype(r['restore_dtype'])
      out[k] = v
    if r['mode'] == 'fallback':
      for k, v in c.flat_np(template.state_dict()).items():
        if k not in out:
          out[k] = v
    return out

  def attempt(self, host, r, ck, template):
    """One restore. Returns the flat restored state."""
    if r['mode'] == 'loader':
      d = os.path.join(self.dir, c.ckpt_name(r["step"]))
      kw = {}
      if r['how'] == 'step':
        path, kw = self.dir, {'step': r['step']}
      else:
        path = d if r['how'] == 'path' else os.path.join(d, 'checkpoint')
      tree = checkpoints.load_t5x_checkpoint(
          path, lazy_parameters=r['lazy'], restore_dtype=r['restore_dtype'],
          **kw)
      return tree
    kw = {}
    if r['how'] == 'step':
      kw['step'] = r['step']
    else:
      p = os.path.join(self.dir, c.ckpt_name(r["step"]))
      kw['path'] = p if r['how'] == 'path' else os.path.join(p, 'checkpoint')
    if r['mode'] == 'fallback':
      kw['fallback_state'] = template.state_dict()
    if r['mode'] == 'rename':
      def rename(sd, target, is_resuming=False):
        sd = dict(sd)
        t = dict(sd['target'])
        p = dict(t['p'])
        p['w2'] = p.pop('w')
        t['p'] = p
        sd['target'] = t
        return sd
      kw['state_transformation_fns'] = [rename]
    return ck.restore(lazy_parameters=r['lazy'], **kw).state_dict()

  def reader(self, host, r):
    ck, template = (None, None)
    if r['mode'] != 'loader':
      ck, template = self.make_ck(host, r)
    faults = list(r['fault_at'])
    host.env['reads'] = 0

    def once():
      host.env['faults'] = faults.pop(0) if faults else None
      host.env['reads'] = 0
      return self.attempt(host, r, ck, template)

    tries = len(faults) + 1
    for k in range(tries):
      injected = None
      try:
        tree = once()
        if r['lazy']:
          self.realise(host, tree)
        got = c.flat_np(tree)
      except (core.SimKilled, core.SimStop, core.HarnessError):
        raise
      except Exception as e:  # pylint: disable=broad-exception-caught
        if r['mode'] in ('missing', 'shape') and not (
            r['mode'] == 'shape' and self.msgpack_w(r)):
          self.run.probe('refused')
          return
        if host.env.get('hit'):
          host.env['hit'] = False
          self.run.probe('read-error-surfaced')
          continue
        self.s.fail('restore-failed', f'{host.name} {r}: '
                    f'{type(e).__name__}: {str(e)[:300]}')
      host.env['hit'] = False
      if r['mode'] == 'missing':
        self.s.fail('missing-accepted', 'a parameter absent from the '
                    'checkpoint was silently accepted')
      if r['mode'] == 'shape' and not self.msgpack_w(r):
        self.s.fail('shape-accepted', 'a partitioned parameter of another '
                    'shape was silently restored')
      if r['mode'] == 'shape':
        return
      want = self.want_restored(r, template)
      why = c.differs(got, want)
      if why:
        self.s.fail('wrong-restore', f'{host.name} step {r["step"]} {r}: {why}')
      self.run.probe('restored-' + r['mode'])

  def msgpack_w(self, r):
    """`w` was written to the msgpack file, whose leaves carry no shape check."""
    return ('target/p/w' in self.cfg['unpart'])

  def realise(self, host, tree):
    """Several caller threads materialise the lazy arrays at once."""
    lazies = [x for x in jax.tree_util.tree_leaves(tree)
              if isinstance(x, checkpoints.LazyArray)]
    errors = []

    def one(i):
      for x in lazies[i::3]:
        try:
          a = np.asarray(x.get())
        except Exception as e:  # pylint: disable=broad-exception-caught
          errors.append(e)
          return
        if a.shape != x.shape or a.dtype != x.dtype:
          self.s.fail('lazy-meta', f'{x} materialised as {a.dtype}{a.shape}')

    import threading
    ths = [threading.Thread(target=lambda i=i: one(i)) for i in range(2)]
    for t in ths:
      t.start()
    for t in ths:
      t.join()
    if errors:
      raise errors[0]

  def read_fault(self, host, kind, path):
    at = host.env.get('faults')
    if at is None:
      return
    host.env['reads'] += 1
    if host.env['reads'] == at:
      host.env['hit'] = True
      self.s.fault('read-error', f'{host.name} {kind} {self.s.rel(path)}')
      raise OSError(5, 'injected read error', path)

  def supervise(self):
    ch = self.ch
    cfg = self.cfg
    n = cfg['hosts']
    self.rep = 2 if n in (2, 4) and ch.chance(300) else 1
    self.k = ch.pick([1, 2], 'per-host')
    self.steps = ch.pick([[1001], [0, 1001], [3, 257, 1001]], 'steps')
    self.save_fns = []
    if cfg['moments'] and ch.chance(200):
      def drop(sd, infos):
        def f(d):
          d = dict(d)
          st = dict(d['state'])
          st['param_states'] = {n: {'v': x['v']}
                                for n, x in st['param_states'].items()}
          d['state'] = st
          return d
        return f(sd), f(infos)
      self.save_fns = [drop]
    self.job('w', n, self.writer)
    for st in self.steps:
      if st not in checkpoints.all_steps(self.dir):
        self.s.fail('not-listed', f'saved step {st} is not listed')
    self.s.read_fault = self.read_fault
    readers = [self.reader_cfg(i) for i in range(1 + ch.draw(2, 'readers'))]
    for i, r in enumerate(readers):
      self.job(f'r{i}_', r['hosts'], lambda h, r=r: self.reader(h, r))


def world(run):
  w = World(run)
  sup = w.s.add_host(99, 'ctl')
  w.s.spawn(sup, w.supervise, 'supervisor')
  try:
    run.go(w.s)
  finally:
    w.restore_knobs()
