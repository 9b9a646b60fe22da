"""Checkpoints through the Orbax manager of t5x: asynchronous saves, crashes,
errors, restarts and readers."""

import dataclasses
import os

import jax
import ml_dtypes
import numpy as np
from clu.data import dataset_iterator
from t5x import utils

from dst import core
from dst import simfs
from dst import simhosts
from dst.simfs import FaultPlan
from props import common as c

checkpoints = c.checkpoints
BF16 = ml_dtypes.bfloat16


class Iter(dataset_iterator.DatasetIterator):
  """An iterator over positions, with the interface of clu."""

  def __init__(self, shard):
    self.shard = shard
    self.pos = 0

  def __next__(self):
    self.pos += 1
    return (self.shard, self.pos)

  def get_next(self):
    return next(self)

  def reset(self):
    self.pos = 0

  @property
  def element_spec(self):
    return None

  def save(self, filename):
    with open(os.fspath(filename), 'w') as f:
      f.write(f'{self.shard}:{self.pos}\n')

  def restore(self, filename):
    with open(os.fspath(filename)) as f:
      shard, pos = f.read().strip().split(':')
    assert int(shard) == self.shard, (shard, self.shard)
    self.pos = int(pos)

  load = restore


_DONATE = {}


def overwrite(x):
  """What a training step does to the state it was given: it is donated."""
  key = (x.shape, x.dtype)
  if key not in _DONATE:
    f = jax.jit(lambda y: y * 0 - 7, donate_argnums=0)
    _DONATE[key] = f.lower(x).compile()
  return _DONATE[key](x)


def state_of(cfg, step, salt):
  """A train state; some parameters may have no optimizer state at all."""
  st = c.state_of(cfg, step, salt)
  if not cfg['untouched']:
    return st
  opt = st._optimizer
  ps = {n: None if n in cfg['untouched'] else v
        for n, v in opt.state.param_states.items()}
  return dataclasses.replace(st, _optimizer=opt.replace(
      state=opt.state.replace(param_states=ps)))


def draw_cfg(ch):
  cfg = {}
  cfg['hosts'] = ch.pick([1, 1, 2, 1, 4], 'hosts')
  cfg['replicas'] = 2 if cfg['hosts'] > 1 and ch.chance(500) else 1
  cfg['leaves'] = ch.pick([['w', 'b'], ['w'], ['w', 'b', 'emb', 's'],
                           ['emb', 's']], 'leaves')
  cfg['moments'] = True
  cfg['untouched'] = ch.subset(cfg['leaves'], 300) if ch.chance(300) else []
  cfg['mutables'] = ch.chance(300)
  cfg['dtype'] = ch.pick([np.float32, BF16], 'dtype')
  cfg['save_dtype'] = ch.pick([None, np.float32, BF16], 'save_dtype')
  cfg['restore_dtype'] = ch.pick([None, np.float32, BF16], 'restore-dtype')
  cfg['unpart'] = []
  if ch.chance(300):
    cfg['unpart'] = ch.subset([f'target/p/{n}' for n in cfg['leaves']], 300)
  cfg['axis0'] = ch.pick(['data', None, 'model'], 'axis0')
  cfg['keep'] = ch.pick([None, 1, 2, 3], 'keep')
  cfg['keep_period'] = ch.pick([None, None, 2, 5], 'keep-period')
  cfg['ds'] = ch.chance(600)
  cfg['input'] = ch.pick(['np', 'jax', 'jax'], 'input')
  if cfg['hosts'] > 1:
    cfg['input'] = 'np'
  cfg['wait'] = ch.pick([0, 300, 1000], 'wait')
  cfg['legacy'] = cfg['hosts'] == 1 and ch.chance(200)
  cfg['readers'] = ch.chance(400)
  cfg.update(c.draw_place(ch))
  return cfg


class World:

  def __init__(self, run, cfg):
    self.run = run
    self.ch = run.ch
    self.cfg = cfg
    run.note(**{k: str(v) for k, v in self.cfg.items()})
    c.use_prefix(cfg['prefix'])
    self.dir = os.path.join(run.scratch, cfg['dirname'])
    os.makedirs(self.dir)
    self.s = run.sim()
    self.s.fs = FaultPlan(run.ch)
    self.s.preempt = run.ch.pick([0, 30, 150, 400], 'preempt')
    self.s.ts_latency = run.ch.pick([0, 50], 'ts-latency')
    self.attempted = {}  # step -> {salt: expected content}
    self.ds_attempt = {}  # (step, salt) -> {shard: pos}
    self.committed = {}  # step -> salt
    self.deleting = set()
    self.legacy = set()
    self.incarnation = 0
    self.s.monitors.append(self.monitor)

  # ---- reference
  def content(self, step, salt):
    return c.on_disk(self.cfg, state_of(self.cfg, step, salt))

  def restored(self, want):
    rd = self.cfg['restore_dtype']
    return {k: v.astype(rd) if k.startswith('target/') and rd is not None
            else v for k, v in want.items()}

  def state(self, step, salt):
    st = state_of(self.cfg, step, salt)
    st = jax.tree_util.tree_map(np.array, st)
    if self.cfg['input'] == 'jax':
      st = jax.tree_util.tree_map(jax.numpy.asarray, st)
    return st

  def match(self, got, step):
    """The salt of the save `got` is the content of, or None and why."""
    why = 'never saved'
    for salt, want in self.attempted.get(step, {}).items():
      why = c.differs(got, self.restored(want))
      if why is None:
        return salt, None
    return None, why

  def step_of(self, name):
    return c.ckpt_step(name)

  def disk_steps(self):
    out = [self.step_of(n) for n in simfs._real['listdir'](self.dir)]
    return sorted(x for x in out if x is not None)

  def monitor(self, host, kind, path):
    if not path.startswith(f'{self.dir}/{c.ckpt_name(str())}'):
      return
    inner = path.split(' -> ')[0][len(self.dir) + 1:].split('/')
    step = self.step_of(inner[0])
    if kind == 'rename':
      new = self.step_of(path.split(' -> ')[1])
      if new is not None and len(inner) == 1:
        self.run.probe('commit')
        if new not in self.attempted:
          self.s.fail('phantom', f'checkpoint {new} was never saved')
        for h in self.group_hosts:
          if h.index not in self.entered.get(new, set()):
            self.s.fail('early-commit', f'checkpoint {new} became visible '
                        f'before {h.name} began to save it')
      if step is not None and step not in self.deleting:
        self.note_deletion(step)
    elif kind in ('unlink', 'rmdir') and step is not None:
      self.note_deletion(step)

  def note_deletion(self, step):
    if step in self.deleting:
      return
    self.deleting.add(step)
    self.run.probe('delete')
    steps = sorted(set(self.disk_steps()) | {step})
    keep = self.cfg['keep']
    if not keep:
      self.s.fail('deleted-without-keep', f'checkpoint {step} deleted')
    if step in steps[-keep:]:
      self.s.fail('retention', f'checkpoint {step}, one of the newest {keep} '
                  f'of {steps}, was deleted')
    kp = self.cfg['keep_period']
    if kp and step % kp == 0:
      self.s.fail('retention', f'checkpoint {step}, a multiple of {kp}, '
                  'was deleted')

  # ---- the job
  @property
  def n_shards(self):
    return self.cfg['hosts'] // self.cfg['replicas']

  def partitioner(self, index, cfg=None):
    cfg = cfg or self.cfg
    n, rep = cfg['hosts'], cfg['replicas']
    gm = c.fake_mesh(n // rep, rep, n // rep, rep, index)
    return c.SimPartitioner(gm, c.axes_of(cfg, state_of(cfg, 0, 0)))

  def manager(self, index, ds, keep=True):
    cfg = self.cfg
    if not keep:  # as evaluation and inference make theirs
      rd = cfg['restore_dtype']
      return utils.create_orbax_checkpoint_manager(
          restore_cfg=utils.RestoreCheckpointConfig(
              path=self.dir, dtype=rd and np.dtype(rd).name),
          train_state=state_of(cfg, 0, 'template'),
          partitioner=self.partitioner(index), ds_iter=ds,
          model_dir=self.dir)
    kw = dict(keep=cfg['keep'], force_keep_period=cfg['keep_period'],
              save_dtype=cfg['save_dtype'])
    return checkpoints.OrbaxCheckpointManagerInterface(
        self.dir, state_of(cfg, 0, 'template'), self.partitioner(index), ds,
        restore_dtype=cfg['restore_dtype'], **kw)

  def restore_from(self, m, step, how):
    if how == 'step':
      return m.restore(step=step)
    d = os.path.join(self.dir, c.ckpt_name(step))
    return m.restore(path=d)

  def host_main(self, host, plan, how):
    cfg, s = self.cfg, self.s
    shard = host.index // cfg['replicas']
    ds = Iter(shard) if cfg['ds'] else None
    m = self.manager(host.index, ds)
    start = m.latest_step()
    disk = self.start_steps
    if start != (disk[-1] if disk else None):
      s.fail('latest', f'latest_step() is {start}, disk has {disk}')
    step = start
    if start is not None:
      legacy = start in self.legacy
      st = self.restore_from(m, start, how)
      got = c.flat_np(st.state_dict())
      salt, why = self.match(got, start)
      if why:
        s.fail('wrong-restore', f'{host.name}: restore of checkpoint {start} '
               f'by {how}: {why}')
      if ds is not None and not legacy:
        want = self.ds_attempt[(start, salt)][shard]
        if ds.pos != want:
          s.fail('dataset-resume', f'{host.name}: iterator resumed at '
                 f'{ds.pos}, saved {want}')
      self.run.probe('restore')
    keep, kp = cfg['keep'], cfg['keep_period']
    model = set(disk)
    unsure = []
    for inc, wait, again in plan:
      step = inc if step is None else step + max(1, inc)
      salt = self.incarnation
      if ds is not None:
        for _ in range(1 + (step + salt) % 3):
          next(ds)
        self.ds_attempt.setdefault((step, salt), {})[shard] = ds.pos
      self.attempted.setdefault(step, {}).setdefault(
          salt, self.content(step, salt))
      self.entered.setdefault(step, set()).add(host.index)
      st = self.state(step, salt)
      self.before_save(host, step)
      m.save(st)
      # Training goes on: the state is consumed, the iterator advances.
      self.consume(st)
      if again:
        m.save(self.state(step, salt))
        self.run.probe('saved-again')
      if ds is not None:
        next(ds)
      for old, osalt in unsure:  # a save waits for the one before it
        self.commit(host, old, osalt)
      unsure = [(step, salt)]
      model.add(step)
      if keep:
        newest = sorted(model)[-keep:]
        model = {x for x in model
                 if x in newest or (kp and x % kp == 0)}
      if wait:
        m.wait_until_finished()
        self.commit(host, step, salt)
        unsure = []
        if host.index == 0:
          self.retained(m, model)
      else:
        s.sleep(self.ch.draw(40, 'train') / 20.0)
    m.close()
    for old, osalt in unsure:
      self.commit(host, old, osalt)
    if host.index == 0:
      self.retained(m, model)
      self.run.probe('closed')

  def before_save(self, host, step):
    pass

  def consume(self, st):
    for x in jax.tree_util.tree_leaves(st):
      if isinstance(x, jax.Array):
        t = simfs._TASKS[simfs.get_ident()]
        simfs.with_nopreempt(t, lambda x=x: overwrite(x))

  def commit(self, host, step, salt):
    if host.index == 0:
      self.committed[step] = salt
      self.run.probe('saved')
    if step not in self.disk_steps() and step not in self.deleting:
      self.s.fail('save-not-visible', f'{host.name}: save of {step} was '
                  'reported finished, and it is not on disk')

  def retained(self, m, model):
    steps = self.disk_steps()
    if set(steps) != model:
      self.s.fail('retention', f'keep={self.cfg["keep"]}, keep period='
                  f'{self.cfg["keep_period"]}: kept {steps}, expected '
                  f'{sorted(model)}')
    if (list(m.all_steps()) != steps or m.latest_step() != steps[-1]
        or list(checkpoints.all_steps(self.dir)) != steps):
      self.s.fail('listing', f'{list(m.all_steps())}, '
                  f'{checkpoints.all_steps(self.dir)} != {steps}')

  def reader(self):
    """Another job that lists and reads checkpoints while they come and go."""
    for k in range(4):
      self.s.sleep(0.05 + self.ch.draw(100, 'reader') / 50.0)
      steps = checkpoints.all_steps(self.dir)
      if not steps:
        continue
      st = steps[self.ch.draw(len(steps), 'reader-step')]
      how = self.ch.pick(['step', 'path'], 'reader-how')
      try:
        m = self.manager(0, None, keep=False)
        got = c.flat_np(self.restore_from(m, st, how).state_dict())
        m.close()
      except (core.SimKilled, core.SimStop, core.HarnessError):
        raise
      except Exception as e:  # pylint: disable=broad-exception-caught
        if self.deleting:
          self.run.probe('reader-lost-race')
          continue
        self.s.fail('reader', f'a concurrent reader cannot read listed '
                    f'checkpoint {st}: {type(e).__name__}: {str(e)[:300]}')
      if st in self.deleting:
        continue
      _, why = self.match(got, st)
      if why:
        self.s.fail('reader', f'a concurrent reader of checkpoint {st} by '
                    f'{how} got something else: {why}')
      self.run.probe('reader-ok')

  # ---- supervision
  def run_incarnation(self, plan, crashes, errors):
    s, cfg = self.s, self.cfg
    group = simhosts.Group(s, cfg['hosts'], f'job{self.incarnation}')
    hosts = [s.add_host(i, f'i{self.incarnation}h{i}', group=group)
             for i in range(cfg['hosts'])]
    self.group_hosts = hosts
    self.entered = {}
    self.start_steps = self.disk_steps()
    how = self.ch.pick(['step', 'path'], 'how')
    s.fs.crash_at = dict(crashes)
    s.fs.error_at = errors
    tasks = [s.spawn(h, lambda h=h: self.host_main(h, plan, how), 'main')
             for h in hosts]
    for t in tasks:
      t.expected = bool(errors)
    rd = None
    if cfg['readers']:
      rh = s.add_host(90 + self.incarnation, f'reader{self.incarnation}',
                      group=simhosts.Group(s, 1, 'reader'))
      rh.index = 0
      rd = s.spawn(rh, self.reader, 'reader')
    while not all(t.done for t in tasks):
      dead = [h for h in hosts if not h.alive]
      failed = [t for t in tasks if t.done and t.exc is not None]
      if dead or failed:
        s.sleep(self.ch.draw(50, 'detect') / 10.0)
        break
      s.sleep(0.5)
    s.fs.crash_at, s.fs.error_at = {}, {}
    for h in hosts:  # the process ends, and its idle threads with it
      s.crash_host(h, 'ended')
    for t in tasks:
      s.join(t)
    if rd is not None:
      s.join(rd)
      s.crash_host(rh, 'ended')
      if rd.exc is not None and not isinstance(
          rd.exc, (core.SimKilled, core.SimStop)):
        self.run.unexpected(rd.exc, rd.tb, 'reader')
    died = [t for t in tasks if isinstance(t.exc, core.SimKilled)]
    failed = [t for t in tasks if t.exc is not None
              and not isinstance(t.exc, (core.SimKilled, core.SimStop))]
    if failed and not errors:
      self.run.unexpected(failed[0].exc, failed[0].tb, failed[0].host.name)
    return died, failed

  def audit(self, when):
    """Everything listed is complete; nothing that was reported is lost."""
    s = self.s
    disk = self.disk_steps()
    if list(checkpoints.all_steps(self.dir)) != disk:
      s.fail('listing', f'{when}: {checkpoints.all_steps(self.dir)} != {disk}')
    h = s.add_host(80 + self.incarnation, f'auditor{self.incarnation}',
                   group=simhosts.Group(s, 1, 'auditor'))
    h.index = 0

    def main():
      m = self.manager(0, None, keep=False)
      for st in disk:
        if st in self.deleting:
          continue
        how = self.ch.pick(['step', 'path'], 'audit-how')
        try:
          got = c.flat_np(self.restore_from(m, st, how).state_dict())
        except (core.SimKilled, core.SimStop, core.HarnessError):
          raise
        except Exception as e:  # pylint: disable=broad-exception-caught
          s.fail('unreadable', f'{when}: listed checkpoint {st} cannot be '
                 f'restored: {type(e).__name__}: {str(e)[:300]}')
        _, why = self.match(got, st)
        if why:
          s.fail('wrong-content', f'{when}: checkpoint {st} by {how} is not '
                 f'the state any save was given: {why}')
        self.run.probe('audited')
      m.close()

    s.join(s.spawn(h, main, 'auditor'))
    s.crash_host(h, 'ended')
    for st in sorted(self.committed):
      if st not in disk and st not in self.deleting:
        s.fail('lost', f'{when}: finished checkpoint {st} is gone')
    if self.committed and max(disk, default=-1) < max(self.committed):
      s.fail('newest-lost', f'{when}: newest finished checkpoint '
             f'{max(self.committed)} is gone')

  def write_legacy(self):
    """The directory was begun with the older checkpointer."""
    s, cfg = self.s, self.cfg
    h = s.add_host(70, 'old', group=simhosts.Group(s, 1, 'old'))
    h.index = 0

    def main():
      ck = checkpoints.Checkpointer(
          state_of(cfg, 0, 't'), self.partitioner(0), self.dir,
          save_dtype=cfg['save_dtype'] or cfg['dtype'])
      for step in (0, 1):
        self.attempted.setdefault(step, {})['old'] = self.content(step, 'old')
        self.legacy.add(step)
        ck.save(state_of(cfg, step, 'old'))
        self.committed[step] = 'old'

    self.group_hosts, self.entered = [], {}
    s.join(s.spawn(h, main, 'old'))
    s.crash_host(h, 'ended')
    self.run.probe('legacy')

  def supervise(self):
    ch, s, cfg = self.ch, self.s, self.cfg
    self.group_hosts, self.entered = [], {}
    if cfg['legacy']:
      self.write_legacy()
    incarnations = 1 + ch.draw(3, 'incarnations')
    for k in range(incarnations):
      self.incarnation = k
      plan = []
      for j in range((2 + ch.draw(3, 'saves')) if k == 0
                     else 1 + ch.draw(2, 'more')):
        plan.append((ch.pick([1, 4, 0], 'inc'), ch.chance(cfg['wait']),
                     ch.chance(150)))
      crashes, errors = {}, {}
      if k < incarnations - 1:
        who = ch.draw(cfg['hosts'], 'who')
        span = 40 * len(plan) if who == 0 else 10
        n = 1 + ch.draw(span, 'fault-at')
        if ch.chance(750):
          crashes[who] = n
        else:
          errors[who] = [(n, ch.pick([1, 10 ** 6], 'error-count'),
                          ch.pick(['enospc', 'eio'], 'error'))]
      died, failed = self.run_incarnation(plan, crashes, errors)
      self.audit(f'after incarnation {k}')
      if crashes and died:
        self.run.probe('crashed')
      if failed:
        self.run.probe('failed')


def world(run):
  w = World(run, draw_cfg(run.ch))
  sup = w.s.add_host(99, 'ctl')
  w.s.spawn(sup, w.supervise, 'supervisor')
  run.go(w.s)
