"""Jobs of several hosts that read a directory in which another job saves.

Evaluation (world_eval) and training from pretrained checkpoints (world_train)
start while another process saves checkpoints there and removes old ones.
"""

import os
import shutil

import numpy as np

from dst import core
from dst.simfs import FaultPlan
from dst.simfs import with_nopreempt
from props import common as c
from props import world_eval as we
from props import world_train as wt
from t5x import checkpoints
from t5x import trainer as trainer_lib
from t5x import utils


class Live:
  """What the other job has saved and removed."""

  def __init__(self):
    self.saved = []
    self.removed = []
    self.stop = False

  def latest(self):
    return max(self.saved, default=None)


class EvalWorld(we.World):

  def __init__(self, run):
    super().__init__(run)
    ch, cfg = self.ch, self.cfg
    cfg['orbax'] = False
    cfg['hosts'] = ch.pick([2, 3, 4], 'live-hosts')
    cfg['batch'] = cfg['hosts'] * ch.pick([1, 2], 'per-host-batch')
    self.keep = ch.pick([None, None, 1, 2], 'keep')
    self.pause = ch.pick([0.0, 0.02, 0.3], 'pause')
    run.note(keep=self.keep, pause=self.pause, live_hosts=cfg['hosts'])
    self.s.preempt = ch.pick([100, 30, 300], 'preempt')
    self.live = Live()

  def writer(self):
    """Another job: saves step after step, and removes old ones."""
    s, live = self.s, self.live
    part = we.Partitioner(c.fake_mesh(1, 1, 1, 1, 0), None)
    first = True
    for step in self.cfg['steps'] + [20000, 20005, 20010]:
      if not first:
        s.sleep(self.ch.draw(20, 'gap') * 0.05)
      if live.stop:
        return
      first = False
      self.weights[step] = step % 97 + 3
      before = set(with_nopreempt(core.current(),
                                  lambda: checkpoints.all_steps(self.dir)))
      checkpoints.Checkpointer(
          we.full_state(self.weights[step], step), part, self.dir,
          keep=self.keep).save(we.full_state(self.weights[step], step))
      after = set(with_nopreempt(core.current(),
                                 lambda: checkpoints.all_steps(self.dir)))
      live.saved.append(step)
      live.removed += sorted(before - after)

  def started(self, host, step):
    self.seen.setdefault(host.name, []).append(step)
    if step not in self.weights:
      self.s.fail('wrong-step', f'{host.name} evaluates step {step}')
    super().started(host, step)

  def supervise(self):
    ch, s = self.ch, self.s
    self.save(self.cfg['steps'][:1])
    self.live.saved.append(self.cfg['steps'][0])
    writer = s.spawn(s.add_host(50, 'writer'), self.writer, 'writer')
    writer.expected = True
    for k in range(ch.pick([2, 1, 3], 'jobs')):
      self.seen = {}
      mode = ch.pick(['all', 'latest', 'all'], 'mode')
      s.sleep(ch.draw(20, 'start') * 0.05)
      low = self.live.latest()
      gone = len(self.live.removed)
      due = sorted(set(self.live.saved) - set(self.live.removed)
                   - self.recorded)
      clean, bad, died = self.job(f'r{k}', mode)
      orders = sorted(self.seen.values(), key=len)
      for o in orders:
        if o != orders[-1][:len(o)] or (clean and o != orders[-1]):
          s.fail('hosts-differ', 'hosts of one job evaluated different '
                 f'checkpoints: {self.seen}')
      races = self.keep is not None
      if bad and not races:
        self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
      if bad:
        self.run.probe('raised')
      elif clean:
        self.run.probe('evaluated')
        got = orders[-1] if orders else []
        if mode == 'latest' and (len(got) != 1 or got[0] < low or
                                 got[0] not in self.weights):
          s.fail('not-latest', f'evaluated {got} as the latest, {low} was '
                 'there before')
        if mode == 'all' and not races and set(due) - set(got):
          s.fail('skipped', f'{sorted(set(due) - set(got))} were there '
                 f'before, evaluated {got}')
        if len(self.weights) > len(due):
          self.run.probe('saved-meanwhile')
      else:
        s.fail('stuck', 'the job neither finished nor failed')
      by = {self.path(x): x for x in self.weights}
      self.recorded |= {by[x] for x in self.lines() if x in by}
    self.live.stop = True
    s.join(writer)
    if writer.exc is not None:
      self.run.unexpected(writer.exc, writer.tb, 'the job that saves')


class TrainWorld(wt.World):

  def __init__(self, run):
    ch = run.ch
    cfg = wt.draw_base(ch)
    cfg.update(hosts=ch.pick([2, 3, 4], 'live-hosts'), replicas=1,
               microbatches=None, ts=False, orbax=False, data='count',
               total=9, save=ch.chance(500), save_ds=False)
    if cfg['hosts'] == 3:
      cfg['replicas'] = 3
    cfg['period'] = 2 if cfg['save'] else None
    run.note(kind='train', **cfg)
    super().__init__(run, cfg, run.sim(), run.scratch)
    self.s.fs = FaultPlan(self.ch)
    self.s.preempt = self.ch.pick([100, 30, 300], 'preempt')
    self.pre = os.path.join(run.scratch, 'pre', cfg['dirname'])
    self.source = os.path.join(run.scratch, 'source')
    self.keep = ch.pick([None, None, 1, 2], 'keep')
    self.live = Live()
    self.starts = {}
    self.donating = True

  def trainer_base(self):
    world = self

    class Trainer(trainer_lib.Trainer):

      def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        world.starts[core.current().host.name] = with_nopreempt(
            core.current(), lambda: c.flat_np(self.train_state.state_dict()))

    return Trainer

  def restore_cfg(self):
    if self.donating:
      return None
    return utils.RestoreCheckpointConfig(path=self.pre, mode='latest')

  def writer(self):
    """Another job, seen from outside: checkpoints appear and disappear."""
    s, live = self.s, self.live
    steps = wt.listed(self.source)
    for i, step in enumerate(steps):
      if i:
        s.sleep(self.ch.draw(20, 'gap') * 0.02)
      if live.stop:
        return
      final = os.path.join(self.pre, c.ckpt_name(step))
      with_nopreempt(core.current(), lambda: shutil.copytree(
          os.path.join(self.source, c.ckpt_name(step)),
          final + '.tmp-17', dirs_exist_ok=True))
      s.yield_point('written')
      with_nopreempt(core.current(), lambda: os.rename(
          final + '.tmp-17', final))
      live.saved.append(step)
      s.event(f'the other job has saved step {step}')
      if self.keep is not None:
        for old in sorted(set(live.saved) - set(live.removed))[:-self.keep]:
          s.yield_point('remove')
          live.removed.append(old)
          path = os.path.join(self.pre, c.ckpt_name(old))
          with_nopreempt(core.current(), lambda: os.rename(
              path, path + '.tmp-deleted'))
          s.yield_point('removing')
          with_nopreempt(core.current(), lambda: shutil.rmtree(
              path + '.tmp-deleted'))

  def supervise(self):
    ch, s, cfg = self.ch, self.s, self.cfg
    mine, keep_dir = self.cfg, self.dir
    self.cfg = dict(cfg, seed=1 - cfg['seed'], hosts=1, replicas=1, total=6,
                    save=True, period=1, keep=None)
    self.dir = self.source
    _, bad, _ = self.job()
    if bad:
      self.run.unexpected(bad[0].exc, bad[0].tb, 'the donor job')
    self.cfg, self.dir, self.donating = mine, keep_dir, False
    os.makedirs(self.pre)
    writer = s.spawn(s.add_host(50, 'writer'), self.writer, 'writer')
    writer.expected = True
    while not self.live.saved and ch.chance(900):
      s.sleep(0.01)
    s.sleep(ch.draw(20, 'start') * 0.02)
    low = self.live.latest()
    self.starts = {}
    results, bad, _ = self.job()
    found = {int(x['state/step']) for x in self.starts.values()}
    if bad and self.keep is None:
      self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
    if len(found) > 1:
      s.fail('hosts-differ', 'hosts of one job start from different '
             f'checkpoints, of the steps {sorted(found)}')
    for name, got in sorted(self.starts.items()):
      step = int(got['state/step'])
      want = self.donor_states[step] if step in self.live.saved else None
      if want is None and step == 0 and low is None:
        want = self.states[0]
      if want is None or (low is not None and step < low):
        s.fail('wrong-start', f'{name} starts at step {step}; {low} was there '
               f'before, {self.live.saved} in the end')
      why = c.differs(got, want)
      if why and step == 0 and low is None:  # from scratch: none found
        why = c.differs(got, self.states[0])
      if why:
        s.fail('wrong-start', f'{name} starts at step {step}: {why}')
      self.run.probe('started')
    if bad:
      self.run.probe('raised')
    elif len(results) != cfg['hosts']:
      s.fail('stuck', 'the job neither finished nor failed')
    for step, state in results:
      if int(np.asarray(state.step)) != cfg['total']:
        s.fail('wrong-end', f'ended at {step}')
    self.live.stop = True
    s.join(writer)
    if writer.exc is not None:
      self.run.unexpected(writer.exc, writer.tb, 'the job that saves')


def world(run):
  if run.ch.chance(600):
    with we.Patched():
      w = EvalWorld(run)
      w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
      run.go(w.s)
    return
  w = TrainWorld(run)
  w.states, _ = wt.reference(run, w.cfg)
  w.donor_states, _ = wt.reference(run, dict(w.cfg, seed=1 - w.cfg['seed']))
  with wt.Patched(w):
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)
