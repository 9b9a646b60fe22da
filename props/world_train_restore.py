"""Where training starts from: resumed, pretrained or from scratch, once."""

import os

import numpy as np

from dst import core
from dst.simfs import FaultPlan
from dst.simfs import with_nopreempt
from props import common as c
from props import world_train as wt
from t5x import checkpoints
from t5x import trainer as trainer_lib
from t5x import utils


def draw_cfg(ch):
  cfg = wt.draw_base(ch)
  cfg['replicas'] = 1
  cfg['data'] = 'count'
  cfg['microbatches'] = None
  cfg['total'] = 4 + ch.draw(5, 'total')
  cfg['save'] = ch.chance(850)
  cfg['period'] = ch.pick([2, 1, 3], 'period') if cfg['save'] else None
  cfg['keep'] = ch.pick([None, 1, 2], 'keep') if cfg['save'] else None
  cfg['save_ds'] = cfg['save'] and ch.chance(500)
  cfg['stats_period'] = ch.pick([None, 1], 'stats')
  cfg['restore'] = ch.pick(['latest', 'specific', 'latest', 'none', 'empty',
                            'bare'], 'restore')
  cfg['donor_steps'] = ch.pick([3, 2, 1, 0], 'donor-steps')
  cfg['transform'] = ch.pick(['move', 'none', 'drop', 'both'], 'transform')
  cfg['restore_ds'] = ch.chance(400)
  cfg['save_dtype'] = ch.pick(['float32', 'float32', 'bfloat16'], 'save-dtype')
  cfg['restore_dtype'] = ch.pick([None, 'float32', 'bfloat16'], 'restore-dtype')
  cfg['relative'] = ch.pick([None, None, 2, 3], 'relative')
  return cfg


class World(wt.World):

  def __init__(self, run):
    ch = run.ch
    cfg = draw_cfg(ch)
    run.note(**cfg)
    super().__init__(run, cfg, run.sim(), run.scratch)
    self.s.fs = FaultPlan(self.ch)
    self.s.preempt = self.ch.pick([0, 30, 200], 'preempt')
    self.data_delay = self.ch.pick([0, 0, 0.3], 'data-delay')
    self.pre = os.path.join(run.scratch, 'pre', cfg['dirname'])
    self.donor = None
    self.starts, self.calls, self.first_batch, self.at = {}, {}, {}, {}
    self.phase = 'donor'

  def trainer_base(self):
    world = self

    class Trainer(trainer_lib.Trainer):

      def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        host = core.current().host
        world.starts[host.name] = with_nopreempt(
            core.current(),
            lambda: c.flat_np(self.train_state.state_dict()))

    return Trainer

  def restore_cfg(self):
    cfg = self.cfg
    if self.phase == 'donor' or cfg['restore'] == 'none':
      return None
    kw = {}
    fns = []
    if cfg['transform'] in ('move', 'both'):
      fns.append(self.move)
    if cfg['transform'] in ('drop', 'both'):
      kw.update(assignment_map=[(r'.*/b', None)], fallback_to_scratch=True)
    if cfg['restore'] == 'bare':
      path, mode = [], 'latest'
    elif cfg['restore'] == 'specific':
      path, mode = os.path.join(
          self.pre, c.ckpt_name(self.donor[0])), 'specific'
    elif cfg['restore'] == 'empty':
      path, mode = os.path.join(self.pre, 'nothing'), 'latest'
    else:
      path, mode = self.pre, 'latest'
    return utils.RestoreCheckpointConfig(
        path=path, mode=mode, dtype=cfg['restore_dtype'], state_transformation_fns=tuple(fns),
        restore_dataset=cfg['restore_ds'] and cfg['donor_ds'], **kw)

  def move(self, state_dict, target_state_dict, *, is_resuming=False):
    host = core.current().host
    self.calls.setdefault(host.name, []).append(is_resuming)
    if is_resuming:
      return state_dict
    out = {**state_dict, 'target': dict(state_dict['target'])}
    out['target']['w'] = state_dict['state']['param_states']['0']['mu']['w']
    return out

  def get_dataset(self, cfg, shard, shards, converter):
    it = super().get_dataset(cfg, shard, shards, converter)
    world = self

    class Iterator(type(it)):

      def __next__(self):
        world.first_batch.setdefault(core.current().host.name, self.pos)
        return super().__next__()

    it.__class__ = Iterator
    return it

  def stepped(self, host, state):
    self.at[host.name] = int(np.asarray(state.step))

  def expect(self):
    """(source, state, position of the input) where a job must start."""
    cfg = self.cfg
    have = wt.listed(self.dir)
    if have:
      path = os.path.join(self.dir, c.ckpt_name(have[-1]))
      state = with_nopreempt(core.current(), lambda: wt.raw_read(path))
      pos = have[-1] - self.origin_step + self.origin_pos
      return 'resumed', state, pos if cfg['save_ds'] else 0
    if cfg['restore'] in ('latest', 'specific'):
      step = self.donor[-1 if cfg['restore'] == 'latest' else 0]
      want = dict(self.donor_states[step])
      if cfg['transform'] in ('move', 'both'):
        want['target/w'] = want['state/param_states/0/mu/w']
      if cfg['restore_dtype']:
        want.update({k: v.astype(cfg['restore_dtype'])
                     for k, v in want.items() if k.startswith('target/')})
      if cfg['transform'] in ('drop', 'both'):
        want.update({k: v for k, v in self.states[0].items()
                     if k.endswith('/b')})
      ds = cfg['restore_ds'] and cfg['donor_ds']
      return 'pretrained', want, step if ds else 0
    return 'scratch', self.states[0], 0

  def supervise(self):
    ch, s, cfg = self.ch, self.s, self.cfg
    keep_cfg, keep_dir = dict(cfg), self.dir
    self.origin_step = self.origin_pos = 0
    # the job that the pretrained checkpoints come from
    donor = dict(cfg, seed=1 - cfg['seed'], total=cfg['donor_steps'], save=True,
                 period=1, keep=None, save_ds=ch.chance(700),
                 save_dtype='float32')
    self.cfg, self.dir = donor, self.pre
    results, bad, _ = self.job()
    if bad or len(results) != cfg['hosts']:
      self.run.unexpected(bad[0].exc, bad[0].tb, 'the donor job')
    self.donor = wt.listed(self.pre)
    if not self.donor or self.donor[-1] != donor['total']:
      s.fail('lost-checkpoint', f'trained to step {donor["total"]}, saving '
             f'each: there are the checkpoints {self.donor}')
    os.makedirs(os.path.join(self.pre, 'nothing'))
    self.cfg, self.dir, self.phase = keep_cfg, keep_dir, 'main'
    cfg = self.cfg
    cfg['donor_ds'] = donor['save_ds']
    rounds = ch.pick([1, 2, 0], 'rounds')
    for k in range(rounds + 1):
      last = k == rounds
      s.fs.crash_at = {}
      kill = None
      if not last:
        who = ch.draw(cfg['hosts'], 'who')
        if ch.chance(600):
          s.fs.crash_at = {who: 1 + ch.draw(60 if who == 0 else 12, 'at')}
        else:
          kill = (who, ch.draw(80, 'when') / 20)
      self.starts, self.calls, self.first_batch, self.at = {}, {}, {}, {}
      source, state, pos = self.expect()
      first = int(state['state/step'])
      if source != 'resumed':
        self.origin_step, self.origin_pos = first, pos
      kw = {}
      if cfg['relative']:
        kw['relative_steps'] = cfg['relative']
      results, bad, died = self.job(kill, **kw)
      if bad:
        self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
      for name, got in self.starts.items():
        why = c.differs(got, state)
        if why:
          s.fail('wrong-start', f'{name} must start {source} at step {first}: '
                 f'{why}')
        calls = self.calls.get(name, [])
        due = {'resumed': [True], 'pretrained': [False], 'scratch': []}[source]
        if cfg['restore'] == 'none' or cfg['transform'] not in (
            'move', 'both'):
          due = []
        if calls != due:
          s.fail('wrong-transform', f'{name} starts {source}; is_resuming of '
                 f'the calls of the transformation: {calls}, expected {due}')
        if name in self.first_batch and self.first_batch[name] != pos:
          s.fail('wrong-input', f'{name} starts {source} at step {first} with '
                 f'batch {self.first_batch[name]} of its input, expected '
                 f'{pos}')
        self.run.probe('start-' + source)
      end = first + cfg['relative'] if cfg['relative'] else cfg['total']
      for step, state in results:
        if step != end or int(np.asarray(state.step)) != end:
          s.fail('wrong-end', f'started at {first}, ended at {step}, expected '
                 f'{end}')
      if last and len(results) != cfg['hosts']:
        s.fail('no-progress', 'without faults training did not finish')


def world(run):
  w = World(run)
  w.states, _ = wt.reference(run, w.cfg)
  w.donor_states, _ = wt.reference(run, dict(w.cfg, seed=1 - w.cfg['seed']))
  with wt.Patched(w):
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)
