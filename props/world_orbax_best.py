"""Background checkpoints that are kept by a monitored metric."""

import functools

import gin
import numpy as np

from props import common as c
from props import world_best
from props import world_orbax
from t5x import utils

checkpoints = c.checkpoints


def draw_cfg(ch):
  cfg = world_orbax.draw_cfg(ch)
  cfg['hosts'] = ch.pick([1, 1, 2], 'hosts')
  cfg['replicas'], cfg['restore_dtype'] = 1, None
  cfg['leaves'] = ch.pick([['b'], ['w', 's']], 'leaves')
  cfg['input'], cfg['untouched'], cfg['unpart'] = 'np', [], []
  cfg['ds'] = cfg['legacy'] = cfg['readers'] = False
  cfg['saves'] = 3
  cfg['keep'] = ch.pick([1, 2, 3, None], 'keep')
  cfg['name'] = ch.pick(world_best.NAMES, 'metric')
  cfg['mode'] = ch.pick(['max', 'min'], 'mode')
  cfg['keep_without'] = ch.chance(500)
  cfg['keep_period'] = ch.pick([None, 2, 5, 10], 'force')
  cfg['skip'] = ch.pick([0, 150, 500, 1000], 'skip')  # metrics never written
  cfg['special'] = ch.pick([0, 300], 'special')
  cfg['decoys'] = ch.subset(world_best.DECOYS, 300)
  cfg['slow'] = ch.pick([0.0, 0.2, 3.0], 'slow')
  cfg['how'] = ch.pick(['gin', 'partial', 'direct'], 'settings')
  return cfg


class World(world_best.Metrics, world_orbax.World):

  def __init__(self, run, cfg):
    super().__init__(run, cfg)
    self.setup_metrics()
    self.los = {}  # step -> the metrics there were before it was saved

  def settings(self):
    cfg = self.cfg
    return dict(metric_name_to_monitor='/'.join(cfg['name']),
                metric_mode=cfg['mode'], force_keep_period=cfg['keep_period'],
                keep_checkpoints_without_metrics=cfg['keep_without'])

  def manager(self, index, ds, keep=True):
    cfg = self.cfg
    if not keep:
      return super().manager(index, ds, keep)
    manager_cls = checkpoints.OrbaxCheckpointManagerInterface
    saver = checkpoints.Checkpointer
    if cfg['how'] == 'direct':
      manager_cls = functools.partial(manager_cls, **self.settings())
    elif cfg['how'] == 'partial':
      saver = functools.partial(checkpoints.SaveBestCheckpointer,
                                **self.settings())
    else:
      saver = checkpoints.SaveBestCheckpointer
    save = utils.SaveCheckpointConfig(
        keep=cfg['keep'], checkpointer_cls=saver, dtype=cfg['save_dtype'] and
        np.dtype(cfg['save_dtype']).name,
        checkpoint_manager_cls=manager_cls, save_dataset=False)
    return utils.create_orbax_checkpoint_manager(
        save_cfg=save, train_state=world_orbax.state_of(cfg, 0, 'template'),
        partitioner=self.partitioner(index), ds_iter=ds, model_dir=self.dir)

  def before_save(self, host, step):
    super().before_save(host, step)
    if not host.index:
      self.los[step] = self.lo

  def host_main(self, host, plan, how):
    if host.index:
      return super().host_main(host, plan, how)
    self.stop = False
    self.queue = []
    t = self.s.spawn(host, self.metric_writer, 'metrics', daemon=True)
    try:
      super().host_main(host, plan, how)
    finally:
      self.stop = True
    self.s.join(t)

  # ---- oracle
  def free(self, steps):
    """The checkpoints that are kept for their metric alone."""
    kp = self.cfg['keep_period']
    return [x for x in sorted(steps)[:-1] if not (kp and x % kp == 0)]

  def facts(self, steps):
    return (f'keep={self.cfg["keep"]} mode={self.cfg["mode"]}, metrics '
            f'{ {x: self.value(x) for x in sorted(self.visible())} } of '
            f'{sorted(steps)}')

  def note_deletion(self, step):
    if step in self.deleting:
      return
    disk = set(self.disk_steps()) | {step}
    self.deleting.add(step)
    self.run.probe('delete')
    cfg, keep = self.cfg, self.cfg['keep']
    if not keep:
      self.s.fail('deleted-without-keep', f'checkpoint {step} deleted')
    if step not in self.free(disk):
      self.s.fail('best-retention', f'checkpoint {step} of {sorted(disk)} was '
                  f'deleted, keep period {cfg["keep_period"]}')
    hi, lo = self.visible(), self.los.get(max(disk), set())
    if cfg['keep_without'] and step not in hi:
      self.s.fail('best-retention', f'checkpoint {step} deleted, its metric '
                  'is not known')
    rest = disk - {step}
    least = [x for x in rest
             if x in hi and self.rank(x) >= self.rank(step)
             or not cfg['keep_without'] and self.rank(step) == float('-inf')]
    if step not in lo and not cfg['keep_without']:
      least = [x for x in rest if x in hi or x > step]
    if len(least) < keep:
      self.s.fail('best-retention', f'checkpoint {step} deleted though among '
                  f'the {keep} best: {self.facts(disk)}')
    if step in lo:
      self.run.probe('removed-by-metric')

  def retained(self, m, model):
    steps, cfg = self.disk_steps(), self.cfg
    if not cfg['keep']:
      if set(steps) != model:
        self.s.fail('best-retention', f'kept {steps} of {sorted(model)}')
    else:
      extra = [x for x in self.free(steps)
               if not cfg['keep_without'] or x in self.los[steps[-1]]]
      if len(extra) > cfg['keep']:
        self.s.fail('best-retention', f'kept too much: {self.facts(steps)}')
    if (list(m.all_steps()) != steps or m.latest_step() != steps[-1]
        or list(checkpoints.all_steps(self.dir)) != steps):
      self.s.fail('listing', f'{list(m.all_steps())}, '
                  f'{checkpoints.all_steps(self.dir)} != {steps}')


def world(run):
  cfg = draw_cfg(run.ch)
  w = World(run, cfg)
  with gin.unlock_config():
    gin.clear_config()
    c.use_prefix(cfg['prefix'])
    if cfg['how'] == 'gin':
      for k, v in w.settings().items():
        gin.bind_parameter(f'SaveBestCheckpointer.{k}', v)
  sup = w.s.add_host(99, 'ctl')
  w.s.spawn(sup, w.supervise, 'supervisor')
  run.go(w.s)
