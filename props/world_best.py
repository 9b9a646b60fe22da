"""Retention by a monitored metric: saves, a writer of TensorBoard events, and
crashes of both."""

import os
import threading

import numpy as np

from props import common as c
from props import world_ckpt

from tensorboard.compat.proto import event_pb2
from tensorboard.compat.proto import summary_pb2
from tensorboard.summary.writer import record_writer
import tensorflow as tf

checkpoints = c.checkpoints

NAMES = [('train', 'accuracy'), ('training_eval/glue', 'loss'),
         ('inference_eval/glue', 'eval/acc')]
DECOYS = [('train', 'accuracy2'), ('training_eval/glue', 'eval/acc'),
          ('inference_eval/glue', 'loss'), ('train', 'loss'),
          ('training_eval', 'accuracy'), ('inference_eval/glu', 'eval/acc'),
          ('train', 'top/accuracy'), ('training_eval/glue', 'z_loss'),
          ('inference_eval/glue', 'train_eval/acc')]


def draw_cfg(ch):
  cfg = world_ckpt.draw_cfg(ch, 'best')
  cfg['hosts'] = ch.pick([1, 2], 'hosts')
  cfg['replicas'], cfg['interleave'] = 1, False
  cfg['jax_arrays'] = False
  cfg['leaves'] = ch.pick([['b'], ['w', 's']], 'leaves')
  cfg['saves'] = 3 + ch.draw(5, 'saves')
  cfg['keep'] = ch.pick([1, 2, 3, None], 'keep')
  cfg['keep_ds'] = None
  cfg['ds'] = False
  cfg['readers'] = 0
  cfg['name'] = ch.pick(NAMES, 'metric')
  cfg['mode'] = ch.pick(['max', 'min'], 'mode')
  cfg['keep_without'] = ch.chance(500)
  cfg['force'] = ch.pick([None, 2, 5, 10], 'force')
  cfg['skip'] = ch.pick([0, 150, 500, 1000], 'skip')  # metrics never written
  cfg['special'] = ch.pick([0, 300], 'special')
  cfg['decoys'] = ch.subset(DECOYS, 300)
  cfg['slow'] = ch.pick([0.0, 0.2, 3.0], 'slow')
  return cfg


def record(tag, step, value):
  """One TensorBoard event, framed as in an event file."""
  s = summary_pb2.Summary()
  v = s.value.add()
  v.tag = tag
  v.metadata.plugin_data.plugin_name = 'scalars'
  v.metadata.data_class = summary_pb2.DATA_CLASS_SCALAR
  v.tensor.ParseFromString(
      tf.make_tensor_proto(np.float32(value)).SerializeToString())
  e = event_pb2.Event(wall_time=1.0, step=step, summary=s)

  class Out:
    data = b''

    def write(self, b):
      self.data += b

  out = Out()
  record_writer.RecordWriter(out).write(e.SerializeToString())
  return out.data


class Metrics:
  """The writer of the events that checkpoints are judged by."""

  def setup_metrics(self):
    self.marks = {}  # step -> (file, size) from which its metric is readable
    self.queue = []
    self.stop = False
    self.files = 0
    self.lo = set()
    self.vague = set()  # steps of which a second value may be missing

  def value(self, step):
    g = c.rnd('metric', step)
    if self.cfg['special'] and g.integers(1000) < self.cfg['special']:
      return float(g.choice([float('nan'), float('inf'), float('-inf')]))
    return float(g.integers(6))

  def rank(self, step):
    """The worth of a checkpoint whose metric is known; larger is better."""
    v = self.value(step)
    if v != v:
      return float('-inf')
    return v if self.cfg['mode'] == 'max' else -v

  def has_metric(self, step):
    return c.rnd('skip', step).integers(1000) >= self.cfg['skip']

  def visible(self):
    out = set()
    for step, (f, size) in self.marks.items():
      if os.path.exists(f) and os.path.getsize(f) >= size:
        out.add(step)
    return out

  def metric_writer(self):
    s = self.s
    out = {}
    while True:
      if not self.queue:
        if self.stop:
          return
        s.sleep(0.05)
        continue
      step = self.queue.pop(0)
      if self.cfg['slow']:
        s.sleep(self.ch.draw(10, 'metric-delay') / 5.0 * self.cfg['slow'])
      todo = [(d, self.value(step) * -1 - 1) for d in self.cfg['decoys']]
      if self.has_metric(step):
        at = self.ch.draw(len(todo) + 1, 'metric-order')
        todo.insert(at, (self.cfg['name'], self.value(step)))
      for (sub, tag), value in todo:
        try:
          self.put(out, sub, tag, step, value)
        except (OSError, tf.errors.OpError):
          out.pop(sub, None)  # a torn record: go on in another file

  def put(self, out, sub, tag, step, value):
    if sub not in out:
      d = os.path.join(self.dir, sub)
      tf.io.gfile.makedirs(d)
      self.files += 1
      name = (f'events.out.tfevents.{1000000000 + int(self.s.now):010d}.host.1.'
              f'{self.files:03d}.v2')
      out[sub] = open(os.path.join(d, name), 'wb')
    f = out[sub]
    data = record(tag, step, value)
    twice = False
    if (sub, tag) == self.cfg['name'] and step not in self.visible():
      twice = self.ch.chance(200)
      if twice:  # recorded twice: the later value counts
        data = record(tag, step, 2.5 - self.value(step)) + data
        self.vague.add(step)
      self.marks[step] = (f.name, f.tell() + len(data))
    if not twice and self.ch.chance(200):  # two writes: a reader may see the first half
      n = self.ch.draw(len(data), 'split')
      f.write(data[:n])
      f.flush()
      self.s.sleep(0.1)
      data = data[n:]
    f.write(data)
    f.flush()
    if (sub, tag) == self.cfg['name']:
      self.vague.discard(step)
    self.run.probe('twice' if twice else 'metric')

  def before_save(self, host, step):
    if host.index:
      return
    late = self.ch.chance(300)
    if not late:
      self.queue.append(step)
    if self.ch.chance(600):
      # As a loop that waits for its metrics before it saves.
      for _ in range(self.ch.draw(200, 'wait')):
        if not self.queue:
          break
        self.s.sleep(0.1)
    if late:
      self.queue.append(step)
    self.lo = self.visible()


class World(Metrics, world_ckpt.World):

  def __init__(self, run, cfg):
    super().__init__(run, cfg, 'best')
    self.setup_metrics()

  def checkpointer(self, host, ds):
    cfg = self.cfg
    return checkpoints.SaveBestCheckpointer(
        self.state(0, 'template'), self.partitioner(host), self.dir, ds,
        keep=cfg['keep'], save_dtype=cfg['save_dtype'],
        metric_name_to_monitor='/'.join(cfg['name']),
        metric_mode=cfg['mode'],
        keep_checkpoints_without_metrics=cfg['keep_without'],
        force_keep_period=cfg['force'])

  def concerns(self, write):
    f = getattr(write, '__self__', None)
    return 'tfevents' not in getattr(f, '_path', '')

  def host_main(self, host, plan):
    if host.index:
      return super().host_main(host, plan)
    self.stop = False
    self.queue = []
    # The monitored metrics of earlier steps may come in at any time.
    t = self.s.spawn(host, self.metric_writer, 'metrics', daemon=True)
    try:
      super().host_main(host, plan)
    finally:
      self.stop = True
    self.s.join(t)

  # ---- oracle
  def candidates(self, steps):
    """The checkpoints that the choice of the best is about."""
    steps = sorted(steps)
    latest = steps[-1]
    return [x for x in steps[:-1]
            if not (self.cfg['force'] and x % self.cfg['force'] == 0)], latest

  def explains(self, before, kept, known):
    """None if `kept` is right given the metrics of the steps `known`."""
    cfg = self.cfg
    if not cfg['keep']:
      return None if kept == before else 'nothing may be removed without keep'
    cand, latest = self.candidates(before)
    gone = before - kept
    if kept - before:
      return 'a removed checkpoint is back'
    if gone - set(cand):
      return (f'{sorted(gone - set(cand))} must be kept: the latest is {latest}'
              f', force_keep_period {cfg["force"]}')
    if gone & self.pinned:
      return 'a pinned checkpoint was removed'
    if cfg['keep_without']:
      cand = [x for x in cand if x in known]
      if gone - set(cand):
        return f'{sorted(gone - set(cand))} have no metric yet'
    low = float('-inf')

    def worth(x):
      return (self.rank(x) if x in known else low)

    excess = max(0, len(cand) - cfg['keep'])
    rest = [x for x in cand if x not in gone]
    free = [x for x in rest if x not in self.pinned]
    for g in gone:
      better = sum(worth(x) >= worth(g) for x in cand if x != g)
      if better < cfg['keep']:
        return f'{g} is among the {cfg["keep"]} best'
      for x in free:
        if worth(x) < worth(g):
          return f'{g} was removed, {x}, which is worse, was not'
        if g not in known and x not in known and x < g:
          return f'{g} was removed, the older {x} was not'
    # Pinned checkpoints fill slots of the excess without being removed.
    pins = [x for x in rest if x in self.pinned]
    order = sorted(worth(x) for x in cand)
    if excess:
      cut = order[excess - 1]
      least = excess - sum(worth(x) <= cut for x in pins)
      most = excess - sum(worth(x) < cut for x in pins)
    else:
      least = most = 0
    if not least <= len(gone) <= most:
      return f'{len(gone)} removed, {least} to {most} are in excess'
    return None

  def after_save(self, ck, step, steps):
    before = set(self.visible_before) | {step}
    hi = self.visible()
    doubt = sorted(hi - self.lo)[:6]
    why = None
    for bits in range(1 << len(doubt)):
      known = self.lo | {x for i, x in enumerate(doubt) if bits >> i & 1}
      why = self.explains(before, set(steps), known)
      if why is None or before & self.vague:
        break
    else:
      self.s.fail('best-retention', f'after saving {step} with keep='
                  f'{self.cfg["keep"]} mode={self.cfg["mode"]} metrics='
                  f'{ {x: self.value(x) for x in sorted(hi)} } '
                  f'pinned={sorted(self.pinned)}: kept {steps} of '
                  f'{sorted(before)}: {why}')
    if len(before) > len(steps):
      self.run.probe('removed')
      if any(x in hi for x in before - set(steps)):
        self.run.probe('removed-by-metric')
    if ck.all_steps() != steps or ck.latest_step() != steps[-1]:
      self.s.fail('listing', f'all_steps() {ck.all_steps()} != {steps}')
    self.visible_before = set(steps)

  def note_deletion(self, step):
    if step in self.deleting:
      return
    disk = set(self.disk_steps()) | {step}
    super().note_deletion(step)
    cfg = self.cfg
    cand, _ = self.candidates(disk)
    if step not in cand:
      self.s.fail('forced-deleted', f'checkpoint {step} deleted, '
                  f'force_keep_period {cfg["force"]}')
    hi = self.visible()
    if cfg['keep_without']:
      if step not in hi:
        self.s.fail('unknown-deleted', f'checkpoint {step} deleted before its '
                    'metric is known')
    if step in self.lo and not (disk | hi) & self.vague:
      rivals = [x for x in cand if x != step and (
          x in hi and self.rank(x) >= self.rank(step)
          or not cfg['keep_without'] and self.rank(step) == float('-inf'))]
      if len(rivals) < cfg['keep']:
        self.s.fail('best-deleted', f'checkpoint {step} deleted though it is '
                    f'among the {cfg["keep"]} best of {sorted(disk)}: '
                    f'{ {x: self.value(x) for x in sorted(hi)} }')


def world(run):
  cfg = draw_cfg(run.ch)
  run.note(**{k: str(v) if k in ('dtype', 'save_dtype') else v
              for k, v in cfg.items()})
  w = World(run, cfg)
  sup = w.s.add_host(99, 'ctl')
  w.s.spawn(sup, w.supervise, 'supervisor')
  run.go(w.s)
