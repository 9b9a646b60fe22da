"""t5x.eval.evaluate over every checkpoint of a directory: crash and restart.

The real evaluation loop, its record of evaluated checkpoints, the real
restore and inference function; the metrics are computed on a background
thread that finishes late, as seqio's do.
"""

import concurrent.futures
import os
import types

import numpy as np
import seqio
import tensorflow as tf

from dst import core
from dst import simfs
from dst import simhosts
from dst.simfs import FaultPlan
from dst.simfs import quiet_options
from dst.simfs import with_nopreempt
from props import common as c
from props import world_infer as wi
from t5x import checkpoints
from t5x import eval as eval_lib
from t5x import train_state as train_state_lib
from t5x import utils

AXES = {'state': {'step': None}, 'target': {'p': {'w': None}}}


def full_state(w, step):
  opt = c.optimizers.Optimizer(
      c.PlainDef(), c.optimizers.OptimizerState(np.asarray(step, np.int32),
                                                {'w': {}}),
      {'p': {'w': np.asarray(w, np.float32)}})
  return train_state_lib.FlaxOptimTrainState(opt)


class Partitioner(wi.InferPartitioner):

  def get_mesh_axes(self, train_state):
    import jax
    return train_state.restore_state(
        jax.tree_util.tree_map(lambda _: None, train_state.state_dict()))


class Initializer:

  def __init__(self, **kw):
    self.global_train_state_shape = train_state_lib.InferenceState.create(
        {'params': {'p': {'w': np.zeros((), np.float32)}}})
    self.train_state_axes = types.SimpleNamespace(params=None,
                                                  flax_mutables=None)

  def from_scratch(self, rng):
    raise AssertionError('parameters were initialised from scratch')


class Model:
  FEATURE_CONVERTER_CLS = wi.Converter

  def get_initial_variables(self, *a, **k):
    return {}

  def predict_batch(self, params, batch, rng=None):
    x = np.asarray(batch['x'])
    w = np.asarray(params['p']['w'])
    return np.stack([x[:, 0] * 7, np.full(len(x), int(w))], 1).astype(np.int32)

  def predict_batch_with_aux(self, params, batch, rng=None):
    return self.predict_batch(params, batch, rng), {'s': np.asarray(
        batch['x'])[:, 0] * 1.5}

  def score_batch(self, params, batch, rng=None):
    return np.asarray(batch['x'])[:, 0] + float(np.asarray(params['p']['w']))


def evaluator_cls(world):
  """A seqio-like evaluator: predicts in the caller, measures on a thread."""

  class Evaluator:

    def __init__(self, **kw):
      world.s.event('evaluator ' + str(sorted(k for k in kw)))
      self.pool = concurrent.futures.ThreadPoolExecutor(max_workers=1)
      self.eval_tasks = ['task']
      self.model_feature_shapes = {'x': (1,)}
      n = world.cfg['n']
      self.ds = with_nopreempt(
          core.current(), lambda: tf.data.Dataset.from_tensor_slices(
              {'x': np.arange(n)[:, None]}).with_options(
                  quiet_options()).enumerate())

    def close(self):
      self.pool.shutdown(wait=True)

    def evaluate(self, *, compute_metrics, step, predict_fn, score_fn,
                 predict_with_aux_fn):
      host = core.current().host
      world.started(host, step)
      mode = world.cfg['mode']
      if mode == 'score':
        out = score_fn(self.ds)
      elif mode == 'aux':
        out, _ = predict_with_aux_fn(self.ds)
      else:
        out = predict_fn(self.ds)
      if not compute_metrics:
        f = concurrent.futures.Future()
        f.set_result(None)
        return f, out

      def metrics():
        if world.delay:
          world.s.sleep(world.delay)
        if world.metric_fail is not None:
          world.metric_fail -= 1
          if not world.metric_fail:
            world.s.fault('metrics-error')
            raise ValueError('injected metrics error')
        world.measured(host, step, out)
        return {'task': {}}

      return self.pool.submit(metrics), out

  return Evaluator


class World:

  def __init__(self, run):
    self.run, self.ch = run, run.ch
    ch = run.ch
    self.cfg = cfg = {
        'hosts': ch.pick([1, 2, 1, 3], 'hosts'),
        'n': 1 + ch.draw(5, 'examples'),
        'mode': ch.pick(['predict', 'score', 'aux'], 'mode'),
        'dir': ch.pick(['ckpts', 'my runs', 'run-12', c.ODD_DIRS[-1]], 'dir'),
        'prefix': ch.pick(c.ODD_PREFIXES, 'prefix'),
        'out': ch.pick(['evals', 'eval out'], 'out'),
        'train_eval': ch.chance(300),
        'orbax': ch.chance(300),
    }
    if cfg['orbax']:  # arrays are not shared across simulated hosts
      cfg['dir'], cfg['prefix'] = c.DIRS[-1], 'ckpt'
      cfg['hosts'] = 1
    cfg['batch'] = cfg['hosts'] * ch.pick([1, 2], 'per-host-batch')
    pool = [5, 10, 50, 100, 105, 500, 1000, 1005, 10000]
    cfg['steps'] = sorted(ch.shuffle(pool, 'steps')[:1 + ch.draw(4, 'count')])
    run.note(**cfg)
    c.use_prefix(cfg['prefix'])
    self.dir = os.path.join(run.scratch, cfg['dir'], 'model')
    self.out = os.path.join(run.scratch, cfg['out'])
    self.record = os.path.join(self.out, 'eval.sim_task.ckpt')
    os.makedirs(self.dir)
    os.makedirs(self.out)
    self.s = run.sim()
    self.s.fs = FaultPlan(ch)
    self.s.preempt = ch.pick([0, 30, 200], 'preempt')
    self.s.monitors.append(self.monitor)
    self.weights = {}
    self.done = set()  # steps whose metrics were finished in some job
    self.recorded = set()  # steps whose record reached the disk undisturbed
    self.order = {}
    self.delay = 0
    self.metric_fail = None

  # ---- the oracle
  def started(self, host, step):
    seq = self.order.setdefault(host.name, [])
    if seq and step <= seq[-1]:
      self.s.fail('order', f'{host.name} evaluated step {step} after {seq}')
    seq.append(step)
    if step in self.skip:
      self.s.fail('redone', f'step {step} was recorded as evaluated, yet a '
                  'restarted job evaluated it again')

  def measured(self, host, step, out):
    w = self.weights.get(step)
    if w is None:
      self.s.fail('wrong-step', f'metrics were computed for step {step}')
    got = sorted((int(i), v if isinstance(v, float) else list(map(int, v)))
                 for i, v in out)
    want = [(i, float(i + w) if self.cfg['mode'] == 'score' else [i * 7, w])
            for i in range(self.cfg['n'])]
    if got != want:
      self.s.fail('wrong-metrics', f'evaluation of step {step} saw {got}, '
                  f'expected {want}')
    self.done.add(step)
    self.run.probe('measured')

  def path(self, step):
    return os.path.join(self.dir, c.ckpt_name(step))

  def lines(self):
    if not os.path.exists(self.record):
      return []
    with c.REAL_OPEN(self.record) as f:
      return [x for x in f.read().split('\n') if x]

  def monitor(self, host, kind, path):
    if host.group is not None and f'{self.dir}/' in path + '/':
      self.s.fail('touched', f'the evaluation changed the checkpoints it reads '
                  f'from: {kind} {os.path.basename(path)}')
    if not (kind == 'rename' or path == self.record):
      return
    self.check_record(f'during {kind}')

  def check_record(self, when):
    by = {self.path(x): x for x in self.weights}
    for line in self.lines():
      if line in by and by[line] not in self.done:
        self.s.fail('early-record', f'{when}: step {by[line]} is recorded as '
                    'evaluated but its metrics were never finished')

  # ---- jobs
  def save(self, steps):
    part = Partitioner(c.fake_mesh(1, 1, 1, 1, 0), None)
    for step in steps:
      self.weights[step] = w = step % 97 + 3
      st = full_state(w, step)
      if self.cfg['orbax'] and self.ch.chance(600):
        m = checkpoints.OrbaxCheckpointManagerInterface(self.dir, st, part)
        m.save(st)
        m.close()
        self.run.probe('orbax-checkpoint')
      else:
        with_nopreempt(core.current(), lambda: checkpoints.Checkpointer(
            st, part, self.dir, keep=None).save(st))

  def main(self, host, mode, path):
    n = self.cfg['hosts']
    part = Partitioner(c.fake_mesh(n, 1, n, 1, host.index), None)
    part.batch = self.cfg['batch']
    world = self

    class TrainEval:

      def __init__(self, **kw):
        self.names = sorted(kw['eval_names'])

      def eval(self, ds):
        if sorted(ds) != self.names:
          raise AssertionError('training evaluation got other datasets')
        st = self.train_state
        step = int(np.asarray(st.step))
        if int(np.asarray(st.params['p']['w'])) != world.weights[step]:
          world.s.fail('wrong-state', 'training evaluation of step '
                       f'{step} ran on another state')
        world.trained.setdefault(host.name, []).append(step)

    eval_lib.evaluate(
        model=Model(),
        dataset_cfg=utils.DatasetConfig(
            mixture_or_task_name='sim_task', task_feature_lengths={'x': 1},
            split='infer', batch_size=self.cfg['batch'], shuffle=False, seed=0),
        restore_checkpoint_cfg=utils.RestoreCheckpointConfig(
            path=path, mode=mode),
        partitioner=part, output_dir=self.out,
        inference_evaluator_cls=evaluator_cls(self),
        training_evaluator_cls=TrainEval if self.cfg['train_eval'] else None,
        train_eval_get_dataset_fn=lambda *a, **k: {'t': iter(())},
        summarize_config_fn=lambda **k: None,
        train_state_initializer_cls=Initializer, use_orbax=self.cfg['orbax'])

  def job(self, name, mode='all', path=None, kill=None):
    s = self.s
    self.skip = set(self.recorded) if mode == 'all' else set()
    self.trained = {}
    g = simhosts.Group(s, self.cfg['hosts'], name)
    hosts = [s.add_host(i, f'{name}h{i}', group=g)
             for i in range(self.cfg['hosts'])]
    tasks = [s.spawn(h, lambda h=h: self.main(h, mode, path or self.dir),
                     'main') for h in hosts]
    for t in tasks:
      t.expected = True
    t0 = s.now
    while not all(t.done for t in tasks):
      if kill is not None and s.now - t0 >= kill[1]:
        if hosts[kill[0]].alive:
          s.fault('kill', hosts[kill[0]].name)
          s.crash_host(hosts[kill[0]], 'killed')
        kill = None
      if any(not h.alive for h in hosts) or any(
          t.done and t.exc is not None for t in tasks):
        s.sleep(self.ch.draw(20, 'detect') / 10)
        break
      s.sleep(0.05)
    died = any(not h.alive for h in hosts)
    bad = [t for t in tasks if t.done and t.exc is not None
           and not isinstance(t.exc, (core.SimKilled, core.SimStop))]
    clean = all(t.done and t.exc is None for t in tasks)
    for h in hosts:  # the end of the processes, threads included
      s.crash_host(h, 'ended')
    for t in tasks:
      s.join(t)
    self.check_record(f'after {name}')
    if clean and self.cfg['train_eval']:
      for h in hosts:
        if self.trained.get(h.name, []) != self.order.get(h.name, []):
          s.fail('train-eval', f'{h.name} ran the training evaluation on '
                 f'{self.trained.get(h.name)}, the other on '
                 f'{self.order.get(h.name)}')
    return clean, bad, died

  def supervise(self):
    ch, s, cfg = self.ch, self.s, self.cfg
    self.save(cfg['steps'])
    rounds = ch.pick([1, 2, 0, 3], 'rounds')
    more = [x for x in (7, 70, 1009, 20000) if ch.chance(150)]
    for k in range(rounds + 1):
      last = k == rounds
      kill = None
      errors = False
      s.fs.crash_at, s.fs.error_at = {}, {}
      self.metric_fail = None
      self.delay = ch.pick([0, 3, 1], 'metrics-delay')
      if not last:
        what = ch.weighted([('crash', 5), ('kill', 3), ('error', 2),
                            ('metrics', 2), ('none', 1)], 'what')
        if what == 'crash':
          s.fs.crash_at = {0: 1 + ch.draw(12, 'crash-at')}
        elif what == 'kill':
          kill = (ch.draw(cfg['hosts'], 'who'), ch.draw(400, 'when') / 100)
        elif what == 'error':
          errors = True
          s.fs.error_at = {0: [(1 + ch.draw(10, 'error-at'),
                                ch.pick([1, 10 ** 6], 'error-count'),
                                ch.pick(['enospc', 'eio'], 'error'))]}
        elif what == 'metrics':
          errors = True
          self.metric_fail = 1 + ch.draw(4, 'metrics-fail-at')
      before = dict(s.faults)
      have = sorted(self.weights)
      mode, path, want = 'all', None, have
      if not last and ch.chance(120):
        mode = ch.pick(['latest', 'specific'], 'mode')
        if mode == 'specific':
          want = [ch.pick(have, 'which')]
          path = self.path(want[0])
        else:
          want = have[-1:]
      clean, bad, died = self.job(f'r{k}', mode, path, kill)
      hit = {x for x in s.faults if s.faults[x] != before.get(x)}
      if bad and not hit & {'io-enospc', 'io-eio', 'metrics-error'}:
        self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
      if 'metrics-error' in hit and clean:
        s.fail('swallowed', 'the metrics of a checkpoint failed but the '
               'evaluation finished')
      if bad:
        self.run.probe('raised')
      if died:
        self.run.probe('died')
      if clean:
        self.run.probe('finished')
        missing = [x for x in want if x not in self.done]
        if missing:
          s.fail('skipped', f'evaluation of {mode} finished, but steps '
                 f'{missing} of {want} were never evaluated')
        self.recorded |= set(want)
        if not {self.path(x) for x in want} <= set(self.lines()):
          s.fail('unrecorded', f'evaluation finished, but of {want} only '
                 f'{self.lines()} are recorded')
        if k:
          self.run.probe('finished-after-restart')
      elif not (bad or died):
        s.fail('stuck', 'the job neither finished nor failed')
      elif last:
        s.fail('no-progress', 'without faults the evaluation did not finish')
      else:
        # What was recorded at the end of the job is settled.
        by = {self.path(x): x for x in self.weights}
        self.recorded |= {by[x] for x in self.lines() if x in by}
      if more and ch.chance(500):
        self.save([more.pop()])


def world(run):
  with Patched():
    w = World(run)
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)


class Patched:

  def __enter__(self):
    self.old = utils.log_model_info, utils.verify_matching_vocabs
    utils.log_model_info = lambda *a, **k: None

  def __exit__(self, *a):
    utils.log_model_info = self.old[0]


REAL = [
    't5x.eval.evaluate and InferenceEvaluator',
    't5x.utils restore configuration, checkpoint managers, get_infer_fn',
    'Orbax checkpoint manager and handlers (in a third of the runs)',
    't5x.checkpoints listing and restore (real files)',
    'concurrent.futures thread pool of the metrics',
]
STUBS = [
    'seqio.Evaluator: an evaluator that predicts in the caller and measures '
    'on a background thread',
    'model: a pure function of the example and the restored parameter',
    'train state initializer, feature converter, training evaluator',
    'partitioned step: gathers the data shards of the simulated hosts',
    'multihost collectives, file calls, clocks, threads: simulated',
]
