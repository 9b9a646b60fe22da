"""An interactive session: training, inference and metrics in any order.

The real InteractiveModel with its trainer, checkpoints and inference function
on real tf.data pipelines; sessions crash, fail and are started again on the
same directory.
"""

import os

import clu.data.dataset_iterator as clu_iter
import jax
import jax.numpy as jnp
import numpy as np
import seqio
import tensorflow as tf

from dst import core
from dst import simhosts
from dst.simfs import FaultPlan
from dst.simfs import quiet_options
from dst.simfs import with_nopreempt
from props import common as c
from props import world_train as wt
from t5x import checkpoints
from t5x import interactive_model as im
from t5x import optimizers
from t5x import train_state as train_state_lib
from t5x import trainer as trainer_lib
from t5x import utils

BATCH = wt.BATCH
DONOR = (2, 1)
SCALE = 64.0
WORDS = ['ab', 'cd', 'fgh', 'ij', 'klmn', 'op', 'qrs', 'tu', 'vw', 'xyz']


class Converter:
  """Two numbers per example: its first two tokens."""

  def __init__(self, pack=False):
    pass

  def __call__(self, ds, task_feature_lengths):
    return ds.map(lambda e: {'x': tf.cast(e['inputs'][:2], tf.float32) / SCALE})


class Model(wt.Model):
  FEATURE_CONVERTER_CLS = Converter
  input_vocabulary = output_vocabulary = seqio.ByteVocabulary()

  def predict_batch_with_aux(self, params, batch, rng=None):
    x = np.asarray(batch['x']) * SCALE
    tok = np.concatenate([x, np.full((len(x), 1), 67)], 1).round()
    return tok.astype(np.int32), {'scores': self.score_batch(params, batch)}

  def score_batch(self, params, batch, rng=None):
    x = np.asarray(batch['x'], np.float64)
    return x[:, 0] * 100 + np.asarray(params['w'], np.float64).sum()


LISTS = [[WORDS[(k + 3 * i) % len(WORDS)] for i in range(n)]
         for k, n in enumerate([1, 2, 3, 4, 5, 7, 4, 9])]


def tokens(word):
  return np.array([ord(ch) + 3 for ch in word[:2]], np.float32)


def words(b):
  """The texts of training batch b."""
  return [WORDS[(3 * b + i) % len(WORDS)] for i in range(BATCH)]


def examples(ws):
  return [{'input': w, 'target': w + '?'} for w in ws]


class Partitioner(wt.TrainPartitioner):
  _model_parallel_submesh = None
  _num_partitions = 1

  def gather(self, batch):
    """Every host feeds the whole batch."""
    h = core.current().host
    got = h.group.exchange(h, 'batch',
                           jax.tree_util.tree_map(np.asarray, batch))
    if any(not wt.identical(x, got[0]) for x in got):
      h.sim.fail('replicas-differ', 'hosts fed different batches to one step')
    return batch


# -------------------------------------------------------------- the reference

_CHAIN = {}


def reference(mutables, batches):
  """The state after the given batches, computed step by step."""
  key = (mutables, batches)
  if key in _CHAIN:
    return _CHAIN[key]
  model = Model(mutables)
  init_rng, rng = jax.random.split(jax.random.PRNGKey(42), 2)
  if not batches:
    state = train_state_lib.FlaxOptimTrainState.create(
        model.optimizer_def, wt.flax.core.freeze(
            model.get_initial_variables(init_rng, None)))
    loss = None
  else:
    prev, _ = reference(mutables, batches[:-1])
    x = jnp.stack([tokens(w) for w in words(batches[-1])]) / SCALE
    step = len(batches) - 1
    state, m = trainer_lib.train_with_lr(
        prev, {'x': x}, 0.05, jax.random.fold_in(rng, step), model, None)
    loss = float(m['loss'].total)
  _CHAIN[key] = state, loss
  return _CHAIN[key]


def differs(state, want):
  """Whether two states differ by more than rounding."""
  a = c.flat_np(state) if isinstance(state, dict) else c.flat_np(
      state.state_dict())
  b = c.flat_np(want.state_dict())
  if sorted(a) != sorted(b):
    return f'leaves {sorted(set(a) ^ set(b))}'
  for k in sorted(a):
    if a[k].shape != b[k].shape or not np.allclose(
        np.asarray(a[k], np.float64), np.asarray(b[k], np.float64),
        rtol=1e-3, atol=1e-4):
      return f'{k}: {a[k].tolist()} instead of {b[k].tolist()}'
  return None


# ------------------------------------------------------------------ the world


class World:

  def __init__(self, run):
    self.run, self.ch = run, run.ch
    ch = run.ch
    self.cfg = cfg = dict(wt.BASE)
    cfg['hosts'] = ch.pick([1, 2, 1], 'hosts')
    cfg['replicas'] = 2 if cfg['hosts'] == 2 and ch.chance(300) else 1
    cfg['mutables'] = ch.chance(200)
    cfg['ts'] = ch.chance(200)
    cfg['dir'] = ch.pick(['session', 'my session', c.DIRS[-1]], 'dir')
    cfg['donor'] = ch.pick([None, None, None, 'latest', 'specific'], 'donor')
    run.note(**{k: cfg[k] for k in ('hosts', 'replicas', 'mutables', 'ts',
                                    'donor')})
    cfg['prefix'] = ch.pick(c.PREFIXES, 'prefix')
    c.use_prefix(cfg['prefix'])
    self.donor = os.path.join(run.scratch, 'donor')
    self.dir = os.path.join(run.scratch, cfg['dir'])
    self.s = run.sim()
    self.s.fs = FaultPlan(ch)
    self.s.preempt = ch.pick([0, 30, 200], 'preempt')
    self.s.monitors.append(self.monitor)
    self.writers = []
    self.step_time = 0.1
    self.tried = ()  # the batches of the steps so far, failed saves included
    self.saved = 0  # the last step of a call that returned
    self.preempt_in = None  # training steps before a preemption notice
    self.preempted = {}

  # hooks of world_train's partitioned step
  def stepped(self, host, state):
    pass

  def initialised(self, host, state):
    pass

  def collected(self, host):
    pass

  def write_fault(self, writer):
    pass

  def written(self, writer, step, scalars):
    pass

  # ---- the oracle
  def fail(self, kind, msg):
    self.s.fail(kind, msg)

  def check_state(self, state, batches, when):
    why = with_nopreempt(core.current(), lambda: differs(
        state, reference(self.cfg['mutables'], batches)[0]))
    if why:
      self.fail('wrong-state', f'{when}: the state is not that after batches '
                f'{list(batches)}: {why}')

  def fed(self, host, state, batch, training):
    pass

  def monitor(self, host, kind, path):
    if kind != 'rename' or host.group is None:
      return
    dst = path.split(' -> ')[1]
    if c.ckpt_step(dst) is None:
      return
    step = c.ckpt_step(dst)
    self.run.probe('checkpoint')
    if step > len(self.tried):
      self.fail('wrong-step', f'step {step} was saved, but only batches '
                f'{list(self.tried)} were given')
    got = with_nopreempt(core.current(), lambda: wt.raw_read(
        os.path.join(self.dir, dst)))
    want = with_nopreempt(core.current(), lambda: reference(
        self.cfg['mutables'], self.tried[:step])[0])
    why = differs({k: v for k, v in got.items()}, want)
    if why:
      self.fail('wrong-checkpoint', f'checkpoint of step {step}: {why}')

  def values(self, host, what, got, ws, batches):
    """Scores of the words, by the parameters after the batches."""
    w = np.asarray(with_nopreempt(core.current(), lambda: reference(
        self.cfg['mutables'], batches)[0]).params['w'], np.float64).sum()
    want = [float(tokens(x)[0]) / SCALE * 100 + w for x in ws]
    if len(got) != len(want) or not np.allclose(
        np.asarray(got, np.float64), want, atol=1e-2):
      self.fail('wrong-scores', f'{what} on {host.name} for {ws} after batches '
                f'{list(batches)}: {[float(x) for x in got]}, expected {want}')

  def inputs(self, host, what, got, ws):
    got = [e['inputs_pretokenized'].decode() for e, _ in got]
    if got != ws:
      self.fail('wrong-order', f'{what} on {host.name} for {ws}: {got}')

  # ---- one session
  def session(self, host, start):
    cfg = self.cfg
    n, rep = cfg['hosts'], cfg['replicas']
    part = Partitioner(c.fake_mesh(n // rep, rep, n // rep, rep, host.index),
                       None)
    part.world = self
    mode, path = 'latest', ''
    if cfg['donor'] and not start['have']:
      mode, path = cfg['donor'], self.donor
      if mode == 'specific':
        path = os.path.join(path, c.ckpt_name(len(DONOR)))
    return im.InteractiveModel(
        batch_size=BATCH, task_feature_lengths={'inputs': 6, 'targets': 6},
        output_dir=self.dir, partitioner=part, model=Model(cfg['mutables']),
        dtype='float32', restore_mode=mode, checkpoint_path=path,
        input_shapes={'x': (BATCH, 2)}, add_eos=True)

  def main(self, host, program, start):
    """The calls of one session; all hosts make the same."""
    m = self.session(host, start)
    self.run.probe('session')
    k = m.step
    done = start.setdefault('step', k)
    if done != k:
      self.fail('hosts-differ', f'hosts started at steps {done} and {k}')
    if k < self.saved:
      self.fail('lost-steps', f'a call that trained step {self.saved} '
                f'returned, but the next session starts at step {k}')
    if k > len(self.tried):
      self.fail('wrong-step', f'a session starts at step {k}, but only batches '
                f'{list(self.tried)} were given')
    start.setdefault('tried', self.tried[:k])
    seq = self.tried = start['tried']
    self.check_state(m.train_state, seq, f'the session of {host.name} starts')
    if seq:
      self.run.probe('resumed')
    for op in program:
      host.sim.event(f'{host.name} {op}')
      try:
        seq = self.call(host, m, op, seq)
      except trainer_lib.PreemptionError:
        self.run.probe('preempted')
        have = wt.listed(self.dir)
        if seq and len(seq) not in have:
          self.fail('emergency-lost', f'preempted after step {len(seq)}, but '
                    f'the checkpoints are {have}')
        raise
      except (OSError, tf.errors.OpError):
        if cfg_hosts(self) > 1:
          raise
        # The user sees the error and goes on.
        self.run.probe('went-on')
        seq = self.tried[:m.step]

  def trained(self, host, m, seq):
    if m.step != len(seq):
      self.fail('wrong-step', f'{host.name} is at step {m.step} after batches '
                f'{list(seq)}')
    self.check_state(m.train_state, seq, f'{host.name} trained')
    if host.index == 0 or cfg_hosts(self) == 1:
      have = wt.listed(self.dir)
      if len(seq) not in have:
        self.fail('unsaved', f'step {len(seq)} was trained and the call '
                  f'returned, but the checkpoints are {have}')
    self.saved = max(self.saved, len(seq))
    loss = with_nopreempt(core.current(), lambda: reference(
        self.cfg['mutables'], seq)[1])
    got = m.train_summary['loss']
    got = float(np.asarray(getattr(got, 'value', got)))
    if not np.isclose(got, loss, rtol=1e-3, atol=1e-4):
      self.fail('wrong-loss', f'{host.name}: the summary of step {len(seq)} '
                f'has loss {got}, expected {loss}')

  def call(self, host, m, op, seq):
    kind = op[0]
    if kind == 'train':
      new = seq + (op[1],)
      self.attempt(new)
      m.train_step(examples(words(op[1])))
      self.trained(host, m, new)
      return new
    if kind == 'save':
      m.save_checkpoint()
      if seq and len(seq) not in wt.listed(self.dir):
        self.fail('unsaved', f'step {len(seq)} was saved explicitly, but the '
                  f'checkpoints are {wt.listed(self.dir)}')
      if cfg_hosts(self) == 1:
        self.saved = max(self.saved, len(seq))
      return seq
    if kind == 'loop':
      steps, ids, single, ws = op[1:]
      want = tuple(ids[i % len(ids)] for i in range(steps))
      new = seq + want
      self.attempt(new)
      batches = [examples(words(b)) for b in ids]
      got = m.train_loop(
          num_steps=steps, eval_period=1,
          train_batches=batches[0] if single else batches,
          predict_batches=[examples(ws)], score_batches=[examples(ws)])
      self.run.probe('loop')
      self.trained(host, m, new)
      self.inputs(host, 'a training loop', got[0], ws)
      self.values(host, 'a training loop', [x for _, x in got[1]], ws, new)
      return new
    ws = op[1]
    if kind == 'predict':
      out, aux = m.predict_with_aux(
          ws if op[2] else examples(ws))
      self.inputs(host, kind, out, ws)
      texts = [p.decode() for _, p in out]
      if texts != [w[:2] + '@' for w in ws]:
        self.fail('wrong-prediction', f'{host.name} for {ws}: {texts}')
      self.values(host, kind, aux['scores'], ws, seq)
    elif kind == 'score':
      out = m.score(examples(ws))
      self.inputs(host, kind, out, ws)
      self.values(host, kind, [x for _, x in out], ws, seq)
    elif kind == 'evaluate':
      fns = {
          'p': lambda targets, predictions: {'p': (targets, predictions)},
          's': lambda targets, scores: {'s': (targets, scores)},
          'a': lambda targets, predictions, aux_values: {
              'a': (targets, predictions, aux_values)},
      }
      got = m.evaluate(examples(ws), [fns[x] for x in op[2]])
      if host.index == 0:
        if sorted(got) != sorted(op[2]):
          self.fail('wrong-metrics', f'asked for {op[2]}: {sorted(got)}')
        for x, v in got.items():
          if [t.decode() for t in v[0]] != [w + '?' for w in ws]:
            self.fail('wrong-metrics', f'targets of {ws}: {v[0]}')
          if x in 'pa' and list(v[1]) != [w[:2] + '@' for w in ws]:
            self.fail('wrong-metrics', f'predictions of {ws}: {v[1]}')
          if x == 's':
            self.values(host, kind, v[1], ws, seq)
          if x == 'a':
            self.values(host, kind, v[2]['scores'], ws, seq)
    self.run.probe(kind)
    return seq

  def attempt(self, new):
    if len(new) > len(self.tried):
      self.tried = new

  # ---- the supervisor
  def draw_program(self):
    ch = self.ch
    some = lambda: LISTS[ch.draw(len(LISTS), 'examples')]
    out = []
    for _ in range(1 + ch.draw(4, 'calls')):
      kind = ch.weighted([('train', 6), ('predict', 2), ('score', 2),
                          ('evaluate', 2), ('loop', 2), ('save', 1)], 'call')
      if kind == 'train':
        out.append((kind, ch.draw(4, 'batch')))
      elif kind == 'save':
        out.append((kind,))
      elif kind == 'loop':
        ids = [ch.draw(4, 'batch') for _ in range(ch.pick([1, 2, 3], 'n'))]
        out.append((kind, ch.pick([1, 2, 3], 'steps'), tuple(ids),
                    len(ids) == 1 and ch.chance(500), some()))
      elif kind == 'predict':
        out.append((kind, some(), ch.chance(300)))
      elif kind == 'score':
        out.append((kind, some()))
      else:
        fns = [x for x in 'psa' if ch.chance(500)] or ['p']
        out.append((kind, some(), ''.join(fns)))
    return out

  def job(self, name, program, kill):
    s = self.s
    g = simhosts.Group(s, self.cfg['hosts'], name)
    hosts = [s.add_host(i, f'{name}h{i}', group=g)
             for i in range(self.cfg['hosts'])]
    start = {'have': wt.listed(self.dir)}
    self.preempted = {}
    tasks = [s.spawn(h, lambda h=h: self.main(h, program, start), 'main')
             for h in hosts]
    for t in tasks:
      t.expected = True
    t0 = s.now
    while not all(t.done for t in tasks):
      if kill is not None and s.now - t0 >= kill[1]:
        if hosts[kill[0]].alive:
          s.fault('kill', hosts[kill[0]].name)
          s.crash_host(hosts[kill[0]], 'killed')
        kill = None
      if any(not h.alive for h in hosts) or any(
          t.done and t.exc is not None for t in tasks):
        s.sleep(self.ch.draw(20, 'detect') / 10)
        break
      if s.now - t0 > 300:
        waiting = [t.host.name for t in tasks if not t.done]
        ended = [t.host.name for t in tasks if t.done]
        s.fail('stuck', f'{waiting} still wait in {program}, {ended} ended')
      s.sleep(0.05)
    died = any(not h.alive for h in hosts)
    bad = [t for t in tasks if t.done and t.exc is not None
           and not isinstance(t.exc, (core.SimKilled, core.SimStop))]
    clean = all(t.done and t.exc is None for t in tasks)
    for h in hosts:  # the processes end, threads included
      s.crash_host(h, 'ended')
    for t in tasks:
      s.join(t)
    return clean, bad, died

  def save_donor(self):
    os.makedirs(self.donor)
    state = jax.tree_util.tree_map(
        np.asarray, reference(self.cfg['mutables'], DONOR)[0])
    part = Partitioner(c.fake_mesh(1, 1, 1, 1, 0), None)
    part.world = self
    checkpoints.Checkpointer(state, part, self.donor).save(state)

  def supervise(self):
    ch, s = self.ch, self.s
    if self.cfg['donor']:
      self.tried = DONOR
      with_nopreempt(core.current(), self.save_donor)
    rounds = ch.pick([1, 2, 0], 'rounds')
    for k in range(rounds + 1):
      last = k == rounds
      kill = None
      s.fs.crash_at, s.fs.error_at = {}, {}
      self.preempt_in = None
      if not last:
        what = ch.weighted([('crash', 4), ('kill', 3), ('error', 3),
                            ('preempt', 2), ('none', 2)], 'what')
        who = ch.draw(self.cfg['hosts'], 'who')
        if what == 'crash':
          s.fs.crash_at = {who: 1 + ch.draw(40 if who == 0 else 6, 'crash-at')}
        elif what == 'kill':
          kill = (who, ch.draw(60, 'when') / 20)
        elif what == 'preempt':
          self.preempt_in = ch.draw(4, 'preempt-in')
        elif what == 'error':
          s.fs.error_at = {who: [(1 + ch.draw(40, 'error-at'),
                                  ch.pick([1, 10 ** 6], 'error-count'),
                                  ch.pick(['enospc', 'eio'], 'error'))]}
      before = dict(s.faults)
      clean, bad, died = self.job(f's{k}', self.draw_program(), kill)
      hit = {x for x in s.faults if s.faults[x] != before.get(x)}
      bad = [t for t in bad if not (
          'preemption-notice' in hit
          and isinstance(t.exc, trainer_lib.PreemptionError))]
      if bad and not hit & {'io-enospc', 'io-eio'}:
        self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
      if last and not clean:
        s.fail('no-progress', 'without faults the session did not finish')
      if clean:
        self.run.probe('finished')
      if died:
        self.run.probe('died')


def cfg_hosts(world):
  return world.cfg['hosts']


_DATASETS = {}


class Patched(wt.Patched):

  def __enter__(self):
    super().__enter__()
    self.more = (utils.create_learning_rate_scheduler,
                 im.get_dataset_from_natural_text_examples,
                 clu_iter.TfDatasetIterator.__next__)
    real = self.more[0]
    utils.create_learning_rate_scheduler = lambda: real(
        factors='constant', base_learning_rate=0.05)
    natural = self.more[1]

    def dataset(*a, **k):  # datasets are immutable: made once
      key = repr(a), repr(sorted(k.items()))
      if key not in _DATASETS:
        _DATASETS[key] = with_nopreempt(
            core.current(), lambda: natural(*a, **k).with_options(
                quiet_options()))
      return _DATASETS[key]

    im.get_dataset_from_natural_text_examples = dataset

    advance = self.more[2]
    world = self.world

    def following(it):
      t = core.current()
      if world.preempt_in is not None:
        k = world.preempted.get(t.host.name, 0)
        if k == world.preempt_in:
          world.s.fault('preemption-notice')
          raise trainer_lib.PreemptionError('injected preemption')
        world.preempted[t.host.name] = k + 1
      return with_nopreempt(t, lambda: advance(it))

    clu_iter.TfDatasetIterator.__next__ = following

  def __exit__(self, *a):
    (utils.create_learning_rate_scheduler,
     im.get_dataset_from_natural_text_examples,
     clu_iter.TfDatasetIterator.__next__) = self.more
    super().__exit__(*a)


def world(run):
  utils.set_hardware_rng_ops()
  w = World(run)
  with Patched(w):
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)


REAL = [
    't5x.interactive_model.InteractiveModel',
    't5x.trainer.Trainer and its metric threads, t5x.metrics',
    't5x.utils legacy checkpoint manager, restore configuration, train state '
    'initializer, get_infer_fn', 't5x.checkpoints (real files)',
    'seqio preprocessors and byte vocabulary, tf.data pipelines',
    'jax tracing and compiled steps with donation; optax',
]
STUBS = [
    'model: two small parameters; predictions and scores are functions of the '
    'example and the parameters',
    'feature converter; metric writers that record',
    'multi-host steps: every host computes the step on one device; the data '
    'shards of inference are gathered by the simulator',
    'multihost collectives, file calls, clocks, threads: simulated',
]
