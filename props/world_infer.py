"""t5x.infer over simulated hosts: crash, restart, write errors.

The real infer loop, chunk writer, merger and get_infer_fn run on real tf.data
pipelines of seqio tasks; the model is a pure function of the example and of
the chunk's random key.
"""

import hashlib
import json
import os
import types

import jax
import numpy as np
import seqio
import tensorflow as tf

from dst import core
from dst import simhosts
from dst.simfs import FaultPlan
from dst.simfs import quiet_options
from dst.simfs import with_nopreempt
from props import common as c
from t5x import infer
from t5x import utils

_TASKS = {}


def task(n, name):
  """A registered seqio task of n examples; example i carries `base + i`."""
  key = f'sim_{name}_{n}'
  if key not in _TASKS:
    base = 100 if name == 'b' else 0

    def ds_fn(split, shuffle_files=False, seed=None):
      ids = base + np.arange(n, dtype=np.int32)
      return tf.data.Dataset.from_tensor_slices({
          'inputs': np.stack([ids, 3 * ids + 1], 1),
          'targets': np.stack([ids + 1, ids + 2], 1),
          'id_pretokenized': ids,
          'text_pretokenized': np.array(
              [b'ex' * (i % 4) + str(i).encode() for i in ids]),
      }).with_options(quiet_options())

    feat = lambda: seqio.Feature(seqio.PassThroughVocabulary(1000),
                                 add_eos=False)
    seqio.TaskRegistry.add(
        key, source=seqio.FunctionDataSource(
            ds_fn, splits=['infer'], num_input_examples={'infer': n}),
        preprocessors=[], output_features={'inputs': feat(),
                                           'targets': feat()})
    _TASKS[key] = base
  return key


def mixture(n, m):
  name = f'sim_mix_{n}_{m}'
  if name not in _TASKS:
    seqio.MixtureRegistry.add(name, [(task(n, 'a'), 1.0), (task(m, 'b'), 1.0)])
    _TASKS[name] = 0
  return name


class Converter:
  """Stands in for a model's feature converter."""

  def __init__(self, pack=False):
    pass

  def __call__(self, ds, task_feature_lengths):
    return ds.map(lambda x: {'inputs': x['inputs'], 'targets': x['targets']})


def _rng_tag(rng):
  if rng is None:
    return 0
  return int(np.asarray(rng).ravel()[-1]) % 997


class Model:
  FEATURE_CONVERTER_CLS = Converter

  def get_initial_variables(self, *a, **k):
    return {}

  def predict_batch(self, params, batch, rng=None):
    x = np.asarray(batch['inputs'])
    tag = _rng_tag(rng)
    return np.stack([x[:, 0] + 1, x[:, 1], np.full(len(x), tag),
                     np.arange(len(x))], 1).astype(np.int32)

  def predict_batch_with_aux(self, params, batch, rng=None):
    x = np.asarray(batch['inputs'])
    return (self.predict_batch(params, batch, rng),
            {'scores': (x[:, 0] * 2.5).astype(np.float32),
             'nested': {'y': x[:, 1] + _rng_tag(rng)}})

  def score_batch(self, params, batch, rng=None):
    x = np.asarray(batch['inputs'])
    return (x[:, 0] * 1000 + _rng_tag(rng)).astype(np.float64)


class Initializer:

  def __init__(self, **kw):
    self.global_train_state_shape = None
    self.train_state_axes = types.SimpleNamespace(params=None,
                                                  flax_mutables=None)


class InferPartitioner(c.SimPartitioner):
  """Runs a step over the data shards of all hosts of the group."""

  @property
  def data_partition_spec(self):
    return jax.sharding.PartitionSpec('data')

  def partition(self, fn, in_axis_resources, out_axis_resources,
                static_argnums=(), donate_argnums=()):

    def step(params, batch, rng, indices, mutables):
      t = core.current()
      h = t.host
      if h.group is None or h.group.n == 1:
        return fn(params, batch, rng, indices, mutables)
      shard = self.get_data_layout(self.batch).shard_id
      got = h.group.exchange(h, 'step', (
          shard, jax.tree_util.tree_map(np.asarray, (batch, indices, rng))))
      by = {}
      for sh, x in got:
        if sh in by and not same(by[sh], x):
          h.sim.fail('replicas-differ', f'hosts that feed data shard {sh} '
                     'passed different batches to one step')
        by[sh] = x
      rngs = [x[1][2] for x in got]
      if any(not same(r, rngs[0]) for r in rngs):
        h.sim.fail('replicas-differ', 'hosts passed different random keys')
      whole = jax.tree_util.tree_map(
          lambda *a: np.concatenate(a), *[by[k][:2] for k in sorted(by)])
      return fn(params, whole[0], rng, whole[1], mutables)

    return step


def same(a, b):
  la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
  return len(la) == len(lb) and all(
      np.asarray(x).shape == np.asarray(y).shape
      and np.all(np.asarray(x) == np.asarray(y)) for x, y in zip(la, lb))


def draw_cfg(ch, focus):
  cfg = {}
  cfg['hosts'] = ch.pick([1, 2, 1, 3, 4], 'hosts')
  cfg['replicas'] = 2 if cfg['hosts'] in (2, 4) and ch.chance(300) else 1
  shards = cfg['hosts'] // cfg['replicas']
  cfg['batch'] = shards * ch.pick([1, 2, 3], 'per-shard-batch')
  cfg['period'] = ch.pick([1, 2, 3], 'checkpoint-period')
  chunk = cfg['period'] * cfg['batch']
  cfg['n'] = [1 + ch.draw(min(14, 4 * chunk), 'examples')]
  if ch.chance(300):
    cfg['n'].append(1 + ch.draw(min(8, 2 * chunk), 'examples2'))
  cfg['mode'] = ch.pick(['predict', 'score', 'predict_with_aux'], 'mode')
  cfg['num_shards'] = ch.pick([1, 1, 2, 3], 'num-shards')
  # A shard without examples cannot be merged; that is refused, by design.
  cfg['num_shards'] = min([cfg['num_shards']] + cfg['n'])
  cfg['ckpt'] = not ch.chance(350)
  cfg['focus'] = focus
  cfg['merge'] = not ch.chance(250)
  cfg['aux_np'] = ch.chance(200)
  cfg['inputs'] = ch.pick([None, None, 'all', ('id',), ('id', 'inputs'),
                           ('id_pretokenized', 'targets', 'text')], 'inputs')
  cfg['output_ids'] = ch.chance(400)
  return cfg


def run_infer(host, cfg, out, shard, write_fn):
  n, rep = cfg['hosts'], cfg['replicas']
  gm = c.fake_mesh(n // rep, rep, n // rep, rep, host.index)
  part = InferPartitioner(gm, None)
  part.batch = cfg['batch']
  name = (task(cfg['n'][0], 'a') if len(cfg['n']) == 1
          else mixture(*cfg['n']))
  infer.infer(
      mode=cfg['mode'], model=Model(),
      dataset_cfg=utils.DatasetConfig(
          mixture_or_task_name=name,
          task_feature_lengths={'inputs': 2, 'targets': 2}, split='infer',
          batch_size=cfg['batch'], shuffle=False, seed=0),
      restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path='/nowhere'),
      partitioner=part, output_dir=out, checkpoint_period=cfg['period'],
      shard_id=shard, num_shards=cfg['num_shards'],
      merge_chunked_results=cfg['merge'], checkpoint_ds_iter=cfg['ckpt'],
      train_state_initializer_cls=Initializer, write_fn=write_fn,
      summarize_config_fn=lambda **k: None, verify_matching_vocabs_fn=None,
      keep_aux_as_numpy=cfg['aux_np'] and cfg['mode'] == 'predict_with_aux')


_MEMO = {}


class Patches:
  """Checkpoint restore of the model is not what is tested here."""

  def __enter__(self):
    self.old = {}
    self.get = seqio.Task.get_dataset

    def get_dataset(task, *a, **k):  # datasets are immutable: made once
      key = (task.name, repr(a), repr(sorted(k.items())))
      if key not in _MEMO:
        t = core.current()
        make = lambda: self.get(task, *a, **k)
        _MEMO[key] = make() if t is None else with_nopreempt(t, make)
      return _MEMO[key]

    seqio.Task.get_dataset = get_dataset
    for name, fn in (
        ('log_model_info', lambda *a, **k: None),
        ('create_checkpoint_manager_and_restore',
         lambda *a, **k: (types.SimpleNamespace(
             params={}, flax_mutables={}, step=7), None))):
      if hasattr(utils, name):
        self.old[name] = getattr(utils, name)
        setattr(utils, name, fn)

  def __exit__(self, *a):
    seqio.Task.get_dataset = self.get
    for k, v in self.old.items():
      setattr(utils, k, v)


class World:

  def __init__(self, run, cfg):
    self.run = run
    self.ch = run.ch
    self.cfg = cfg
    self.out = os.path.join(run.scratch, run.ch.pick(
        c.DIRS if cfg['ckpt'] else c.ODD_DIRS, 'out'))
    os.makedirs(self.out)
    self.s = run.sim()
    self.s.fs = FaultPlan(run.ch)
    self.s.preempt = run.ch.pick([0, 30, 200], 'preempt')
    self.s.monitors.append(self.monitor)
    self.finished = {}  # final output name -> digest once COMPLETED
    self.subtasks = [task(cfg['n'][0], 'a')] + (
        [task(cfg['n'][1], 'b')] if len(cfg['n']) > 1 else [])
    self.sizes = dict(zip(self.subtasks, cfg['n']))
    self.hit = False

  # ---- the oracle
  def fname(self, t, shard):
    return (f'{t}-{self.cfg["mode"]}.jsonl-{shard:05}-of-'
            f'{self.cfg["num_shards"]:05}')

  def tmp(self, t, shard):
    return os.path.join(
        self.out, f'tmp-{t}-{shard:05}-of-{self.cfg["num_shards"]:05}')

  def ids(self, t, shard):
    base = _TASKS[t]
    return [base + i for i in range(self.sizes[t])
            if i % self.cfg['num_shards'] == shard]

  def data(self, t, shard):
    """The final results of one shard of a task, in order."""
    f = os.path.join(self.out, self.fname(t, shard))
    if self.cfg['merge']:
      with c.REAL_OPEN(f, 'rb') as fh:
        return fh.read()
    d = self.tmp(t, shard)
    out = b''
    names = sorted(x for x in os.listdir(d)
                   if x.startswith(self.fname(t, shard) + '-chunk')
                   and not x.endswith('.COMPLETED'))
    for x in names:
      with c.REAL_OPEN(os.path.join(d, x), 'rb') as fh:
        out += fh.read()
    return out

  def inputs(self, i):
    """The fields of example i that its line of results has."""
    full = {'inputs': [i, 3 * i + 1], 'targets': [i + 1, i + 2],
            'id_pretokenized': i,
            'text_pretokenized': 'ex' * (i % 4) + str(i)}
    only = self.cfg['inputs']
    if only == 'all':
      return full
    end = '_pretokenized'
    return {k: v for k, v in full.items()
            if (k.endswith(end) if only is None else k in only
                or k.endswith(end) and k[:-len(end)] in only)}

  def check_lines(self, raw, want, where):
    fail = lambda why: self.s.fail('wrong-output', f'{where}: {why}')
    if raw and not raw.endswith(b'\n'):
      fail('the last line is cut short')
    try:
      rows = [json.loads(l) for l in raw.splitlines()]
      got = [r['inputs']['id_pretokenized'] for r in rows]
    except Exception as e:  # pylint: disable=broad-exception-caught
      fail(f'not valid JSON lines: {e}')
    if got != want:
      fail(f'examples {got}, expected each once and in order: {want}')
    mode = self.cfg['mode']
    for i, r in zip(want, rows):
      if r['inputs'] != self.inputs(i):
        fail(f'inputs of example {i} are {r["inputs"]}')
      if mode == 'score':
        if int(r['score']) // 1000 != i:
          fail(f'example {i} has the score of another: {r["score"]}')
      else:
        pred = list(r['prediction'])
        if pred[:2] != [i + 1, 3 * i + 1]:
          fail(f'example {i} has the prediction of another: {r["prediction"]}')
        if self.cfg['output_ids']:
          cut = pred[:pred.index(0)] if 0 in pred else pred
          if r.get('prediction_tokens') != cut:
            fail(f'example {i}: tokens {r.get("prediction_tokens")} of '
                 f'prediction {pred}')
        elif 'prediction_tokens' in r:
          fail(f'example {i} has token numbers nobody asked for')
      if mode == 'predict_with_aux' and (
          r['aux'] != {'scores': i * 2.5,
                       'nested': {'y': 3 * i + 1 + r['prediction'][2]}}):
        fail(f'example {i} has the aux values of another: {r["aux"]}')

  def monitor(self, host, kind, path):
    if kind not in ('create', 'rename') or not path.endswith('.COMPLETED'):
      return
    path = path.split(' -> ')[0]
    name = os.path.basename(path)[:-len('.COMPLETED')]
    for t in self.subtasks:
      for sh in range(self.cfg['num_shards']):
        f = self.fname(t, sh)
        if name == f:
          self.run.probe('completed')
          try:
            raw = self.data(t, sh)
          except FileNotFoundError:
            self.s.fail('early-complete', f'{f} was marked complete without '
                        'its results')
          self.check_lines(raw, self.ids(t, sh), f'{f} when marked complete')
          self.finished[f] = hashlib.sha1(raw).hexdigest()
        elif name.startswith(f + '-chunk'):
          k = int(name[-5:])
          self.run.probe('chunk')
          size = self.cfg['period'] * self.cfg['batch']
          ids = self.ids(t, sh)[k * size:(k + 1) * size]
          p = os.path.join(self.tmp(t, sh), name)
          if not os.path.exists(p):
            self.s.fail('early-complete', f'{name} was marked complete but '
                        'is not there')
          with c.REAL_OPEN(p, 'rb') as fh:
            self.check_lines(fh.read(), ids, f'{name} when marked complete')

  def verify(self, when):
    for t in self.subtasks:
      for sh in range(self.cfg['num_shards']):
        f = self.fname(t, sh)
        done = os.path.exists(os.path.join(self.out, f + '.COMPLETED'))
        if f in self.finished and not done:
          self.s.fail('lost-completion', f'{when}: {f} was complete')
        if done:
          try:
            raw = self.data(t, sh)
          except FileNotFoundError:
            self.s.fail('lost-output', f'{when}: {f} is marked complete but '
                        'its results are gone')
          self.check_lines(raw, self.ids(t, sh), f'{when}: complete {f}')
          if f in self.finished and (
              hashlib.sha1(raw).hexdigest() != self.finished[f]):
            self.s.fail('changed-output', f'{when}: {f} changed after it was '
                        'complete')

  writer_fail = None

  def write(self, path, inferences, *a, **k):
    """The default writer, failing half-way when told to."""
    if self.writer_fail is not None:
      self.writer_fail -= 1
      if not self.writer_fail:
        self.s.fault('writer-error', os.path.basename(path))
        cut = self.ch.draw(2, 'cut')
        if cut:
          with tf.io.gfile.GFile(path, 'w') as f:
            f.write('{"inputs": ')
        raise ValueError('injected writer error')
    only = self.cfg['inputs']
    return infer.write_inferences_to_file(
        path, inferences, *a, **k, output_ids=self.cfg['output_ids'],
        include_all_inputs=only == 'all',
        input_fields_to_include=None if only == 'all' else only)

  # ---- jobs
  def launch(self, s, name, shard, cfg, out):
    group = simhosts.Group(s, cfg['hosts'], name)
    hosts = [s.add_host(i, f'{name}h{i}', group=group)
             for i in range(cfg['hosts'])]
    tasks = [s.spawn(h, lambda h=h: run_infer(h, cfg, out, shard, self.write),
                     'main') for h in hosts]
    for t in tasks:
      t.expected = True
    return hosts, tasks

  def wait(self, s, hosts, tasks, kill=None):
    """Waits for one job; a job with a dead or failed host is killed."""
    t0 = s.now
    while not all(t.done for t in tasks):
      if kill is not None and s.now - t0 >= kill[1]:
        h = hosts[kill[0]]
        if h.alive:
          s.fault('kill', h.name)
          s.crash_host(h, 'killed')
        kill = None
      if any(not h.alive for h in hosts) or any(
          t.done and t.exc is not None for t in tasks):
        s.sleep(self.ch.draw(20, 'detect') / 10.0)
        for h in hosts:
          s.crash_host(h, 'killed with its job')
        break
      s.sleep(0.05)
    for t in tasks:
      s.join(t)
    bad = [t for t in tasks if t.exc is not None
           and not isinstance(t.exc, (core.SimKilled, core.SimStop))]
    died = any(isinstance(t.exc, core.SimKilled) for t in tasks)
    return bad, died

  def supervise(self):
    ch, s, cfg = self.ch, self.s, self.cfg
    shards = list(range(cfg['num_shards']))
    rounds = ch.pick([1, 2, 3, 0, 2, 3], 'rounds')
    todo = list(shards)
    for k in range(rounds + 1):
      last = k == rounds
      s.fs.crash_at, s.fs.error_at = {}, {}
      kill = None
      faulty = None
      if not last and todo:
        faulty = ch.pick(todo, 'faulty-shard')
      for sh in list(todo):
        s.fs.crash_at, s.fs.error_at = {}, {}
        kill = None
        errors = False
        if sh == faulty:
          what = ch.weighted([('crash', 6), ('error', 1), ('kill', 3)]
                             if cfg['focus'] == 'crash' else
                             [('error', 5), ('writer', 3), ('crash', 1)],
                             'what')
          if what == 'crash':
            s.fs.crash_at = {0: 1 + ch.draw(32, 'crash-at')}
          elif what == 'error':
            errors = True
            s.fs.error_at = {0: [(1 + ch.draw(32, 'error-at'),
                                  ch.pick([1, 2, 10 ** 6], 'error-count'),
                                  ch.pick(['enospc', 'eio'], 'error'))]}
          elif what == 'writer':
            errors = True
            self.writer_fail = 1 + ch.draw(4, 'writer-fails-at')
          else:
            kill = (ch.draw(cfg['hosts'], 'who'), ch.draw(250, 'when') / 1000)
        hosts, tasks = self.launch(s, f'r{k}s{sh}', sh, cfg, self.out)
        before = dict(s.faults)
        bad, died = self.wait(s, hosts, tasks, kill)
        s.fs.crash_at, s.fs.error_at = {}, {}
        self.writer_fail = None
        hit = {x for x in s.faults if s.faults[x] != before.get(x)
               and (x.startswith('io-') or x == 'writer-error')}
        if 'writer-error' in hit and not bad:
          s.fail('swallowed', 'writing the results of a chunk raised, but '
                 'infer did not')
        if bad and not hit:
          self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
        if bad:
          self.run.probe('raised')
        if died and not bad:
          self.run.probe('died')
        self.verify(f'after round {k} shard {sh}')
        if not bad and not died:
          todo.remove(sh)
          self.expect_done(sh, f'after round {k}')
    if todo:
      s.fail('no-progress', f'without faults shards {todo} did not complete')
    if ch.chance(300):  # starting a finished job again changes nothing
      sh = ch.pick(shards, 'again')
      hosts, tasks = self.launch(s, 'again', sh, cfg, self.out)
      bad, _ = self.wait(s, hosts, tasks)
      if bad:
        self.run.unexpected(bad[0].exc, bad[0].tb, bad[0].host.name)
      self.run.probe('restarted-when-done')
    self.verify('at the end')
    self.results = {self.fname(t, sh): self.data(t, sh)
                    for t in self.subtasks for sh in shards}

  def expect_done(self, sh, when):
    for t in self.subtasks:
      f = self.fname(t, sh)
      if not os.path.exists(os.path.join(self.out, f + '.COMPLETED')):
        self.s.fail('false-success', f'{when}: infer returned but {f} is not '
                    'marked complete')


def reference(run, cfg):
  """The results of one undisturbed run, outside the recorded simulation."""
  ch = core.Choices(prefix=[])
  s = core.Sim(ch, os.path.join(run.root, 'ref'))
  out = os.path.join(s.scratch, 'out')
  os.makedirs(out)
  s.fs = FaultPlan(ch)
  w = World.__new__(World)
  w.run, w.ch, w.cfg, w.out, w.s = run, ch, cfg, out, s
  w.subtasks = [task(cfg['n'][0], 'a')] + (
      [task(cfg['n'][1], 'b')] if len(cfg['n']) > 1 else [])

  def go():
    for sh in range(cfg['num_shards']):
      hosts, tasks = w.launch(s, f'ref{sh}', sh, cfg, out)
      bad, _ = w.wait(s, hosts, tasks)
      if bad:
        run.unexpected(bad[0].exc, bad[0].tb, 'undisturbed run')

  t = s.spawn(s.add_host(99, 'ctl'), go, 'ref')
  t.expected = True
  try:
    s.run()
    if s.violation is not None:
      raise s.violation
    if t.exc is not None:
      raise t.exc
    return {w.fname(t, sh): w.data(t, sh)
            for t in w.subtasks for sh in range(cfg['num_shards'])}
  finally:
    import shutil
    shutil.rmtree(s.scratch, ignore_errors=True)


def world(run, focus):
  cfg = draw_cfg(run.ch, focus)
  run.note(**cfg)
  with Patches():
    ref = reference(run, cfg) if run.ch.chance(300) else None
    if ref is not None:
      run.probe('compared-with-undisturbed')
    w = World(run, cfg)
    w.s.spawn(w.s.add_host(99, 'ctl'), w.supervise, 'supervisor')
    run.go(w.s)
    for f, raw in w.results.items():
      if ref is not None and raw != ref[f]:
        run.fail('differs-from-undisturbed', f'{f} after crashes and restarts '
                 'differs from the output of an undisturbed run')


REAL = [
    't5x.infer.infer with its chunk writer, merger and thread pool',
    't5x.utils.get_infer_fn', 't5x.partitioning data layout',
    'seqio tasks and mixtures, tf.data pipelines and iterators',
    'tf.train.Checkpoint of the input iterator (real files)',
]
STUBS = [
    'model: a pure function of the example and the random key',
    'feature converter and model checkpoint restore',
    'partitioned step: gathers the data shards of the simulated hosts',
    'tf.data background threads (prefetch, parallel map) run synchronously',
    'multihost collectives, file calls, clocks, threads: simulated',
]
