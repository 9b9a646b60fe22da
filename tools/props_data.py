"""The properties and the check of each: the source of properties.jsonl and
MANIFEST.json (tools/gen.py writes both)."""

PROPS = []


def prop(id, title, statement, over, over_text, tests, files, mech, technique,
         note, level='exploration', **anchors):
  PROPS.append({
      'id': id, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': over_text},
      'why_tests_cant': tests,
      'anchors': {'files': files,
                  'mechanism': [{'name': n, 'where': w} for n, w in mech],
                  **anchors},
      'check': {'technique': technique, 'note': note, 'level': level}})


def na(id, title, statement, over, over_text, tests, files, mech, reason):
  PROPS.append({
      'id': id, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': over_text},
      'why_tests_cant': tests,
      'anchors': {'files': files,
                  'mechanism': [{'name': n, 'where': w} for n, w in mech]},
      'na': reason})


CK = 't5x/checkpoints.py'
CU = 't5x/checkpoint_utils.py'
TR = 't5x/train.py'
TN = 't5x/trainer.py'
EV = 't5x/eval.py'
EXPLORE = ('Seeded search, not enumeration: no counterexample in the runs '
           'reported by the evidence file. ')
FSA = ('Trusts that rename and mkdir are atomic and durable, and that '
       'acknowledged writes are. ')

UT = 't5x/utils.py'
prop('C01', 'A crash never exposes a partial, wrong or lost checkpoint',
     'After a crash of any host at any point of saving, every checkpoint that '
     'the library lists in the directory loads completely and equals, bit for '
     'bit and in the saved dtypes, a train state that some save was given for '
     'that step. Every checkpoint whose save returned is still listed unless '
     'retention was entitled to remove it, and a restarted job restores the '
     'newest one and can save on top of the leftovers of the crash. A '
     'concurrent reader of a listed checkpoint sees a complete one.',
     ['crash_points', 'schedules', 'fault_sequences', 'histories'],
     'every crash point (before, after or in the middle of any file, '
     'directory or array write), every order in which the writes of all '
     'arrays and hosts complete, any number of crash/restart rounds, clock '
     'jumps between them, any state tree and partitioning, any directory and '
     'configured name of checkpoints',
     'The existing tests save and restore without a crash, and mock the file '
     'system or check that a directory exists; none interrupts a save.',
     [CK, CU],
     [('temporary directory then rename', f'{CK}: Checkpointer.save'),
      ('array writes awaited before commit',
       f'{CK}: Checkpointer._write_state_to_tensorstore'),
      ('listing only complete checkpoints', f'{CK}: all_steps, find_checkpoint'),
      ('removal', f'{CU}: remove_checkpoint_dir')],
     'crash, torn-write and lost-write injection at every file operation, '
     'restart, reference model of acknowledged saves',
     EXPLORE + FSA)

prop('C02', 'Restore returns exactly what was saved, whatever the topology',
     'Restoring a saved step, by step, by directory or by file path, eagerly '
     'or lazily, by the restoring job or by the stand-alone loader, returns '
     'every parameter, optimizer state and mutable bit for bit as saved, with '
     'the parameters alone cast to the save dtype and then to the restore '
     'dtype, no matter how many hosts, which mesh axes, which chunk sizes and '
     'which concurrency limit wrote or read it. Save and restore '
     'transformations and a fallback state affect exactly the entries they '
     'name. A parameter absent from the checkpoint, a partitioned parameter '
     'of another shape, or a read error raises instead of yielding other '
     'values, and a retry without the error succeeds.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'],
     'every state tree, mix of host arrays, lazy arrays and sharded device '
     'arrays, dtypes, partitioning of writer and reader, completion order of '
     'the array reads and writes, and read error',
     'The stable tests cover helper functions only; the checkpoint tests use '
     'one fixed tree on one host with reads and writes completing in order.',
     [CK, 't5x/partitioning.py', 't5x/state_utils.py', 't5x/train_state.py'],
     [('array write and cast', f'{CK}: Checkpointer._write_state_to_tensorstore'),
      ('array read and cast', f'{CK}: Checkpointer._read_state_from_tensorstore, _read_ts'),
      ('local chunk arithmetic', 't5x/partitioning.py: LocalChunker'),
      ('stand-alone reading', f'{CK}: load_t5x_checkpoint')],
     'seeded schedules of asynchronous array I/O over simulated hosts, read '
     'errors, bit-exact comparison with the saved reference state',
     EXPLORE + 'State trees are drawn from a fixed family of shapes and '
     'dtypes.')

prop('C03', 'A save completes, raises or is retried; it never lies or hangs',
     'Under write errors (full disk, I/O error, unavailable), failing lazy '
     'producers and stalled storage, a save either raises or returns with the '
     'checkpoint completely on disk; a checkpoint is never visible without '
     'all of its arrays and iterator states. Every save terminates for every '
     'concurrency limit, including arrays as large as or larger than it, and '
     'the arrays being written by a host at one time never exceed the limit '
     'unless a single array does. Once errors stop, saving the same step '
     'again, in the same process or after a restart, succeeds.',
     ['fault_sequences', 'schedules', 'configurations'],
     'every position, kind and length of write errors, every failing array '
     'producer, stall and completion order, and every concurrency limit '
     'relative to the array sizes',
     'No test injects a storage error, and the concurrency limit is tested '
     'for its counter alone.',
     [CK],
     [('memory budget', f'{CK}: _BytesConditionVariable'),
      ('array writes', f'{CK}: Checkpointer._write_state_to_tensorstore'),
      ('commit', f'{CK}: Checkpointer.save')],
     'error, stall and lost-write injection at every file operation, liveness '
     'bound, live accounting of bytes in flight, retry',
     EXPLORE + FSA)

prop('C04', 'Retention keeps the newest and the pinned, and only those',
     'After every save, with a limit on checkpoints, exactly the newest that '
     'many checkpoints and the pinned ones remain; without a limit nothing is '
     'removed; with a limit on dataset checkpoints exactly the newest that '
     'many and the pinned ones keep their iterator states. The newest '
     'checkpoint and a pinned one are never removed, and an unpinned one is '
     'removed by a later save. A crash, an error or a concurrent reader '
     'during removal leaves no checkpoint that is listed but incomplete.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'],
     'every history of saves, pins, unpins and restarts, every limit, and '
     'every crash point or I/O error during removal',
     'Retention is tested for one sequence of saves on a mocked or fault-free '
     'directory.',
     [CK, CU],
     [('retention', f'{CK}: Checkpointer._remove_old_checkpoints, '
       '_remove_old_dataset_checkpoints'),
      ('pinning and removal', f'{CU}: pin_checkpoint, unpin_checkpoint, '
       'is_pinned_checkpoint, remove_checkpoint_dir, '
       'remove_dataset_checkpoint')],
     'crash and error injection during removal, reference model of retention',
     EXPLORE + FSA)

prop('C05', 'The best checkpoints by a metric survive, whatever races',
     'When checkpoints are kept by a monitored metric, then after every save '
     'exactly these remain: the latest, as many of the best others as the '
     'limit says, those whose step is a multiple of the forced period, pinned '
     'ones, and, if so configured, those whose metric is not known yet; '
     'otherwise those without a metric go first, oldest first. A metric counts '
     'once its event is in the event files of the run it names, written by any '
     'process before the save began, the last one if there are several, whatever '
     'other runs and metrics are there and whatever record was cut short; one that is not a number is never '
     'better than one that is. A crash or an error during removal never costs '
     'a checkpoint that had to remain.',
     ['histories', 'schedules', 'crash_points', 'fault_sequences'],
     'every interleaving of saves, removals and writes of events, every '
     'history of metric values (missing, late, tied, infinite, not a number), '
     'restarts, pins, limits and modes, every crash point',
     'Only the construction of this checkpointer is tested.',
     [CK, CU],
     [('retention by metric', f'{CK}: SaveBestCheckpointer, '
       'populate_metrics_for_steps')],
     'event files written concurrently, torn and late under a seeded schedule, '
     'crash and error injection during removal, reference model of retention',
     EXPLORE + FSA)

prop('C06', 'Dataset iterators resume where their checkpoint was taken',
     'When dataset checkpointing is on, every visible checkpoint contains the '
     'iterator state of every data shard, taken at that save; hosts that feed '
     'the same shard share one. A restore puts the iterator of each shard '
     'back to exactly the position saved with the restored step, for the '
     'latest and for a named step, after any crash. Removing iterator states '
     'of old checkpoints never touches a newer or pinned one.',
     ['histories', 'crash_points', 'schedules', 'configurations'],
     'every number of hosts and data shards, host interleaving, crash point '
     'and restart history, and limit on dataset checkpoints',
     'Tests save one iterator on one host, or mock it.',
     [CK, CU, 't5x/utils.py'],
     [('iterator state per shard', f'{CK}: Checkpointer.__init__, save, restore'),
      ('removal of old iterator states', f'{CU}: remove_dataset_checkpoint')],
     'crashes and host interleavings with a position-counting iterator per '
     'shard, reference model of saved positions', EXPLORE + FSA)

prop('C07', 'All hosts save and restore one and the same checkpoint',
     'In a job of several hosts a checkpoint becomes visible only after every '
     'host has begun that save and finished all of its writes, and no host '
     'returns from a save before the checkpoint is visible. All hosts write '
     'into one temporary directory and take part in the same sequence of '
     'collectives whatever their clocks say, so no host waits forever. On '
     'restart every host restores the same step and state.',
     ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
     'every interleaving and relative delay of 1-4 hosts, clock skew between '
     'them, and crash of any host or two of them',
     'The tests run one process; multi-host code paths are mocked.',
     [CK],
     [('shared timestamp and barriers', f'{CK}: Checkpointer.save'),
      ('write barrier', f'{CK}: Checkpointer._write_state_to_tensorstore')],
     'simulated multi-host groups with seeded interleaving, skew and crashes',
     EXPLORE + FSA + 'Hosts are simulated in one process; collectives are a '
     'model with the semantics of jax multihost_utils.')

prop('C10', 'Checkpoints saved in the background are complete, and restored as saved',
     'With the default checkpointing, which writes in the background while '
     'training goes on, a checkpoint becomes visible only when every host has '
     'begun to save it, and then holds exactly the state (the target cast to '
     'the configured type) and iterator positions that this save was given, '
     'whatever training does with its buffers meanwhile. A save that was '
     'reported finished survives crashes and later failed saves, and old '
     'checkpoints are removed only beyond the configured number and never '
     'when their step is a multiple of the period to keep. Restoring a step, '
     'also one in the older format, gives its state and, on every host, the '
     'iterator position of its data shard; a job that only reads never '
     'disturbs the one that saves.',
     ['schedules', 'crash_points', 'fault_sequences', 'histories',
      'configurations'],
     'every interleaving of training, background write and reader, crash '
     'point or disk error, restart history, 1-4 hosts, types and limits',
     'Tests save and restore single states on one process without faults.',
     [CK, UT, 't5x/checkpoint_utils.py'],
     [('manager', f'{CK}: OrbaxCheckpointManagerInterface'),
      ('iterator states', f'{CK}: DatasetCheckpointHandler'),
      ('configuration', f'{UT}: create_orbax_checkpoint_manager')],
     'simulated file system, TensorStore transactions and Orbax threads under '
     'seeded schedules, crashes, disk errors and restarts',
     EXPLORE + FSA + 'Hosts are simulated in one process; collectives are a '
     'model with the semantics of jax multihost_utils. Checkpoints whose '
     'removal had begun are exempt: Orbax does not remove atomically.')

INF = 't5x/infer.py'
HOSTS = ('Hosts are simulated in one process; collectives are a model with '
         'the semantics of jax multihost_utils. ')

prop('C11', 'Background checkpoints kept by a metric are the best ones and the latest',
     'When checkpoints saved in the background are kept by a metric from the '
     'event files of the model directory, configured through the checkpointer '
     'that keeps the best or on the manager itself, the latest checkpoint and '
     'those at multiples of the configured period are never removed. Any other '
     'is removed only while at least the configured number of checkpoints '
     'remain that are no worse; one whose metric is NaN or not yet written '
     'counts as the worst, or, when configured so, is kept while there is no '
     'metric. No more than the configured number are kept beside those.',
     ['schedules', 'crash_points', 'fault_sequences', 'histories',
      'configurations'],
     'every interleaving of saves with the writer of the metrics, late, missing '
     'or special values, crash point, restart history, and setting',
     'Tests look at the options that are passed on, not at what is removed.',
     [CK, UT],
     [('choice', f'{CK}: OrbaxCheckpointManagerInterface'),
      ('metrics', f'{CK}: populate_metrics_for_steps'),
      ('configuration', f'{UT}: create_orbax_checkpoint_manager')],
     'real Orbax manager with seeded interleaving of saves, event writers, '
     'crashes and disk errors',
     EXPLORE + FSA)

prop('I01', 'Inference writes every example exactly once, whatever crashes',
     'However often an inference job crashes or is killed, on any of its '
     'hosts, and is started again, once it completes the result file of every '
     'task and shard holds every example exactly once and in order, with the '
     'input fields that were asked for, byte for byte what an undisturbed run '
     'writes. This holds for any number of '
     'shards, tasks and hosts, with or without checkpoints of the input, '
     'merged or not. Results are never marked complete before they are, and '
     'starting a finished job again changes nothing.',
     ['crash_points', 'histories', 'schedules', 'fault_sequences'],
     'every crash point of any host (in, before or after every file '
     'operation), every number of restarts, every schedule of the writer and '
     'the hosts, every number of examples relative to batch and chunk sizes, '
     'any name of the directory',
     'The inference tests run one job to its end, and mock the writer or the '
     'dataset; none crashes and restarts a job.',
     [INF],
     [('chunk loop and restart', f'{INF}: infer'),
      ('chunk files and merging', f'{INF}: merge_chunks_to_file, '
       'write_inferences_to_file'),
      ('background writer', f'{INF}: FailFastThreadPoolExecutor')],
     'crash, kill and torn-write injection at every file operation of a '
     'simulated multi-host job with restarts, comparison with an undisturbed '
     'run',
     EXPLORE + FSA + HOSTS)

prop('I02', 'A failed inference write is reported and never lost',
     'When writing, reading back, renaming or removing an inference result, '
     'a chunk or an input checkpoint fails, the job raises instead of '
     'finishing, and neither the chunk nor the results are marked complete '
     'without their contents. Once errors stop, running the same job again '
     'completes with results byte for byte equal to those of an undisturbed '
     'run.',
     ['fault_sequences', 'schedules', 'histories'],
     'every position, kind and length of write and rename errors, a failing '
     'writer on any chunk, and every schedule of the background writer',
     'No test injects an error into an inference write.',
     [INF],
     [('background writer failures', f'{INF}: FailFastThreadPoolExecutor'),
      ('chunk completion', f'{INF}: infer, rename of chunk files')],
     'I/O error injection at every file operation, failing writers, retry, '
     'comparison with an undisturbed run',
     EXPLORE + FSA + HOSTS)

prop('I03', 'Every inference result stays paired with its example',
     'On any number of hosts and any data layout, an inference function '
     'returns for every example of the dataset exactly one result, paired '
     'with the index of that example and computed from that example; auxiliary '
     'outputs stay aligned with them and padding never appears. Every batch '
     'gets its own random key, the same on all hosts. Datasets that are not '
     'the same on all hosts are refused.',
     ['inputs', 'configurations', 'schedules'],
     'every dataset length relative to the batch and host counts, every data '
     'layout, output structure and interleaving of the hosts',
     'Tests run on one process with a mocked partitioner or compare a single '
     'dataset length.',
     [UT],
     [('inference over a dataset', f'{UT}: get_infer_fn'),
      ('padding', f'{UT}: get_infer_fn, _remove_padding')],
     'simulated multi-host groups with seeded interleaving against a reference '
     'evaluation per example',
     EXPLORE + HOSTS)

prop('E01', 'Evaluation judges every checkpoint once, crashes included',
     'An evaluation of all checkpoints of a directory evaluates each in '
     'ascending order of step, with exactly the parameters saved in it, by '
     'inference and by training metrics alike, and records it as evaluated '
     'only after its metrics are finished. After a crash at any point and a '
     'restart, no recorded checkpoint is evaluated again and none is left '
     'out, checkpoints saved in between included; a crash while the record is '
     'written never makes a later evaluation fail or skip one. An evaluation '
     'of the latest or of a named checkpoint evaluates that one. Failing '
     'metrics make the evaluation fail, and an evaluation never changes the '
     'checkpoints it reads.',
     ['crash_points', 'schedules', 'histories', 'fault_sequences'],
     'every crash point, kill time, write error and failing metric, every '
     'interleaving of hosts and background metrics, any number of restarts '
     'and of checkpoints added between them',
     'The evaluation tests mock the checkpoints and evaluate them once.',
     [EV, UT],
     [('evaluation loop and record', f'{EV}: evaluate'),
      ('inference', f'{EV}: InferenceEvaluator; {UT}: get_infer_fn'),
      ('choice of checkpoints', f'{UT}: '
       'get_first_valid_restore_config_and_paths')],
     'crash, kill, torn-write and error injection in multi-host evaluation '
     'jobs with restarts, against the checkpoints that were saved',
     EXPLORE + FSA + 'No trainer removes checkpoints while a job runs.')

IM = 't5x/interactive_model.py'
prop('M01', 'An interactive session acts as one program, restarts included',
     'In an interactive session each training step advances the parameters by '
     'exactly one step on the given batch and has been saved when the call '
     'returns; a training loop runs as many steps as asked. Predictions, '
     'scores, auxiliary values and metrics come from the current parameters, '
     'one per example in the given order. A session started again on the same '
     'directory after a crash, an error or a preemption continues from the '
     'last saved step as if nothing had happened, and a preempted one has '
     'saved the step it is at. On several hosts every call returns on all.',
     ['histories', 'crash_points', 'schedules', 'fault_sequences'],
     'every sequence of calls in any number of sessions, every crash point, '
     'kill time, write error and preemption in them, every interleaving of '
     'the hosts and of the metric threads',
     'The interactive model has no tests in the list, and those upstream make '
     'single calls on one process.',
     [IM, TN, UT],
     [('session start and restore', f'{IM}: InteractiveModel.__init__'),
      ('training step and checkpoint', f'{IM}: train_step, train_loop'),
      ('inference', f'{IM}: infer_with_preprocessors'),
      ('metrics', f'{IM}: evaluate_with_preprocessors, _compute_metrics')],
     'seeded call histories over simulated hosts with crashes, kills, errors '
     'and preemptions, against a step-by-step reference of the parameters',
     EXPLORE + FSA + 'States are compared up to rounding.')

prop('T01', 'Interrupted training continues exactly where it would have been',
     'A training job that is crashed, killed, preempted or hit by I/O errors '
     'any number of times, and started again, goes through exactly the states '
     'of an uninterrupted run: every checkpoint and the result equal those of '
     'the same step, bit for bit, so that with checkpoints of the input no '
     'batch is skipped or repeated. No two steps, and no two microbatches of a '
     'step, are given the same random numbers. A preemption notice leaves a '
     'checkpoint of the last step done.',
     ['crash_points', 'histories', 'schedules', 'fault_sequences'],
     'every crash point, kill time, preempted step and write error, any number '
     'of restarts and hosts, any save, statistics and evaluation periods',
     'The training loop is not run by the stable tests, and no test stops it.',
     [TR, TN, UT, CK],
     [('restore and resume', f'{TR}: train'),
      ('input iterator checkpoints', f'{CK}: Checkpointer'),
      ('emergency checkpoint', f'{TR}: train, PreemptionError'),
      ('per-step randomness', f'{TN}: BaseTrainer')],
     'crash, kill, preemption and I/O error injection in a simulated '
     'multi-host training job with restarts, comparison of every checkpoint '
     'with an undisturbed run',
     EXPLORE + FSA + HOSTS)

prop('T02', 'Each step runs once and each due checkpoint is saved',
     'Training runs every step from the one it starts at to the last exactly '
     'once and in order. It saves a checkpoint of the step it starts at, of '
     'every period of steps from there, of each listed extra step and of the '
     'last step, and of no other; once done, exactly the latest of them are '
     'kept where a number to keep is set. Without a period, exactly the listed '
     'steps are saved. This holds for any combination of save, evaluation, '
     'statistics and garbage collection periods, for a total or a relative '
     'number of steps, and again after each crash and restart.',
     ['configurations', 'histories', 'crash_points', 'schedules'],
     'every combination of periods, listed steps and first step, every crash '
     'point',
     'The stable tests never run the training loop; the tests of it use one '
     'period.',
     [TR, UT],
     [('loop and periods', f'{TR}: train'),
      ('listed steps', f'{UT}: find_first_checkpoint_step, '
       'find_next_checkpoint_step')],
     'whole training jobs with drawn periods, crashed and restarted under a '
     'seeded schedule, against a model of the steps that are due',
     EXPLORE + FSA + HOSTS)

prop('T03', 'Training starts from the right state, transformed once',
     'A training job starts from the newest checkpoint of its own directory '
     'if there is one, otherwise from the configured pretrained checkpoint, '
     'otherwise from scratch, on all hosts alike, bit for bit. Restore '
     'transformations apply to the pretrained checkpoint and are told apart '
     'when resuming, so crashes never make them act twice; what they drop is '
     'filled in from scratch; the restored parameters have the number type '
     'asked for, or else that of the checkpoint. The input continues from the position saved '
     'with the checkpoint if that was asked for, else from its beginning.',
     ['configurations', 'histories', 'crash_points'],
     'every combination of own and pretrained checkpoints, restore mode, '
     'transformations and input checkpoints, every crash point of earlier runs',
     'The tests check the order of preference with mocks, without a crash and '
     'a second run.',
     [TR, UT],
     [('order of preference', f'{TR}: train; {UT}: '
       'get_first_valid_restore_config_and_paths'),
      ('restore', f'{UT}: create_checkpoint_manager_and_restore')],
     'crash and kill injection in jobs that restart from what is on disk, '
     'against a model of where each must start',
     EXPLORE + FSA + HOSTS)

prop('T04', 'A request to stop training is honoured at once, by every host',
     'As soon as any action asks to stop, after training steps, an evaluation '
     'or an inference evaluation, no host runs another training step, all '
     'return the step of the request and its state, and if checkpoints are '
     'saved periodically one of that step exists. Until then every action '
     'runs exactly once, on the first host, wherever metrics for it are due, '
     'with the exact metrics of that step; a non-finite loss is noticed by '
     'the action made for it.',
     ['schedules', 'configurations', 'histories'],
     'every step and kind of action that asks, every combination of periods, '
     'hosts and interleaving',
     'Actions are tested one by one on fixed metrics, not in the loop and not '
     'together.',
     [TR, TN],
     [('actions', f'{TR}: run_actions, train'),
      ('actions of the library', f'{TN}: TerminateOnNanAction')],
     'multi-host training jobs with actions that ask at drawn steps under a '
     'seeded schedule, against a model of the loop',
     EXPLORE + HOSTS)

prop('T05', 'Training reports every metric once, in order and exactly',
     'When training returns, the first host and no other has written, in '
     'order and exactly once, the metrics of each window of training steps '
     'and of each due evaluation of each dataset, and run each due inference '
     'evaluation, all with the parameters of the step they are reported for; '
     'averages, sums, learning rates, durations and rates are those of exactly '
     'the steps of the window, and no two threads write at once. If a write fails training raises instead.',
     ['schedules', 'configurations', 'fault_sequences'],
     'every schedule of the background threads, slow or failing writers, '
     'every combination of periods and hosts, microbatches or not',
     'The tests of the metrics threads mock the clock and the writer and run '
     'one window.',
     [TN, TR],
     [('metrics threads', f'{TN}: MetricsManager, _AsyncTimer'),
      ('training and evaluation loops', f'{TN}: BaseTrainer.train, eval'),
      ('schedule of evaluations', f'{TR}: train')],
     'slow and failing metric writers under a seeded schedule of all threads '
     'and a virtual clock, against the losses of an undisturbed run',
     EXPLORE + HOSTS)

prop('G01', 'Manual garbage collection is exact and is handed back',
     'With a garbage collection period, automatic collection is off in every '
     'training step and a collection happens after each period of steps and '
     'at the end. When training returns, be it finished, stopped early or '
     'with nothing to do, automatic collection is on exactly if it was before. '
     'The same holds for scopes that switch collection off during imports, '
     'nested, failing or on several threads.',
     ['configurations', 'histories', 'schedules'],
     'every combination of periods, first and last step, early stop, nesting '
     'and interleaving of threads',
     'The tests cover one import on one thread.',
     [TR, 't5x/disable_gc_during_import.py'],
     [('manual collection', f'{TR}: train'),
      ('imports', 't5x/disable_gc_during_import.py: disabled_gc')],
     'whole training jobs and import threads under a seeded schedule with a '
     'virtual collector switch per host',
     EXPLORE)

prop('C08', 'Hosts of a job agree on checkpoints another job saves and removes',
     'The hosts of a job that evaluates, or starts training from, the '
     'checkpoints of a directory in which another job saves and removes '
     'checkpoints meanwhile all use the same checkpoints, complete and as they '
     'were saved. In latest mode it is none older than the newest there when '
     'the job started; an evaluation of all evaluates at least those there at '
     'its start and not evaluated before. The job fails with an error only if a '
     'checkpoint is removed meanwhile, and its hosts never wait for each other '
     'forever.',
     ['schedules', 'histories', 'inputs'],
     'every moment at which the other job saves or removes a checkpoint '
     'relative to what each host of the reading job does',
     'The tests read directories that nobody writes to, on one host.',
     [UT, EV, CK],
     [('choice of checkpoints', f'{UT}: get_first_valid_restore_config_and_paths'),
      ('evaluation of all', f'{EV}: evaluate'),
      ('restore', f'{CK}: Checkpointer.restore')],
     'seeded simulation of jobs of several hosts that evaluate or train from a '
     'directory while another simulated job saves and removes there',
     EXPLORE + FSA + 'The reading job is not itself disturbed.')
prop('D01', 'All hosts are fed their share of one input, whatever their clocks',
     'Every host of a training job uses the same data seed and starts from the '
     'same random parameters, also when no seed is configured and the clocks '
     'of the hosts differ; a configured seed, 0 included, is the one used, and '
     'without one a job started later draws another. Hosts of one data shard '
     'get the same batches, different shards get disjoint examples, and no '
     'example comes round again before the others of its shard have, but for '
     'the window of the shuffle; a job that is started again with its input '
     'checkpointed continues in the input without repeating or skipping. A '
     'training evaluation shows the first batches of each evaluation set, the '
     'same ones for every number of shards.',
     ['schedules', 'crash_points', 'histories', 'inputs'],
     'every offset between the clocks, every crash point and kill time of any '
     'number of jobs, every layout of hosts and shards, every task or mixture '
     'and configuration of the input',
     'The tests call the data functions on one process with the pipeline '
     'mocked out; no test runs several hosts or restarts a pipeline.',
     [UT, 't5x/train.py'],
     [('data seed and shards', f'{UT}: get_dataset, get_dataset_inner'),
      ('evaluation sets', f'{UT}: get_training_eval_datasets'),
      ('random seed', 't5x/train.py: train')],
     'seeded simulation of jobs on hosts with different clocks, with crashes '
     'and restarts, on real pipelines of numbered examples, against the '
     'pipeline read directly and conservation of examples',
     EXPLORE + FSA + 'The data pipeline library itself is trusted.')
