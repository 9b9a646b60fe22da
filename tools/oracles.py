"""How each property is decided: what DESIGN.md says about the oracle."""

O = {}

O['C01'] = """A monitor at every rename and at every listing by a concurrent
reader loads what is listed and compares it with the reference model (the list
of train states that saves were given, per step); after each crash a fresh job
restores and every listed step is compared bit for bit with the model; a step
whose save returned and that retention did not cover must be listed. Bounds:
up to 4 hosts, 3 incarnations, 5 saves, 4 parameters."""
O['C02'] = """Writer and readers draw their topologies independently; each
restored leaf is compared, with its dtype, with the saved array cast as the
statement says. Read errors are injected into TensorStore reads and index
reads: the call must raise and the retry must equal the model. Lazy leaves are
read later and in drawn order."""
O['C03'] = """Every file operation of a save may fail, stall or lose its write;
a monitor in the TensorStore seam sums the bytes of the writes in flight and
compares the sum with `concurrent_gb`. A save that returned must have left a
complete checkpoint (same loader and model as C01); one that raised must be
retryable; one that does neither within the step bound of virtual time is a
hang."""
O['C04'] = """A model of retention (newest `keep`, newest
`keep_dataset_checkpoints`, pinned ones) is evaluated after every save and after
every restart; the listing must be that set plus what a crash kept from being
deleted yet, and everything listed must load."""
O['C05'] = """A second thread writes real TensorBoard records into event files of
the monitored run and of decoys, split and torn. The set of metrics that were
readable when a save began and when it returned is known from the sizes of the
files; what remains must be explained by a set of known metrics in between.
Every single removal, also one that a crash cut short, must be of a checkpoint
that enough others were at least as good as."""
O['C06'] = """Each data shard is read by an iterator that counts; the restored
position must be the one the model recorded for that step and shard, also for
hosts that share a shard, after crashes and in jobs that read the directory
anew."""
O['C07'] = """2-4 hosts under drawn interleavings, skew and crashes of some of
them. All hosts must report the same restored step and equal states; collectives
are checked for agreement of name and participants; a host that waits for ever
is a deadlock, which the scheduler sees."""
O['C10'] = """The shipped Orbax manager of t5x with real Orbax code and
threads; saved jax arrays are donated to a step right after `save` returns.
Every save has its own salt, so what an auditor restores after each incarnation
must be one of the states given for that step, and the committed one if it was
reported finished. A monitor on renames and unlinks judges every commit and every
removal when it happens; readers, legacy checkpoints, parameters without
optimizer state, dtypes, hosts and replicas are drawn."""
O['C11'] = """As C10, with a second thread that writes event files (decoys,
split and torn records, NaN and infinite values, late or missing metrics) as C05
does. Each removal is judged when it happens: the metrics that could be read
before the save and those at the removal bound what the choice may have known.
After each finished save, those kept for their metric alone are counted."""
O['I01'] = """The shipped `infer` main loop runs with real seqio/tf.data input and
result writers; the job is crashed or killed in drawn operations and started
again until it completes. The final files must equal, byte for byte where the
order is defined, those of an undisturbed run of the same configuration, and no
intermediate final file may hold anything else."""
O['I02'] = """Like I01 with write errors and failing writer functions: a job
that returns must have written everything; otherwise it must have raised, and
the run that follows without errors must complete the result."""
O['I03'] = """`get_infer_fn` on 1-4 hosts with drawn dataset lengths, padding,
layouts and output kinds; each output is recomputed from its example by a
reference function, and counts and order are compared; random keys must be as
the reference derives them."""
O['E01'] = """The shipped `evaluate` over a directory of checkpoints, saved in
the legacy format and, in a third of the runs (one host), through Orbax; there
the evaluation restores through Orbax, too;
jobs are disturbed and started again. The reference is the list of checkpoints
and their parameters: each must be judged with its own parameters, exactly once
per successful job sequence unless a crash fell between the evaluation and its
record."""
O['M01'] = """The shipped `InteractiveModel` with a two-parameter model on real
tf.data pipelines. Sessions make drawn calls; the parameters after each sequence
of batches are computed step by step outside the session, and every checkpoint,
state, loss, score and prediction is compared with them. Bounds: 1-2 hosts, up
to three sessions of four calls, requests of 1-9 examples."""
O['C08'] = """The shipped `evaluate` of 2-4 hosts, started up to three times
while another host saves with the real Checkpointer and removes all but the
newest one or two, or keeps all; and the shipped `train` of 2-4 hosts that
restores the latest pretrained checkpoint while checkpoints appear and
disappear. What each host evaluated or starts from is compared between the
hosts, with what was saved, and with what was there at the start."""
O['D01'] = """The shipped `train`, `get_dataset` and `get_training_eval_datasets`
on real tf.data pipelines of numbered examples (in memory or in text files, tasks
or mixtures), hosts with clocks up to 500 s apart. What enters each step is
compared with the pipeline read directly for the job's seed and shard, with the
other hosts, and counted over the life of the input. Bounds: 1, 2 or 4 hosts,
5-13 training examples per task, 4-10 steps, up to two restarts. When files are
shuffled and no seed is set, a restarted pipeline may choose another order of
files: then examples are only counted."""
O['T01'] = """The shipped `train` of t5x with a two-parameter model whose
parameters are an exact function of the sequence of batches and random keys
consumed. Every checkpoint of the disturbed jobs is compared with that of the
undisturbed run at the same step (parameters, optimizer state, position of the
input). The noise that each step and microbatch of the undisturbed run drew
is summed and must differ between all of them. Bounds: 1-2 hosts, 3-10 steps, up to 3 disturbances."""
O['T02'] = """As T01 without the comparison of values: a model of the loop says
which steps run and which checkpoints are saved, for drawn periods, listed
steps and total or relative numbers of steps."""
O['T03'] = """As T01, but a first job leaves pretrained checkpoints; a model says
which checkpoint is the start (own latest, pretrained in strict, fallback or
specific mode, scratch) and how often the state transformation must have been
applied; the parameters at the first step are compared, number types (drawn
for saving and for restoring) included."""
O['T04'] = """Actions of all three kinds, several per kind, ask at drawn steps;
some ask because the loss is not finite. A model of the loop says the step at
which every host must stop; training must return there with a checkpoint of that
step, and all hosts must agree."""
O['T05'] = """Metric writers that are slow, fail or run behind; durations are
read on the virtual clock. Each summary must be there once, in order, with the
mean over its window of the losses of an undisturbed run, and rates that agree
with the virtual time its steps took; a writer notices a second thread in it."""
O['G01'] = """A virtual collector switch per host records every enable, disable
and collect; compared with a model of when collection is due, and with the
switch as it was before. Threads in nested import scopes interleave at every
source line."""

# Seconds of the quick tier on 8 idle cores.
COST = {}
