_M = 'Runtime monitoring of the real code: '
_N = ' Assurance covers the executions produced (counts in the evidence), not all inputs; trusts JAX/NumPy and the independent reference in /verif/lib.'
NA = {}
T = {
 'D01': (_M + 'numpy replay of every sampled sequence against the logits of a recording, history-dependent model; online monitor of each model query; chi-square monitors of draws', 'exploration', 'Random prompts, tables, keys over 24+ sampling configurations.' + _N),
 'D02': (_M + 'numpy replay recomputes every returned score; order/shape/batch-invariance oracles', 'exploration', 'As D01.' + _N),
 'D03': (_M + 'every search compared with an independent float64 reference beam search', 'exploration', 'Near-tie searches are skipped and counted.' + _N),
 'D04': (_M + 'recording cache carries each row\'s token history; online monitor compares it with the hypothesis at every step', 'exploration', 'Counts searches with real beam reordering.' + _N),
 'B01': (_M + 'adversarial bit patterns and random predicates; sort-based set oracles and a ULP-neighbour oracle on every search result', 'exploration', 'Denormal numbers are excluded (CPU flushes them).' + _N),
 'L01': (_M + 'losses, gradients and normalisers compared with a float64 definition over random shapes, magnitudes and modes', 'exploration', _N.strip()),
 'M01': (_M + 'random splits, orders and merges of one example set checked against a direct computation (conservation oracle)', 'exploration', _N.strip()),
 'N01': (_M + 'differential perturbation monitor: outputs that must not depend on a token are compared bit for bit before and after changing it, on the shipped networks', 'exploration', 'Tiny random networks of each shipped family.' + _N),
 'N02': (_M + 'differential monitor of cached decoding against a teacher-forced pass, and of prediction scores against score_batch', 'exploration', 'Tiny random networks of each shipped family.' + _N),
 'N03': (_M + 'model wrappers run over an instrumented module that encodes which input each output came from; numpy oracle of layout, scores, loss and accuracy', 'exploration', _N.strip()),
 'O01': (_M + 'trajectories compared step by step with an independent float64 dense Adafactor', 'exploration', _N.strip()),
 'O02': (_M + 'trajectories of composite optimizers compared with each sub-optimizer alone and with plain optax; axes compared leaf by leaf', 'exploration', _N.strip()),
 'S01': (_M + 'random operation sequences on train states with a shadow model; whole-state equality after each operation', 'exploration', _N.strip()),
 'T01': (_M + 'microbatched step against full-batch step and against a float64 reference; a counting model records which examples and dropout keys each microbatch saw', 'exploration', 'Forced multi-device CPU meshes.' + _N),
 'T02': (_M + 'real training loop stopped, failed or SIGKILLed at random points and resumed; offline checker replays the surviving history against an uninterrupted reference', 'exploration', 'Both back ends; kill times are random.' + _N),
 'T03': (_M + 'real training loop over random period configurations with event log (train calls, saves, evaluations, stops) checked against a specification automaton', 'exploration', _N.strip()),
 'T04': (_M + 'random metric histories through the real actions and the real loop, checked against a definition replay', 'exploration', _N.strip()),
 'T05': (_M + 'writer and metric events of random train/eval call sequences compared with a direct aggregation of the batches each call consumed', 'exploration', _N.strip()),
 'T06': (_M + 'random factor strings and steps compared with a float64 product of closed forms', 'exploration', _N.strip()),
 'C01': (_M + 'random train states saved and restored by the real Checkpointer; every leaf compared bit for bit with the saved one and with an independent msgpack/TensorStore reader, directory hashes before and after', 'exploration', 'Forced multi-device CPU meshes, one process.' + _N),
 'C02': (_M + 'an LD_PRELOAD monitor counts every file-system mutation of a real save and, at each one in turn, kills the disk (torn write) or fails that call; an oracle then lists, restores and saves again', 'exploration', 'Quick: every commit/removal operation and a sample of array writes; thorough: every operation of each scenario. One process.' + _N),
 'C03': (_M + 'random save/pin/restart histories on real directories; the whole tree is compared with a retention model after every operation', 'exploration', 'One process.' + _N),
 'C04': (_M + 'random save and metric histories (real event files) with the retained set checked against its definition after every save', 'exploration', _N.strip()),
 'C05': (_M + 'random tree pairs, rule lists and real restores through both back ends; every leaf carries a unique value that identifies the source it came from, compared with a flat-dictionary definition', 'exploration', _N.strip()),
 'C06': (_M + 'random save/report/restart/restore histories on real directories (legacy checkpoints, crash leftovers and foreign files included) compared with a shadow history: listing, directory and every leaf after every operation', 'exploration', 'One process; Orbax itself is trusted to commit atomically.' + _N),
 'C07': (_M + 'random directory contents and restore-configuration lists; an independent model of the directory decides every look-up, and real checkpoints (T5X, Orbax, TensorFlow) behind the paths decide what the restore entry points must return', 'exploration', 'Local POSIX file system.' + _N),
 'C08': (_M + 'random legacy architectures written as real TensorFlow checkpoints with unique values; an independently written naming of both sides decides where each variable must arrive, bit for bit, through every import entry point', 'exploration', 'The legacy naming is that of Mesh TensorFlow T5 and T5.1.1 (the shipped index file is covered exactly).' + _N),
 'K01': (_M + 'predictions of a small early-exit network with the calling convention of the CALM T5 architecture, every step replayed in float64 from the emitted tokens by an independent reference that chooses the exits by definition and keeps its own caches; differential comparison with the plain model, and losses against their formula', 'exploration', 'The CALM network itself (Flaxformer) is not part of the repository; a small one with its interface takes its place. Steps whose confidence is within 0.002 of the threshold end the judgement of a prediction (counted). The consistency oracle and its argmax are defined for single examples only. Losses of the early-exit classifier (meta) are not covered.' + _N),
 'T07': (_M + 'lifetimes of the real training loop in real jobs of 2-4 JAX processes with skewed clocks, slow hosts, host-dependent actions and SIGKILLed hosts; agreement of the calls, writes, checkpoints and state of all hosts, a single-process run and a float64 replay as oracles', 'exploration', 'Hosts are processes with one CPU device each on one machine (with several devices the CPU runtime lets collectives of different programs overtake each other); transparent linear model; no inference evaluation in the multi-host runs.' + _N),
 'G01': (_M + 'random gin configurations parsed by the real code and read back by calling what they configure, against an override model; real train, infer and eval programs with the released gin files in processes of their own against the same run written in Python', 'exploration', 'Programs run with a tiny T5 and one device; Fiddle command lines only at the level of functions.' + _N),
 'C09': (_M + 'real jobs of 2-4 JAX processes saving and restoring together under a preloaded file-system monitor that logs the operations of all hosts in one order, slows hosts at random and kills one at a chosen operation, with skewed clocks; an offline checker of the log (one commit, every part before it, nothing after it, no return before it) and a content oracle for every listed step on every host, also from jobs of another shape', 'exploration', 'Hosts are processes on one machine with a shared file system (up to 4 processes, 2 devices each). The installed jaxlib lacks one coordination call of the installed Orbax; the harness supplies it.' + _N),
 'P01': (_M + 'get_mesh, get_data_layout and get_local_chunk_info run for every host of simulated TPU/CPU/GPU/multi-slice topologies and in real multi-process JAX; a conservation oracle (every device, element and row exactly once) compares them with the index map of jax NamedSharding', 'exploration', 'Topologies are simulated device objects up to 512 devices; real processes up to 4 on loopback. Layouts whose hosts JAX itself calls non-contiguous are skipped and counted.' + _N),
 'P03': (_M + 'random rules, annotations, optimizers and states resolved by the real partitioner; every leaf compared with an independent resolver, and the resulting layouts observed on really placed arrays of 8 CPU devices', 'exploration', 'Standard rules are compared with a hand-written table of the documented layouts.' + _N),
 'P02': (_M + 'differential monitor: the real partitioner, TrainStateInitializer, Trainer, metrics and prediction on 8 forced devices and in real multi-process JAX against one plain device; tolerance calibrated per leaf by a 1e-6 disturbance of the reference', 'exploration', 'Tiny networks of each shipped family on CPU; jax_threefry_partitionable=True, since with the default False JAX itself draws layout-dependent random bits.' + _N),
 'I01': (_M + 'exact integer models with every output structure and step signature, uniquely labelled examples, all dataset sizes around the batch on 1-8 devices and in real multi-process JAX; a conservation oracle (every index once, in order, its own value, none for padding) plus shipped networks compared with themselves on one example', 'exploration', 'Non-empty datasets. Multi-process layouts with several devices per process use one model partition (gloo mixes up collectives of several groups there).' + _N),
 'I02': (_M + 'real offline inference jobs with an exact text model on a file system that dies or errs at chosen operations (and writers that fail), crashed once or twice and rerun; an oracle on the directory after every run: what is marked complete holds every line once, in order and exact, finished chunks and shards are not recomputed', 'exploration', 'Process crashes are modelled as every later file-system mutation failing; one process.' + _N),
  'E01': (_M + 'real evaluate() runs over checkpoints whose parameters identify them, on a file system that dies or errs at chosen operations and with a slow summary writer, rerun with new checkpoints in between; an oracle over the reported metrics, event files and the evaluation record after every run', 'exploration', 'Process crashes are modelled as every later file-system mutation failing; one process; checkpoint names end in their step.' + _N),
  'U01': (_M + 'the real SeqIO pipelines built by t5x over datasets of identifiable examples, read by every shard and by real multi-process jobs; an oracle over the observed examples: no example in two shards, none lost but incomplete batches, none more often than the epochs, shards together equal the unsharded evaluation set, global batches are the rows of the shards, restored iterators continue', 'exploration', 'The deterministic Airio/GDA pipelines are not installed.' + _N),
  'X01': (_M + 'real dense checkpoints restored as sparse models on other meshes and in real multi-process JAX; an oracle over every shard of every restored leaf (dense value, broadcast dense value or initial value), and the outputs of the upcycled network against the dense one', 'exploration', 'Kernels stacked by scan are accepted only where the dense array has the shape of one expert (else refused, which is checked); there is no Orbax upcycler.' + _N),
  'X02': (_M + 'differential monitors of losses, metrics, gradients and whole MoeTrainer runs on 8 forced devices and in real multi-process JAX against one plain device (tolerance calibrated per leaf by disturbed references), of scaled gradients against a flat definition, of leaf placements as observed on the devices, and a conservation oracle over the data layouts of every host of simulated clusters', 'exploration', 'Networks whose experts answer every token (routing itself is not part of t5x). Rows of a batch may be permuted over a mesh with both data and expert axes, so dropout and microbatches are not compared there.' + _N),
  'E02': (_M + 'shipped networks exported by the real save(), loaded with TensorFlow and called with random texts and tokens, alone and by concurrent threads through the batching layer; an oracle runs the JAX model row by row on features computed from their definition, and compares stored parameters, output names and recorded warm-up requests', 'exploration', 'The TensorFlow Serving protocol messages are built at run time with the fields used (the package is not installed); lowering for CPU only.' + _N),
 'V01': (_M + 'real interactive models driven through random sequences of prediction, scoring, evaluation, training and restarts; an oracle computes features from their definition and runs the model, SeqIO metrics and optimizer directly on them, and compares predictions, scores, metrics, training state, checkpoints and resumption', 'exploration', 'One device, networks without dropout; each model keeps its own directory.' + _N),
}
