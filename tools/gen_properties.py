"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                 observe_at=observe, hook_needed=hook)))

p('D01', 'Temperature sampling emits only admissible tokens',
  'For every batch of prompts and every temperature, top-k, top-p, length and max-decode-step setting, each sampled sequence reproduces its prompt and then contains only tokens that the model logits it was given admit: the arg-max when the temperature is 0 or top-k is 1, otherwise a token inside the top-k set or the smallest nucleus of probability at least top-p (taken after temperature scaling). Once an EOS or the configured decode limit has ended a sequence, nothing but padding follows. The model is always queried with the token that the returned sequence holds at the queried position, and any user logit callback is applied to the logits before selection.',
  ['inputs', 'configurations'], 'All prompt batches (with and without prefilled prompts, per-example prefill lengths), logits, rng keys, num_decodes, temperature (scalar or per-example), topk (incl. 0), topp, max_decode_steps (scalar or per-example, hard limit), eos ids and logit callbacks.',
  'decoding_test.py samples a handful of fixed logits with a mocked categorical or one rng; support violations depend on prompt lengths, ties of configuration and on the step at which each row stops.',
  ['t5x/decoding.py'], [('while-loop sampling body, top-k/top-p masking, EOS and prompt handling', 't5x/decoding.py:temperature_sample')],
  ['temperature_sample return value', 'tokens_to_logits callback (token, index, cache) events'])
p('D02', 'Sampling scores, ordering and shapes describe the returned sequences',
  'For every sampling call the score attached to a returned sequence is the sum of the log-probabilities of exactly its generated tokens (prompt tokens excluded, the terminating EOS included), under the logits the selection used (rescaled by temperature and masking when the caller asks for rescaled log-probabilities). The decodes of one batch element are returned in ascending score order with sequences and scores permuted together, and the result has exactly num_decodes entries per batch element. Greedy decoding of the same batch is independent of num_decodes, of the other batch elements, and of their order.',
  ['inputs', 'configurations'], 'All prompts, logits, num_decodes, rescale_log_probs settings, temperatures, and batch compositions.',
  'Existing tests check scores on one or two hand-written sequences; score drift only shows for particular prompt lengths, early stops or batch companions.',
  ['t5x/decoding.py'], [('log-prob accumulation and final sort', 't5x/decoding.py:temperature_sample')],
  ['temperature_sample return value'])
p('D03', 'Beam search returns the best-scoring hypotheses of its reference algorithm',
  'For every logit function, prompt batch, beam size, length penalty and maximum length, beam search returns for each batch element the same hypotheses and scores as a straightforward step-by-step implementation of length-normalised beam search with the documented early-termination rule: finished hypotheses when any exist for that element and live ones otherwise, sorted by ascending score, each no longer than the limit. Every returned score equals the length-penalised sum of log-probabilities of the returned tokens (the unpenalised sum for a hypothesis that never finished), hypotheses of one element never repeat, and prompts are never altered. Without step-count or probability cut-offs, results for an element do not depend on its batch companions.',
  ['inputs', 'configurations'], 'All logit functions (stateless and history-dependent), batch sizes, beam sizes, alphas, max decode lengths, prompts, decoder-cache layouts.',
  'decoding_test.py runs beam search on single toy configurations; ordering, tie and early-stop mistakes need specific score geometries.',
  ['t5x/decoding.py'], [('beam loop, flatten/unflatten/gather of beams, early termination bound', 't5x/decoding.py:beam_search')],
  ['beam_search return value'])
p('D04', 'The decode cache always follows the hypothesis it belongs to',
  'While decoding with num_decodes or beams greater than one, whatever per-row state the model wrote into its cache at earlier steps is handed back on the next step to exactly the row whose token history produced it, including after beams are reordered, dropped or finished, after the cache is prefilled, and when scanned layers put the batch axis at a non-zero offset. State that is not per-row (indices, scalars, masks) is neither permuted nor expanded.',
  ['inputs', 'schedules', 'configurations'], 'All beam permutations that arise, num_decodes, cache offsets, cache ranks, prefill.',
  'Existing tests use an empty or constant cache, so a mis-gathered cache is invisible.',
  ['t5x/decoding.py'], [('cache_map / flat_batch_beam_expand / gather_topk_beams / cache_gather_beams', 't5x/decoding.py')],
  ['cache argument of the model callback'])
p('B01', 'Top-k, top-p and value-search masks select exactly the defined sets',
  'For any finite floating-point logits of any batch shape, the top-k mask keeps exactly the entries that are at least the k-th largest value, the top-p mask keeps the smallest threshold set whose probability mass reaches p, and every other entry is replaced by the given value with kept entries unchanged bit for bit. The underlying searches return the largest representable number (int32 or normal float32, including zero and extremes) that satisfies the monotone predicate.',
  ['inputs'], 'All float32 arrays (ties, extremes, signed zeros), k in 1..n, p in (0,1], replacement values and predicates.',
  'binary_search_test.py checks fixed small arrays; off-by-one-ULP errors need adversarial bit patterns.',
  ['t5x/binary_search.py'], [('bit-wise monotone search on the integer encoding of floats', 't5x/binary_search.py')],
  ['int32_bsearch, float32_bsearch, topk_mask, topp_mask results'])
p('L01', 'Training loss equals its definition and normalisation',
  'For all logits, targets, weights, label smoothing and z-loss values, the weighted cross entropy, its z-loss part and its weight sum equal the mathematical definition (smoothed cross entropy minus its best achievable constant, plus z_loss times squared log-normaliser, weighted and summed), are finite whenever the logits are, and their gradient equals the derivative of that definition with respect to the logits. A normalising factor given as a number, or chosen by name (real target tokens, total target tokens, average per sequence, or with packed sequences), yields weights and divisors that agree with a direct count on the batch.',
  ['inputs', 'configurations'], 'All shapes, logit magnitudes, targets, masks, smoothing and z-loss strengths, normalising-factor modes, packed or unpacked batches.',
  'losses_test.py checks three fixed arrays.',
  ['t5x/losses.py'], [('custom-VJP cross entropy, normalising factor selection', 't5x/losses.py')], ['loss functions and jax.grad of them'])
p('M01', 'Metric accumulation does not depend on how the data was split',
  'For any partition of the same examples into batches, microbatches or hosts, merging the accumulated metrics and computing them gives the value computed on all the data at once, regardless of order and of empty parts. Time- and step-derived rates (per second, per core, steps per second, microbatch-adjusted sums) use the recorded duration, number of steps and number of devices.',
  ['inputs', 'histories'], 'All metric collections, splits, merge orders, durations, number of microbatches.',
  'metrics_test.py merges one or two fixed pairs.',
  ['t5x/metrics.py'], [('clu Metric subclasses: Sum, Time, TimeRate, AveragePerStep, Step, set_* helpers', 't5x/metrics.py')], ['Metric.merge/reduce/compute results'])
p('N01', 'Tokens cannot influence positions that must not see them',
  'In every shipped transformer (encoder-decoder, scan-based encoder-decoder, decoder-only), changing a decoder token never changes decoder outputs at earlier positions, changing padded encoder positions never changes any output at real positions, and changing one packed segment never changes the outputs of another segment. Only tokens inside the declared bidirectional prefix of a prefix-LM may be visible to earlier positions, and a packed example gives the same outputs for each segment as running that segment alone.',
  ['inputs', 'configurations'], 'All token contents, lengths, paddings, packings, prefix masks, network configurations.',
  'The layer tests check individual mask constructors on fixed inputs; leakage through the assembled networks is not tested.',
  ['t5x/examples/t5/network.py', 't5x/examples/t5/layers.py', 't5x/examples/scalable_t5/network.py', 't5x/examples/scalable_t5/layers.py', 't5x/examples/decoder_only/network.py', 't5x/examples/decoder_only/layers.py'],
  [('make_attention_mask / make_causal_mask / make_decoder_mask / relative position bias', 't5x/examples/*/layers.py')], ['module.apply logits under input perturbation'])
p('N02', 'Step-by-step decoding computes what teacher forcing computes',
  'For every shipped transformer and every model wrapper (encoder-decoder, prefix-LM decoder-only), feeding a sequence one token at a time through the decode cache yields at each position the same logits as one full teacher-forced pass, with or without cache prefill. Consequently the score reported by prediction for a returned sequence agrees with the score the scoring entry point computes for that same sequence.',
  ['inputs', 'configurations'], 'All weights, inputs, lengths, prompt lengths, batch sizes, decode functions.',
  'No test compares the two paths on full networks.',
  ['t5x/models.py', 't5x/examples/t5/layers.py', 't5x/examples/decoder_only/layers.py', 't5x/examples/scalable_t5/layers.py'],
  [('autoregressive cache in MultiHeadDotProductAttention', 't5x/examples/*/layers.py'), ('predict_batch_with_aux / score_batch', 't5x/models.py')], ['predict_batch_with_aux, score_batch results'])
p('N03', 'Model prediction returns the generated continuation for each input',
  'For every batch, encoder-decoder and decoder-only prediction return for each input only the generated continuation (the prompt or prefix removed, left aligned, padded), with num_decodes, all-decodes and auxiliary scores laid out per input, optional decoder prompts honoured, and the last (best) decode returned when only one is requested. Scoring returns per-example sums of target log-likelihood over loss-weighted positions only, and the training loss, its weight sum and the reported accuracy are computed over the same positions (those with positive weight for the accuracy). Prediction leaves the batch and the decoder parameters it is given unchanged, so that they serve further calls.',
  ['inputs', 'configurations'], 'All batches, prefix lengths, num_decodes, decode functions, return_all_decodes and prompt settings.',
  'models_test.py cannot run here and uses mocked modules with fixed shapes.',
  ['t5x/models.py'], [('predict_batch_with_aux, score_batch, loss_fn, remove_prefix, get_decoder_masks', 't5x/models.py')], ['model API results with an instrumented module'])
p('O01', 'Adafactor applies its documented update rule to every parameter',
  'For every parameter shape, factor map, scanned axis, clipping, momentum, weight-decay, decay-offset and parameter-scaling configuration, a sequence of Adafactor steps gives the same parameters and second-moment statistics as an independent dense implementation of the algorithm, with per-layer statistics kept separate for scanned parameters. Factored statistics are used exactly when two sufficiently large dimensions exist or the factor rules say so; no update is non-finite when the gradients and their squares are finite.',
  ['inputs', 'histories', 'configurations'], 'All parameter shapes and dtypes, gradients (including zero and tiny), step numbers, hyper-parameters, factor rules.',
  'adafactor_test.py cannot run here and checks shapes plus fixed golden values.',
  ['t5x/adafactor.py'], [('Adafactor.apply_param_gradient, HeuristicRule, LogicalFactorRules, decay_rate', 't5x/adafactor.py')], ['optimizer.apply_gradient results and state'])
p('O02', 'Composite and wrapped optimizers update each parameter exactly once',
  'For every parameter tree and traversal, a multi-optimizer updates each selected parameter exactly as its own optimizer alone would with its own hyper-parameters (including per-group learning rates), leaves unselected parameters and state untouched, and never updates a leaf twice. Wrapped optax transformations produce the same trajectory as plain optax. Optimizer state written to a state dict and restored continues identically, and the logical axes derived for the optimizer state match the state tree leaf by leaf.',
  ['inputs', 'histories', 'configurations'], 'All trees, partitions into groups, gradient histories, optax transformations.',
  'optimizers_test.py cannot run here and compares a few tree structures.',
  ['t5x/optimizers.py'], [('MultiOptimizer, OptaxWrapper, state_dict/restore_state, derive_logical_axes', 't5x/optimizers.py')], ['optimizer.apply_gradient, state_dict, derive_logical_axes results'])
p('S01', 'A train state survives every round trip through its state dict',
  'For every train state (parameters, optimizer state, step, mutable collections with or without axis metadata), converting to a state dict and restoring it yields an equal state; replacing the step, parameters or mutable collections changes that component and nothing else. Applying gradients advances the step by exactly one, replaces mutable collections with those returned by the model, and logical axes derived for the state mirror its structure.',
  ['inputs', 'histories'], 'All trees of parameters and mutable variables, with and without axes, including optimizers without parameter state.',
  'train_state_test.py cannot run here.',
  ['t5x/train_state.py'], [('FlaxOptimTrainState, InferenceState', 't5x/train_state.py')], ['state_dict/restore_state/replace_* results'])
p('T01', 'Gradient accumulation over microbatches equals the full-batch step',
  'For every batch size and number of microbatches dividing it, one training step with microbatching produces the same parameters, loss and token-level metrics as the step without it when the model is deterministic, for any layout of microbatches across data-parallel shards, and each example contributes exactly once. The loss, weight sum and gradient are sums over microbatches, mutable model variables are threaded through them in order, and each microbatch uses a distinct dropout key.',
  ['inputs', 'configurations'], 'All batches, microbatch counts, models with and without mutable variables, meshes.',
  'trainer_test.py cannot run here and mocks the model.',
  ['t5x/trainer.py'], [('accumulate_grads_microbatched, apply_grads, train_with_lr', 't5x/trainer.py')], ['train_with_lr results', 'examples seen by the loss function'])
p('T02', 'Interrupted and resumed training equals uninterrupted training',
  'For every total step count, checkpoint period and set of stop points, training that is stopped after a completed checkpoint and restarted reaches the same step and the same parameters as one uninterrupted run when the input pipeline position is saved with the checkpoint (or, without it, when the restarted input deterministically replays from its start), consuming each training batch exactly once along the surviving history. Step-dependent dropout randomness and the learning rate depend only on the step number, never on how many restarts happened.',
  ['histories', 'crash_points'], 'All stop points, periods, dataset checkpointing on or off, both checkpoint back ends.',
  'train.py has no runnable test here; equality over restarts cannot be seen by unit tests.',
  ['t5x/train.py', 't5x/trainer.py', 't5x/checkpoints.py', 't5x/utils.py'], [('train loop, checkpoint save and restore of state and dataset iterator, fold_in of step', 't5x/train.py, t5x/trainer.py')], ['train.train return value, batches observed by the trainer, files in model_dir'])
p('T03', 'The training loop checkpoints, evaluates and stops exactly when asked',
  'For every combination of total steps, starting step, checkpoint period or explicit checkpoint steps, evaluation period and statistics period, a training run ends exactly at the total step, has a committed checkpoint at every step the configuration asks for (periods counted from the starting step) and at the last step, and runs evaluation at each evaluation boundary with the parameters of that step. No training step is executed twice or skipped, and a stop requested by an early-stopping action within an epoch, or a preemption reported between train calls, ends the run at that step with a checkpoint of it.',
  ['configurations', 'fault_sequences'], 'All periods, total steps, restart steps, early-stop and preemption points.',
  'train.py has no runnable test here.',
  ['t5x/train.py'], [('epoch loop, checkpoint_period / eval_period bookkeeping, find_next_checkpoint_step, run_actions, PreemptionError handling', 't5x/train.py')], ['checkpoints on disk, trainer train/eval calls, step numbers'])
p('T04', 'Training actions stop a run exactly when their condition holds',
  'For every metric history, the early-stopping action (patience at least two) requests a stop exactly when, among the last `patience` recorded values of the monitored metric, no value improves on the one before it by more than the configured absolute and relative tolerance in the configured direction; the not-a-number action requests a stop exactly when the monitored training metric is not finite; missing metrics never stop a run. A stop requested in any phase is remembered and honoured by the loop, and later phases do not clear it.',
  ['histories', 'configurations'], 'All metric histories (including NaN, infinities, ties, missing keys), patience, tolerance and mode.',
  'trainer_test.py cannot run here; it tests one increasing history.',
  ['t5x/trainer.py'], [('EarlyStoppingAction, TerminateOnNanAction', 't5x/trainer.py')], ['action.run return value'])
p('T05', 'Reported training and evaluation metrics cover each step exactly once',
  'For every number of steps per train call, microbatch setting and evaluation length, the metrics reported for a train call aggregate exactly the steps of that call and nothing from earlier calls, evaluation metrics aggregate exactly the evaluation batches given, and what reaches the metric writer carries the step at which the call ended, in non-decreasing order. Evaluation changes neither parameters nor the step.',
  ['histories', 'configurations'], 'All sequences of train/eval calls, number of steps, evaluation sets.',
  'trainer_test.py cannot run here.',
  ['t5x/trainer.py'], [('BaseTrainer.train, eval, MetricsManager, WeightMetricsComputer', 't5x/trainer.py')], ['MetricsManager summaries and writer calls'])
p('T06', 'Learning-rate schedules follow their factor definition',
  'For every factor string, base learning rate, warm-up, decay and cycle setting and every step number, the scheduler returns the product of the named factors evaluated at that step, is finite and non-negative for warm-ups of at least one step. An unknown factor is rejected rather than ignored.',
  ['inputs', 'configurations'], 'All factor strings and step numbers.',
  'utils_test.py cannot run here; it checks three points.',
  ['t5x/utils.py'], [('create_learning_rate_scheduler, get_first_valid_restore_config_and_paths is separate', 't5x/utils.py')], ['scheduler(step)'])
p('T07', 'All hosts of a training run act as one',
  'A training run on several hosts is one run. All hosts start from the same parameters even when no seed is given and their clocks differ, make the same calls with the same step numbers, train and evaluate on the union of their data shards, hold identical copies of the train state at the end, see the same checkpoints and end at the same step. Actions are run on the first host only, and its decision alone stops all hosts; summaries are written by the first host only and describe the global batches. The steps, checkpoints, consumed batches, reported losses and (for a given seed, up to rounding) the train state are those of a run on a single host. After a host dies at any step, the job started again, on the same or another number of hosts, resumes from the last complete checkpoint and reaches the same end.',
  ['schedules', 'crash_points', 'configurations'], 'Every number of hosts, mesh shape, clock and speed of each host, periods, actions and step at which a host dies.',
  'No test runs more than one process.',
  ['t5x/train.py', 't5x/trainer.py', 't5x/utils.py'], [('train, run_actions, random seed broadcast', 't5x/train.py'), ('BaseTrainer.eval, MetricsManager', 't5x/trainer.py'), ('ShardedDatasetIterator, multihost_assert_equal', 't5x/utils.py')], ['calls of the trainer, writes, checkpoints and final states of every host'])
p('G01', 'A run does what its configuration says, and its config.gin reproduces it',
  'Gin files apply in the order given and bindings after them, each later setting of a parameter, macro or scoped parameter overriding earlier ones and nothing else; `--gin.NAME=VALUE` is the binding `NAME = VALUE` for every value; a relative file name is taken from the first search path that has it, those given by the user coming before the default ones; unknown names are rejected unless they are to be skipped; a finalized configuration cannot be changed. The config.gin (or Fiddle JSON) a run writes is by itself the same configuration. So the train command line trains exactly as the same run written in Python, running it again from the written config.gin gives the same checkpoints, and the infer and eval command lines on one checkpoint agree with each other.',
  ['inputs', 'configurations'], 'All gin files, includes, macros, scopes, references, values, bindings, search paths, Fiddle configurations.',
  'gin_utils_test.py covers the rewriting of nine arguments; no test parses files or runs a command line.',
  ['t5x/gin_utils.py', 't5x/config_utils.py', 't5x/train.py', 't5x/infer.py', 't5x/eval.py'], [('rewrite_gin_args, parse_gin_flags, summarize_gin_config', 't5x/gin_utils.py'), ('prepare_to_summarize, direct_summarize_fiddle_config', 't5x/config_utils.py'), ('main programs', 't5x/train.py, t5x/infer.py, t5x/eval.py')], ['return values of the configured functions, config.gin, checkpoints and outputs of the programs'])
p('P01', 'Mesh layout assigns every chunk and batch shard exactly once',
  'Every mesh the partitioner builds (model-parallel submesh or number of partitions; TPU slices, CPU and GPU clusters, several slices) contains every device exactly once, is the same on every host, has the requested data and model axis sizes, and on a TPU torus each model replica is an aligned tile and every host holds one contiguous block of the mesh. For every such mesh, global array shape and partition spec, the chunks assigned to the hosts tile the array exactly (every element in exactly one distinct chunk, copies numbered from 0, chunk equal to the union of what the devices of the host hold). The data layout splits a global batch that is a multiple of the data axis into equal contiguous shards covering exactly the rows each host holds, with one primary host per shard; other batch sizes are rejected. With several slices the axis rules split the batch over the slices too and are otherwise those given.',
  ['configurations', 'inputs'], 'All device meshes, process counts, model-parallel submeshes, array shapes and partition specs.',
  'partitioning_test.py cannot run here and mocks two device topologies.',
  ['t5x/partitioning.py'], [('LocalChunker, get_mesh, get_data_layout, bounds_from_last_device, get_gpu/cpu mesh', 't5x/partitioning.py')], ['LocalChunker.get_local_chunk_info, get_data_layout, get_mesh results'])
p('P02', 'Partitioning never changes what is computed',
  'For every number of devices and processes, model-parallel partitioning and activation/parameter partitioning mode, initialization from scratch (with layout-independent random bits), training steps (microbatched or not, pre-compiled or not), their metrics, evaluation, scoring and prediction give the same results, up to floating-point reassociation, as the same functions on a single device without a partitioner, and moving a state to the devices changes no value.',
  ['configurations', 'inputs'], 'All mesh shapes over the available devices, activation and parameter partitioning dims, batches.',
  'No existing runnable test uses more than one device.',
  ['t5x/partitioning.py', 't5x/trainer.py', 't5x/utils.py'], [('PjitPartitioner.partition / compile / get_mesh_axes, TrainStateInitializer', 't5x/partitioning.py, t5x/utils.py')], ['trained parameters, metrics and predictions on forced multi-device CPU'])
p('P03', 'Logical axis rules resolve deterministically to valid mesh axes',
  'For every rule list and logical annotation, each array dimension gets the mesh axes of the first rule (in priority order) for its name whose mesh axes are not taken by another dimension, dimensions without such a rule are not partitioned, and no mesh axis is used twice in one array. The mesh axes of a whole train state have the structure of the state, are the same every time, follow these rules for parameters, mutable collections and parameter-shaped optimizer slots (slots of another shape keep the axes of the dimensions that remain; scalars have none), and the state can really be laid out that way. The standard rules give the documented layout for every activation and parameter partitioning mode and reject other modes; additional rules rank below them. Parameters without axis names and names used twice in an array are reported by name. Inside a partitioned function, and only there, the rules and mesh of its partitioner are in effect. Overrides of parameter axis names follow the first pattern that matches the whole name and change nothing else.',
  ['configurations'], 'All rule lists, annotations, partitioning modes, additional rules.',
  'partitioning_test.py cannot run here.',
  ['t5x/partitioning.py', 't5x/train_state.py', 't5x/utils.py'], [('standard_logical_axis_rules, PjitPartitioner.get_mesh_axes, get_logical_axes', 't5x/partitioning.py')], ['get_mesh_axes results'])
p('K01', 'Early-exit decoding stops each token at the first layer confident enough',
  'For every CALM model (depth, first exit, exit interval, minimum exit, confidence measure, threshold fixed or adjusted to the position, oracle options), every generated token comes from the first permitted exit at which all examples of the batch reach the threshold, or from the top layer. The exit and confidence returned for each token are those of its step, aligned with the returned decodes for every number of decodes. Layers a token skipped receive the state of the last computed layer (or, with the oracle cache, what running them gives), so that later tokens attend to it. Prompts, limits, sampling settings, scores and ordering follow the same rules as ordinary temperature sampling; a model that cannot leave early, or has early inference off, predicts what the plain encoder-decoder model predicts. Prediction leaves its arguments unmodified. The training loss is the documented weighted mean of the losses of all layers, with the metrics of each layer; the losses of the exit classifiers (independent ones, with agreeing and disagreeing tokens weighing the same, or one sequence of decisions) follow their definitions.',
  ['inputs', 'configurations'], 'All depths, exits, thresholds, confidence measures, batches, prompts and sampling settings.',
  'There are no tests of contrib/calm.',
  ['t5x/contrib/calm/models.py', 't5x/contrib/calm/decoding.py'], [('_compute_logits_from_slice_early_exit, predict_batch_with_aux, loss_fn', 't5x/contrib/calm/models.py'), ('temperature_sample', 't5x/contrib/calm/decoding.py')], ['decodes, exits, confidences, scores, losses'])
p('C01', 'A checkpoint restores exactly the state that was saved',
  'For every train state, dtype, partitioning and checkpoint configuration (sharded or unsharded arrays, train state or inference state, save_dtype and restore_dtype, dataset iterator included, concurrent gigabyte limits), restoring a saved step returns bit-identical parameters, optimizer state, mutable collections and step up to the dtype conversion requested for the target (parameters), in the saved shapes and structure; a request for an absent step or with other shapes or parameter names is rejected. A saved value never changes because of later training, and restoring never modifies the checkpoint.',
  ['inputs', 'configurations'], 'All trees, shapes, dtypes, partition specs, save/restore options.',
  'checkpoints has no test that runs here.',
  ['t5x/checkpoints.py', 't5x/state_utils.py'], [('Checkpointer.save/restore, TensorStore write/read, _transform_state_and_infos', 't5x/checkpoints.py')], ['Checkpointer.save / restore and files on disk'])
p('C02', 'A crash during checkpointing never loses or corrupts a committed step',
  'If the process dies or a file-system operation fails at any point while the native checkpointer is writing a checkpoint or removing an old one (or while the Orbax-based manager is writing one), then afterwards every step that is listed as available restores completely to exactly what was saved, every step committed earlier and not due for removal is still available, and the interrupted step is either absent or complete; a failure that prevented the save is reported. A later save of the same or another step succeeds despite the leftovers, old checkpoints go only after the new one is committed, and leftover temporary directories are never taken for checkpoints.',
  ['crash_points', 'fault_sequences'], 'Every file-system operation of every save (crash before or after it, or error returned), with every keep/retention setting.',
  'No existing test injects a fault into checkpointing.',
  ['t5x/checkpoints.py', 't5x/checkpoints_utils.py', 't5x/checkpoint_utils.py'], [('temporary directory, rename to commit, removal of old checkpoints', 't5x/checkpoints.py:Checkpointer.save')], ['file-system operations (hooked from outside), directory listing after the crash, restore results'])
p('C03', 'Retention keeps the newest checkpoints and every pinned one',
  'After any sequence of saves, pins, unpins and restarts with a keep limit, the native checkpoints on disk are exactly those of the highest steps within the limit plus those protected by a pinned marker; the highest step is always present, and without a limit nothing is removed. Dataset-iterator files follow their own limit in the same way. Saving a step that exists changes nothing; surviving checkpoints and files that are not checkpoints are not touched, and the step listings agree with the directory.',
  ['histories', 'configurations'], 'All save histories, keep settings, pins, pre-existing checkpoints after a restart, foreign files.',
  'checkpoint_utils_test.py tests pinning helpers on fixed directories only.',
  ['t5x/checkpoints.py', 't5x/checkpoint_utils.py'], [('Checkpointer._remove_old_checkpoints, remove_checkpoint_dir, is_pinned_checkpoint', 't5x/checkpoints.py, t5x/checkpoint_utils.py')], ['directory contents after each save'])
p('C04', 'Best-checkpoint retention keeps the best-scoring steps',
  'After any history of saves and metric reports, a save-best checkpointer retains the newest step, the best `keep` of the others by the monitored metric and direction, the steps protected by a pin or the keep period and, when so configured, those without the metric; it never deletes a better step while keeping a worse unprotected one, ties and not-a-number values never evict a valid better checkpoint, and without usable metrics the oldest go first. Other runs and tags in the event files have no influence.',
  ['histories', 'configurations'], 'All metric histories, directions, limits, missing metrics and restarts.',
  'Not covered by any runnable test.',
  ['t5x/checkpoints.py', 't5x/checkpoint_utils.py'], [('SaveBestCheckpointer, populate_metrics_for_steps', 't5x/checkpoints.py')], ['directory contents after each save'])
p('C05', 'Partial restore and renaming rules move exactly the named parameters',
  'For every mapping rule list (state_utils.apply_assignment_map), fallback setting and pair of checkpoint and model trees, a transformed restore through either checkpointer gives each model parameter the value of the source named by the first rule whose pattern matches its whole name, otherwise the checkpoint value of the same name, otherwise, when a fallback state is given, the fallback value (parameters that a rule maps to None always take the fallback value). A rule naming a missing source, an unused rule when all rules are required, and a parameter left without a source when no fallback is given are rejected with an error, not silently ignored. State-dict intersection, merge, flatten and rename helpers neither lose, duplicate nor cross-assign entries.',
  ['inputs', 'configurations'], 'All tree pairs, regular-expression rules, remap/strict settings.',
  'state_utils_test.py uses fixed three-leaf trees.',
  ['t5x/state_utils.py', 't5x/checkpoints.py', 't5x/utils.py'], [('apply_assignment_map, intersect_state, merge_state, flatten_state_dict, _partial fallback', 't5x/state_utils.py')], ['restored values by unique ids'])
p('C06', 'The Orbax-based manager honours the same checkpoint contract',
  'For every save/restore history through OrbaxCheckpointManagerInterface (built directly or by create_orbax_checkpoint_manager from the checkpoint configs), a restored state equals the saved one leaf by leaf at the requested step or path, or at the newest step when none is requested, with only the targets cast to the save and restore dtypes; a tf.data iterator resumes at the saved position; retention removes only checkpoints outside the newest (or, with a monitored metric, best) `keep` ones and never those on force_keep_period; legacy checkpoints of the original checkpointer in the directory restore to the same values at the requested step; and the step listing agrees with the directory. Absent steps are errors.',
  ['histories', 'configurations'], 'All save histories, keep settings, metric settings, legacy checkpoints.',
  'Not covered by any runnable test.',
  ['t5x/checkpoints.py', 't5x/utils.py'], [('OrbaxCheckpointManagerInterface', 't5x/checkpoints.py')], ['manager API results and directory contents'])
p('C07', 'Restore selects the right checkpoint path and latest committed step',
  'For every directory content (temporary, deleting, foreign, pinned and malformed entries, step zero, any directory name, any configured prefix), all_steps, latest_step, all_dataset_checkpoint_steps and find_checkpoint see exactly the complete checkpoints and get_checkpoint_dir and get_step_from_checkpoint_dir are inverse to each other. get_first_valid_restore_config_and_paths takes the first restore configuration with a match: the named paths for specific, every (all) or the largest-step (latest) checkpoint of the first listed directory that has any, TensorFlow checkpoint-state directories included; a path that is no directory is an error, no match gives (None, []). from_checkpoints, from_checkpoint, from_checkpoint_or_scratch and create_checkpoint_manager_and_restore load exactly what those paths hold, initialise freshly exactly when there is none, and reject several checkpoints where one is expected. Pinning, unpinning and type detection report the truth and looking never modifies a directory.',
  ['inputs', 'configurations'], 'All directory contents (temporaries, pins, partial, foreign files, step zero), modes and configuration lists.',
  'Only helper regular expressions are tested.',
  ['t5x/checkpoints_utils.py', 't5x/utils.py', 't5x/checkpoint_utils.py', 't5x/checkpoints.py'], [('latest_step, all_steps, get_first_valid_restore_config_and_paths, TrainStateInitializer, create_checkpoint_manager_and_restore', 't5x/utils.py, t5x/checkpoints_utils.py')], ['lookup results'])
p('C08', 'Legacy TensorFlow checkpoints import each variable to its counterpart',
  'For every legacy (Mesh-TensorFlow T5) model, importing its checkpoint assigns each model variable and Adafactor slot to the parameter of the corresponding tower, layer, block and role (encoder-decoder, encoder-only and decoder-only towers, gated and plain feed-forward, shared and separate embeddings, tied and separate logits, position bias shared or per layer, factored and full slots), with shape, type and every bit of its value unchanged, placeholders for the slots Flax needs and TensorFlow lacks, and nothing dropped or duplicated. Lazy and eager import agree; a variable without a rule, a shape mismatch, a variable the model lacks (unless strict=False, which drops exactly those) and a model parameter the checkpoint lacks are errors. Every entry point (Checkpointer, Orbax manager, restore configuration, conversion to the native format) gives the same state up to the requested type. A CheckpointTranslator applies the first rule that matches the whole name; lazy arrays read only when asked and cast to the declared type.',
  ['inputs', 'configurations'], 'All layer counts, variants, optimizer slots, shapes.',
  'checkpoint_importer_test.py checks one rule list on fixed names.',
  ['t5x/checkpoint_importer.py', 't5x/checkpoints.py'], [('t5_importer rules, LazyArray, restore_from_t5_checkpoint, restore_from_tf_checkpoint, convert_from_tf_checkpoint', 't5x/checkpoint_importer.py, t5x/checkpoints.py')], ['imported parameter tree, element by element'])
p('C09', 'Multi-host checkpoints appear only when complete, and restore on any hosts',
  'When several hosts save one train state together, the step becomes visible exactly once and only after every host has finished writing its part and its data iterator state; nothing below the visible step changes afterwards, no host returns from a (synchronous) save before the step is visible, and all hosts then list the same retained steps. This holds whichever hosts are slow, however their clocks differ, and for native and Orbax checkpoints. If a host dies at any point of a save, earlier steps stay intact, a listed step (other than one that Orbax itself was deleting) is always complete, and a later job, of the same or another number of hosts, devices and mesh shape, restores it and can save the interrupted step again. Every host gets back exactly its shards of the saved values, and every host, including those that share a data shard with others, the position of its data iterator.',
  ['schedules', 'crash_points', 'configurations', 'inputs'], 'Every number of hosts and devices, mesh shape and placement, speed and clock of each host, and point at which a host dies.',
  'No test runs more than one process.',
  ['t5x/checkpoints.py', 't5x/checkpoint_utils.py', 't5x/partitioning.py'], [('Checkpointer.save / restore, barriers and host-0 commit, dataset iterator files, OrbaxCheckpointManagerInterface, DatasetCheckpointHandler', 't5x/checkpoints.py')], ['file operations of all hosts in one ordered log, listings and restored shards of every host'])
p('I01', 'Batched inference returns exactly one result per input, in order',
  'For every non-empty dataset, batch size, number of shards and auxiliary output structure, inference over an enumerated dataset returns exactly one result for each input, in input order, with no result for padding examples, for prediction, prediction with auxiliary values and scoring, and each result equals what the model returns for that input alone. A random key handed in gives every batch a key of its own.',
  ['inputs', 'configurations'], 'All dataset sizes (including non-multiples of the batch), batch sizes, shard counts, result structures.',
  'utils_test.py cannot run here and uses one dataset.',
  ['t5x/utils.py'], [('get_infer_fn, batching and padding, index tracking, host gather', 't5x/utils.py')], ['infer_fn return value by unique ids'])
p('I02', 'Offline inference output is complete and exact across crashes and restarts',
  'For every number of examples, chunk length, number of shards and every point at which the job dies or fails and is rerun, the finished output file of a shard holds one line per example in order with the correct prediction or score, no duplicates and no gaps, and a finished shard is never recomputed. A checkpointed iterator resumes at exactly the first example whose chunk was not completed, and the merged file never appears complete before all chunks are.',
  ['crash_points', 'histories', 'configurations'], 'Every crash point at file-system operations and chunk boundaries, epochs length, shard counts, modes, output writers.',
  'infer.py has no runnable test here.',
  ['t5x/infer.py'], [('chunked processing with iterator checkpoint, temporary files, merge and COMPLETED markers', 't5x/infer.py')], ['output files, file-system operations, model calls'])
p('E01', 'Evaluation evaluates every requested checkpoint exactly once',
  'For every set of checkpoint paths, mode and restart history, the evaluation job evaluates each requested checkpoint once, in step order, with the parameters of that checkpoint, records it only after its metrics were written, and after a restart skips exactly those already recorded. Metrics are labelled with the step of the checkpoint they were computed from.',
  ['histories', 'crash_points', 'configurations'], 'All checkpoint sets, modes, crash points and restarts.',
  'eval.py has no runnable test here.',
  ['t5x/eval.py', 't5x/utils.py'], [('evaluate loop, evaluated-checkpoint file, InferenceEvaluator', 't5x/eval.py')], ['evaluator calls, metrics files, evaluated-checkpoint log'])
p('U01', 'Input pipelines shard the data without loss or duplication',
  'For every dataset (single task or mixture, any number of files), number of data shards, batch size, seed and packing setting, the per-shard input streams of one epoch partition the configured dataset: no example comes in two shards, and only the examples of an incomplete last batch of a shard are left out; over n epochs no example comes more than n times, and unshuffled endless streams go round and round over the same examples. The same seed reproduces the same order. Training-evaluation datasets exist for exactly the tasks of a mixture that have the split and for the mixture, yield exactly the configured number of full batches on every shard, and the shards put together are the batches of a single shard. Batch sizes that cannot be split evenly are rejected. The prepared training iterator hands out global arrays that consist of the rows of the shards in order, in every process, and continues at the saved position after a restore.',
  ['inputs', 'configurations'], 'All dataset sizes, shard counts, batch sizes, seeds, packing and use of caches.',
  'utils_test.py cannot run here and mocks seqio.',
  ['t5x/utils.py'], [('get_dataset, get_dataset_inner, get_training_eval_datasets, prepare_train_iter, ShardedDatasetIterator', 't5x/utils.py'), ('PjitPartitioner.get_data_layout', 't5x/partitioning.py')], ['examples emitted by each shard and global batches'])
p('X01', 'Dense-to-MoE upcycling replicates each dense weight to every expert',
  'Restoring a dense checkpoint as a mixture-of-experts model through UpcycleCheckpointer gives every expert of each MoE layer the weights of the dense layer of the same name, gives every other parameter its own dense value, and leaves what the assignment map sends to scratch (routers, optimizer states) at its initial value, in the shape and on the devices the sparse model expects, whatever the meshes of the dense and the sparse run and the number of processes. Expert states of optimizers with one slot per parameter are broadcast likewise when mapped; the step is taken over. With a router whose weights sum to one the upcycled network therefore computes what the dense network did. Dense weights whose shape is not that of one expert are refused with an error, never reshaped or cut.',
  ['inputs', 'configurations'], 'All parameter trees (names, ranks, biases, stacked kernels), expert counts, meshes of both runs, process counts, optimizers, assignment maps of the states, save and restore dtypes.',
  'The contrib/moe checkpoint tests cannot be imported here; defects need particular meshes, several processes, unfactored optimizer slots or states saved as plain arrays.',
  ['t5x/contrib/moe/checkpoints.py', 't5x/checkpoints.py', 't5x/utils.py'], [('UpcycleCheckpointer, _read_upcycle_ts', 't5x/contrib/moe/checkpoints.py'), ('assignment map and restore entry points', 't5x/utils.py:RestoreCheckpointConfig')], ['restored train state on every device', 'dense train state before it was saved'])
p('X02', 'MoE training losses, gradients and placement match a one-device model',
  'With mixture-of-experts models (encoder-decoder and decoder-only, stacked or not) the loss is the ordinary loss plus the weighted auxiliary and router losses, each the mean over all MoE layers, and the reported expert metrics are those means; gradients of exactly the parameters selected by name are multiplied by the given factor; a training run of MoeTrainer on any mesh and any number of processes follows the run of the same model on one plain device; the mesh has the greatest possible number of expert partitions, expert parameters and their optimizer slots have their expert dimension (and nothing else has any dimension) along it, and the rows of the data are dealt out along experts and data so that every row is fed exactly once and hosts that share a shard agree.',
  ['inputs', 'configurations'], 'All layer layouts (stacks of different depth, with and without experts), expert counts, factors, parameter trees, name patterns, optimizers, meshes, microbatches, topologies.',
  'The contrib/moe tests use mocks with one tree and one mesh; scanned stacks of different depth, 2D sharding rules, unfactored kernels and odd topologies are not sampled.',
  ['t5x/contrib/moe/models.py', 't5x/contrib/moe/training_utils.py', 't5x/contrib/moe/partitioning.py', 't5x/contrib/moe/trainer.py', 't5x/contrib/moe/adafactor_utils.py'], [('expert losses and metrics', 't5x/contrib/moe/models.py:_moe_loss_fn_, _expert_losses, _extract_diversity_metrics'), ('gradient scaling', 't5x/contrib/moe/training_utils.py:scale_sharded_grads, match_fn'), ('expert mesh, rules and layouts', 't5x/contrib/moe/partitioning.py:MoePjitPartitioner')], ['loss_fn results and metrics', 'scale_sharded_grads results', 'train state after training', 'placement of every leaf on the devices', 'data layout of every host'])
p('E02', 'Exported models compute what the model computes',
  'A SavedModel written by export_lib.save answers every batch of texts or pre-tokenized rows, of every size it was exported for, with what the JAX model with the restored parameters computes (predictions and scores, or scores) on the features that follow from the definition: tokenized, trimmed or terminated by EOS, padded to the length (or to the smallest allowed bucket that holds the longest row), split at the first separator, shifted decoder inputs, loss weights and causal attention over exactly the prompt. Every row gets its own answer whatever else is in the batch, also when concurrent callers are merged into one batch. The parameters stored are exactly those of the checkpoint in the configured type; decoder parameters given per row reach the decoder; output names, and the warm-up requests (one per allowed batch size, which the model accepts) are as configured; a preprocessor made of a SeqIO task gives the features of the task.',
  ['inputs', 'configurations'], 'All texts and token rows, batch sizes and allowed sizes, feature lengths, EOS settings, separators, buckets, model kinds and modes, checkpoint and restore dtypes, with and without a partitioner, concurrent callers.',
  'export_lib_test cannot be imported here, and samples single configurations with mocked models; ragged batches, full-length rows, merged batches and dtype combinations are not.',
  ['t5x/export_lib.py'], [('preprocessors and features', 't5x/export_lib.py:create_preprocessor, create_decoder_preprocessor, create_preprocessor_from_task'), ('module, batching and parameters', 't5x/export_lib.py:ExportableModule, save'), ('warm-up requests', 't5x/export_lib.py:write_warmup_examples')], ['loaded signatures', 'variables of the loaded model', 'warm-up file', 'preprocessor results'])
p('V01', 'The interactive model does what the batch tools do',
  'For every list of examples (texts or input/target pairs, fewer or more than a batch), batch size, feature lengths and preprocessors, an InteractiveModel returns exactly one prediction or score per example, in order, equal to what the model computes for the features of that example alone, with auxiliary values (also nested intermediates) aligned with the examples; evaluation hands every metric function the targets, predictions, scores and auxiliary values of all examples in order, whichever of them are asked for. A train step changes the parameters exactly as one optimizer step on the first batch of the examples, counts one step and leaves a checkpoint, keeping the newest five, from which a new InteractiveModel on the same directory (or on the checkpoint) goes on exactly; too small batches are refused without effect. train_loop runs exactly num_steps steps over its batches in turn, evaluates at every eval_period-th step and accepts single batches or lists of batches everywhere. Batches taken from a SeqIO task are its first examples in order, or refused if there are too few, and a task made of examples yields exactly these.',
  ['inputs', 'configurations', 'histories'], 'All example lists, batch sizes, lengths, preprocessors, metric sets, training histories and restarts.',
  'There is no test of interactive_model.py in the tree that can run here.',
  ['t5x/interactive_model.py'], [('InteractiveModel.{train_step,infer_with_preprocessors,evaluate,train_loop,save_checkpoint}, get_batches_from_seqio, get_seqio_task_from_examples', 't5x/interactive_model.py')], ['predictions, scores, metric function arguments, parameters and checkpoint directories'])

if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
  with open(out, 'w') as f:
    for x in P:
      assert len(x['title']) <= 80, (x['id'], len(x['title']))
      f.write(json.dumps(x) + '\n')
  print(len(P), 'properties')
