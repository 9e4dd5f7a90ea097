"""
The properties. ``gen.py`` writes properties.jsonl and MANIFEST.json from this.
"""

PROPS = []
NOT_APPLICABLE = []  # (id, reason)


def prop(id, title, statement, over, quant, why, files, mech, level_note, *, na=None, state=(), observe=()):
    """add"""
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            over=over,
            quant=quant,
            why=why,
            files=files,
            mech=mech,
            level_note=level_note,
            na=na,
            state=state,
            observe=observe,
        )
    )


_NOTE = (
    "Bounded symbolic execution of the real functions imported from /repo; every assertion is decided by z3 for all "
    "values on each path, all feasible paths inside the bounds are explored (evidence says if not). "
)

prop(
    "C01",
    "Every sequence is seen exactly once per full epoch and once over all shards",
    "For every sequence ordering mode, the sequences visited over the consecutive sub-epochs of one full epoch "
    "(partition_epoch) and over all shards are, together, exactly the sequences of the corpus: none lost, none visited "
    "more often than configured (repeat_epoch, unique/filter lists). The parts are balanced: their sizes differ by at most one "
    "and sharding is a partition of the unsharded epoch.",
    ["inputs", "configurations", "histories"],
    "all corpus sizes, sequence lengths, partition_epoch, repeat_epoch, shard counts/indices, epochs, random permutations within the bounds",
    "Tests sample a few (n, partition_epoch) values with fixed seeds; an off-by-one in a slice bound only shows for specific n mod k.",
    ["returnn/datasets/basic.py"],
    [("sub-epoch slicing", "Dataset.get_seq_order_for_epoch, _apply_partition_epoch"), ("sharding", "Dataset._apply_seq_order_filter / num_shards slicing"),
     ("full epoch index", "Dataset.get_epoch_partition helpers")],
    _NOTE + "Random permutations are arbitrary (stubbed RandomState).",
)
prop(
    "C02",
    "Sequence ordering modes order as documented and are reproducible",
    "Given the same configuration, epoch and data, the sequence order of an epoch is the same whenever and however often it is computed, independent of "
    "which epochs were loaded before (so a resumed training continues identically), and shuffling uses a different seed for every full epoch while all sub-epochs of one full epoch "
    "share it. Length-dependent orders (sorted, sorted_reverse, bins, laplace, sort_bin_shuffle) produce the documented arrangement for all sequence lengths.",
    ["inputs", "histories", "configurations"],
    "all lengths, epochs, histories of previously initialised epochs, random draws within the bounds",
    "Tests check a few fixed length lists; ties, tiny corpora and resume histories are unbounded.",
    ["returnn/datasets/basic.py"],
    [("order computation", "Dataset.get_seq_order_for_epoch"), ("seed", "Dataset._get_random_seed_for_epoch / random_seed_offset")],
    _NOTE + "Random draws are an arbitrary function of (seed, draw index).",
)
prop(
    "C03",
    "PyTorch batching keeps order, loses nothing and respects all size limits",
    "The batches formed for PyTorch training contain every sequence exactly once and in order; no batch is empty, has more than max_seqs sequences, "
    "or (unless it is a single sequence) exceeds batch_size counted with padding for any limited data key. A batch is only closed when the next sequence would not have fit or the data ended, "
    "also when the limits are given per data key or as functions.",
    ["inputs", "configurations"],
    "all sequence lengths, limits, max_seqs within the bounds",
    "Tests use one or two length lists; limits interact with every combination of lengths.",
    ["returnn/torch/data/pipeline.py"],
    [("batching", "BatchingIterDataPipe"), ("construction from config", "get_batching_iterable_dataset_from_config")],
    _NOTE + "Arrays are stand-ins with symbolic length.",
)
prop(
    "C04",
    "PyTorch chunking, filtering, bucketing, shuffling never lose or duplicate data",
    "Chunking covers every frame of every sequence by consecutive windows of the configured size and step, aligned across data keys, dropping only "
    "trailing chunks below the configured minimum size. Length filters drop exactly the sequences outside the configured limits; bucket batching and buffered shuffling emit every sequence exactly once "
    "(or drop only the documented overlong ones), each in the right bucket and never over the bucket's batch size.",
    ["inputs", "configurations"],
    "all lengths, chunk sizes/steps, bucket boundaries, buffer sizes and random draws within the bounds",
    "Boundary conditions (length == limit, length % step, empty sequences) are far too many for tests.",
    ["returnn/torch/data/pipeline.py"],
    [("chunking", "ChunkingIterDataPipe"), ("filter", "LenFilterDataPipe"), ("bucketing", "BucketOrderedIterDataPipe / BucketBatchingDataPipe"), ("shuffle", "ShufflingDataPipe")],
    _NOTE + "Arrays are stand-ins with symbolic length.",
)
prop(
    "C05",
    "Legacy engine chunk and batch generation covers the data within all limits",
    "The batches generated for the legacy (TF) engine cover every frame of every sequence of the epoch (all frames once with chunk step = chunk size; sequences wholly contained when not chunking; sequences outside min/max_seq_length left out), "
    "in order, and every batch of multiple sequences keeps batch_size (with padding), max_pad_size and max_seqs (recurrent mode), and the total sequence limit. Iterating chunk-wise or sequence-wise gives start/end positions consistent for all data keys.",
    ["inputs", "configurations"],
    "all lengths, chunk sizes/steps, batch sizes, max_seqs, max_total_num_seqs within bounds",
    "Combination of lengths and limits is unbounded; tests use one dataset.",
    ["returnn/datasets/basic.py", "returnn/engine/batch.py"],
    [("batch generation", "Dataset._generate_batches"), ("sequence/chunk iteration", "Dataset.iterate_seqs"), ("batch bookkeeping", "Batch.try_sequence_as_slice / add_sequence_as_slice / add_frames")],
    _NOTE,
)
prop(
    "C11",
    "The learning rate schedule follows the configured control rule",
    "For every history of training and development scores, the learning rate of each epoch is exactly what the configured control rule "
    "(constant, newbob absolute/relative/multi-epoch with their window, decay/growth factors, error thresholds, minimum epochs per learning rate and error measure key; given learning_rates lists/dicts; default learning rate) determines from that history. It "
    "never goes below the configured min_learning_rate, decays only when the criterion says so, and does not depend on epochs whose scores were not yet known.",
    ["inputs", "histories", "configurations"],
    "all score histories, thresholds, decay factors, window sizes within the bounds",
    "Tests feed two or three hand-made score sequences; the rule must hold for any real score history including ties, missing and repeated epochs.",
    ["returnn/learning_rate_control.py"],
    [("rules", "ConstantLearningRate, NewbobRelative, NewbobAbs, NewbobMultiEpoch calc_learning_rate_for_epoch"), ("history lookup", "LearningRateControl.get_epoch_error_value / get_most_recent_learning_rate / get_learning_rate_for_epoch")],
    _NOTE + "Floats are exact reals in the encoding; counterexamples are replayed with Python floats.",
)
prop(
    "C12",
    "Learning rates and scores survive a restart, and a crash while saving",
    "Whatever scores and learning rates were recorded for the epochs so far, saving and loading the learning rate file gives back the same history, and the continued training gets the same learning rates as an uninterrupted one. "
    "If the process dies at any point while saving, the file afterwards is either the complete old or the complete new history, never truncated or missing.",
    ["crash points", "histories", "inputs"],
    "all recorded values, epochs, crash points within the bounds",
    "A crash test would need to hit each individual file operation, for each history.",
    ["returnn/learning_rate_control.py"],
    [("save/load", "LearningRateControl.save / load"), ("epoch data", "LearningRateControl.EpochData repr/eval")],
    _NOTE + "The crash point is a symbolic step number over the real file operations in a scratch folder.",
)
prop(
    "C13",
    "Checkpoint cleanup keeps what is configured, resume picks the last complete one",
    "Cleaning up old checkpoints never deletes the last, the best (per score key), or an explicitly kept epoch; it deletes all others, for all score histories and for the configured keep_last_n/keep_best_n/keep. "
    "The epoch chosen to resume from (or to load) is always the newest complete checkpoint, whichever files exist.",
    ["histories", "configurations", "crash points"],
    "all score histories, sets of existing checkpoint files, keep options within the bounds",
    "Sets of files times score orders are combinatorial; a mistake destroys a user's best model.",
    ["returnn/engine/base.py", "returnn/torch/engine.py", "returnn/util/basic.py"],
    [("cleanup", "EngineBase.cleanup_old_models"), ("lookup", "EngineBase.get_existing_models / get_last_epoch_model / get_epoch_model"), ("start epoch", "EngineBase.get_train_start_epoch")],
    _NOTE,
)
prop(
    "C14",
    "Training interrupted at any file operation resumes to an identical result",
    "If PyTorch training is killed at any point of its file operations (checkpoint, optimizer state, learning rate file, cleanup), even repeatedly, a restart "
    "continues after the last complete epoch, and in the end the parameters, optimizer state, global step, score history and existing checkpoints are those of an uninterrupted training. "
    "The train process manager (use_train_proc_manager) restarts the training process exactly while it is not finished and the last run made progress (a newer checkpoint), and exits with the exit code of the last run, or 0 if there was nothing to do.",
    ["crash points", "histories", "configurations"],
    "all crash points (up to two crashes in a row) over the file operations of a short training, for several save/cleanup configurations",
    "Tests run a training without a crash; each crash point is a separate execution.",
    ["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/learning_rate_control.py", "returnn/engine/base.py", "returnn/util/train_proc_manager.py"],
    [("restarts", "main_proc_manager, maybe_start_train_proc_manager"), ("checkpoint writing", "Engine._save_model, Updater.save_optimizer"), ("resume", "Engine.init_train_from_config, _load_model, Updater.load_optimizer"), ("epoch loop", "Engine.train / train_epoch / eval_model")],
    _NOTE + "The crash point is symbolic; the model arithmetic runs concretely.",
)

prop(
    "C15",
    "File cache: complete current copies, used files kept, crashes harmless",
    "FileCache.get_file returns a path in the cache directory whose content is the complete current content of the source: also when two processes get the file at the same time (any interleaving of "
    "their file operations), when a process died at any point of an earlier copy (a later process takes over after the lock timeout), when the disk is full at some point (it is retried num_tries times, then the ENOSPC error is raised; "
    "no incomplete file stays visible), and when the source changed in the meantime (then it is copied again, otherwise not). Used files, their info files and dirs are marked as used every second "
    "until they were released as often as they were requested. cleanup removes oldest first, never a file used within the last 10 seconds, all files older than the always-limit, newer ones only as far as space is needed "
    "(or wanted and older than the wanted-limit), and raises an error if the needed space is not available. LockFile never has two holders while the holder is alive, and breaks a lock only after lock_timeout.",
    ["interleavings", "crash points", "fault points", "ages and sizes of files"],
    "up to 3 processes with 2 switches at any file operation (single-file cases) or 1; death or ENOSPC (up to 4 in a row) at any file operation; cleanup: 3 files of any age up to 40 days and any size",
    "Tests run one undisturbed get_file and a few fixed cleanups; races, crash points and age/size combinations are not enumerable.",
    ["returnn/util/file_cache.py", "returnn/util/basic.py"],
    [("copy", "FileCache.get_file, _copy_file_if_needed, _check_existing_copied_file_maybe_cleanup, _copy_with_prealloc, FileInfo"), ("cleanup", "FileCache.cleanup"), ("marking", "_TouchFilesThread, FileCache.release_files"), ("lock", "LockFile")],
    _NOTE + "File operations run on real files of a scratch directory with virtual time (vf/fssim.py); for the cleanup, ages and sizes are solver variables.",
)

prop(
    "C26",
    "HDF files: what was written is read back, per sequence and key, in any order",
    "Sequences written with SimpleHDFWriter.insert_batch (any batch split, padded batches, dense/sparse/two dynamic axes, extra data with other lengths, also extending an existing file) or "
    "HDFDatasetWriter.dump_from_dataset (any data keys) are read back by HDFDataset with exactly the same tags, data keys, dims, labels, dtypes, lengths and data, padding excluded, and the file only becomes visible when it is complete. "
    "HDFDataset gives for every order (default, seq_list, seq_order), over several files, with and without inputs and targets, via get_data, get_data_by_seq_tag and get_corpus_seq, exactly the frames of the requested sequence, "
    "for all sequence lengths; with any cache_byte_size, any load ranges and any order per epoch the data is the same as without cache. NextGenHDFDataset gives the data of the streams of each sequence.",
    ["sequence lengths", "orders", "batch splits and load ranges", "data keys"],
    "reading: up to 2 files (3 thorough) with up to 3 sequences, all lengths 0..40; writing: 3 sequences, lengths 0..2; cache: 3 sequences, 6 sizes, 2 epochs, all load ranges",
    "Tests write and read single fixed files; offsets go wrong only for particular lengths, key names, orders or cache sizes.",
    ["returnn/datasets/hdf.py", "returnn/datasets/cached.py"],
    [("reader", "HDFDataset.add_file, _get_data_by_real_seq_idx, get_data, get_seq_length, get_tag, _load_seqs"), ("cache", "CachedDataset.init_seq_order, load_seqs, _load_seqs_with_cache, _modify_alloc_intervals, delete, get_input_data, get_targets"), ("writers", "SimpleHDFWriter, HDFDatasetWriter.dump_from_dataset"), ("streams", "NextGenHDFDataset, StreamParser")],
    _NOTE + "h5py is a stand-in in the symbolic runs (vf/fakeh5.py), for the reader with symbolic lengths and offsets; concrete runs use h5py.",
)

_RF_NOTE = (
    _NOTE + "RETURNN frontend ops run on symbolic tensors (vf/symtorch.py: ATen kernels interpreted on exact reals, "
    "exp/log/... uninterpreted), PyTorch eager CPU backend; other backends and float rounding are outside. "
)
_RF_FILES = ["returnn/frontend", "returnn/torch/frontend", "returnn/tensor"]

prop(
    "C20",
    "Padded frames never influence reductions, softmax, norms, losses or top-k",
    "For sequences of different lengths in one batch, the result of every reduction (sum, mean, max, min, argmax, logsumexp, any, all, ...), softmax/log_softmax, normalization (moments, batch norm in masked mode, layer norm, ...), "
    "top-k, and loss accumulation with the latest behavior version, with any dim order, equals the textbook function over the valid frames only: whatever values are in the padded area of the raw tensor, they do not matter.",
    ["inputs", "sequence lengths", "layouts"],
    "all tensor values (incl. the padding), all sequence lengths within the bounds, all dim orders",
    "Tests use a few random tensors, where padding is mostly zero or the effect on one value is not looked at.",
    _RF_FILES,
    [("masking", "Tensor.copy_masked, get_sequence_mask_broadcast"), ("reductions", "TorchBackend.reduce, softmax, log_softmax, top_k; rf.reduce*"), ("normalization", "rf.moments, rf.LayerNorm, rf.BatchNorm, rf.normalize"), ("loss", "rf.RunCtx / Loss.get_summed_loss, get_mean_loss, get_inv_norm_factor")],
    _RF_NOTE,
)
prop(
    "C21",
    "Ops which restructure sequences act on each sequence like list operations",
    "pad, shift, reverse, slice, concat, masked_select/scatter, pack_padded, gather, scatter, window, merge/split dims, cumsum, range_over_dim, one_hot, sort, search_sorted, top-p mask of the RETURNN frontend: "
    "each sequence in the batch gets exactly the result (values and length) which the corresponding list operation gives for that sequence alone; padding never gets mixed in, inverse operations give back the original.",
    ["inputs", "sequence lengths", "layouts"],
    "all tensor values (incl. the padding), all sequence lengths, offsets, amounts, indices, masks within the bounds, all dim orders",
    "Errors only show with particular length combinations, dim orders and option values, which tests sample once.",
    _RF_FILES,
    [("array ops", "returnn/frontend/array_.py"), ("torch impl", "TorchBackend.pad / slice / concat / gather / scatter / merge_dims / split_dims / masked_select / ..."), ("dim math", "Dim arithmetic in returnn/tensor/_dim_extra.py")],
    _RF_NOTE + "Slices beyond the sequence end, negative slice starts on dynamic dims, padding modes other than constant on dynamic dims (all documented as unsupported) are outside.",
)
prop(
    "C22",
    "Tensors are combined by dim identity, never by position or by size",
    "Element-wise ops (arithmetic, comparison, logical, where, min/max, clip, with tensors or scalars), matmul/Linear/Embedding and layout changes give, for any order of the dims in the operands and any subset of dims in one operand, "
    "also when several dims have the same size, the value defined by matching the dims by identity; the result has exactly the union of the dims. The native C++ implementation and the Python fallback agree with this and thus with each other.",
    ["inputs", "layouts", "dim subsets"],
    "all tensor values, all dim orders and subsets of up to 4 dims, scalars incl. the special values 0, 1, -1",
    "The number of layout combinations is large, and a wrong axis with equal sizes gives no error but wrong values.",
    _RF_FILES + ["returnn/frontend/_native/tensor_ops.cpp"],
    [("native ops", "compareOrCombine in returnn/frontend/_native/tensor_ops.cpp"), ("python ops", "rf.combine / rf.compare, bin_op_out_template"), ("layout", "Tensor.copy_compatible_to, copy_compatible_to_dims, get_out_permutation_to_dims"), ("matmul", "TorchBackend.matmul, where")],
    _RF_NOTE + "The C++ code is compiled from the current source and executed with concrete dims and symbolic values.",
)
prop(
    "C23",
    "Convolution and pooling give each sequence what it would give alone",
    "rf conv (1d, 2d; any filter size, stride, dilation, groups, padding same/valid/int) and pooling (max, avg) over a batch of sequences with different lengths: output lengths and values of each sequence are the textbook ones of that sequence alone; "
    "neither the padding content nor the other lengths in the batch have any influence.",
    ["inputs", "sequence lengths", "layouts"],
    "all input and filter values, all sequence lengths within the bounds, all dim orders, filter sizes 1-3, strides 1-3, dilation 1-2",
    "Errors only show for particular combinations of filter size, stride, dilation and length; tests check a few.",
    _RF_FILES,
    [("frontend", "returnn/frontend/conv.py (conv, pool, make_conv_out_spatial_dims, _consistent_same_padding)"), ("torch impl", "TorchBackend.conv, pool")],
    _RF_NOTE + "Latest behavior version. Average pooling only with padding=valid (masks with 0, documented). Dilated strided same max-pooling with odd size is refused by PyTorch.",
)
prop(
    "C24",
    "Attention sees exactly the frames of the own sequence, with the right positions",
    "rf.dot_attention, self-attention, causal self-attention (whole sequence, in chunks, or single steps with state), cross-attention, relative positional self-attention (sinusoidal or learned positions, clipping, with/without bias) and rotary positional self-attention: "
    "for every batch of sequences of different lengths, each query attends to exactly the valid frames of its own sequence (causal: only up to its own position), with the softmax weights and positional terms of the documented formula, independent of padding, dim order and of what was computed before (position caches).",
    ["inputs", "sequence lengths", "layouts", "histories"],
    "all input values (incl. the padding), all sequence lengths and splits into steps within the bounds",
    "A wrong mask or position offset gives plausible values; tests compare one random batch.",
    _RF_FILES,
    [("attention", "returnn/frontend/attention.py: dot_attention, SelfAttention, CausalSelfAttention, RelPosSelfAttention, RelPosCausalSelfAttention, RotaryPos*, CrossAttention"), ("positions", "relative_positional_encoding, sinusoidal_positional_encoding, LearnedRelativePositionalEncoding, _rel_pos_enc_shift"), ("position caches", "returnn/frontend/_cache.py, returnn/util/lru_cache.py")],
    _RF_NOTE + "Projection weights are fixed numbers; evaluation mode.",
)
prop(
    "C25",
    "Recurrent layers, loops and models treat each sequence of a batch as if alone",
    "LSTM and zoneout LSTM (any initial state, dim order, extra batch dims) give outputs and final states of the textbook recurrence over the valid frames of each sequence; rf.scan over sequences or with a stop condition gives each entry the outputs, lengths and final state of running it alone. "
    "Whole Conformer / E-Branchformer / Transformer encoders, the convolutional subsampling and Transformer decoders (with or without cross-attention, relative or rotary positions) give each sequence of a padded batch the result it gets alone, and a decoder run step by step gives the same as on the whole sequence.",
    ["inputs", "sequence lengths", "layouts", "histories"],
    "all input, embedding and initial state values (incl. the padding), all sequence lengths within the bounds",
    "Tests run the models once on random data and mostly only check shapes.",
    _RF_FILES,
    [("recurrence", "returnn/frontend/rec.py, TorchBackend.lstm"), ("loops", "returnn/frontend/loop.py: scan, while_loop; TensorArray"), ("models", "returnn/frontend/encoder/*.py, returnn/frontend/decoder/transformer.py")],
    _RF_NOTE + "Model weights are fixed numbers; evaluation mode; one layer.",
)
prop(
    "C27",
    "Distributed training: workers stay in step and agree on the result",
    "torch_distributed: for any number of batches per worker, all workers do the same number of training steps per epoch (until the first has no more data), call the same collective operations in the same order "
    "(so they never wait for each other forever), also in evaluation, which only rank 0 does, and with models with buffers. reduce_type grad: each update uses the average over the workers of the gradients accumulated "
    "since the last update, parameters stay equal. reduce_type param: each worker updates on its own, and after every param_sync_step steps of the epoch all have the average of the parameters. "
    "After each epoch all workers have the scores of rank 0 and thus the same learning rate; only rank 0 writes files. Wrong options are refused, sub processes of a worker get its rank and size without initializing a new group, and each worker gets another random seed offset for its datasets.",
    ["number of batches per worker", "schedules", "parameter and data values"],
    "2 or 3 workers, up to 4 batches each, 1 to 3 epochs, any parameter and data values (reals), accumulation 1 to 3, sync step 1 to 3",
    "Tests cannot run several GPUs; the hangs depend on the relation of the data of the workers.",
    ["returnn/torch/distributed.py", "returnn/torch/engine.py", "returnn/util/basic.py"],
    [("collective ops", "Engine.train_epoch, eval_model"), ("sync", "DistributedContext, _sync_params_avg"), ("DDP wrapping", "Engine._run_step, _WrappedModuleRunStep")],
    _NOTE + "Workers are threads with real engines; torch.distributed and DistributedDataParallel are modelled.",
)

prop(
    "C28",
    "Schedules and per-data-key numbers compute exactly the documented function",
    "PiecewiseLinear (util.math and rf, PiecewiseLinearStepwiseScheduler) gives for every x the linear interpolation between the neighbouring points and the value of the nearest point outside, for points in any order, also a single one; "
    "StepFunction gives the value of the nearest point (the lower one if equally near); kw_name / ignore_other_kwargs select and refuse arguments as documented. NumbersDict: +, -, *, /, // (also in-place; +, -, * with a scalar on the left), min, max, equality, any_compare, "
    "get, copy_like, constant_like act per key, a key which is missing on one side uses its default value, or the neutral element if there is none; operands are never changed.",
    ["numbers", "missing keys and defaults", "order of points"],
    "up to 3-4 points in any order at fixed x, any y and query; two keys and the default, each present or not, any values",
    "Tests look at a few points.",
    ["returnn/util/math.py", "returnn/frontend/piecewise_linear.py", "returnn/frontend/stepwise_scheduler.py", "returnn/util/basic.py"],
    [("schedules", "PiecewiseLinear, StepFunction, rf.PiecewiseLinear"), ("numbers", "NumbersDict")],
    _NOTE + "",
)

prop(
    "C29",
    "Random regularization acts only in training and within its documented limits",
    "For any random draws: rf.dropout sets each element to 0 or scales it by 1/(1-drop_prob), with one independent draw for each entry of the mask over the given axis (the mask is the same over all other axes), and does nothing outside of training (unless on_forward) or with drop_prob 0. "
    "SpecAugment (rf.audio.specaugment, random_mask, mask) does nothing outside of training or before its first step, masks per sequence between min_num and max_num regions of 1 to max_dims positions (limits inclusive), the same over the broadcast axis, starting within the sequence, and leaves everything else unchanged. "
    "weight_noise and weight_dropout change the weight only in training, never the stored parameter, and can be removed again. random_uniform and random_normal use the given range, mean and stddev; random_choice_without_replacement gives different labels. "
    "The Lion optimizer does the update of its definition (sign of the interpolated momentum, weight decay per group, parameters without gradient unchanged).",
    ["random draws", "inputs", "layouts"],
    "batch 1-2, up to 3-5 positions, any draws (reals, integers), any dim order for dropout",
    "Tests run a few seeds and cannot see limits which are only reached by rare draws.",
    ["returnn/frontend/dropout.py", "returnn/frontend/audio/specaugment.py", "returnn/frontend/parametrizations.py", "returnn/frontend/parametrize.py", "returnn/frontend/rand.py", "returnn/torch/frontend/_backend.py", "returnn/torch/optim/lion.py"],
    [("dropout", "rf.dropout"), ("SpecAugment", "specaugment, random_mask, mask"), ("weights", "register_parametrization, WeightNoise, WeightDropout"), ("random", "TorchBackend.random"), ("optimizer", "Lion.step")],
    _RF_NOTE + "The distribution of the draws themselves (PyTorch) is outside; gradient_checkpoint_scope is replaced by a null context.",
)
prop(
    "C30",
    "Nested states: each hypothesis keeps exactly its own entries and lengths",
    "rf.nested.gather_nested, mask_nested, masked_select_nested and masked_scatter_nested on nested states with tensors over batch and beam, dims with an own length per hypothesis (label histories), and tensors without beam or batch dim: "
    "the result has for each entry exactly the values, sequence and length of the selected (or, for mask/scatter, the chosen or the backup) hypothesis, padding never becomes part of a sequence, entries without the selected dim stay as they are, also if the longest sequence disappears or a new one gets longer. "
    "TensorArray: unstack, get item, push_back and stack keep order and content, whatever the dim order of the parts.",
    ["inputs", "sequence lengths", "selections and masks", "layouts"],
    "batch 1-2, beam 1-3, histories of 0-2 labels, all indices and masks, all dim orders of the history (batch 1)",
    "Only some combinations of lengths and selections change the padded size or mix entries; the functions have no tests.",
    ["returnn/frontend/nested.py", "returnn/frontend/tensor_array.py", "returnn/torch/frontend/_backend.py"],
    [("nested", "gather_nested, mask_nested, masked_select_nested, masked_scatter_nested"), ("arrays", "TensorArray, TorchBackend.tensor_array_stack, tensor_array_unstack")],
    _RF_NOTE + "",
)

prop(
    "C31",
    "Model loading: every parameter gets its value from exactly the configured source",
    "PyTorch engine: after Engine.init_network_from_config, for any set of keys in the checkpoints, each parameter or buffer has the value of the first by name of the active preload_from_files entries which has it, else of the own checkpoint (last epoch, load, or import_model_train_epoch1), else its initialization. "
    "An entry is active: init_for_train='always': always; True: in the first epoch of a training or with task initialize_model; else: whenever not training. prefix, ignore_params, ignore_params_prefixes, var_name_mapping and checkpoint_key select the keys of an entry. "
    "A parameter which no source has is an error, unless it is non_critical_for_restore, ignore_missing is set, or it matches the pattern of an entry for random initialization; an entry without any matching key is an error. "
    "Parameters loaded with 'always' are not trainable and not in the own checkpoint; all others are, and save and load again restores them, with epoch and step: a training continues with the next epoch and that step, others have epoch and last step of the checkpoint. "
    "The optimizer state is restored by parameter name, whatever the order of the parameters and whichever parameters were removed; a trainable parameter which the optimizer checkpoint does not have is an error.",
    ["configs", "checkpoint contents"],
    "4 parameters (one auxiliary / a buffer), each in each checkpoint or not, up to 3 preload entries, all options, epoch and step symbolic",
    "A wrong source gives a model which works, with silently wrong parameters; the rules for several sources interact and have few tests.",
    ["returnn/torch/engine.py", "returnn/engine/base.py", "returnn/torch/util/module.py", "returnn/torch/updater.py"],
    [("loading", "Engine._load_model, Engine._create_model"), ("which checkpoint", "EngineBase.get_epoch_model, get_existing_models"), ("always", "convert_parameters_to_buffers"), ("saving", "Engine._save_model"), ("optimizer", "Updater.save_optimizer, load_optimizer")],
    _NOTE,
)

prop(
    "C17",
    "Dim arithmetic: derived dims have exactly the computed sizes",
    "For any chain of +, -, *, //, ceildiv, exact division of dims (dynamic with lengths per sequence, or static) with dims or ints, from the left or right, the derived dim has for each sequence exactly the size which the arithmetic on the lengths gives, "
    "and an axis size which is large enough for all of them; two dims which compare equal have equal hashes and sizes; building the same expression again gives an equal dim; after setting new lengths (next batch), all that holds again for the new lengths.",
    ["inputs", "sequence lengths", "operation sequences"],
    "all lengths, and all chains of 2-3 operations within the bounds",
    "Simplification rules interact: an error only shows for particular operation chains and remainders.",
    ["returnn/tensor/_dim_extra.py", "returnn/tensor/dim.py"],
    [("dim math", "_OpMultTerm, _OpLinearTerm, _MathFindMatchingAdditive, Dim.__add__ / __sub__ / __mul__ / __floordiv__ / ..."), ("sizes", "_DimMixin.complete_dyn_size, get_size_tensor, get_dim_value_tensor"), ("equality", "Dim.__eq__, __hash__, reset_eager")],
    _RF_NOTE + "Chains where an intermediate size is negative, or an exact division has a remainder, are outside. See the known finding for mixed left subtractions.",
)
prop(
    "C18",
    "Caches return the value of an equal key, stay bounded, survive dying keys",
    "returnn.util.lru_cache: after any sequence of calls, cache_set, cache_peek, cache_pop, cache_pop_oldest, cache_set_maxsize, cache_clear, the cache holds exactly the most recently used entries up to the max size, each with the value last stored for an equal key, and the statistics fit; also when dropping a value removes other entries in its finalizer. "
    "The frontend cache (rf Cache, used for position encodings) returns a value only for a key of equal dims, tensors and raw values, mapped to the dims of the query, and drops entries whose dims or tensors died.",
    ["histories", "inputs", "re-entrancy"],
    "all operation sequences, key equalities, and finalizer actions within the bounds",
    "The orders of operations, evictions and dying objects are combinatorial; a wrong hit gives silently wrong model outputs.",
    ["returnn/util/lru_cache.py", "returnn/frontend/_cache.py"],
    [("lru", "returnn/util/lru_cache.py: lru_cache, _lru_cache_wrapper, _make_key"), ("frontend cache", "returnn/frontend/_cache.py: Cache.get / set, _transform_key")],
    _NOTE,
)
prop(
    "C19",
    "Losses and error metrics give each frame or sequence its textbook value",
    "rf.cross_entropy (logits, probs, log-probs; sparse or dense targets), rf.edit_distance, rf.ctc_loss (any blank index, sequence lengths, extra dims) and rf.label_smoothing give for each entry of a batch, for any dim order of the operands, "
    "the textbook value of that frame or sequence alone, whatever is in the padding.",
    ["inputs", "sequence lengths", "layouts"],
    "all scores, all label sequences (edit distance, smoothing), all lengths within the bounds, all dim orders",
    "Values are plausible even when dims are mixed up; tests compare one order.",
    _RF_FILES,
    [("losses", "returnn/frontend/loss.py: cross_entropy, ctc_loss, edit_distance"), ("torch impl", "TorchBackend.softmax_cross_entropy_with_logits, ctc_loss, edit_distance"), ("smoothing", "returnn/frontend/label_smoothing.py: label_smoothing")],
    _RF_NOTE + "The CTC kernel of PyTorch itself is taken as correct.",
)
prop(
    "C06",
    "Forward: each sequence gets exactly its own outputs, exactly once",
    "collate_batch and raw_dict_to_extern_data give the model the frames, lengths and tags of each sequence, for any lengths in the batch. "
    "Engine.forward_with_callback (PyTorch) calls process_seq exactly once for each sequence of the dataset, with its tag and with exactly the outputs which the model computed for that sequence, cut to its own length, whatever the dim order of the outputs, the batch size, "
    "beam dims or sequence lengths, and also when a batch is split because of out-of-memory (forward_auto_split_batch_on_oom).",
    ["inputs", "sequence lengths", "batchings", "layouts", "fault schedules"],
    "all data values, all lengths, batch sizes, output dim orders and out-of-memory points within the bounds",
    "A mix-up between the sequences of a batch still gives plausible output files; tests run one batch shape.",
    ["returnn/torch/engine.py", "returnn/torch/data/extern_data.py", "returnn/torch/data/pipeline.py"],
    [("forward loop", "returnn/torch/engine.py: Engine.forward_with_callback, _run_step, get_batch_dim_from_raw_tensors / split on OOM"), ("batch building", "returnn/torch/data/pipeline.py: create_tensor, collate_batch"), ("extern data", "returnn/torch/data/extern_data.py: raw_dict_to_extern_data, raw_dict_split_batch")],
    _NOTE + "The real PyTorch engine runs on symbolic tensors; no worker processes.",
)
prop(
    "C16",
    "Training: each parameter update and each score is exactly the documented one",
    "Engine.train_epoch / eval_model and the Updater (PyTorch): for any batching of the data, every optimizer step uses the gradient of the losses of exactly the batches since the last step (accum_grad_multiple_step; counted per epoch, an incomplete last group gives no update), with loss scale and normalization as given to mark_as_loss, "
    "with the learning rate of that epoch / step (learning_rates, dynamic_learning_rate, learning_rate_multiplier), clipping and weight decay only for the parameters to which it applies, shared parameters once; step counters count the batches. "
    "The reported train and dev scores are the averages over exactly all sequences/frames of the data, and evaluation does not change the parameters.",
    ["inputs", "batchings", "configurations", "histories"],
    "all data and initial parameter values, lengths, batch sizes, accumulation counts within the bounds",
    "Training still converges roughly with a wrong scale, stale gradient or learning rate off by one step; tests only check that it runs.",
    ["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/frontend/run_ctx.py"],
    [("training loop", "returnn/torch/engine.py: Engine.train_epoch, eval_model, _run_step, _maybe_update"), ("updater", "returnn/torch/updater.py: Updater.step, update_params, _get_optimizer_param_groups, set_learning_rate"), ("losses", "returnn/frontend/run_ctx.py: Loss, mark_as_loss")],
    _NOTE + "The real PyTorch engine runs on symbolic tensors; linear model and SGD so that the update is an exact formula.",
)
prop(
    "C07",
    "Distributed files: every file and every sequence in exactly one sub-epoch",
    "DistributeFilesDataset: for all file lists, file sizes, partition_epoch, orderings and shard counts, the files of the consecutive sub-epochs of one full epoch (over all shards, _num_shards, _shard_index) are exactly the given files, each once; "
    "for files of equal size no sub-epoch is empty if there are enough files and the bins differ by at most one file. Grouped (tuple/nested) files stay together. The sequences iterated in an epoch are exactly those of the epoch's files, once each, in order, with the sub dataset's data, "
    "also with num_shards > 1, after repeated or skipped epochs, with preloaded epochs and with any buffer size; the same epoch always gives the same files; complete_frac grows monotonically to one.",
    ["inputs", "configurations", "histories", "schedules"],
    "all file sizes, numbers of files, partition_epoch, shards, preload depths, epoch histories, message timings between the worker processes within the bounds",
    "Which files a sub-epoch gets depends on all sizes and the random order; a lost file is invisible in training. Worker timing is not controllable in tests.",
    ["returnn/datasets/distrib_files.py"],
    [("file distribution", "DistributeFilesDataset._distribute_evenly_by_size, _get_files_for_sub_epochs"), ("epoch handling", "DistributeFilesDataset.init_seq_order, _lazy_init_*, finish_epoch"), ("sub dataset", "_get_sub_dataset_dict, get_sub_epoch_dataset"), ("workers", "_WorkerProcParent, _worker_proc_loop, _prefetch/_buffer handling")],
    _NOTE + "Worker processes run the real worker loops as threads on simulated pipes (vf/mpsim.py); poll results are symbolic.",
)
prop(
    "C10",
    "Parallel data loading gives exactly the data of the wrapped dataset",
    "MultiProcDataset: for any number of workers, buffer size, sharding method and any relative speed of the processes, iterating an epoch yields exactly the sequences of the wrapped dataset for this epoch, each once (with sharding_method seq_order: in the order of the wrapped dataset; dedicated: the order within each worker kept), with the data, tags and lengths unchanged. "
    "This holds over consecutive, skipped and repeated epochs, when an epoch was not read to the end, for an explicit seq_list/seq_order, and for datasets whose number of sequences is not known in advance; nothing of an earlier epoch is ever seen in a later one.",
    ["schedules", "inputs", "histories", "configurations"],
    "all message timings, dataset sizes, worker counts, buffer sizes, epoch histories, read positions within the bounds",
    "Races between the main, sequence order and worker processes cannot be controlled in tests; stale messages of an aborted epoch only appear for specific timing.",
    ["returnn/datasets/multi_proc.py"],
    [("main side", "MultiProcDataset.init_seq_order, _collect_single_seq, _get_worker_seq, _iter_dedicated_seqs"), ("seq order process", "_seq_order_proc_loop"), ("workers", "_worker_proc_loop")],
    _NOTE + "Worker processes run the real loops as threads on simulated pipes (vf/mpsim.py); poll results are symbolic.",
)
prop(
    "C08",
    "Postprocessing maps every sequence of the wrapped dataset exactly once, in order",
    "PostprocessingDataset: with map_seq, each sequence of the wrapped dataset's epoch (any ordering, explicit seq_list/seq_order, shards, known or unknown number of sequences) is mapped exactly once, in order, with its own data, tag, epoch and seq_idx, and the mapped data is what the user reads; "
    "with map_seq_stream, exactly what the stream function yields is read, in order, and a broken promise on the number of sequences is reported. LaplaceOrdering permutes only inside each bin of num_seqs_per_bin sequences, sorted by length (the configured key) alternately up and down, and loses nothing; Sequential composes from left to right. "
    "complete_frac stays monotone, the random generator of an epoch does not depend on what was loaded before, nothing of an aborted epoch is seen in the next.",
    ["inputs", "histories", "configurations"],
    "all sequence lengths, bin sizes, what the stream drops or doubles, read positions, epochs, permutations within the bounds",
    "Order, ties and ends of the bins depend on all lengths; aborted epochs and unknown sizes are rarely tested.",
    ["returnn/datasets/postprocessing.py", "returnn/datasets/cached2.py"],
    [("epoch", "PostprocessingDataset.init_seq_order, _collect_single_seq"), ("mapping", "PostprocessingDataset._build_mapping_iter, _iterate_dataset"), ("ordering", "LaplaceOrdering.__call__, Sequential"), ("cache", "CachedDataset2._load_seqs, is_less_than_num_seqs")],
    _NOTE + "The wrapped dataset is a stand-in corpus.",
)
prop(
    "C09",
    "Combined datasets give exactly the sequences and data of their parts",
    "MetaDataset gives for each sequence of the epoch the data of each sub dataset of that same sequence (by tag, also with different tags per dataset), in the order of the control dataset or its own ordering, with partition_epoch, shards, explicit seq_list/seq_order, and whatever epochs or orders were initialized before. "
    "CombinedDataset gives over a full epoch every sequence of every sub dataset once (default, reverse, random, sorted, random_dataset order; sampling_sizes: the configured number per epoch, cyclic), with its own data and empty data for the other keys. ConcatDataset gives one dataset after the other; "
    "ConcatSeqsDataset joins exactly the listed sequences frame by frame, with the documented postfix removal, repetition and padding in between, and EpochWiseFilter removes only the longest sequences in the configured epochs; VariableDataset uses the dataset of the epoch; MultiEpochDataset gives the inner epochs one after the other.",
    ["inputs", "configurations", "histories"],
    "all numbers of sequences, lengths, permutations, partition_epoch, shards, selections, epoch histories within the bounds",
    "A wrong pairing or a dropped sequence is invisible in training; tests use one fixed order without history.",
    ["returnn/datasets/meta.py", "returnn/datasets/cached2.py"],
    [("same sequences", "MetaDataset.init_seq_order, _load_seqs, _collect_single_seq"), ("different sequences", "CombinedDataset.init_seq_order, _get_sampling_seq_order, _get_random_dataset_seq_order, _expand_dataset_sec_idxs"), ("concatenation", "ConcatDataset._load_seqs, ConcatSeqsDataset._collect_single_seq"), ("epochs", "VariableDataset, MultiEpochDataset._collect_single_seq, EpochWiseFilter")],
    _NOTE + "The wrapped datasets are stand-in corpora.",
)
