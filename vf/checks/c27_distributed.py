"""
C27: distributed PyTorch training: all workers do the same steps, never wait for each other forever, and agree on parameters and scores.
"""

import os
import shutil
from vf.engh import *
from vf import mpsim
import returnn.torch.distributed as dist_mod
import returnn.frontend.run_ctx as run_ctx_mod
import returnn.learning_rate_control as lrc_mod

PROPERTY = "C27"
ASSUMPTIONS = [
    "the workers are threads, each with its own real Engine, scheduled one at a time; they only interact via torch.distributed "
    "(all_reduce, broadcast, broadcast_object_list, barrier: simulated, all workers have to call the same op in the same order)",
    "DistributedDataParallel is modelled by its documented behaviour: average of the gradients in backward if not in no_sync in forward, buffers sent from rank 0 in forward "
    "(if the last forward was one with gradient sync)",
    "data and parameter values are exact reals; linear model, SGD; device CPU instead of CUDA",
]
COVERS = ["end", "different_num_steps", "synced", "not_synced_at_end", "two_eval", "ctx"]


class _Group:
    def __init__(self, idx):
        self.idx = idx


class _Dist:
    """simulated torch.distributed for the current worker"""

    def __init__(self, h, sim, size):
        self.h, self.sim, self.size = h, sim, size
        self.calls = [[] for _ in range(size)]  # per rank
        self.results = {}
        self.num_groups = [0] * size
        self.ReduceOp = torch.distributed.ReduceOp

    @property
    def rank(self):
        """of the current worker"""
        return self.sim.current.rank

    def _collective(self, kind, payload, finish):
        rank = self.rank
        idx = len(self.calls[rank])
        self.calls[rank].append((kind, payload))
        for r in range(self.size):
            if len(self.calls[r]) > idx:
                other = self.calls[r][idx][0]
                self.h.check(other == kind, "collective op %i: rank %i does %s, rank %i does %s" % (idx, rank, kind, r, other))
        if all(len(c) > idx for c in self.calls):
            finish([c[idx][1] for c in self.calls])
            self.results[idx] = True
        else:
            ctx = run_ctx_mod._run_ctx
            self.sim.wait(lambda: idx in self.results)
            run_ctx_mod._run_ctx = ctx

    def all_reduce(self, tensor, op=None, group=None, async_op=False):
        """all reduce"""
        assert group is None and not async_op
        op = torch.distributed.ReduceOp.SUM if op is None else op

        def _finish(ts):
            if op == torch.distributed.ReduceOp.MIN:
                r = np.array(v_min_arr([st.values(t) for t in ts], min), dtype=object)
            elif op == torch.distributed.ReduceOp.MAX:
                r = np.array(v_min_arr([st.values(t) for t in ts], max), dtype=object)
            else:
                assert op in (torch.distributed.ReduceOp.SUM, torch.distributed.ReduceOp.AVG)
                r = st.values(ts[0]).copy()
                for t in ts[1:]:
                    for i in np.ndindex(*r.shape):
                        r[i] = v_add(r[i], st.values(t)[i])
                if op == torch.distributed.ReduceOp.AVG:
                    for i in np.ndindex(*r.shape):
                        r[i] = v_mul(r[i], Fraction(1, self.size))
            for t in ts:
                _set(t, r)

        self._collective("all_reduce %s %s" % (op, tuple(tensor.shape)), tensor, _finish)

    def new_group(self, *_args, **_kwargs):
        """new group of all workers (e.g. by the data loader)"""
        self.num_groups[self.rank] += 1
        g = _Group(self.num_groups[self.rank])
        self._collective("new_group", None, lambda _: None)
        return g

    def broadcast(self, tensor, src=0, group=None, async_op=False):
        """broadcast"""
        assert not async_op and (group is None or isinstance(group, _Group))
        self._collective("broadcast from %i, %s %s, group %s" % (src, tuple(tensor.shape), tensor.dtype, group.idx if group else None), tensor, lambda ts: [_set(t, st.values(ts[src])) for t in ts])

    def broadcast_object_list(self, object_list, src=0, group=None, device=None):
        """broadcast"""
        import copy

        def _finish(ls):
            for i, ls_ in enumerate(ls):
                if i != src:
                    ls_[:] = copy.deepcopy(ls[src], memo)

        memo = {}
        self._collective("broadcast_object_list from %i, %i" % (src, len(object_list)), object_list, _finish)

    def barrier(self, *_args, **_kwargs):
        """barrier"""
        self._collective("barrier", None, lambda _: None)

    def get_world_size(self, group=None):
        """size"""
        return self.size

    def get_rank(self, group=None):
        """rank"""
        return self.rank


def v_min_arr(arrs, f):
    """elementwise"""
    r = arrs[0].copy()
    for a in arrs[1:]:
        for i in np.ndindex(*r.shape):
            r[i] = f(r[i], a[i])
    return r


def _set(t, a):
    if isinstance(t, st.SymTensor):
        t._a[...] = a
        return
    with torch.no_grad():
        t.copy_(torch.tensor([float(x) for x in a.reshape(-1)], dtype=torch.float64).reshape(t.shape))


class _FakeDDP(torch.nn.Module):
    """model of DistributedDataParallel"""

    dist = None
    current = {}  # rank -> self

    def __init__(self, module, device_ids=None, **_kwargs):
        super().__init__()
        self.module = module
        self.require_backward_grad_sync = True
        self.require_forward_param_sync = True
        self.pending = False
        self.current[self.dist.rank] = self

    @contextlib.contextmanager
    def no_sync(self):
        """no sync"""
        old = self.require_backward_grad_sync
        self.require_backward_grad_sync = False
        try:
            yield
        finally:
            self.require_backward_grad_sync = old

    def forward(self, *args, **kwargs):
        """forward"""
        buffers = list(self.module.buffers())
        if self.require_forward_param_sync and buffers:
            for b in buffers:
                self.dist.broadcast(b, src=0)
        res = self.module(*args, **kwargs)
        if torch.is_grad_enabled() and self.require_backward_grad_sync:
            self.require_forward_param_sync = True
            self.pending = True
        else:
            self.require_forward_param_sync = False
        return res

    def after_backward(self):
        """sync grads"""
        if not self.pending:
            return
        self.pending = False
        for p in self.module.parameters():
            if p.requires_grad and p.grad is not None:
                self.dist.all_reduce(p.grad, op=torch.distributed.ReduceOp.AVG)


def h_dist(h, size, n_max, n_dev, epochs, reduce_type, accum=(1,), sync_steps=(1,), eval2=False, buffers=False, sync_on_cpu=False, backend="gloo", lr_control=False):
    """train with several workers"""
    ns = [h.choice("n%i" % r, list(range(1, n_max + 1))) for r in range(size)]
    acc = h.choice("accum", list(accum))
    sync = h.choice("sync_step", list(sync_steps)) if reduce_type == "param" else None
    n_all = sum(ns)
    n_ev = 1 if eval2 else 0
    data = Data(h, [1] * (n_all + n_dev + n_ev), feat=1)
    subset = {r: range(sum(ns[:r]), sum(ns[: r + 1])) for r in range(size)}
    bd, feat = Dim(None, name="batch"), Dim(1, name="feat")
    td = Dim(Tensor("time_len", [bd], dtype="int32"), name="time")
    w0 = [h.real("w%i" % r, -4, 4) if r == 0 or reduce_type == "param" else None for r in range(size)]
    w0 = [w if w is not None else w0[0] for w in w0]  # DDP sends the params of rank 0 at the start
    base_lr = [Fraction(1, 2), Fraction(1, 4), Fraction(1, 8)]
    tmp = tempfile.mkdtemp(prefix="dist_")
    written = []  # (rank, what)
    log = []  # (rank, epoch, train, tags)

    def _tensor(a):
        return st.sym_tensor(np.array(a, dtype=object), torch.float32) if h.symbolic else st.make_tensor(a)

    class _Model(torch.nn.Module):
        def __init__(self, **_kwargs):
            super().__init__()
            self.lin = torch.nn.Module()
            self.lin.weight = torch.nn.Parameter(_tensor([w0[sim.current.rank]]))
            if buffers:
                self.register_buffer("buf", torch.zeros(2))

    def _train_step(*, model, extern_data, **_kwargs):
        ctx = rf.get_run_ctx()
        log.append((sim.current.rank, ctx.epoch, bool(ctx.train_flag), [str(x) for x in extern_data["seq_tag"].raw_tensor]))
        w = rf.convert_to_tensor(model.lin.weight, dims=[feat])
        ctx.mark_as_loss(rf.squeeze(extern_data["data"] * w, axis=feat), "l", use_normalized_loss=True)

    dist_opts = {"reduce_type": reduce_type}
    if reduce_type == "param":
        dist_opts["param_sync_step"] = sync
        if sync_on_cpu:
            dist_opts["sync_on_cpu"] = True
    kw = {"accum_grad_multiple_step": acc}
    if lr_control:
        kw.update(learning_rate=float(base_lr[0]), learning_rate_control="newbob_abs", learning_rate_control_error_measure="dev_loss_l", learning_rate_control_relative_error_relative_lr=False, newbob_error_threshold=0.0, newbob_learning_rate_decay=0.5)
    else:
        kw.update(learning_rates=[float(x) for x in base_lr])
    config = make_config(
        dict(
            task="train",
            extern_data={"data": {"dims": [bd, td, feat], "dtype": "float32"}},
            get_model=_Model,
            train_step=_train_step,
            batch_size=10,
            max_seqs=1,
            optimizer={"class": "sgd"},
            num_epochs=epochs,
            stop_on_nonfinite_train_score=False,
            model=tmp + "/model",
            learning_rate_file=tmp + "/lr",
            **kw,
        )
    )
    engines = {}
    res = {}
    snaps = {r: [] for r in range(size)}
    lrs = {r: [] for r in range(size)}

    def _worker(rank):
        mode = st.FactoryMode() if h.symbolic else contextlib.nullcontext()
        with mode:
            train = data.dataset(subset=subset[rank], name="train")
            dev = data.dataset(subset=range(n_all, n_all + n_dev), name="dev") if n_dev else None
            ev = data.dataset(subset=range(n_all + n_dev, n_all + n_dev + n_ev), name="eval") if n_ev else None
            opts = config.typed_dict.pop("torch_distributed", None)
            engine = Engine(config=config)  # (would insist on CUDA)
            config.typed_dict["torch_distributed"] = dist_opts
            del opts
            engine._torch_distributed_ctx = contexts[rank]
            engines[rank] = engine
            engine.init_train_from_config(train_data=train, dev_data=dev, eval_data=ev)
            orig = engine.eval_model

            def _eval_model(**kw_):
                snaps[rank].append(st.values(engine._pt_model.lin.weight)[0])
                lrs[rank].append(engine.learning_rate)
                orig(**kw_)

            engine.eval_model = _eval_model
            engine.train()
            res[rank] = dict(
                w=st.values(engine._pt_model.lin.weight)[0],
                steps=engine.global_train_step,
                scores={ep: dict(engine.learning_rate_control.epoch_data[ep].error) for ep in range(1, epochs + 1)},
            )

    def _backward(self, *args, **kwargs):
        orig_backward(self, *args, **kwargs)
        d = _FakeDDP.current.get(sim.current.rank)
        if d is not None:
            d.after_backward()

    def _torch_save(_obj, f, **_kwargs):
        written.append((sim.current.rank, os.path.basename(f)))
        with open(f, "w"):
            pass

    sim = mpsim.Sim(h)
    dist = _Dist(h, sim, size)
    orig_backward = torch.Tensor.backward
    _FakeDDP.dist = dist
    _FakeDDP.current = {}
    env_old = {k: os.environ.get(k) for k in ("_RETURNN_TORCH_DISTRIBUTED_INIT_INFO", "LOCAL_RANK", "LOCAL_WORLD_SIZE")}
    contexts = []
    td_ = torch.distributed
    patches = [
        (dist_mod, "DistributedDataParallel", _FakeDDP),
        (dist_mod, "get_ctx", lambda *_a, **_kw: contexts[sim.current.rank]),
        (engine_mod, "dist_get_ctx", lambda *_a, **_kw: contexts[sim.current.rank]),
        (torch.Tensor, "backward", _backward),
        (torch, "save", _torch_save),
        (lrc_mod.LearningRateControl, "save", lambda self: written.append((sim.current.rank, "lr"))),
        (td_, "get_backend", lambda *_a: backend),
        (td_, "is_initialized", lambda: True),
        (td_, "ProcessGroup", _Group),
    ] + [(td_, k, getattr(dist, k)) for k in ("all_reduce", "broadcast", "broadcast_object_list", "barrier", "new_group", "get_world_size", "get_rank")]
    ctx0 = run_ctx_mod._run_ctx
    try:
        for r in range(size):
            os.environ["_RETURNN_TORCH_DISTRIBUTED_INIT_INFO"] = repr({"rank": r, "size": size})
            os.environ["LOCAL_RANK"] = str(r)
            os.environ["LOCAL_WORLD_SIZE"] = str(size)
            contexts.append(dist_mod.DistributedContext(dist_opts))
        with global_config_ctx(config), symbolic_engine(h, data, extra=patches), sim:
            procs = []
            for r in range(size):
                p = sim.Process(target=_worker, args=(r,))
                p.rank = r
                p.start()
                procs.append(p)
            try:
                for p in procs:
                    p.join()
            except mpsim.Deadlock:
                h.fail("workers wait for each other forever: ops %s" % [[k for k, _ in c][-3:] for c in dist.calls])
    finally:
        run_ctx_mod._run_ctx = ctx0
        shutil.rmtree(tmp)
        for k, v in env_old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
    h.observe([(r, e, t, list(tags)) for r, e, t, tags in log])

    # --- reference
    h.check(len({len(c) for c in dist.calls}) == 1, "different number of collective ops: %s" % [len(c) for c in dist.calls])
    steps = min(ns)
    if len(set(ns)) > 1:
        h.cover("different_num_steps")
    conds = []
    w = list(w0)
    if len({id(x) for x in w}) > 1:
        pass
    for ep in range(1, epochs + 1):
        got = {r: [(t, tags) for r_, e, t, tags in log if r_ == r and e == ep] for r in range(size)}
        for r in range(size):
            want = [(True, ["seq-%i" % i]) for i in range(steps)]
            if r == 0:
                want += [(False, ["seq-%i" % i]) for i in range(n_dev)] + [(False, ["seq-%i" % i]) for i in range(n_ev)]
            h.check(got[r] == want, "rank %i, epoch %i: steps %s, expected %s" % (r, ep, got[r], want))
        lr = base_lr[ep - 1] if not lr_control else Fraction(lrs[0][ep - 1])
        count = 0
        g = [None] * size
        loss0 = Fraction(0)
        synced = False
        for i in range(steps):
            xs = [data.value(subset[r][i], 0) for r in range(size)]
            loss0 = v_add(loss0, v_mul(xs[0], w[0]))
            g = [x if count == 0 else v_add(g_, x) for g_, x in zip(g, xs)]
            count += 1
            if count >= acc:
                if reduce_type == "grad":
                    m = v_mul(lsum(g), Fraction(1, size))
                    w = [v_sub(x, v_mul(m, lr)) for x in w]
                else:
                    w = [v_sub(x, v_mul(g_, lr)) for x, g_ in zip(w, g)]
                count = 0
            synced = False
            if reduce_type == "param" and i % sync == sync - 1:
                m = v_mul(lsum(w), Fraction(1, size))
                w = [m] * size
                synced = True
                h.cover("synced")
        if reduce_type == "param" and not synced:
            h.cover("not_synced_at_end")
        conds += [close(h, snaps[r][ep - 1], w[r]) for r in range(size)]
        scores = {"train_loss_l": v_mul(loss0, Fraction(1, steps))}
        for name, js in (("dev", range(n_all, n_all + n_dev)), ("eval", range(n_all + n_dev, n_all + n_dev + n_ev))):
            if len(js):
                scores[name + "_loss_l"] = v_mul(lsum([v_mul(data.value(j, 0), w[0]) for j in js]), Fraction(1, len(js)))
        for r in range(size):
            h.check(set(res[r]["scores"][ep]) == set(scores), "scores of rank %i: %s" % (r, sorted(res[r]["scores"][ep])))
            conds += [close(h, res[r]["scores"][ep][k], v) for k, v in scores.items()]
            h.check(lrs[r][ep - 1] == lrs[0][ep - 1], "learning rate of rank %i differs" % r)
    conds += [close(h, res[r]["w"], w[r]) for r in range(size)]
    h.check_all(conds, "parameters and scores of all workers (reduce_type %s)" % reduce_type)
    for r in range(size):
        h.check(res[r]["steps"] == steps * epochs, "global train step of rank %i" % r)
    h.check(all(r == 0 for r, _ in written), "written by another rank than 0: %s" % written)
    names = {n for _, n in written}
    h.check("lr" in names and sum(n.startswith("model") for n in names) >= 2 * epochs, "rank 0 saves: %s" % sorted(names))
    if eval2 and n_dev:
        h.cover("two_eval")
    h.cover("end")


def h_ctx(h):
    """options, in the main worker process and in a sub process of it (data loader)"""
    size = 3
    rank = h.choice("rank", list(range(size)))
    sub = h.choice("subprocess", [False, True])
    reduce_type = h.choice("reduce_type", [None, "grad", "param", "other"])
    sync = h.int("sync", -1, 3) if h.bool("sync_given") else None
    opts = {}
    if reduce_type:
        opts["reduce_type"] = reduce_type
    if sync is not None:
        opts["param_sync_step"] = int(sync)
    if h.bool("backend_given"):
        opts["backend"] = "gloo"
    if h.bool("unknown_given"):
        opts["bla"] = 1
    inits = []
    env_old = {k: os.environ.pop(k, None) for k in ("_RETURNN_TORCH_DISTRIBUTED_INIT_INFO", "LOCAL_RANK", "LOCAL_WORLD_SIZE")}
    td_ = torch.distributed
    ctx = None
    try:
        os.environ["LOCAL_RANK"] = str(rank)
        os.environ["LOCAL_WORLD_SIZE"] = str(size)
        with patched(
            (td_, "init_process_group", lambda backend=None, **_kw: inits.append(backend)),
            (td_, "get_rank", lambda *_a: rank),
            (td_, "get_world_size", lambda *_a: size),
        ):
            if sub:
                try:
                    dist_mod.DistributedContext(dict(opts))
                except (AssertionError, ValueError):
                    pass
                h.check(len(inits) == 1, "process group initialized")
                with patched((td_, "get_rank", lambda *_a: h.fail("not available in sub process")), (td_, "get_world_size", lambda *_a: h.fail("not available in sub process"))):
                    try:
                        ctx = dist_mod.DistributedContext(dict(opts))
                    except (AssertionError, ValueError):
                        pass
                h.check(len(inits) == 1, "process group initialized again in sub process")
            else:
                try:
                    ctx = dist_mod.DistributedContext(dict(opts))
                except (AssertionError, ValueError):
                    pass
                h.check(inits == [opts.get("backend")], "process group initialized: %s" % inits)
        valid = reduce_type != "other" and "bla" not in opts and (reduce_type != "param" or (sync is not None and sync > 0))
        h.check((ctx is not None) == valid, "options %s: %s" % (opts, "accepted" if ctx else "refused"))
        if ctx:
            h.check((ctx.rank(), ctx.size(), ctx.local_rank(), ctx.local_size()) == (rank, size, rank, size), "rank, size")
            h.check(ctx.get_param_sync_step() == (int(sync) if sync is not None else None), "param sync step")
            config = Config({"torch_distributed": opts})
            with global_config_ctx(config), patched((dist_mod, "get_ctx", lambda *_a, **_kw: ctx)):
                off = init_dataset({"class": "DummyDataset", "input_dim": 1, "output_dim": 1, "num_seqs": 1}).random_seed_offset
            h.check((off == 0) == (rank == 0) and (rank == 0 or abs(off) > 1000), "workers use different random seeds for the data: rank %i offset %i" % (rank, off))
            h.cover("ctx")
    finally:
        for k, v in env_old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def add(name, **kw):
        d = dict(size=2, n_max=2, n_dev=1, epochs=2, reduce_type="grad")
        d.update(kw)
        res.append(Case(name, h_dist, d, bounds=" ".join("%s=%s" % (k, v) for k, v in d.items()), validate=3, real_rounding=True))

    add("grad/plain", n_max=3 if q else 4, eval2=True)
    add("grad/accum", n_max=4, accum=[1, 2, 3], epochs=1 if q else 2)
    add("grad/no_eval", n_dev=0)
    add("grad/buffers", buffers=True, n_dev=2)
    add("grad/lr_control", lr_control=True, n_max=1, n_dev=1, epochs=3)
    add("param/sync", reduce_type="param", n_max=3 if q else 4, sync_steps=[1, 2, 3])
    add("param/accum", reduce_type="param", n_max=4, sync_steps=[1, 2], accum=[2], epochs=1)
    add("param/cpu", reduce_type="param", sync_steps=[1, 2], sync_on_cpu=True)
    add("param/nccl", reduce_type="param", sync_steps=[1, 2], backend="nccl", buffers=True)
    add("three/grad", size=3, n_max=2, epochs=1, n_dev=2)
    add("three/param", size=3, n_max=2, epochs=1, reduce_type="param", sync_steps=[1, 2])
    add("grad/long_eval", n_max=1, n_dev=101, epochs=1)
    res.append(Case("ctx", h_ctx, {}, bounds="3 workers"))
    return res
