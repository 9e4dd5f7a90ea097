"""
C16: training: parameter updates, learning rate per step, gradient accumulation, and the scores of train and eval.
"""

from vf.engh import *

PROPERTY = "C16"
ASSUMPTIONS = [
    "data and parameter values are exact reals; model linear in the parameters (so gradients are linear in the data), SGD",
    "sequence lengths, batch sizes, accumulation counts are split into all combinations",
    "PyTorch engine on CPU, data loader without worker processes, no distributed training, no mixed precision",
]
COVERS = ["end"]


def _num(x):
    return Fraction(x) if isinstance(x, float) else x


def _clip_grad_norm(parameters, max_norm, norm_type=2.0, **_kwargs):
    """like PyTorch, for the case of 4 equal gradients with one element"""
    params = [p for p in parameters if p.grad is not None]
    gs = [symx.to_z3_real(st.values(p.grad).flatten()[0]) for p in params]
    assert norm_type == 2.0 and len(params) == 4 and all(p.numel() == 1 for p in params)
    assert all(symx.z3.simplify(g - gs[0] == 0).eq(symx.z3.BoolVal(True)) for g in gs)
    total = torch.abs(params[0].grad) * 2.0
    coef = torch.clamp(max_norm / (total + 1e-6), max=1.0)
    for p in params:
        p.grad.mul_(coef)
    return total


def h_train(h, n, T, n_dev, epochs, accum, lr_mode, loss_mode, opts=None, ordering="default", partition=1, clip=False):
    """train and eval"""
    lens = [int(x) for x in h.ints("len", n + n_dev, 1, T)]
    data = Data(h, lens, feat=1)
    ms = h.choice("max_seqs", [1, 2] if n > 1 else [1])
    acc = h.choice("accum", accum)
    bd, feat = Dim(None, name="batch"), Dim(1, name="feat")
    td = Dim(Tensor("time_len", [bd], dtype="int32"), name="time")
    w0 = h.real("w", -4, 4)
    b0 = h.real("b", -4, 4)
    base_lr = [Fraction(1, 2), Fraction(1, 4), Fraction(1, 8)]
    wd = Fraction(1, 4) if (opts or {}).get("wd") else 0
    log = []  # all steps
    lr_calls = []
    extra_p = {}
    if (opts or {}).get("mods"):
        extra_p = {k: h.real(k.replace(".", "_"), -4, 4) for k in ("norm.weight", "sub.0.weight", "my_bias", "scale")}

    class _Model(torch.nn.Module):
        def __init__(self, **_kwargs):
            super().__init__()
            self.lin = torch.nn.Module()
            self.lin.weight = torch.nn.Parameter(_tensor([w0]))
            self.lin.bias = torch.nn.Parameter(_tensor([b0]))
            if (opts or {}).get("shared"):
                self.other = torch.nn.Module()
                self.other.weight = self.lin.weight
            if (opts or {}).get("unused"):
                self.unused = torch.nn.Parameter(_tensor([Fraction(3)]))
            if (opts or {}).get("clip_norm"):
                self.lin.bias.requires_grad = False
                self.q = torch.nn.ParameterList([torch.nn.Parameter(_tensor([Fraction(i)])) for i in range(3)])
            if (opts or {}).get("mods"):
                self.norm = torch.nn.LayerNorm(1)
                self.norm.weight = torch.nn.Parameter(_tensor([extra_p["norm.weight"]]))
                self.sub = torch.nn.Sequential(torch.nn.Embedding(1, 1))
                self.sub[0].weight = torch.nn.Parameter(_tensor([[extra_p["sub.0.weight"]]]))
                self.my_bias = torch.nn.Parameter(_tensor([extra_p["my_bias"]]))
                self.scale = torch.nn.Parameter(_tensor([extra_p["scale"]]))

    def _tensor(a):
        return st.sym_tensor(np.array(a, dtype=object), torch.float32) if h.symbolic else st.make_tensor(a)

    def _loss_opts():
        return {
            "sum": {},
            "mean": {"use_normalized_loss": True},
            "scaled": {"scale": 0.5, "use_normalized_loss": True},
            "custom": {"use_normalized_loss": True},
            "two": {"scale": 2.0},
            "error": {},
        }[loss_mode]

    def _train_step(*, model, extern_data, **_kwargs):
        ctx = rf.get_run_ctx()
        tags = [str(x) for x in extern_data["seq_tag"].raw_tensor]
        log.append(dict(tags=tags, train=bool(model.training), train_flag=bool(ctx.train_flag), step=ctx.step, epoch=ctx.epoch))
        x = extern_data["data"]
        w = rf.convert_to_tensor(model.lin.weight, dims=[feat])
        b = rf.convert_to_tensor(model.lin.bias, dims=[feat])
        y = rf.squeeze(x * w + b, axis=feat)  # [batch, time]
        if (opts or {}).get("clip_norm"):
            for q in model.q:
                y = y + rf.squeeze(x * rf.convert_to_tensor(q, dims=[feat]), axis=feat)
        for k in extra_p:
            y = y + rf.squeeze(rf.convert_to_tensor(torch.reshape(model.get_parameter(k), [1]), dims=[feat]), axis=feat)
        kw = _loss_opts()
        if loss_mode == "custom":
            kw["custom_inv_norm_factor"] = rf.cast(td.get_size_tensor(), "float32") * 2.0
            y = rf.reduce_sum(y, axis=td)
        ctx.mark_as_loss(y, "l", **kw)
        if loss_mode == "two":
            ctx.mark_as_loss(rf.reduce_sum(y, axis=td), "m", scale=0.25, use_normalized_loss=True)
        if loss_mode == "error":
            ctx.mark_as_loss(y * 3.0, "err", as_error=True)

    def _lr_func(*, global_train_step, epoch, epoch_continuous, learning_rate, **_kwargs):
        lr_calls.append((global_train_step, epoch, epoch_continuous, learning_rate))
        if lr_mode == "step":
            return learning_rate / 2**global_train_step
        if lr_mode == "cont":
            return learning_rate * (1.0 + round(epoch_continuous * 8) / 8)
        return learning_rate

    mult = Fraction(1, 2) if (opts or {}).get("mult") else 1
    kw = {}
    if lr_mode != "epoch":
        kw["dynamic_learning_rate"] = _lr_func
    if acc != 1 or h.choice("accum_set", [False, True] if loss_mode == "sum" else [True]):
        if (opts or {}).get("accum_dyn"):
            kw["accum_grad_multiple_step"] = lambda *, epoch, global_train_step, **_kw: acc if global_train_step < 2 else 1
        else:
            kw["accum_grad_multiple_step"] = acc
    if clip:
        kw["gradient_clip"] = 0.75
    optimizer = {"class": "sgd"}
    if wd:
        optimizer["weight_decay"] = float(wd)
        if (opts or {}).get("wd") == "custom":
            optimizer["weight_decay_custom_include_check"] = lambda *, full_param_name, **_kw: {"lin.weight": False, "lin.bias": True, "unused": None}[full_param_name]
        if isinstance((opts or {}).get("mods"), list):
            optimizer["weight_decay_modules_blacklist"] = opts["mods"]
    if (opts or {}).get("clip_norm"):
        kw["gradient_clip_global_norm"] = 0.75
    if mult != 1:
        optimizer["learning_rate_multiplier"] = float(mult)
    if True:
        config = make_config(
            dict(
                task="train",
                extern_data={"data": {"dims": [bd, td, feat], "dtype": "float32"}},
                get_model=_Model,
                train_step=_train_step,
                batch_size=T * n,
                max_seqs=ms,
                optimizer=optimizer,
                learning_rates=[float(x) for x in base_lr],
                num_epochs=epochs,
                stop_on_nonfinite_train_score=False,
                **kw,
            )
        )
        train = data.dataset(subset=range(n), seq_ordering=ordering, partition_epoch=partition, name="train")
        dev = data.dataset(subset=range(n, n + n_dev), name="dev") if n_dev else None
        eval2 = data.dataset(subset=range(n, n + n_dev)[1:], name="eval") if (opts or {}).get("eval2") else None
        patches = [(torch.nn.utils, "clip_grad_norm_", _clip_grad_norm)] if h.symbolic else []
        with global_config_ctx(config), symbolic_engine(h, data, extra=patches):
            engine = Engine(config=config)
            engine.init_train_from_config(train_data=train, dev_data=dev, eval_data=eval2)
            snaps = []
            orig = engine.eval_model

            def _eval_model(**kw_):
                snaps.append((st.values(engine._pt_model.lin.weight)[0], st.values(engine._pt_model.lin.bias)[0], len(log)))
                orig(**kw_)

            engine.eval_model = _eval_model
            engine.train()
            w1, b1 = st.values(engine._pt_model.lin.weight)[0], st.values(engine._pt_model.lin.bias)[0]
            q1 = [st.values(q_)[0] for q_ in engine._pt_model.q] if (opts or {}).get("clip_norm") else []
            extra1 = {k: st.values(engine._pt_model.get_parameter(k)).flatten()[0] for k in extra_p}
            unused = st.values(engine._pt_model.unused)[0] if (opts or {}).get("unused") else None
            n_params = sorted(len(g["params"]) for g in engine.get_pt_optimizer().param_groups)
            scores = {ep: dict(engine.learning_rate_control.epoch_data[ep].error) for ep in range(1, epochs + 1)}
            steps_total = engine.global_train_step
    h.observe([(x["tags"], x["train"]) for x in log])

    # --- reference
    h.check(sum(n_params) == 2 + (5 if extra_p else 0) + (3 if q1 else 0) + (1 if (opts or {}).get("unused") else 0), "each parameter in exactly one group")
    conds = []
    extra_v = dict(extra_p)
    extra_wd = {}
    for k in extra_p:
        mods = opts["mods"] if isinstance(opts["mods"], list) else ["torch.nn.LayerNorm", "torch.nn.Embedding"]
        no_wd = k == "my_bias" or (k == "norm.weight" and "torch.nn.LayerNorm" in mods) or (k == "sub.0.weight" and "torch.nn.Embedding" in mods)
        extra_wd[k] = Fraction(0) if no_wd else Fraction(wd)
    w, b = w0, b0
    q = [Fraction(i) for i in range(3)] if (opts or {}).get("clip_norm") else []
    step = 0
    pos = 0
    for ep in range(1, epochs + 1):
        steps = []
        while pos < len(log) and log[pos]["train_flag"] and log[pos]["epoch"] == ep:
            steps.append(log[pos])
            pos += 1
        seen = sorted(t for s_ in steps for t in s_["tags"])
        want = ["seq-%i" % i for i in range(n)]
        if partition == 1:
            h.check(seen == want, "train epoch %i: sequences %s" % (ep, seen))
        h.check(all(s_["train"] and s_["epoch"] == ep for s_ in steps), "train mode, epoch")
        gw = gb = None
        count = 0
        tot, norm = {}, {}
        done = 0
        for i, s_ in enumerate(steps):
            h.check(int(s_["step"]) == step, "global step in run ctx: %s, expected %s" % (s_["step"], step))
            idx = [int(t[4:]) for t in s_["tags"]]
            frames = [(j, t) for j in idx for t in range(lens[j])]
            sx = lsum([data.value(j, t) for j, t in frames])
            sl = v_add(v_mul(sx, lsum([w] + q)), v_mul(lsum([b] + list(extra_v.values())), Fraction(len(frames))))
            # (loss factor for the gradient, summed loss, norm) per loss
            losses = {}
            nf = Fraction(len(frames))
            if loss_mode == "sum":
                losses["l"] = (Fraction(1), 1, nf)
            elif loss_mode == "mean":
                losses["l"] = (1 / nf, 1, nf)
            elif loss_mode == "scaled":
                losses["l"] = (Fraction(1, 2) / nf, 1, nf)
            elif loss_mode == "custom":
                losses["l"] = (1 / (2 * nf), 1, 2 * nf)
            elif loss_mode == "two":
                losses["l"] = (Fraction(2), 1, nf)
                losses["m"] = (Fraction(1, 4) / len(idx), 1, Fraction(len(idx)))
            elif loss_mode == "error":
                losses["l"] = (Fraction(1), 1, nf)
                losses["err"] = (Fraction(0), 3, nf)
            for k, (_, f, nf_) in losses.items():
                tot[k] = v_add(tot.get(k, Fraction(0)), v_mul(sl, Fraction(f)))
                norm[k] = norm.get(k, 0) + nf_
            factor = sum(f for f, _, _ in losses.values())
            g1, g2 = v_mul(sx, factor), factor * nf
            gw, gb = (g1, g2) if count == 0 else (v_add(gw, g1), v_add(gb, g2))
            count += 1
            frac = Fraction(done + (len(idx) if partition == 1 else 0), n)
            acc_ = acc
            if (opts or {}).get("accum_dyn"):
                acc_ = acc if step < 2 else 1
            if count >= acc_:
                lr = base_lr[ep - 1]
                if lr_mode == "step":
                    lr = lr / 2**step
                elif lr_mode == "cont":
                    # fraction of the epoch which was finished before this step
                    lr = lr * (1 + Fraction(round((ep - 1 + float(Fraction(done, n))) * 8), 8))
                lr = lr * mult
                ww, wb = (wd, Fraction(0)) if (opts or {}).get("wd") != "custom" else (Fraction(0), wd)
                cgw, cgb = gw, gb
                if clip:
                    cgw = v_max(v_min(cgw, Fraction(3, 4)), Fraction(-3, 4))
                    cgb = max(min(cgb, Fraction(3, 4)), Fraction(-3, 4))
                if (opts or {}).get("clip_norm"):
                    a_ = v_mul(v_max(cgw, v_sub(Fraction(0), cgw)), Fraction(2))
                    cgw = v_mul(cgw, v_min(Fraction(1), v_div(Fraction(3, 4), v_add(a_, Fraction(1e-6)))))
                    cgb = Fraction(0)
                if (opts or {}).get("clip_norm"):
                    q = [v_sub(q_, v_mul(cgw, lr)) for q_ in q]
                for k in extra_v:
                    extra_v[k] = v_sub(extra_v[k], v_mul(v_add(cgb, v_mul(extra_v[k], extra_wd[k])), lr))
                w = v_sub(w, v_mul(v_add(cgw, v_mul(w, Fraction(ww))), lr))
                b = v_sub(b, v_mul(v_add(cgb, v_mul(b, Fraction(wb))), lr))
                count = 0
            done += len(idx)
            step += 1
        h.check(len(snaps) >= ep and snaps[ep - 1][2] == pos, "eval after each epoch")
        conds += [close(h, snaps[ep - 1][0], w), close(h, snaps[ep - 1][1], b)]
        want_scores = {"train_loss_" + k: v_mul(tot[k], Fraction(1) / norm[k]) for k in tot} if steps else {}
        # eval
        dev_tags = []
        dtot, dnorm = {}, {}
        while pos < len(log) and not log[pos]["train_flag"]:
            s_ = log[pos]
            h.check(not s_["train"], "eval mode")
            dev_tags += s_["tags"]
            pos += 1
        want_dev = ["seq-%i" % i for i in range(n_dev)] + (["seq-%i" % i for i in range(n_dev - 1)] if eval2 else [])
        h.check(sorted(dev_tags) == sorted(want_dev), "dev sequences %s" % dev_tags)
        for name, js in [("dev", list(range(n, n + n_dev)))] + ([("eval", list(range(n + 1, n + n_dev)))] if eval2 else []):
            if not js:
                continue
            frames = [(j, t) for j in js for t in range(lens[j])]
            sx = lsum([data.value(j, t) for j, t in frames])
            sl = v_add(v_mul(sx, lsum([w] + q)), v_mul(lsum([b] + list(extra_v.values())), Fraction(len(frames))))
            want_scores[name + "_loss_l"] = v_mul(sl, Fraction(1, len(frames) * (2 if loss_mode == "custom" else 1)))
            if loss_mode == "two":
                want_scores[name + "_loss_m"] = v_mul(sl, Fraction(1, len(js)))
            if loss_mode == "error":
                want_scores[name + "_loss_err"] = v_mul(sl, Fraction(3, len(frames)))
        h.check(set(scores[ep]) == set(want_scores), "scores: %s" % sorted(scores[ep]))
        conds += [close(h, scores[ep][k], v) for k, v in want_scores.items()]
    h.check(pos == len(log), "no further steps")
    h.check(steps_total == step, "global train step")
    conds += [close(h, w1, w), close(h, b1, b)]
    conds += [close(h, a_, b_) for a_, b_ in zip(q1, q)]
    conds += [close(h, extra1[k], extra_v[k]) for k in extra_p]
    if unused is not None:
        conds.append(close(h, unused, Fraction(3)))
    h.check_all(conds, "parameters and scores (%s)" % loss_mode)
    for gs, ep, cont, lr in lr_calls:
        h.check(ep - 1 - 1e-6 <= cont <= ep + 1e-6 and gs <= step, "arguments of dynamic_learning_rate")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def add(name, fn, **kw):
        d = dict(n=2, T=2, n_dev=1, epochs=2, accum=[1], lr_mode="epoch", loss_mode="mean")
        d.update(kw)
        res.append(Case(name, fn, d, bounds=" ".join("%s=%s" % (k, v) for k, v in d.items()), validate=4, real_rounding=True))

    for lm in ("sum", "mean", "scaled", "custom", "two", "error"):
        add("loss/" + lm, h_train, loss_mode=lm, n_dev=2)
    add("accum", h_train, n=4, T=1, accum=[1, 2, 3], n_dev=0)
    add("accum_dyn", h_train, n=4, T=1, accum=[1, 2, 3], n_dev=0, opts={"accum_dyn": True})
    add("lr_step", h_train, n=3, T=1 if q else 2, lr_mode="step")
    add("lr_cont", h_train, n=4, T=1 if q else 2, lr_mode="cont")
    add("lr_accum", h_train, n=4, T=1, lr_mode="step", accum=[2])
    add("clip", h_train, n=2, T=2, epochs=1, clip=True, loss_mode="sum")
    add("wd", h_train, n=2, T=1, opts={"wd": True, "unused": True})
    add("wd_custom", h_train, n=2, T=1, opts={"wd": "custom", "unused": True})
    add("clip_norm", h_train, n=2, T=1, epochs=1, n_dev=0, opts={"clip_norm": True}, loss_mode="sum")
    add("mods", h_train, n=2, T=1, epochs=1, n_dev=1, opts={"wd": True, "mods": True})
    add("mods_bl", h_train, n=1, T=1, epochs=1, n_dev=1, opts={"wd": True, "mods": ["torch.nn.Embedding"]})
    add("mods_bl2", h_train, n=1, T=1, epochs=1, n_dev=1, opts={"wd": True, "mods": ["torch.nn.LayerNorm"]})
    add("eval2", h_train, n=1, T=2, epochs=2, n_dev=3, opts={"eval2": True}, loss_mode="two")
    add("shared", h_train, n=2, T=1, opts={"wd": True, "shared": True})
    add("lr_mult", h_train, n=2, T=1, opts={"mult": True})
    return res
