"""
C11: learning rate control: the learning rate of every epoch follows the documented rule, for every history of scores.
"""

from vf.harness import *

import returnn.learning_rate_control as lrc
from returnn.config import Config
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])

PROPERTY = "C11"
ASSUMPTIONS = [
    "floating point values are exact reals",
    "recorded scores are finite and non-zero",
    "dev score present or absent per epoch; decay/growth are factors (or a function), thresholds from a small set",
]
COVERS = ["decayed", "grown", "clipped", "kept_missing", "fixed_lr", "min_epochs_kept", "multi_decayed", "best", "best_none", "key_end", "other_key", "sparse", "config2"]

THRS = [-0.25, -0.0078125, 0.0]


def _patches():
    return patched((lrc, "float", SymFloat))


def _lr(h, v):
    """so that all lrs in one run are of the same kind (comparable in sets)"""
    if h.symbolic:
        return symx.SymReal(symx.z3.RealVal(symx.Fraction(v)))
    return v


def _run_history(h, control, n, oracle, miss=()):
    """train n epochs"""
    lrs, errs = {}, {}
    for ep in range(1, n + 1):
        lr = control.get_learning_rate_for_epoch(ep)
        want = oracle(ep, lrs, errs)
        h.check(lr == want, "learning rate of epoch %i is not as specified" % ep)
        h.check(control.get_learning_rate_for_epoch(ep) == lr, "learning rate changes when asked again")
        lrs[ep] = lr
        e = h.real("err%i" % ep, -8, 8)
        h.assume(e != 0)
        if ep in miss and bool(h.bool("missing%i" % ep)):
            continue
        errs[ep] = e
        control.set_epoch_error(ep, {"dev_score": e, "train_score": 1.5})
    h.observe(lrs)
    # asked later, nothing changes
    for ep in lrs:
        h.check(control.get_learning_rate_for_epoch(ep) == lrs[ep], "learning rate of past epoch changed")


def _apply(h, lr, decay_cond, grow_cond, decay, growth, min_lr):
    """expected update. forks"""
    if decay_cond:
        new = lr * decay
        if new < min_lr:
            new = min_lr
            h.cover("clipped")
        h.cover("decayed")
        return new
    if grow_cond:
        h.cover("grown", growth > 1)
        return lr * growth
    return lr


def h_newbob(h, kind, n, opt, func=False):
    """newbob relative / abs"""
    thr = h.choice("thr", THRS)
    decay = h.choice("decay", [0.5, 0.0] if func else [0.5, 0.25])
    growth = h.choice("growth", [1.0, 2.0])
    min_lr = h.real("min_lr", 0, 1)
    default = h.real("default_lr", 0.0625, 4)
    kwargs = dict(
        default_learning_rate=default,
        min_learning_rate=min_lr,
        learning_rate_decay=(lambda x: x * decay) if func else decay,
        learning_rate_growth=(lambda x: x * growth) if func else growth,
    )
    min_ep = 0
    fixed = {}
    if "fixed" in opt:
        fixed = {1: h.real("fixed1", 0.0625, 4), 3: h.real("fixed3", 0.0625, 4)}
        kwargs["default_learning_rates"] = dict(fixed)
    if "fixed_list" in opt:
        fixed = {1: h.real("fixed1", 0.0625, 4), 2: h.real("fixed2", 0.0625, 4)}
        kwargs["default_learning_rates"] = [fixed[1], fixed[2]]
    if "fixed3" in opt:
        fixed = {i: h.real("fixed%i" % i, 0.0625, 4) for i in [1, 2, 3]}
        kwargs["default_learning_rates"] = dict(fixed)
    if "min_epochs" in opt:
        min_ep = kwargs["min_num_epochs_per_new_learning_rate"] = int(h.int("min_epochs", 0, 3))
    if "div_old" in opt:
        kwargs["relative_error_div_by_old"] = True
    if "rel_lr" in opt:
        kwargs["relative_error_also_relative_to_learning_rate"] = True
    if kind == "rel":
        kwargs["relative_error_threshold"] = thr
    elif kind == "abs":
        kwargs["error_threshold"] = thr
    with _patches():
        cls = {"rel": lrc.NewbobRelative, "abs": lrc.NewbobAbs, "const": lrc.ConstantLearningRate}[kind]
        control = cls(**kwargs)

        def oracle(ep, lrs, errs):
            """spec"""
            if ep in fixed:
                h.cover("fixed_lr")
                return fixed[ep]
            if ep == 1:
                return default
            last = lrs[ep - 1]
            if min_ep > 1:
                recent = [lrs[e] for e in range(max(1, ep - min_ep), ep)]
                if len(recent) < min_ep or any(bool(r != recent[0]) for r in recent):
                    h.cover("min_epochs_kept")
                    return last
            if ep == 2 or kind == "const":
                return last
            if ep - 1 not in errs or ep - 2 not in errs:
                h.cover("kept_missing")
                return last
            old, new = errs[ep - 2], errs[ep - 1]
            diff = new - old
            if kind == "rel":
                diff = diff / abs(old if "div_old" in opt else new)
                if "rel_lr" in opt:
                    if last > 0:
                        diff = diff / (last / default)
            dec = bool(diff > thr)
            return _apply(h, last, dec, not dec, decay, growth, min_lr)

        _run_history(h, control, n, oracle, miss=(2,) if "miss" in opt else ())


def h_multi(h, n, num_epochs, interval, opt):
    """newbob multi epoch"""
    thr = h.choice("thr", THRS)
    grow_thr = h.choice("grow_thr", [t for t in [-0.5] + THRS if t <= thr])
    decay, growth = 0.5, 2.0
    min_lr = h.real("min_lr", 0, 1)
    default = h.real("default_lr", 0.0625, 4)
    with _patches():
        control = lrc.NewbobMultiEpoch(
            num_epochs=num_epochs,
            update_interval=interval,
            relative_error_threshold=thr,
            relative_error_grow_threshold=grow_thr,
            default_learning_rate=default,
            min_learning_rate=min_lr,
            learning_rate_decay=decay,
            learning_rate_growth=growth,
        )

        def oracle(ep, lrs, errs):
            """spec"""
            if ep == 1:
                return default
            last = lrs[ep - 1]
            if interval > 1 and ep % interval != 1:
                return last
            eps = list(range(max(1, ep - num_epochs - 1), ep))
            if len(eps) < 2:
                return last
            if any(e not in errs for e in eps):
                return last
            rels = [(errs[b] - errs[a]) / abs(errs[b]) for a, b in zip(eps, eps[1:])]
            mean = s_sum(rels) / len(rels)
            dec = bool(mean > thr)
            if dec:
                h.cover("multi_decayed")
            return _apply(h, last, dec, (not dec) and bool(mean < grow_thr), decay, growth, min_lr)

        _run_history(h, control, n, oracle, miss=(2,) if "miss" in opt else ())


def h_best(h, n):
    """best epoch query"""
    with _patches():
        control = lrc.ConstantLearningRate(default_learning_rate=1.0)
        errs, other = {}, []
        for ep in range(1, n + 1):
            control.get_learning_rate_for_epoch(ep)
            kind = h.choice("has%i" % ep, ["no", "dev"] + (["train"] if ep == 1 else []))
            if kind == "train":  # other score than of the other epochs
                errs[ep] = h.real("err%i" % ep, -8, 8)
                other.append(ep)
                control.set_epoch_error(ep, {"train_score": errs[ep]})
            elif kind == "dev":
                errs[ep] = h.real("err%i" % ep, -8, 8)
                control.set_epoch_error(ep, {"dev_score": errs[ep]})
        first = int(h.int("first", 1, n))
        last = int(h.int("last", 1, n))
        only_last = h.choice("only_last_epochs", [None, 1, 2])
        only_last_n = h.choice("only_last_n", [-1, 1, 2])
        use_filter = bool(h.bool("use_filter"))
        filt = h.real("filter", -8, 8)
        dist = h.real("dist", 0, 4)
        kw = {"filter_score": filt} if use_filter else {}
        res = control.get_last_best_epoch(
            last_epoch=last,
            first_epoch=first,
            only_last_epochs=only_last,
            only_last_n=only_last_n,
            min_score_dist=dist,
            **kw,
        )
        lo = first if only_last is None else max(first, last - only_last + 1)
        cand = [e for e in range(lo, last + 1) if e in errs]
        if cand:
            latest = errs[cand[-1]]
            cand = [e for e in cand if (e in other) == (cand[-1] in other)]  # comparable
            if use_filter:
                cand = [e for e in cand if bool(errs[e] <= filt)]
            if only_last_n >= 1:
                cand = cand[-only_last_n:]
            cand = [e for e in cand if bool(errs[e] + dist < latest)]
        h.observe([res])
        if not cand:
            h.check(res is None, "no epoch qualifies, but got one")
            h.cover("best_none")
        else:
            h.check(res in cand, "epoch %s does not qualify" % res)
            h.check_all([errs[res] <= errs[e] for e in cand], "best epoch is not the one with the lowest score")
            h.cover("best")


def h_key(h):
    """which score decides"""
    keys = ["dev_score", "dev_score_output", "dev_error", "train_score", "train_score_output", "dev_score_output/output_a", "dev_score_output/output", "my"]
    present = [k for i, k in enumerate(keys) if bool(h.bool("has%i" % i))]
    measure = h.choice("measure", [None, "dev_error", "my", ["my", "train_score"], "nonexisting", "train_score", ["train_score", "dev_error"]])
    vals = {k: h.real("v_%s" % k, -8, 8) for k in present}
    with _patches():
        control = lrc.ConstantLearningRate(default_learning_rate=1.0, error_measure_key=measure)
        control.get_learning_rate_for_epoch(1)
        control.set_epoch_error(1, dict(vals))
        key, value = control.get_epoch_error_key_value(1)
    if not present:
        h.check(key is None and value is None, "no score, but got %s" % key)
        return
    ms = [measure] if isinstance(measure, str) else (measure or [])
    order = [x for m in ms for x in (m, m + "_output")] + ["dev_score", "dev_score_output"]
    want = next((k for k in order if k in present), None)
    if want is None:
        want = next((k for k in sorted(present) if k.startswith("dev_score_output/output")), None)
    if want is None:
        want = next((k for k in sorted(present) if k.startswith("dev_")), None)
    if want is None:
        want = next((k for k in ["train_score", "train_score_output"] if k in present), None)
    if want is None:
        want = min(present)
    h.check(key == want, "score %s decides, expected %s" % (key, want))
    h.check(value == vals[want], "value of other score")
    h.cover("key_end")


def h_scores(h, kind):
    """scores given in parts, as dicts, of several outputs; the deciding score can be another one per epoch"""
    default = h.real("default_lr", 0.0625, 4)
    kw = dict(default_learning_rate=default, learning_rate_decay=0.5, learning_rate_growth=1.0)
    if kind == "abs":
        control = lrc.NewbobAbs(error_threshold=-0.25, **kw)
    elif kind == "rel":
        control = lrc.NewbobRelative(relative_error_threshold=-0.25, **kw)
    else:
        control = lrc.NewbobMultiEpoch(
            num_epochs=2, update_interval=1, relative_error_threshold=-0.25, relative_error_grow_threshold=-0.5, **kw
        )
    with _patches():
        lrs, decide, all_errs = {}, {}, {}
        for ep in range(1, 4):
            lr = control.get_learning_rate_for_epoch(ep)
            if ep <= 2:
                want = default
            elif decide[1][0] != decide[2][0]:
                want = lrs[2]  # not comparable
                h.cover("other_key")
            else:
                a, b = decide[1][1], decide[2][1]
                d = b - a if kind == "abs" else (b - a) / abs(b)
                want = s_ite(d > -0.25, lrs[2] * 0.5, lrs[2])
            h.check(lr == want, "learning rate of epoch %i is not as specified" % ep)
            lrs[ep] = lr
            t, a, b, c = [h.real("%s%i" % (n, ep), 0.125, 8) for n in "tabc"]
            control.set_epoch_error(ep, {"train_score": t})
            form = h.choice("form%i" % ep, ["float", "single", "multi", "colon", "none"] if ep < 3 else ["float"])
            if form == "float":
                control.set_epoch_error(ep, {"dev_score": a, "dev_error": c})
                exp = {"train_score": t, "dev_score": a, "dev_error": c}
                decide[ep] = ("dev_score", a)
            elif form == "single":
                control.set_epoch_error(ep, {"dev_score": {"cost:x": a}, "dev_error": {"y": c}})
                exp = {"train_score": t, "dev_score": a, "dev_error": c}
                decide[ep] = ("dev_score", a)
            elif form == "multi":
                control.set_epoch_error(ep, {"dev_score": {"output": a, "o2": b}, "dev_error": c})
                exp = {"train_score": t, "dev_score_output": a, "dev_score_o2": b, "dev_error": c}
                decide[ep] = ("dev_score_output", a)
            elif form == "colon":
                control.set_epoch_error(ep, {"dev_score": {"cost:output": a, "cost:o2": b}})
                exp = {"train_score": t, "dev_score_output": a, "dev_score_o2": b}
                decide[ep] = ("dev_score_output", a)
            else:
                exp = {"train_score": t}
                decide[ep] = ("train_score", t)
            all_errs[ep] = exp
        for ep, exp in all_errs.items():
            got = control.get_epoch_error_dict(ep)
            h.check(set(got) == set(exp), "scores %s of epoch %i, expected %s" % (sorted(got), ep, sorted(exp)))
            h.check_all([got[k] == exp[k] for k in exp], "recorded score differs")
        h.observe(lrs)


def h_sparse(h, kind):
    """history with holes (training started late, epochs given by learning_rates): previous = last existing epoch before"""
    default = 1.0
    kw = dict(
        default_learning_rate=_lr(h, default), learning_rate_decay=0.5, learning_rate_growth=1.0, min_learning_rate=_lr(h, 0.125)
    )
    if kind == "abs":
        control = lrc.NewbobAbs(error_threshold=-0.25, **kw)
    elif kind == "rel":
        control = lrc.NewbobRelative(relative_error_threshold=-0.25, **kw)
    elif kind == "const":
        control = lrc.ConstantLearningRate(**kw)
    else:
        control = lrc.NewbobMultiEpoch(
            num_epochs=1, update_interval=1, relative_error_threshold=-0.25, relative_error_grow_threshold=-0.5, **kw
        )
    with _patches():
        eps = [ep for ep in range(2, 7) if bool(h.bool("ep%i" % ep))]
        # recorded in any order
        if bool(h.bool("reversed")):
            rec = list(reversed(eps))
        else:
            rec = eps
        errs = {ep: h.real("err%i" % ep, 0.125, 8) for ep in eps}
        lrs = {ep: h.real("lr%i" % ep, 0.0625, 4) for ep in eps}
        for ep in rec:
            err = {"dev_score": errs[ep]} if kind != "const" or ep % 2 else {}
            control.epoch_data[ep] = control.EpochData(learning_rate=lrs[ep], error=err)
        q = h.choice("q", [3, 5, 7])
        got = control.get_learning_rate_for_epoch(q)
        before = [ep for ep in eps if ep < q]
        if q in eps:
            want = lrs[q]
        elif not before:
            want = default
        elif len(before) == 1 or kind == "const":
            want = lrs[before[-1]]
        else:
            a, b = errs[before[-2]], errs[before[-1]]
            d = b - a if kind == "abs" else (b - a) / abs(b)
            new = lrs[before[-1]] * 0.5
            want = s_ite(d > -0.25, s_max(new, 0.125), lrs[before[-1]])
            h.cover("sparse")
        h.check(got == want, "learning rate of epoch %i is not as specified" % q)
        h.observe([got])


def h_config2(h):
    """all further options from the config"""
    typ = h.choice("type", ["newbob", "newbob_abs", "newbob_multi_epoch"])
    default = 2.0
    opts = {"learning_rate_control": typ, "learning_rate": default, "newbob_relative_error_threshold": -0.25, "newbob_error_threshold": -0.25}
    which = h.choice(
        "which",
        ["plain", "learning_rates_list", "learning_rates_dict", "growth", "growth_old", "both", "min_epochs", "div_old", "rel_lr", "measure", "measure_list"]
        + (["grow_thr", "multi_default"] if typ == "newbob_multi_epoch" else []),
    )
    n_multi, interval = 1, 1
    if typ == "newbob_multi_epoch":
        opts["newbob_multi_num_epochs"] = 1
        if which == "multi_default":
            n_multi = interval = opts["newbob_multi_num_epochs"] = 2
        else:
            opts["newbob_multi_update_interval"] = 1
    fixed = {}
    growth, min_ep, key, grow_thr = 1.0, 0, "dev_score", -0.25
    if which == "learning_rates_list":
        fixed = {1: 0.5, 2: 0.25}
        opts["learning_rates"] = [0.5, 0.25]
    elif which == "learning_rates_dict":
        fixed = {2: 0.25, 4: 0.5}
        opts["learning_rates"] = {2: 0.25, 4: 0.5}
    elif which == "growth":
        growth = opts["learning_rate_growth"] = 2.0
    elif which == "growth_old":
        growth = opts["newbob_learning_rate_growth"] = 2.0
    elif which == "both":
        growth = opts["learning_rate_growth"] = 2.0
        opts["newbob_learning_rate_growth"] = 4.0
    elif which == "min_epochs":
        min_ep = opts["learning_rate_control_min_num_epochs_per_new_lr"] = 3
    elif which == "div_old":
        opts["newbob_relative_error_div_by_old"] = True
    elif which == "rel_lr":
        opts["learning_rate_control_relative_error_relative_lr"] = True
    elif which == "measure":
        key = opts["learning_rate_control_error_measure"] = "train_score"
    elif which == "measure_list":
        opts["learning_rate_control_error_measure"] = ["x", "train_score"]
        key = "train_score"
    elif which == "grow_thr":
        growth = opts["learning_rate_growth"] = 2.0
        grow_thr = opts["newbob_relative_error_grow_threshold"] = -0.5
    config = Config()
    config.update(opts)
    lrs, errs = {}, {}
    with _patches():
        control = lrc.load_learning_rate_control_from_config(config)
        for ep in range(1, 5):
            got = control.get_learning_rate_for_epoch(ep)
            if ep in fixed:
                want = fixed[ep]
            elif ep == 1:
                want = default
            else:
                last = lrs[ep - 1]
                recent = [lrs[e] for e in range(max(1, ep - min_ep), ep)]
                eps = list(range(max(1, ep - n_multi - 1), ep))
                if min_ep and (len(recent) < min_ep or any(bool(r != recent[0]) for r in recent)):
                    want = last
                elif len(eps) < 2 or (interval > 1 and ep % interval != 1):
                    want = last
                else:
                    ds = []
                    for a, b in zip(eps, eps[1:]):
                        d = errs[b][key] - errs[a][key]
                        if typ != "newbob_abs":
                            d = d / abs(errs[a if which == "div_old" else b][key])
                            if which == "rel_lr":
                                d = d / (lrs[b] / default)
                        ds.append(d)
                    d = s_sum(ds) / len(ds)
                    if bool(d > -0.25):
                        want = last * 0.5
                    elif typ != "newbob_multi_epoch" or bool(d < grow_thr):
                        want = last * growth
                    else:
                        want = last
            h.check(got == want, "learning rate of epoch %i is not as configured" % ep)
            lrs[ep] = got
            errs[ep] = {"dev_score": h.real("e%i" % ep, 0.125, 8), "train_score": h.real("t%i" % ep, 0.125, 8)}
            control.set_epoch_error(ep, dict(errs[ep]))
    h.cover("config2")
    h.observe(lrs)


def h_config(h):
    """construction from the config"""
    typ = h.choice("type", ["constant", "newbob", "newbob_rel", "newbob_relative", "newbob_abs", "newbob_multi_epoch"])
    default = h.real("learning_rate", 0.0625, 4)
    min_lr = h.real("min_learning_rate", 0, 1)
    decay_key = h.choice("decay_key", [None, "learning_rate_decay", "newbob_learning_rate_decay"])
    thr = h.choice("thr", [None, 0.25])
    config = Config()
    opts = {"learning_rate_control": typ, "learning_rate": default, "min_learning_rate": min_lr}
    if decay_key:
        opts[decay_key] = 0.25
    if thr is not None:
        opts["newbob_relative_error_threshold"] = thr
        opts["newbob_error_threshold"] = thr
    if typ == "newbob_multi_epoch":
        opts["newbob_multi_num_epochs"] = 2
        opts["newbob_multi_update_interval"] = 1
    config.update(opts)
    import returnn.config as rc

    with _patches(), patched((rc, "float", SymFloat)):
        control = lrc.load_learning_rate_control_from_config(config)
        lr1 = control.get_learning_rate_for_epoch(1)
        h.check(lr1 == default, "first learning rate is not the configured one")
        e1 = h.real("err1", 0.125, 8)
        e2 = h.real("err2", 0.125, 8)
        control.set_epoch_error(1, {"dev_score": e1})
        lr2 = control.get_learning_rate_for_epoch(2)
        h.check(lr2 == default, "second")
        control.set_epoch_error(2, {"dev_score": e2})
        lr3 = control.get_learning_rate_for_epoch(3)
        t = thr if thr is not None else -0.01
        if typ == "constant":
            want = default
        else:
            d = (e2 - e1) if typ == "newbob_abs" else (e2 - e1) / abs(e2)
            dec = d > t
            new = default * (0.25 if decay_key else 0.5)
            want = s_ite(dec, s_max(new, min_lr), default)
        h.check(lr3 == want, "learning rate after the second epoch not as configured")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    n = 4 if q else 5
    E = dict(engine=dict(hash_reals=True), real_rounding=True)
    for kind in ["rel", "abs", "const"]:
        for opt in [(), ("miss",), ("fixed",), ("fixed_list",), ("min_epochs",), ("fixed3", "min_epochs")] + (
            [("div_old",), ("rel_lr",)] if kind == "rel" else []
        ):
            res.append(
                Case(
                    "newbob/%s/%s" % (kind, "+".join(opt)),
                    h_newbob,
                    dict(kind=kind, n=n, opt=opt),
                    bounds="%i epochs, any scores in [-8,8]" % n,
                    **E,
                )
            )
    res.append(Case("newbob/rel/func", h_newbob, dict(kind="rel", n=3, opt=(), func=True), bounds="3 epochs", **E))
    for ne in [1, 2, 3]:
        for iv in [1, 2, 3]:
            nn = n if ne < 3 else 5
            res.append(
                Case(
                    "multi/%i/%i" % (ne, iv),
                    h_multi,
                    dict(n=nn, num_epochs=ne, interval=iv, opt=("miss",) if ne == 2 or (ne, iv) == (3, 1) else ()),
                    bounds="%i epochs" % nn,
                    **E,
                )
            )
    res.append(Case("best", h_best, dict(n=3 if q else 4), bounds="3 epochs, any scores, any subset present", **E))
    res.append(Case("key", h_key, {}, bounds="any subset of 7 scores", **E))
    for kind in ["rel", "abs", "multi"]:
        res.append(Case("scores/" + kind, h_scores, dict(kind=kind), bounds="3 epochs, any scores, 5 forms of reporting each", **E))
    for kind in ["rel", "abs", "multi", "const"]:
        res.append(Case("sparse/" + kind, h_sparse, dict(kind=kind), bounds="any subset of 5 epochs recorded", **E))
    res.append(Case("config2", h_config2, {}, bounds="all options, 4 epochs", **E))
    res.append(Case("config", h_config, {}, bounds="all types, 3 epochs", **E))
    return res
