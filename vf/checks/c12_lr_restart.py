"""
C12: learning rate / score history survives restarts, for every history and every crash point of saving.
"""

import os
import tempfile
import shutil
from vf.harness import *
from vf.crashfs import CrashFS, Crash

import returnn.learning_rate_control as lrc
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])

PROPERTY = "C12"
ASSUMPTIONS = [
    "repr of Python floats round-trips exactly; floating point values are exact reals",
    "process crash: completed file operations persist in order, the write in progress may be partial",
]
COVERS = ["restarted", "crashed", "crashed_old", "nan", "io_error", "meta", "old_format"]


def _make(kind, kwargs, filename):
    cls = {
        "rel": lrc.NewbobRelative,
        "abs": lrc.NewbobAbs,
        "const": lrc.ConstantLearningRate,
        "multi": lrc.NewbobMultiEpoch,
    }[kind]
    return cls(filename=filename, **kwargs)


def _kwargs(h, kind, opt):
    kw = dict(
        default_learning_rate=h.real("default_lr", 0.0625, 4),
        min_learning_rate=0.0625,
        learning_rate_decay=0.5,
        learning_rate_growth=2.0,
    )
    if kind in ("rel", "multi"):
        kw["relative_error_threshold"] = -0.25
    if kind == "abs":
        kw["error_threshold"] = -0.25
    if kind == "multi":
        kw.update(num_epochs=2, update_interval=1, relative_error_grow_threshold=-0.5)
    if "min_epochs" in opt:
        kw["min_num_epochs_per_new_learning_rate"] = 2
    if "fixed" in opt:
        kw["default_learning_rates"] = {1: h.real("fixed1", 0.0625, 4), 3: h.real("fixed3", 0.0625, 4)}
    if "rel_lr" in opt:
        kw["relative_error_also_relative_to_learning_rate"] = True
    return kw


def _errors(h, n, special):
    res = []
    for ep in range(1, n + 1):
        e = h.real("err%i" % ep, 0.125, 8)
        d = {"dev_score": e, "train_score": h.real("terr%i" % ep, 0.125, 8)}
        if special and ep == 2:
            k = h.choice("special", ["no", "nan", "inf", "-inf"])
            if k != "no":
                d["dev_error"] = float(k)
                h.cover("nan")
        res.append(d)
    return res


_META = {"m": 3, "zero": 0, "f": 0.1, "s": "it's \"x\"\n", "none": None, "b": False, "device": "cpu", "l": list(range(300))}


def h_old_format(h):
    """files as written by older versions: error is just the score"""
    tmp = tempfile.mkdtemp(prefix="lr_")
    fn = tmp + "/lr.txt"
    try:
        with patched((lrc, "float", SymFloat)), repr_tokens():
            errs = [h.real("err%i" % ep, 0.125, 8) for ep in range(3)]
            lrs = [h.real("lr%i" % ep, 0, 4) for ep in range(3)]
            with open(fn, "w") as f:
                f.write(
                    "{%s}\n" % ", ".join("%i: EpochData(learningRate=%r, error=%r)" % (i + 1, lr, e) for i, (lr, e) in enumerate(zip(lrs, errs)))
                )
            control = lrc.NewbobAbs(error_threshold=-0.25, default_learning_rate=1.0, learning_rate_decay=0.5, filename=fn)
            for ep in range(1, 4):
                h.check(control.get_learning_rate_for_epoch(ep) == lrs[ep - 1], "learning rate of old file")
                h.check(control.get_epoch_error_value(ep) == errs[ep - 1], "score of old file")
            want = s_ite(errs[2] - errs[1] > -0.25, lrs[2] * 0.5, lrs[2])
            if bool(h.bool("save")):
                control.save()
                control = lrc.NewbobAbs(error_threshold=-0.25, default_learning_rate=1.0, learning_rate_decay=0.5, filename=fn)
            h.check(control.get_learning_rate_for_epoch(4) == want, "learning rate of next epoch")
            h.cover("old_format")
            h.observe([control.get_learning_rate_for_epoch(4)])
    finally:
        shutil.rmtree(tmp)


def _same_num(a, b):
    if not is_sym(a) and not is_sym(b) and a != a:
        return b != b
    return a == b


def _snapshot(control):
    return {
        ep: (d.learning_rate, dict(d.error), dict(d.meta)) for ep, d in control.epoch_data.items()
    }


def _equal(h, a, b):
    """conditions"""
    if set(a.keys()) != set(b.keys()):
        return False
    conds = []
    for ep in a:
        la, ea, ma = a[ep]
        lb, eb, mb = b[ep]
        if set(ea) != set(eb) or set(ma) != set(mb):
            return False
        conds.append(_same_num(la, lb))
        conds += [_same_num(ea[k], eb[k]) for k in ea]
        conds += [_same_num(ma[k], mb[k]) for k in ma]
    return s_and(*conds)


def h_restart(h, kind, n, opt):
    """run with restarts after any of the epochs = run without"""
    kwargs = _kwargs(h, kind, opt)
    errs = _errors(h, n, "special" in opt)
    tmp = tempfile.mkdtemp(prefix="lr_")
    try:
        with patched((lrc, "float", SymFloat)), repr_tokens():
            ref = _make(kind, kwargs, None)
            ref_lrs = []
            for ep in range(1, n + 1):
                ref_lrs.append(ref.get_learning_rate_for_epoch(ep))
                ref.set_epoch_error(ep, dict(errs[ep - 1]))
                if "meta" in opt:
                    ref.epoch_data[ep].meta.update(_META)
            fn = tmp + "/sub/lr.txt"
            control = _make(kind, kwargs, fn)
            for ep in range(1, n + 1):
                if bool(h.bool("restart_before%i" % ep)):
                    control = _make(kind, kwargs, fn)
                    h.cover("restarted")
                lr = control.get_learning_rate_for_epoch(ep)
                h.check(lr == ref_lrs[ep - 1], "learning rate of epoch %i differs after restart" % ep)
                control.set_epoch_error(ep, dict(errs[ep - 1]))
                if "meta" in opt:
                    control.epoch_data[ep].meta.update(_META)
                    h.cover("meta")
                control.save()
            control = _make(kind, kwargs, fn)
            h.check(_equal(h, _snapshot(control), _snapshot(ref)), "loaded history differs from the recorded one")
            kwargs2 = dict(kwargs, default_learning_rates={1: 3.0, 2: 7.0}, default_learning_rate=5.0)
            control = _make(kind, kwargs2, fn)
            h.check(_equal(h, _snapshot(control), _snapshot(ref)), "loaded history changed by new settings")
            h.observe(ref_lrs)
    finally:
        shutil.rmtree(tmp)


def h_crash(h, n, mode, max_steps):
    """crash (or io error) at any step of any save"""
    kind = "rel"
    kwargs = _kwargs(h, kind, ())
    errs = _errors(h, n, False)
    tmp = tempfile.mkdtemp(prefix="lr_")
    fn = tmp + "/sub/lr.txt"
    try:
        with patched((lrc, "float", SymFloat)), repr_tokens():
            fs = CrashFS(h, tmp, max_steps, mode=mode)
            saved, pending = None, None
            control = _make(kind, kwargs, fn)
            failed = False
            with fs:
                try:
                    for ep in range(1, n + 1):
                        control.get_learning_rate_for_epoch(ep)
                        control.set_epoch_error(ep, dict(errs[ep - 1]))
                        pending = _snapshot(control)
                        control.save()
                        saved, pending = pending, None
                except Crash:
                    failed = True
                    h.cover("crashed")
                except OSError:
                    h.check(mode == "error", "unexpected OSError")
                    failed = True
                    h.cover("io_error")
            h.check(failed or not fs.failed, "failure was ignored, the data is not saved")
            control2 = _make(kind, kwargs, fn)
            snap = _snapshot(control2)
            ok_old = _equal(h, snap, saved or {})
            ok_new = _equal(h, snap, pending) if pending is not None else False
            h.check(s_or(ok_old, ok_new), "history after the failure is neither the old nor the new one")
            if failed:
                h.cover("crashed_old", ok_old)
                h.cover("crashed_new", ok_new)
                # and training can go on, and saving works again
                first = (max(snap) if snap else 0) + 1
                for ep in range(first, n + 1):
                    control2.get_learning_rate_for_epoch(ep)
                    control2.set_epoch_error(ep, dict(errs[ep - 1]))
                    control2.save()
                ref = _make(kind, kwargs, None)
                for ep in range(1, n + 1):
                    ref.get_learning_rate_for_epoch(ep)
                    ref.set_epoch_error(ep, dict(errs[ep - 1]))
                control3 = _make(kind, kwargs, fn)
                h.check(_equal(h, _snapshot(control3), _snapshot(ref)), "history after recovery differs from the uninterrupted one")
            h.observe([len(snap)])
    finally:
        shutil.rmtree(tmp)


def cases(tier):
    """cases"""
    q = tier == "quick"
    n = 4 if q else 5
    res = []
    E = dict(engine=dict(hash_reals=True), real_rounding=True)
    for kind in ["rel", "abs", "const", "multi"]:
        for opt in [(), ("special",), ("min_epochs",), ("fixed",), ("meta",)] + ([("rel_lr",)] if kind == "rel" else []):
            nn = n if opt in ((), ("min_epochs",)) else 3
            res.append(
                Case(
                    "restart/%s/%s" % (kind, "+".join(opt)),
                    h_restart,
                    dict(kind=kind, n=nn, opt=opt),
                    bounds="%i epochs, any scores, restart at any subset of the epochs" % nn,
                    **E,
                )
            )
    res.append(Case("old_format", h_old_format, {}, bounds="3 epochs, any values", **E))
    for mode in ["crash", "error"]:
        res.append(
            Case("fault/" + mode, h_crash, dict(n=3, mode=mode, max_steps=16), bounds="3 epochs, any one of <=16 file operations fails", **E)
        )
    return res
