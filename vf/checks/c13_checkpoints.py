"""
C13: which checkpoints are kept by the cleanup, and from which one training resumes.
"""

import os
import shutil
import tempfile
from vf.harness import *

import returnn.learning_rate_control as lrc
from returnn.config import Config
from returnn.util.basic import BackendEngine
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])
if BackendEngine.selected_engine is None:
    BackendEngine.select_engine(engine=BackendEngine.Torch)
from returnn.torch.engine import Engine

PROPERTY = "C13"
ASSUMPTIONS = [
    "checkpoint files are stand-ins (empty content is not read)",
    "every saved epoch has an entry in the score history (scores may be missing per key)",
]
COVERS = ["removed", "kept_all", "best_kept", "resume", "resume_none", "resume_opt_missing", "start_epoch", "load_epoch", "import", "few", "default_removed"]


class _Eng(Engine):
    # noinspection PyMissingConstructor
    def __init__(self, config, lr_control, deleted):
        self.config = config
        self.learning_rate_control = lr_control
        self.deleted = deleted

    def _do_save(self):
        return True

    def __del__(self):
        pass


def _touch(fn, content="x"):
    with open(fn, "w") as f:
        f.write(content)


def h_cleanup(h, epochs, keys, opt, max_keep=2):
    """retention"""
    tmp = tempfile.mkdtemp(prefix="ckpt_")
    try:
        scores = {}
        errs = {}
        for ep in epochs:
            d = {}
            for k in keys:
                if "missing" in opt and k == keys[-1] and bool(h.bool("missing_%s_%i" % (k, ep))):
                    continue
                d[k] = h.real("%s_%i" % (k, ep), -4, 4)
            errs[ep] = d
        for k in keys:
            # a missing score counts as the worst one
            have = [errs[ep][k] for ep in epochs if k in errs[ep]]
            scores[k] = {ep: errs[ep].get(k, s_max(have)) for ep in epochs} if have else {}
        opts = {}
        keep_last = int(h.int("keep_last_n", 1, max_keep))
        keep_best = int(h.int("keep_best_n", 0, max_keep))
        opts["keep_last_n"] = keep_last
        opts["keep_best_n"] = keep_best
        keep = None
        if "keep" in opt:
            keep = [e for e in list(epochs) + [epochs[-1] + 7] if bool(h.bool("keep%i" % e))]
            opts["keep"] = list(keep)
        config = Config()
        config.update({"model": tmp + "/model", "cleanup_old_models": opts, "num_epochs": epochs[-1] + 1, "task": "train"})
        for ep in epochs:
            _touch(tmp + "/model.%03d.pt" % ep)
            if ep == epochs[-1] or "missing" not in opt:
                _touch(tmp + "/model.%03d.opt.pt" % ep)
        control = lrc.ConstantLearningRate(default_learning_rate=1.0)
        with patched((lrc, "float", SymFloat)):
            for ep in epochs:
                control.epoch_data[ep] = control.EpochData(learning_rate=1.0, error=dict(errs[ep]))
            if not any(errs[ep] for ep in epochs):
                h.stop()
            eng = _Eng(config, control, [])
            eng.cleanup_old_models()
        left = [ep for ep in epochs if os.path.exists(tmp + "/model.%03d.pt" % ep)]
        h.observe(left)
        removed = [ep for ep in epochs if ep not in left]
        for ep in epochs[-keep_last:]:
            h.check(ep in left, "one of the last %i checkpoints was removed (%i)" % (keep_last, ep))
        h.check(os.path.exists(tmp + "/model.%03d.opt.pt" % epochs[-1]), "optimizer state of the last checkpoint removed")
        for ep in removed:
            h.check(not os.path.exists(tmp + "/model.%03d.opt.pt" % ep), "optimizer state of removed checkpoint %i still there" % ep)
        if keep is not None:
            for ep in keep:
                if ep in epochs:
                    h.check(ep in left, "checkpoint %i to be kept was removed" % ep)
        if removed:
            h.cover("removed")
            for k in keys:
                for r in removed:
                    if r not in scores[k]:
                        continue
                    # a removed one is not among the best n: at least n kept ones are as good (or all scores are the same)
                    vals = list(scores[k].values())
                    better = s_count([scores[k][e] <= scores[k][r] for e in scores[k] if e != r])
                    all_same = s_and(*[v == vals[0] for v in vals])
                    h.check(s_or(better >= keep_best, all_same), "a checkpoint among the best %i by %s was removed (epoch %i)" % (keep_best, k, r))
                    kept_as_good = s_count([scores[k][e] <= scores[k][r] for e in left if e in scores[k]])
                    h.check(s_or(kept_as_good >= keep_best, all_same), "of the best %i by %s, some were removed" % (keep_best, k))
                    h.cover("best_kept")
        else:
            h.cover("kept_all")
        if max(keep_last, keep_best) >= len(epochs):
            h.check(not removed, "removed although not more checkpoints than to be kept")
            h.cover("few")
        # nothing is kept without a reason
        if keep is not None and max(keep_last, keep_best) < len(epochs):
            for ep in left:
                if ep in keep or ep in epochs[-keep_last:]:
                    continue
                reasons = []
                for k in keys:
                    mine = scores[k].get(ep)
                    if mine is None:
                        continue
                    better = s_count([v < mine for e, v in scores[k].items() if e != ep])
                    reasons.append(better < keep_best)
                h.check(s_or(*reasons), "checkpoint %i kept without reason" % ep)
    finally:
        shutil.rmtree(tmp)


def h_default_pattern(h, last):
    """without keep list: default pattern always protects something over the whole training; and last one always kept"""
    tmp = tempfile.mkdtemp(prefix="ckpt_")
    try:
        epochs = list(range(1, last + 1))
        config = Config()
        config.update({"model": tmp + "/model", "cleanup_old_models": True, "num_epochs": last, "task": "train"})
        for ep in epochs:
            _touch(tmp + "/model.%03d.pt" % ep)
        best = int(h.int("best", 1, last))
        dry = bool(h.bool("dry_run"))
        if dry:
            config.update({"dry_run": True})
        control = lrc.ConstantLearningRate(default_learning_rate=1.0)
        for ep in epochs:
            control.epoch_data[ep] = control.EpochData(learning_rate=1.0, error={"dev_score": float((ep - best) % last)})
        _Eng(config, control, []).cleanup_old_models()
        left = [ep for ep in epochs if os.path.exists(tmp + "/model.%03d.pt" % ep)]
        h.check(left[-2:] == epochs[-2:], "last two checkpoints must be kept")
        for i in range(4):
            h.check((best + i - 1) % last + 1 in left, "best four must be kept")
        for ep in [20, 40, 80, 160]:
            h.check(ep > last or ep in left, "epoch %i is kept by default" % ep)
        if dry:
            h.check(left == epochs, "dry run must not delete")
        else:
            h.cover("default_removed", len(left) < last)
            h.check(len(left) <= 2 + 4 + 2 + last // 4, "nothing cleaned up")
        h.observe(left)
    finally:
        shutil.rmtree(tmp)


def h_resume(h, n, opt, base=0):
    """resume point from any set of files"""
    tmp = tempfile.mkdtemp(prefix="ckpt_")
    try:
        have_model, have_opt = [], []
        for ep in range(base + 1, base + n + 1):
            st = h.choice("state%i" % ep, ["none", "model", "model+opt", "opt", "tmp"])
            if "model" in st:
                _touch(tmp + "/model.%03d.pt" % ep)
                have_model.append(ep)
            if "opt" in st:
                _touch(tmp + "/model.%03d.opt.pt" % ep)
                have_opt.append(ep)
            if st == "tmp":
                _touch(tmp + "/model.%03d.pt.tmp_write" % ep)
                _touch(tmp + "/model.%03d.opt.pt.tmp_write" % ep)
        task = h.choice("task", ["train", "eval", "forward"])
        complete = [e for e in have_model if e in have_opt]
        usable = complete if task == "train" else have_model
        config = Config()
        opts = {"model": tmp + "/model", "num_epochs": base + n, "task": task}
        start = None
        if "start_epoch" in opt:
            start = h.choice("start_epoch", ["auto", 1, 2])
            if start != "auto":
                opts["start_epoch"] = start
            else:
                start = None
        load_epoch = None
        if "load_epoch" in opt:
            load_epoch = int(h.int("load_epoch", 1, n))
            opts["load_epoch"] = load_epoch
        imp = None
        if "import" in opt:
            imp = tmp + "/other.007"
            _touch(imp + ".pt")
            opts[h.choice("import_kind", ["import_model_train_epoch1", "load"])] = imp + ".pt"
        config.update(opts)
        existing = Engine.get_existing_models(config)
        h.check(
            existing == {e: tmp + "/model.%03d" % e for e in usable},
            "existing checkpoints: got %s, files: %s %s" % (sorted(existing), have_model, have_opt),
        )
        if load_epoch is not None:
            if load_epoch not in usable:
                h.stop()  # error
            epoch, fn = Engine.get_epoch_model(config)
            if task == "train":
                # always continues with the latest
                h.check(epoch == max(usable), "train: latest checkpoint must be used")
            else:
                h.check((epoch, fn) == (load_epoch, tmp + "/model.%03d" % load_epoch), "load_epoch not respected")
                h.cover("load_epoch")
            return
        if start is not None and start > 1 and usable and start - 1 not in usable:
            h.stop()  # error: there are checkpoints, but not the requested one
        epoch, fn = Engine.get_epoch_model(config)
        h.observe([epoch])
        if imp:
            kind = "load" if "load" in opts else "import"
            if task != "train":
                if kind == "load":
                    h.check(fn == imp, "load not respected")
                return
            if usable:
                h.check((epoch, fn) == (max(usable), tmp + "/model.%03d" % max(usable)), "existing checkpoint must be preferred over import")
            else:
                h.check(fn == imp, "import model not used")
                if kind == "import":
                    h.check(epoch == 0 and Engine.get_train_start_epoch(config) == 1, "import as epoch 0")
                h.cover("import")
            return
        if start is None:
            if usable:
                h.check((epoch, fn) == (max(usable), tmp + "/model.%03d" % max(usable)), "latest usable checkpoint must be used")
            else:
                h.check((epoch, fn) == (None, None), "no usable checkpoint, but got %s" % (epoch,))
            if task == "train":
                want = (max(usable) if usable else 0) + 1
                h.check(Engine.get_train_start_epoch(config) == want, "training must start at epoch %i" % want)
                h.cover("resume" if usable else "resume_none")
                if have_model and (not usable or max(have_model) > max(usable)):
                    h.cover("resume_opt_missing")
        elif task == "train":
            if start == 1 or not usable:
                h.check((epoch, fn) == (None, None), "start_epoch 1")
            else:
                h.check((epoch, fn) == (start - 1, tmp + "/model.%03d" % (start - 1)), "start_epoch %i" % start)
                h.check(Engine.get_train_start_epoch(config) == start, "start_epoch not respected")
            h.cover("start_epoch")
    finally:
        shutil.rmtree(tmp)


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    E = dict(engine=dict(hash_reals=False))
    for epochs in [(2, 4, 5), (1, 3, 6, 9)] + ([] if q else [(1, 2, 3, 4)]):
        for keys in [("dev_score",), ("dev_score", "dev_error")]:
            if len(keys) == 2 and len(epochs) > 3:
                continue
            for opt in [(), ("keep",), ("missing",)]:
                if q and opt and len(epochs) > 3:
                    continue
                if q and "keep" in opt and len(keys) > 1:
                    continue
                res.append(
                    Case(
                        "cleanup/%s/%s/%s" % ("_".join(map(str, epochs)), "+".join(keys), "+".join(opt)),
                        h_cleanup,
                        dict(epochs=epochs, keys=keys, opt=opt, max_keep=3 if len(epochs) == 3 and len(keys) == 1 else 2),
                        bounds="%i checkpoints, any scores, keep_last<=2, keep_best<=2" % len(epochs),
                        **E,
                    )
                )
    for last in [9, 30, 85] if q else [5, 9, 13, 30, 60, 105, 260]:
        res.append(Case("default/%i" % last, h_default_pattern, dict(last=last), bounds="%i epochs" % last, **E))
    for opt in [(), ("start_epoch",), ("load_epoch",), ("import",)]:
        n = 3 if q else 4
        if opt:
            n = 2 if q else 3
        res.append(Case("resume/" + "+".join(opt), h_resume, dict(n=n, opt=opt), bounds="%i epochs, any set of files" % n, **E))
    res.append(Case("resume_1000", h_resume, dict(n=2, opt=(), base=998), bounds="epochs 999, 1000, any set of files", **E))
    return res
