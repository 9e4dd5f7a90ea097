"""
C14: training can be interrupted at any file operation; after a restart it continues and gives the same result.
"""

import builtins
import io
import os
import re
import shutil
import tempfile
import numpy
from vf.harness import *
from vf.crashfs import CrashFS, Crash

import torch
from returnn.config import Config, global_config_ctx
from returnn.util.basic import BackendEngine
from returnn.log import log as _log
import returnn.frontend as rf
from returnn.datasets import init_dataset

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])
if BackendEngine.selected_engine is None:
    BackendEngine.select_engine(engine=BackendEngine.Torch)
from returnn.torch.engine import Engine

PROPERTY = "C14"
ASSUMPTIONS = [
    "model, data and optimizer are fixed and small; the training arithmetic runs concretely",
    "process crash: completed file operations persist in order, the write in progress may be partial",
    "torch.save/torch.load are replaced by the same functions via a Python file object (so that partial writes can be simulated)",
]
COVERS = ["crashed", "resumed_same_epoch", "resumed_later_epoch", "twice", "end", "restarted", "no_progress", "finished_all", "already_finished", "not_managed"]
TOTAL_BUDGET = {"quick": 500}

_data_rng = numpy.random.RandomState(1)
_DATA = [{"data": _data_rng.randn(n, 3).astype("float32")} for n in [2, 3, 2, 4]]


class _Model(torch.nn.Module):
    def __init__(self, **_kwargs):
        super().__init__()
        self.lin = torch.nn.Linear(3, 2)
        self.drop = torch.nn.Dropout(0.3)


def _train_step(*, model, extern_data, **_kwargs):
    x = extern_data["data"]
    y = model.lin(model.drop(x.raw_tensor))
    rf.get_run_ctx().mark_as_loss(name="l", loss=(y**2).sum(-1).mean() + y.mean())


def _torch_save(obj, f, **_kwargs):
    buf = io.BytesIO()
    _orig_torch_save(obj, buf)
    with builtins.open(f, "wb") as fh:
        fh.write(buf.getvalue())


_orig_torch_save = torch.save


def _train(tmp, num_epochs, opts, on_epoch=None):
    """one (re)start of the training"""
    config = Config(
        dict(
            task="train",
            device="cpu",
            extern_data={"data": {"dim": 3}},
            get_model=_Model,
            train_step=_train_step,
            batch_size=6,
            max_seqs=2,
            optimizer={"class": "adam"},
            learning_rate=0.1,
            num_epochs=num_epochs,
            model=tmp + "/m/model",
            learning_rate_file=tmp + "/lr",
            torch_dataloader_opts={"num_workers": 0},
            learning_rate_control="newbob_rel",
            **opts,
        )
    )
    train = init_dataset(
        {"class": "StaticDataset", "data": _DATA, "output_dim": {"data": (3, 2)}, "seq_ordering": "random", "partition_epoch": 2}
    )
    dev = init_dataset({"class": "StaticDataset", "data": _DATA[:2], "output_dim": {"data": (3, 2)}, "name": "dev"})
    with global_config_ctx(config), patched((torch, "save", _torch_save)):
        engine = Engine(config=config)
        engine.init_train_from_config(train_data=train, dev_data=dev)
        start = engine._start_epoch
        if on_epoch:
            on_epoch(start)
        engine.train()
        res = {k: v.clone() for k, v in engine._pt_model.state_dict().items()}
        step = engine.global_train_step
        hist = {
            ep: (d.learning_rate, {k: v for k, v in d.error.items()})
            for ep, d in engine.learning_rate_control.epoch_data.items()
        }
        opt_state = engine.get_pt_optimizer().state_dict()["state"]
        opt_state = {i: {k: v.clone() for k, v in d.items()} for i, d in opt_state.items()}
    return res, step, hist, opt_state


_ref = {}


def _files(tmp):
    return sorted(f for f in os.listdir(tmp + "/m") if not f.endswith(".tmp_write"))


def _get_ref(num_epochs, opts):
    """uninterrupted"""
    key = (num_epochs, str(opts))
    if key not in _ref:
        tmp = tempfile.mkdtemp(prefix="train_ref_")
        try:
            r = _train(tmp, num_epochs, opts)
            _ref[key] = r, _files(tmp)
        finally:
            shutil.rmtree(tmp)
    return _ref[key]


def _eq(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a)


def h_train(h, num_epochs, max_steps, num_crashes, opts, gracefully=False):
    """train with crashes"""
    (ref, ref_step, ref_hist, ref_opt), ref_files = _get_ref(num_epochs, opts)
    tmp = tempfile.mkdtemp(prefix="train_")
    starts = []
    try:
        for i in range(num_crashes + 1):
            fs = CrashFS(h, tmp, max_steps if i < num_crashes else 0, name="crash_at%i" % i)
            crashed = False
            complete = _complete(tmp)
            with fs:
                try:
                    res, step, hist, opt_state = _train(tmp, num_epochs, opts, starts.append)
                except Crash:
                    crashed = True
            want_start = (max(complete) if complete else 0) + 1
            if len(starts) == i + 1:
                h.check(starts[-1] == want_start, "restart at epoch %s, but complete checkpoints are: %s" % (starts[-1], complete))
            if not crashed:
                break
            h.cover("crashed")
            after = _complete(tmp)
            h.check(not complete or (after and max(after) >= max(complete)), "the last complete checkpoint got lost")
            if after and max(after) + 1 > (starts[0] if starts else 1):
                h.cover("resumed_later_epoch")
            else:
                h.cover("resumed_same_epoch")
            if i == 1:
                h.cover("twice")
        else:
            h.fail("not reached")
        h.check(_eq(res, ref), "final parameters differ from the uninterrupted training")
        h.check(step == ref_step, "global step differs: %s vs %s" % (step, ref_step))
        if starts[-1] <= num_epochs:
            h.check(
                set(opt_state) == set(ref_opt) and all(_eq(opt_state[i], ref_opt[i]) for i in ref_opt), "final optimizer state differs"
            )
        h.check(hist == ref_hist, "learning rate / score history differs: %s vs %s" % (hist, ref_hist))
        if not opts.get("cleanup_old_models"):
            missing = [f for f in ref_files if f not in _files(tmp)]
            h.check(not missing, "checkpoints missing: %s" % missing)
        h.observe([step, len(starts)] + starts)
        h.cover("end")
    finally:
        shutil.rmtree(tmp)


def _complete(tmp):
    """epochs with model and optimizer state"""
    if not os.path.isdir(tmp + "/m"):
        return []
    fs = set(os.listdir(tmp + "/m"))
    res = []
    for f in fs:
        m = re.match(r"^model\.(\d+)\.pt$", f)
        if m and "model.%s.opt.pt" % m.group(1) in fs:
            res.append(int(m.group(1)))
    return res


class _Exit(BaseException):
    pass


def h_manager(h, max_runs, max_epoch, entry):
    """process manager: restarts a failing training as long as there is progress"""
    import subprocess
    import sys
    from returnn.util import train_proc_manager as tpm

    tmp = tempfile.mkdtemp(prefix="mgr_")
    prev_env = os.environ.pop("__RETURNN_PROC_MANAGED", None)
    state = {"epoch": h.int("start", 0, max_epoch), "runs": []}
    final = h.int("final", 1, max_epoch)
    h.assume(state["epoch"] <= final)
    start = state["epoch"]
    opts = {}
    managed = True
    if entry:
        env = h.choice("env", [None, "1"])
        kind = h.choice("kind", ["default", "task", "start_epoch", "horovod", "distributed"])
        opts = {"default": {}, "task": {"task": "forward"}, "start_epoch": {"start_epoch": 1}, "horovod": {"use_horovod": True}, "distributed": {"torch_distributed": {}}}[kind]
        managed = env is None and kind == "default"
        if env:
            os.environ["__RETURNN_PROC_MANAGED"] = env

    class _Proc:
        def __init__(self, args, *_args, **_kwargs):
            i = len(state["runs"])
            h.check(list(args) == [sys.executable] + sys.argv, "started with other args: %s" % (args,))
            h.check(os.environ.get("__RETURNN_PROC_MANAGED") == "1", "child would start yet another manager")
            before = state["epoch"]
            h.check(before < final, "started again although training is finished")
            if i >= max_runs - 1:
                progress = h.int("progress%i" % i, 0, 0)
            else:
                progress = h.int("progress%i" % i, 0, max_epoch)
            state["epoch"] = before + progress
            h.assume(state["epoch"] <= final)
            code = h.int("code%i" % i, -1, 1)
            if code == 0:
                h.assume(state["epoch"] == final)  # successful only when finished
            state["runs"].append((before, state["epoch"], code))
            self._code = code
            self.returncode = None

        def wait(self, *_args, **_kwargs):
            """wait"""
            self.returncode = self._code
            return self._code

        def poll(self):
            """poll"""
            return self.wait()

        def communicate(self, *_args, **_kwargs):
            """wait"""
            self.wait()
            return None, None

        def __enter__(self):
            return self

        def __exit__(self, *_args):
            self.wait()

    def _models(*_args, **_kwargs):
        ep = int(state["epoch"])
        # anything below may be missing (cleanup)
        return {e: "m.%03i" % e for e in range(1, ep + 1) if e >= ep - 1}

    def _exit(code=None):
        state["exit"] = code
        raise _Exit()

    # noinspection PyUnusedLocal
    def _final(*_args, **_kwargs):
        return int(final)

    config = Config({"model": tmp + "/model", "num_epochs": 1, "backend": "torch", **opts})
    try:
        with patched(
            (subprocess, "Popen", _Proc),
            (sys, "exit", _exit),
            (tpm.EngineBase, "get_existing_models", staticmethod(_models)),
            (tpm.EngineBase, "config_get_final_epoch", staticmethod(_final)),
            (BackendEngine, "select_engine", staticmethod(lambda *_a, **_kw: None)),
        ):
            try:
                if entry:
                    tpm.maybe_start_train_proc_manager(config=config)
                else:
                    tpm.main_proc_manager(config=config)
                exited = False
            except _Exit:
                exited = True
    finally:
        os.environ.pop("__RETURNN_PROC_MANAGED", None)
        if prev_env is not None:
            os.environ["__RETURNN_PROC_MANAGED"] = prev_env
        shutil.rmtree(tmp)
    runs = state["runs"]
    h.check(exited == managed, "managed: %s, expected %s" % (exited, managed))
    if not managed:
        h.check(not runs, "started a process although not to be managed")
        h.cover("not_managed")
        return
    code = state["exit"]
    if not runs:
        h.check(start == final, "nothing started although not finished")
        h.check(code == 0, "exit code %s although finished" % (code,))
        h.cover("already_finished")
        return
    for before, after, _ in runs[:-1]:
        h.check(after > before, "restarted without progress")
        h.cover("restarted")
    before, after, last = runs[-1]
    h.check(s_or(after == final, after == before), "not restarted although there was progress")
    h.check(code == last, "exit code is not the one of the last run")
    h.check(s_or(after == final, code != 0), "exit code 0 but not finished")
    if after == final:
        h.cover("finished_all")
    else:
        h.cover("no_progress")
    h.observe([len(runs), code])


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []
    for name, opts in [
        ("plain", {}),
        ("save_interval", {"save_interval": 2}),
        ("cleanup", {"cleanup_old_models": {"keep_last_n": 1, "keep_best_n": 0, "keep": []}}),
        ("cleanup_opt", {"cleanup_old_models": {"keep_last_n": 2, "keep_best_n": 1, "keep": []}, "apply_cleanup_old_models_to_optim_states": True}),
    ]:
        n = 3 if not q or name != "save_interval" else 3
        res.append(
            Case(
                "train/" + name,
                h_train,
                dict(num_epochs=n, max_steps=60, num_crashes=1, opts=opts),
                bounds="%i sub-epochs, crash at any of <=60 file operations" % n,
                validate=3,
            )
        )
    res.append(
        Case(
            "train2/plain",
            h_train,
            dict(num_epochs=1 if q else 2, max_steps=9 if q else 24, num_crashes=2, opts={}),
            bounds="two crashes in a row",
            validate=2,
        )
    )
    for entry in (False, True):
        n = 2 if entry else 4 if q else 6
        res.append(
            Case(
                "manager/%s" % ("entry" if entry else "main"),
                h_manager,
                dict(max_runs=n, max_epoch=n, entry=entry),
                bounds="up to %i runs of the training process, each with any progress and exit code" % n,
            )
        )
    return res
