"""
C31: model loading: every parameter gets its value from exactly the configured source.
"""

import os
import shutil
import tempfile
from vf.harness import *
from vf import symx

import torch
from returnn.config import Config, global_config_ctx
from returnn.util.basic import BackendEngine
from returnn.log import log as _log
from returnn.tensor import Dim
import returnn.frontend as rf

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])
if BackendEngine.selected_engine is None:
    BackendEngine.select_engine(engine=BackendEngine.Torch)
import returnn.torch.engine as engine_mod
from returnn.torch.engine import Engine
import returnn.torch.updater as updater_mod
from returnn.torch.updater import Updater

engine_mod.print = lambda *args, **kwargs: None

PROPERTY = "C31"
ASSUMPTIONS = [
    "each stored value is a number which identifies its source (checkpoint and key); the code only copies them",
    "checkpoints are written and read with the real torch.save and torch.load; epoch and step in them are symbolic (replaced after torch.load)",
    "which keys exist in which checkpoint and the options are solver-chosen and split",
]
COVERS = ["end", "missing", "random_init", "main", "preloaded", "override", "first_wins", "inactive", "always", "no_match", "pattern", "not_critical", "saved", "optim", "optim_error"]

_KEYS = ["enc.w", "enc.b", "dec.w", "dec.s"]  # dec.s: auxiliary, i.e. buffer
_dim = Dim(1, name="one")


class _Sub(rf.Module):
    pass


class _Value:
    def __init__(self, _typecode, value=None):
        self.value = value

    def get(self):
        """get"""
        return self.value

    def set(self, value):
        """set"""
        self.value = value


class _Manager:
    """instead of a manager process. there are no worker processes here"""

    Value = _Value

    def shutdown(self):
        """shutdown"""


def _rf_model(init, non_critical=()):
    net = rf.Module()
    for k in init:
        sub, name = k.split(".")
        if not hasattr(net, sub):
            setattr(net, sub, _Sub())
        p = rf.Parameter([_dim], dtype="float32", auxiliary=name == "s")
        p.initial = float(init[k])
        if k in non_critical:
            p.non_critical_for_restore = True
        setattr(getattr(net, sub), name, p)
    return net


def _pt_model(init, non_critical=()):
    net = torch.nn.Module()
    for k in init:
        sub, name = k.split(".")
        if not hasattr(net, sub):
            setattr(net, sub, torch.nn.Module())
        v = torch.tensor([float(init[k])])
        if name == "s":
            getattr(net, sub).register_buffer(name, v)
        else:
            setattr(getattr(net, sub), name, torch.nn.Parameter(v))
    return net


class Env:
    """scratch dir with checkpoints"""

    def __init__(self, h, kind="rf", keys=None, non_critical=()):
        self.h = h
        self.kind = kind
        self.dir = tempfile.mkdtemp(prefix="load_")
        self.ids = 0
        self.init = {k: self.new_id() for k in keys or _KEYS}
        self.non_critical = non_critical
        self.counters = {}  # path -> epoch, step
        self.seeds = []

    def new_id(self):
        """unique value"""
        self.ids += 1
        return self.ids

    def write(self, path, keys, *, key="model", counters=None):
        """
        :param key: None: the file is the state dict
        :return: key -> value
        """
        res = {k: self.new_id() for k in keys}
        state = {k: torch.tensor([float(v)]) for k, v in res.items()}
        path = self.dir + "/" + path
        if key is not None:
            state = {key: state}
        if counters:
            self.counters[path] = counters
            state.update({"epoch": 0, "step": 0} if self.h.symbolic else {"epoch": counters[0], "step": counters[1]})
        torch.save(state, path)
        if path.startswith(self.dir + "/model."):
            torch.save({}, path[:-2] + "opt.pt")  # without it, not complete for training
        return res

    def _load(self, path, *args, **kwargs):
        res = _orig_load(path, *args, **kwargs)
        c = self.counters.get(os.fspath(path))
        if c:
            res["epoch"], res["step"] = c
        return res

    def save(self, state, path, *args, **kwargs):
        """torch.save, but symbolic numbers are kept aside"""
        if any(symx.is_sym(v) for v in state.values()):
            path_ = os.fspath(path)
            self.counters[path_[: -len(".tmp_write")] if path_.endswith(".tmp_write") else path_] = (state["epoch"], state["step"])
            state = {k: 0 if symx.is_sym(v) else v for k, v in state.items()}
        _orig_save(state, path, *args, **kwargs)

    def engine(self, task, **opts):
        """:return: engine (model loaded), exception"""
        model = _rf_model if self.kind == "rf" else _pt_model
        config = Config(
            dict(
                task=task,
                device="cpu",
                model=self.dir + "/model",
                extern_data={"data": {"dim": 1}},
                get_model=lambda **_kw: model(self.init, self.non_critical),
                train_step=lambda **_kw: None,
                num_epochs=9,
                log_verbosity=1,
                **opts,
            )
        )
        exc = None
        with global_config_ctx(config), patched(
            (torch, "load", self._load), (torch.multiprocessing, "Manager", _Manager), (rf, "set_random_seed", self.seeds.append), (engine_mod.gc, "collect", lambda *_a: 0)
        ):
            engine = Engine(config=config)
            if task == "train":
                engine._start_epoch = engine.get_train_start_epoch(config)
            try:
                engine.init_network_from_config(config)
            except Exception as e:
                exc = e
                if symx.is_sym(e) or type(e).__module__.startswith("vf"):
                    raise
        self.config = config
        return engine, exc

    def close(self):
        """cleanup"""
        shutil.rmtree(self.dir, ignore_errors=True)


_orig_load = torch.load
_orig_save = torch.save


def _value(module, key):
    for k in key.split("."):
        module = getattr(module, k)
    t = getattr(module, "raw_tensor", module)
    return int(t.detach().reshape(-1)[0].item())


def _active(init_for_train, task, first):
    """is this preload entry used"""
    if init_for_train == "always":
        return True
    if init_for_train:
        return first
    return task != "train"


def _oracle(env, entries, main, task, first):
    """
    :param entries: list of (opts, state: model key -> value), in the order of their names
    :param main: model key -> value, or None
    :return: values or None for error, set of always keys
    """
    keys = list(env.init)
    act = [(o, s) for o, s in entries if _active(o.get("init_for_train", False), task, first)]
    values = dict(env.init)
    loaded = set()
    if main is not None:
        for k in keys:
            if k in main:
                values[k] = main[k]
                loaded.add(k)
    always = set()
    for o, s in reversed(act):
        for k in keys:
            if k in s:
                values[k] = s[k]
                loaded.add(k)
                if o.get("init_for_train") == "always":
                    always.add(k)
    error = False
    for k in keys:
        if k in loaded or k in env.non_critical:
            continue
        if main is not None:
            error = True
        for o, s in act:
            if k.startswith(o.get("prefix", "")) and not o.get("ignore_missing", False):
                error = True
    for o, s in act:
        if not any(k in s and k.startswith(o.get("prefix", "")) for k in keys):
            error = True
            env.h.cover("no_match")
    return (None if error else values), always


def _check(env, engine, exc, entries, main, task, first):
    h = env.h
    values, always = _oracle(env, entries, main, task, first)
    if values is None:
        h.check(exc is not None, "a parameter which is in none of the checkpoints was silently left at its random initialization")
        h.cover("missing")
        return False
    h.check(exc is None, "unexpected error: %s" % (exc,))
    for model in (engine._orig_model, engine._pt_model):
        got = {k: _value(model, k) for k in env.init}
        h.check(got == values, "parameters loaded from the wrong source: %s, expected %s (ids, initial %s)" % (got, values, env.init))
    state = engine._pt_model.state_dict()
    h.check(set(state) == set(env.init) - always, "parameters in own checkpoint: %s" % sorted(state))
    params = {k for k, _ in engine._pt_model.named_parameters()}
    want = {k for k in env.init if not k.endswith(".s")} - always
    h.check(params == want, "trainable parameters: %s, expected %s" % (params, want))
    if always:
        h.cover("always")
    h.observe([values[k] for k in sorted(values)])
    return True


def h_main(h, how, task):
    """own checkpoint"""
    noncrit = ["dec.w"] if h.choice("noncrit", [0, 1]) else []
    env = Env(h, non_critical=noncrit)
    try:
        present = [k for k in _KEYS if bool(h.bool("has_" + k))] + (["other.x"] if h.choice("extra", [0, 1]) else [])
        wrap = "model" if how != "load" or h.choice("wrap", [0, 1]) else None
        ep, step = h.int("epoch", 1, 1000), h.int("step", 0, 10**6)
        counters = (ep, step) if wrap else None
        name = {"model": "model.003.pt", "load": "some.pt", "load_epoch": "some.007.pt", "import": "some.pt"}[how]
        main = env.write(name, present, key=wrap, counters=counters)
        opts = {}
        if how in ("load", "load_epoch"):
            opts["load"] = env.dir + "/" + name
        elif how == "import":
            opts["import_model_train_epoch1"] = env.dir + "/" + name
        engine, exc = env.engine(task, **opts)
        if noncrit and values_missing(main, noncrit):
            h.cover("not_critical")
        if not _check(env, engine, exc, [], main, task, False):
            return
        h.cover("main")
        epoch = {"model": 3, "load": ep if wrap else 1, "load_epoch": 7, "import": 0}[how]
        last = step if wrap else 1
        h.check(len(env.seeds) == 1, "random seed set once for the model creation")
        seed = (epoch * 193939 + (last - 1) * 19937 + 42 * 27644437 + 479001599) % (2**31)
        h.check(env.seeds[0] == seed, "random seed of the model creation depends on epoch and step of the checkpoint")
        if task == "train":
            h.check(engine.epoch == epoch + 1, "training continues with the next epoch")
            h.check(engine.global_train_step == last, "training continues with the step after the last one")
        else:
            h.check(engine.epoch == epoch, "epoch of the loaded model")
            h.check(engine.global_train_step == last - 1, "step of the loaded model")
        h.cover("end")
    finally:
        env.close()


def values_missing(main, keys):
    """some key is missing"""
    return any(k not in main for k in keys)


def _entry(h, env, name, fn, *, prefixes=("", "enc.", "dec."), init_for_train=False, ignores=("", "params", "prefixes", "map", "move", "ckpt_key", "plain"), bools=("w", "b", "x")):
    """:return: opts, state"""
    prefix = h.choice(name + "_prefix", list(prefixes))
    base = {"w": "w" if prefix else "enc.w", "b": "b" if prefix == "enc." else "s" if prefix else "enc.b", "x": "x" if prefix else "dec.w"}
    keys = [base[b] for b in bools if bool(h.bool("%s_has_%s" % (name, b)))]
    opts = {"filename": env.dir + "/" + fn, "init_for_train": init_for_train}
    if prefix:
        opts["prefix"] = prefix
    if h.choice(name + "_ignore_missing", [0, 1]):
        opts["ignore_missing"] = True
    kind = h.choice(name + "_opt", list(ignores))
    key = "model"
    target = prefix + "w" if prefix else "dec.s"
    if kind == "map":
        keys.append("old")
        opts["var_name_mapping"] = {target: prefix + "old"}
    elif kind == "move":  # another parameter of the model has the name
        if base["b"] not in keys:
            keys.append(base["b"])
        opts["var_name_mapping"] = {target: prefix + base["b"]}
    elif kind == "ckpt_key":
        key = opts["checkpoint_key"] = "params"
    elif kind == "plain":
        key = opts["checkpoint_key"] = None
    stored = env.write(fn, keys, key=key)
    state = {prefix + k: v for k, v in stored.items()}
    if kind == "params":
        opts["ignore_params"] = [prefix + base["b"]]
        state.pop(prefix + base["b"], None)
    elif kind == "prefixes":
        opts["ignore_params_prefixes"] = [prefix + base["w"], "nothing"]
        state.pop(prefix + base["w"], None)
    elif kind == "map":
        state[target] = state.pop(prefix + "old")
    elif kind == "move":
        state[target] = state.pop(prefix + base["b"])
    return opts, state


def h_one(h, task, init_for_train, main_kind, kind="rf", non_critical=()):
    """one preload entry"""
    env = Env(h, kind=kind, non_critical=non_critical)
    try:
        kw = {} if main_kind != "partial" else dict(ignores=["", "params"])
        entry = _entry(h, env, "p", "pre.pt", init_for_train=init_for_train, **kw)
        main = None
        if main_kind == "full":
            main = env.write("model.002.pt", _KEYS, counters=(2, 5))
        elif main_kind == "partial":
            main = env.write("model.002.pt", [k for k in _KEYS if k in ("enc.w", "dec.w") or bool(h.bool("has_" + k))], counters=(2, 5))
        more = {}
        if main_kind == "import":
            main = env.write("some.pt", _KEYS, counters=(2, 5))
            more["import_model_train_epoch1"] = env.dir + "/some.pt"
        first = main_kind in ("none", "import") and task in ("train", "initialize_model")
        engine, exc = env.engine(task, preload_from_files={"p": entry[0]}, **more)
        if not _check(env, engine, exc, [entry], main, task, first):
            return
        act = _active(init_for_train, task, first)
        if not act:
            h.cover("inactive")
            if main is None:
                h.cover("random_init")
        else:
            h.cover("preloaded")
            if main is not None and set(main) & set(entry[1]):
                h.cover("override")
        h.cover("end")
    finally:
        env.close()


def h_multi(h, task, init_for_train, main_kind, n):
    """several preload entries: the first by name wins"""
    env = Env(h)
    try:
        entries = [
            _entry(
                h, env, "p%i" % i, "pre%i.pt" % i, init_for_train=init_for_train[i], ignores=("",), prefixes=("", "enc.") if n == 2 else ("",),
                bools=("w", "b", "x") if n == 2 else ("w", "b"),
            )
            for i in range(n)
        ]
        main = env.write("model.002.pt", ["enc.b", "dec.w", "dec.s"], counters=(2, 5)) if main_kind else None
        first = main is None and task in ("train", "initialize_model")
        order = list(range(n))
        if h.choice("order", [0, 1]):
            order.reverse()
        engine, exc = env.engine(task, preload_from_files={"p%i" % i: entries[i][0] for i in order})
        if not _check(env, engine, exc, entries, main, task, first):
            return
        act = [s for o, s in entries if _active(o["init_for_train"], task, first)]
        if len(act) >= 2 and set(act[0]) & set(act[1]):
            h.cover("first_wins")
        h.cover("end")
    finally:
        env.close()


def h_pattern(h, task):
    """allow random initialization for a pattern"""
    env = Env(h)
    try:
        main = env.write("model.002.pt", [k for k in _KEYS if bool(h.bool("has_" + k))], counters=(2, 5))
        pat = h.choice("pattern", ["enc.*", "*.w", "dec.s", "enc", "*", "???.w"])
        init_for_train = h.choice("init_for_train", ["always", False, True])
        engine, exc = env.engine(task, preload_from_files={"p": {"filename": None, "pattern": pat, "init_for_train": init_for_train}})
        if _active(init_for_train, task, False):
            match = {"enc.*": ["enc.w", "enc.b"], "*.w": ["enc.w", "dec.w"], "dec.s": ["dec.s"], "enc": [], "*": _KEYS, "???.w": ["enc.w", "dec.w"]}[pat]
            h.cover("pattern")
        else:
            match = []
        env.non_critical = match
        if not _check(env, engine, exc, [], main, task, False):
            return
        h.cover("end")
    finally:
        env.close()


def h_save(h, always, kind):
    """load, save, load again"""
    env = Env(h, kind=kind)
    try:
        entry = _entry(h, env, "p", "pre.pt", init_for_train="always" if always else True, ignores=("",))
        opts = dict(preload_from_files={"p": entry[0]})
        engine, exc = env.engine("train", **opts)
        if not _check(env, engine, exc, [entry], None, "train", True):
            return
        values, _ = _oracle(env, [entry], None, "train", True)
        h.check(engine.epoch == 1 and engine.global_train_step == 0, "start of the training")
        # Train one epoch. All trainable params change.
        new = dict(values)
        for k, p in engine._pt_model.named_parameters():
            new[k] = env.new_id()
            with torch.no_grad():
                p.fill_(float(new[k]))
        step = h.int("step", 0, 1000)
        engine.global_train_step = step
        with global_config_ctx(env.config), patched((torch, "save", env.save)):
            engine._save_model()
        torch.save({}, env.dir + "/model.001.opt.pt")
        env.init = {k: env.new_id() for k in env.init}  # other random init
        engine2, exc = env.engine("train", **opts)
        h.check(exc is None, "own checkpoint can not be loaded: %s" % exc)
        got = {k: _value(engine2._pt_model, k) for k in env.init}
        h.check(got == new, "after save and load: %s, expected %s" % (got, new))
        h.check(engine2.epoch == 2 and engine2.global_train_step == step, "epoch and step after save and load")
        h.cover("saved")
        h.cover("end")
    finally:
        env.close()


_PARAMS = ["m1.weight", "m2.weight", "m2.bias"]


def _optim(h, net_params, frozen, wd):
    """:return: params, updater"""
    net = torch.nn.Module()
    params = {}
    for k in net_params:
        sub, name = k.split(".")
        if not hasattr(net, sub):
            setattr(net, sub, torch.nn.Module())
        params[k] = torch.nn.Parameter(torch.zeros(1), requires_grad=k not in frozen)
        setattr(getattr(net, sub), name, params[k])
    opts = {"class": "sgd", "momentum": 0.5}
    if wd:
        opts["weight_decay"] = 0.125
    u = Updater(config=Config(dict(optimizer=opts)), network=net, device="cpu", initial_learning_rate=1.0)
    u.create_optimizer()
    return params, u


def h_optim(h, perms, wd, frozen_keys):
    """the state of the optimizer, by parameter name"""
    tmp = tempfile.mkdtemp(prefix="load_")
    try:
        names1 = [k for k in _PARAMS if bool(h.bool("first_" + k))]
        names2 = [k for k in _PARAMS if bool(h.bool("second_" + k))]
        frozen = [k for k in frozen_keys if k in names2 and bool(h.bool("frozen_" + k))]
        if not names1 or not names2:
            return
        perm = h.choice("order", perms)
        names2 = [names2[i] for i in perm if i < len(names2)]
        wd2 = wd if not h.choice("other_wd", [0, 1]) else not wd
        params1, u1 = _optim(h, names1, [], wd)
        ids, i = {}, 0
        for i, (k, p) in enumerate(params1.items()):
            if i and bool(h.bool("unused_" + k)):
                continue  # no gradient, so no state
            ids[k] = float(2 * i + 2)
            p.grad = torch.full((1,), ids[k])
        u1.set_current_train_step(global_train_step=3, epoch=1)
        u1.step()
        u1.save_optimizer(tmp + "/x.opt.pt")
        params2, u2 = _optim(h, names2, frozen, wd2)
        exc = None
        with patched((updater_mod.gc, "collect", lambda *_a: 0)):
            try:
                u2.load_optimizer(tmp + "/x.opt.pt")
            except Exception as e:
                if symx.is_sym(e) or type(e).__module__.startswith("vf"):
                    raise
                exc = e
        new = [k for k in names2 if k not in names1 and k not in frozen]
        if new or wd != wd2:
            h.check(exc is not None, "no optimizer state for %s, or other groups, but no error" % new)
            h.cover("optim_error")
            return
        h.check(exc is None, "unexpected error: %s" % exc)
        for p in params2.values():
            p.grad = torch.zeros(1) if p.requires_grad else None
        u2.step()
        for k, p in params2.items():
            if k in frozen:
                want = 0.0
            else:
                want = -0.5 * ids.get(k, 0.0)
            h.check(float(p.detach()[0]) == want, "parameter %s continues with the optimizer state of another one: %s, expected %s" % (k, float(p.detach()[0]), want))
        # The state of frozen parameters is kept as well.
        u2.save_optimizer(tmp + "/y.opt.pt")
        state = torch.load(tmp + "/y.opt.pt")
        got = {k: float(state["optimizer"]["state"][i]["momentum_buffer"][0]) for i, k in enumerate(state["param_names"]) if k in frozen and i in state["optimizer"]["state"]}
        h.check(got == {k: ids[k] for k in frozen if k in ids}, "optimizer state of frozen parameters")
        h.cover("optim", bool(ids))
        h.cover("end")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cases(tier):
    """cases"""
    big = tier == "thorough"
    res = []
    for how in ["model", "load", "load_epoch", "import"]:
        for task in ["train", "forward"] + (["eval"] if big else []):
            if how == "import" and task != "train" or how == "load" and task == "train":
                continue
            res.append(
                Case("main/%s/%s" % (how, task), h_main, dict(how=how, task=task), bounds="4 parameters, each in the checkpoint or not; epoch <= 1000, step <= 10^6 symbolic")
            )
    for task in ["train", "forward", "initialize_model"]:
        for ift in [False, True, "always"]:
            for main_kind in ["none", "full", "partial"]:
                if main_kind == "partial" and (task == "initialize_model" or (not big and ift is True)):
                    continue
                res.append(
                    Case(
                        "one/%s/%s/%s" % (task, ift, main_kind),
                        h_one,
                        dict(task=task, init_for_train=ift, main_kind=main_kind),
                        bounds="one preload entry: 3 keys each there or not, prefix, ignore_missing, ignore/mapping/checkpoint_key options",
                    )
                )
    for ift in [False, True, "always"]:
        res.append(
            Case(
                "one/train/%s/import" % ift, h_one, dict(task="train", init_for_train=ift, main_kind="import"), bounds="one preload entry together with import_model_train_epoch1"
            )
        )
    for task, main_kind in [("train", "none"), ("train", "partial"), ("forward", "partial")]:
        res.append(
            Case(
                "one_nc/%s/%s" % (task, main_kind),
                h_one,
                dict(task=task, init_for_train="always", main_kind=main_kind, non_critical=["enc.b", "dec.s"]),
                bounds="one preload entry, two parameters non_critical_for_restore",
            )
        )
    for ift in ["always", True]:
        res.append(
            Case("one_pt/%s" % ift, h_one, dict(task="train", init_for_train=ift, main_kind="none", kind="pt"), bounds="plain PyTorch module with a buffer")
        )
    for task in ["train", "forward"]:
        for i, ift in enumerate([(True, True), ("always", True), (True, "always"), (False, "always")]):
            for m in [0, 1]:
                res.append(Case("multi/%s/%i/%i" % (task, i, m), h_multi, dict(task=task, init_for_train=ift, main_kind=m, n=2), bounds="two preload entries"))
    res.append(Case("multi3/forward", h_multi, dict(task="forward", init_for_train=(False, False, "always"), main_kind=0, n=3), bounds="three preload entries"))
    for task in ["train", "forward"]:
        res.append(Case("pattern/%s" % task, h_pattern, dict(task=task), bounds="random initialization by pattern"))
    for always in [0, 1]:
        for kind in ["rf", "pt"]:
            res.append(Case("save/%i/%s" % (always, kind), h_save, dict(always=always, kind=kind), bounds="save and load again, step symbolic"))
    for wd in [False, True]:
        for i, perm in enumerate([(0, 1, 2), (2, 1, 0), (1, 2, 0), (1, 0, 2), (2, 0, 1), (0, 2, 1)]):
            res.append(
                Case(
                    "optim/%s/%i" % ("wd" if wd else "plain", i),
                    h_optim,
                    dict(wd=wd, perms=[perm], frozen_keys=["m2.weight", "m2.bias"] if not big else _PARAMS),
                    bounds="optimizer state: 3 parameters, each in the old and new model or not, frozen or not, any order",
                )
            )
    return res
