"""
Helpers: the PyTorch engine (train, eval, forward) on symbolic tensors.

The dataset is a real RETURNN dataset with concrete float ids as data (one unique id per element).
When a batch is converted to PyTorch tensors (``torch.tensor`` in collate_batch), the ids become symbolic values.
"""

from __future__ import annotations

from vf.rfh import *
import gc
import math
import tempfile
import returnn.torch.engine as engine_mod
from returnn.torch.engine import Engine
from returnn.config import Config, global_config_ctx
from returnn.datasets import init_dataset
from returnn.torch.data import pipeline as pipeline_mod
from returnn.torch.data import extern_data as extern_data_mod
from returnn.util.basic import NumbersDict

import returnn.torch.updater as updater_mod

updater_mod.print = lambda *args, **kwargs: None
engine_mod.print = lambda *args, **kwargs: None  # no log (formatting of symbolic numbers)


class _Value:
    def __init__(self, _typecode, value=None):
        self.value = value

    def get(self):
        """get"""
        return self.value

    def set(self, value):
        """set"""
        self.value = value


class _Manager:
    """instead of a manager process. there are no worker processes here"""

    Value = _Value

    def shutdown(self):
        """shutdown"""


gc.collect()
gc.freeze()


class SymNd(np.ndarray):
    """object array with symbolic values, which claims to have the dtype of the original tensor"""

    _fake = None

    def __array_finalize__(self, obj):
        self._fake = getattr(obj, "_fake", None)

    @property
    def dtype(self):
        """dtype"""
        return self._fake or np.dtype("O")


def _numpy(t, *_args, **_kwargs):
    r = t._a.view(SymNd)
    r._fake = np.dtype(str(t.dtype).split(".")[-1])
    return r


class _TorchProxy:
    """the torch module, except tensor() and the like"""

    def __init__(self, tensor):
        self.tensor = tensor
        self.as_tensor = tensor
        self.from_numpy = tensor

    def __getattr__(self, item):
        return getattr(torch, item)


class Data:
    """
    dataset with symbolic content
    """

    def __init__(self, h, lens, feat=1, lo=-4, hi=4, labels=None, prefix="x"):
        """
        :param list[int] lens: one per seq
        :param labels: list of label lists per seq, for "classes"
        """
        self.h = h
        self.mapped = False
        self.vals = {}  # id -> value
        self.lens = lens
        self.ids = []
        n = 0
        for i, ln in enumerate(lens):
            a = np.zeros((ln, feat), dtype="float32")
            for idx in np.ndindex(ln, feat):
                n += 1
                a[idx] = n
                self.vals[n] = h.real("%s%i_%s" % (prefix, i, "_".join(map(str, idx))), lo, hi)
            self.ids.append(a)
        self.labels = labels
        self.feat = feat

    def value(self, i, t, f=0):
        """element"""
        return self.vals[int(self.ids[i][t, f])]

    def dataset(self, subset=None, **kw):
        """real dataset"""
        subset = list(range(len(self.ids)) if subset is None else subset)
        data = [{"data": self.ids[i]} for i in subset]
        output_dim = {"data": (self.feat, 2)}
        if self.labels is not None:
            for d, ls in zip(data, [self.labels[i] for i in subset]):
                d["classes"] = np.array(ls, dtype="int32")
            output_dim["classes"] = (10, 1)
        return init_dataset({"class": "StaticDataset", "data": data, "output_dim": output_dim, **kw})

    def tensor(self, a, **kw):
        """replaces torch.tensor in the pipeline"""
        if isinstance(a, np.ndarray) and a.dtype == np.float32 and a.ndim == 2:
            self.mapped = True
            r = np.empty(a.shape, dtype=object)
            for idx in np.ndindex(*a.shape):
                r[idx] = self.vals[int(a[idx])]
            return st.sym_tensor(r, torch.float32) if self.h.symbolic else st.make_tensor(r, torch.float32)
        return torch.tensor(a, **kw)


    def map_raw(self, raw):
        """in case the ids were not replaced yet in the pipeline"""
        if self.mapped:
            return raw
        if isinstance(raw, torch.Tensor) and raw.dtype == torch.float32 and raw.ndim == 3:
            a = raw.numpy()
            r = np.empty(a.shape, dtype=object)
            for idx in np.ndindex(*a.shape):
                v = float(a[idx])
                if not v.is_integer() or not (int(v) in self.vals or v == 0):
                    return raw
                r[idx] = self.vals[int(v)] if v else Fraction(0)
            return st.make_tensor(r, torch.float32)
        return raw


@contextlib.contextmanager
def symbolic_engine(h, datas, extra=()):
    """context for running the engine. data: all :class:`Data` with ids which can occur"""
    R(h)
    st.RATIONALIZE = True
    torch.set_grad_enabled(True)

    def _tensor(a, **kw):
        return datas.tensor(a, **kw)

    orig_to_extern_data = extern_data_mod.raw_dict_to_extern_data

    def _raw_dict_to_extern_data(raw, *args, **kwargs):
        raw = {k: datas.map_raw(v) for k, v in raw.items()}
        return orig_to_extern_data(raw, *args, **kwargs)

    patches = [
        (extern_data_mod, "raw_dict_to_extern_data", _raw_dict_to_extern_data),
        (pipeline_mod, "torch", _TorchProxy(_tensor)),
        (engine_mod, "float", SymFloat),
        (st.SymTensor, "numpy", _numpy),
        (torch.multiprocessing, "Manager", _Manager),
        (gc, "collect", lambda *_args: 0),
        (engine_mod, "_format_score_value", lambda v: "?"),
        (symx._SymNum, "__repr__", lambda self: "<sym>"),
        (symx._SymNum, "__str__", lambda self: "<sym>"),
        (symx._SymNum, "__format__", lambda self, _spec: "<sym>"),
        *extra,
    ]
    try:
        with patched(*patches):
            yield
    finally:
        torch.set_grad_enabled(False)


def make_config(config):
    """config"""
    return Config(
        dict(
            device="cpu",
            torch_dataloader_opts={"num_workers": 0},
            log_verbosity=1,
            **config,
        )
    )
