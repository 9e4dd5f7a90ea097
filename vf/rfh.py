"""
Helpers for harnesses on the RETURNN frontend (rf) with the PyTorch backend, with symbolic tensors.
"""

from __future__ import annotations

import contextlib
import itertools
import os
import numpy as np
from fractions import Fraction
from vf.harness import *
from vf import symx
from vf import symtorch as st
from vf.symtorch import v_add, v_sub, v_mul, v_div, v_max, v_min, v_uf, v_ite, v_neg, close

import torch
from returnn.util.basic import BackendEngine, BehaviorVersion
from returnn.log import log as _log

if not getattr(_log, "v4", None):
    _log.initialize(verbosity=[1])
if BackendEngine.selected_engine is None:
    BackendEngine.select_engine(engine=BackendEngine.Torch)
import returnn.frontend as rf
from returnn.tensor import Tensor, Dim, batch_dim

rf.select_backend_torch()
BehaviorVersion.set_min_behavior_version(BehaviorVersion._latest_behavior_version)
rf.init_train_step_run_ctx(train_flag=False, step=0, epoch=1)
torch.set_grad_enabled(False)
torch.set_num_threads(1)
torch._C._set_mkldnn_enabled(False)  # crashes with some conv parameters

# The native code gets initialized for the tensor type with the first op on a normal tensor.
_warmup = Tensor("x", [Dim(1, name="x")], dtype="float32", raw_tensor=torch.zeros(1))
assert (_warmup * 1.5 + _warmup).raw_tensor.shape == (1,)

_DT = {"float32": torch.float32, "int32": torch.int32, "int64": torch.int64, "bool": torch.bool}


def _reset_caches():
    """each run starts with empty caches (no values of another run)"""
    from returnn.frontend import _cache

    import sys as _sys

    for name, mod in list(_sys.modules.items()):
        if name.startswith("returnn.frontend"):
            for v in list(vars(mod).values()):
                if isinstance(v, _cache.Cache):
                    v.__init__(128)


class R:
    """one run"""

    def __init__(self, h):
        self.h = h
        st.NUMERIC = not h.symbolic
        st.CANON = True
        _reset_caches()
        st.set_factory_mode(h.symbolic)
        torch.set_grad_enabled(False)
        self._n = 0

    # --- dims

    def sdim(self, n, name):
        """static dim"""
        return Dim(n, name=name)

    def tdim(self, bdims, hi, lo=1, name="time", fork=False):
        """
        dynamic dim, one symbolic length per entry.
        :param list[Dim] bdims:
        """
        shape = [d.dimension for d in bdims]
        n = int(np.prod(shape)) if shape else 1
        lens = self.h.ints("len_" + name, n, lo, hi)
        if fork:  # split over all combinations of lengths now, instead of later
            lens = [int(x) for x in lens]
        return self.dim_of(bdims, lens, name)

    def dim_of(self, bdims, lens, name):
        """dynamic dim with given lens"""
        shape = [d.dimension for d in bdims]
        a = np.array(lens, dtype=object).reshape(shape)
        raw = st.sym_tensor(a, torch.int32) if self.h.symbolic else st.make_tensor(a, torch.int32)
        d = Dim(Tensor(name + "_len", bdims, dtype="int32", raw_tensor=raw), name=name)
        return d

    def size(self, dim) -> int:
        """size of the axis in the raw tensor. forks over the longest length"""
        return int(dim.get_dim_value())

    def lens(self, dim, env=None):
        """:return: length for the batch entry given by env (dim -> index), forks"""
        if dim.dimension is not None:
            return dim.dimension
        t = dim.get_dyn_size_ext_for_device("cpu")
        if t is None:
            t = dim.dyn_size_ext
        a = st.values(t.raw_tensor)
        return int(a[tuple(env[d] for d in t.dims)])

    # --- tensors

    def tensor(self, name, dims, dtype="float32", lo=-8, hi=8, sparse_dim=None, feature_dim=None):
        """symbolic tensor. all elements are free, also the padded ones"""
        shape = [self.size(d) for d in dims]
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            n = "%s_%s" % (name, "_".join(map(str, idx)))
            if dtype == "float32":
                a[idx] = self.h.real(n, lo, hi)
            elif dtype == "bool":
                a[idx] = self.h.bool(n)
            else:
                a[idx] = self.h.int(n, lo, hi)
        return self.tensor_of(name, dims, a, dtype, sparse_dim, feature_dim)

    def tensor_of(self, name, dims, a, dtype="float32", sparse_dim=None, feature_dim=None):
        """tensor with given values"""
        shape = [self.size(d) for d in dims]
        raw = st.make_tensor(np.array(a, dtype=object).reshape(shape), _DT[dtype])
        kw = {}
        if feature_dim is not None:
            kw["feature_dim"] = feature_dim
        return Tensor(name, dims, dtype=dtype, raw_tensor=raw, sparse_dim=sparse_dim, **kw)

    @staticmethod
    def get(t, env):
        """element of t"""
        if not isinstance(t, Tensor):
            return t
        a = st.values(t.raw_tensor)
        return a[tuple(env[d] for d in t.dims)]

    @staticmethod
    def arr(t):
        """raw values"""
        return st.values(t.raw_tensor)

    # --- checks

    def envs(self, dims):
        """all index combinations over the valid frames"""
        static = [d for d in dims if d.dimension is not None]
        dyn = [d for d in dims if d.dimension is None]
        res = []
        for idx in itertools.product(*[range(d.dimension) for d in static]):
            env0 = dict(zip(static, idx))
            cur = [env0]
            for d in dyn:
                nxt = []
                for e in cur:
                    for i in range(self.lens(d, e)):
                        nxt.append({**e, d: i})
                cur = nxt
            res += cur
        return res

    def check_tensor(self, t, dims, expect, msg, raw=False):
        """
        :param Tensor t:
        :param list[Dim]|set[Dim] dims: exact set of expected dims
        :param expect: func(env) -> value
        """
        h = self.h
        h.check(set(t.dims) == set(dims) and len(t.dims) == len(dims), "%s: dims %s, expected %s" % (msg, t.dims, list(dims)))
        shape = tuple(t.raw_tensor.shape)
        conds = []
        for ax, d in enumerate(t.dims):
            h.check(shape[ax] == self.size(d), "%s: raw shape %s does not match dims %s" % (msg, shape, t.dims))
        for env in self.envs(t.dims):
            v = self.get(t, env)
            e = expect(env)
            if e is None:
                continue
            conds.append(close(h, v, e))
        h.observe(list(shape))
        h.check_all(conds, msg)

    def check_len(self, dim, bdims, expect, msg):
        """length of dim, for each batch entry"""
        conds = []
        for idx in itertools.product(*[range(d.dimension) for d in bdims]):
            env = dict(zip(bdims, idx))
            e = expect(env)
            conds.append(self.lens(dim, env) == e)
        self.h.check_all(conds, msg)
        if dim.dimension is None:
            self.h.check(
                self.size(dim) >= max([self.lens(dim, dict(zip(bdims, idx))) for idx in itertools.product(*[range(d.dimension) for d in bdims])] or [0]),
                msg + ": axis size",
            )


def perms(dims, h, name="perm"):
    """symbolic choice of the dim order"""
    ps = list(itertools.permutations(dims))
    return list(ps[h.choice(name, list(range(len(ps))))]) if len(ps) > 1 else list(dims)


def lsum(xs):
    """sum"""
    r = Fraction(0)
    for x in xs:
        r = v_add(r, x)
    return r


def lmax(xs):
    """max"""
    r = None
    for x in xs:
        r = x if r is None else v_max(r, x)
    return r


def lmin(xs):
    """min"""
    r = None
    for x in xs:
        r = x if r is None else v_min(r, x)
    return r


def lmean(xs):
    """mean"""
    return v_div(lsum(xs), Fraction(len(xs)))


def exp(x):
    """exp"""
    return v_uf("exp")(x if symx.is_sym(x) else st.norm(x, "f"))


def log(x):
    """log"""
    return v_uf("log")(x if symx.is_sym(x) else st.norm(x, "f"))


def sqrt(x):
    """sqrt"""
    return v_uf("sqrt")(x if symx.is_sym(x) else st.norm(x, "f"))


def rsqrt(x):
    """1 / sqrt"""
    return v_uf("rsqrt")(x if symx.is_sym(x) else st.norm(x, "f"))


def lse(xs):
    """log sum exp"""
    xs = list(xs)
    if len(xs) == 1:
        return xs[0]
    return log(lsum([exp(x) for x in xs]))


def lsoftmax(xs):
    """softmax"""
    es = [exp(x) for x in xs]
    s = lsum(es)
    return [st.v_div_pos(e, s) for e in es]
