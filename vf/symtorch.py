"""
Symbolic PyTorch tensors.

:class:`SymTensor` is a real ``torch.Tensor`` (wrapper subclass), so all code of /repo (Python and the native C++ extension)
handles it like any other tensor. All ATen ops which PyTorch would run on it arrive in ``__torch_dispatch__``, and are interpreted here
on arrays of SMT terms (exact integers / reals / booleans). Shapes and dtypes come from PyTorch itself (the op is run on meta tensors).

Transcendental functions (exp, log, tanh, ...) are uninterpreted functions, with a few true facts about them.
"""

from __future__ import annotations

import math
import functools
import itertools
from fractions import Fraction
import numpy as np
from vf.symx import z3
import torch
from torch.utils._pytree import tree_map
from vf import symx
from vf.symx import SymInt, SymReal, SymBool, is_sym, s_ite, s_and, s_or, s_not, Unsupported, cur

_INT_DTYPES = (torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8)
_inf = float("inf")
_nan = float("nan")


def kind_of(dtype):
    """"f", "i", "b" """
    if dtype == torch.bool:
        return "b"
    if dtype in _INT_DTYPES:
        return "i"
    if dtype.is_floating_point:
        return "f"
    raise Unsupported("dtype %s" % dtype)


def _is_special(x):
    return type(x) is float and (math.isinf(x) or math.isnan(x))


RATIONALIZE = False


def norm(x, kind):
    """Python/sym value -> canonical value of that kind"""
    if type(x) is SymBool:
        if kind == "b":
            return x
        c = z3.simplify(x.e)
        if z3.is_true(c):
            x = True
        elif z3.is_false(c):
            x = False
        else:
            return SymInt(symx.to_z3_int(x)) if kind == "i" else SymReal(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
    if type(x) is SymInt:
        if kind == "i":
            return x
        if kind == "f":
            return SymReal(z3.ToReal(x.e))
        return SymBool(x.e != 0)
    if type(x) is SymReal:
        if kind == "f":
            return x
        if kind == "i":
            # torch: truncation
            return SymInt(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
        return SymBool(x.e != 0)
    if kind == "b":
        return bool(x)
    if kind == "i":
        if isinstance(x, (float, np.floating)) and (math.isinf(x) or math.isnan(x)):
            raise Unsupported("special float to int")
        return int(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return x
        r = Fraction(x)
        if RATIONALIZE and r.denominator > 1024:
            # float32 rounding of a simple fraction
            r2 = r.limit_denominator(256)
            if np.float32(float(r2)) == np.float32(x):
                return r2
        return r
    return Fraction(int(x))


def _frompy(f, n):
    return np.frompyfunc(f, n, 1)


def _obj(a):
    """make sure it is an object array (0-dim results of frompyfunc are scalars)"""
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a
    r = np.empty((), dtype=object)
    r[()] = a
    return r


def _emp(shape):
    return np.empty(tuple(shape), dtype=object)


class SymTensor(torch.Tensor):
    """symbolic tensor"""

    @staticmethod
    def __new__(cls, a, dtype):
        r = torch.Tensor._make_wrapper_subclass(cls, a.shape, dtype=dtype, device="cpu")
        r._a = a
        return r

    def __init__(self, *_args, **_kwargs):
        pass

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __repr__(self):
        return "<SymTensor %s %s>" % (tuple(self.shape), self.dtype)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    @property
    def data(self):
        """data"""
        return torch.Tensor.data.__get__(self)

    @data.setter
    def data(self, value):
        if tuple(value.shape) != tuple(self.shape):
            raise Unsupported("set data with other shape")
        self._a[...] = values(value)

    def numpy(self, *_args, **_kwargs):
        """object array"""
        return self._a

    def __array__(self, dtype=None):
        return self._a

    def tolist(self):
        """list"""
        return self._a.tolist()

    def item(self):
        """scalar"""
        assert self._a.size == 1
        v = self._a.reshape(-1)[0]
        if isinstance(v, Fraction):
            return float(v)
        return v

    def __bool__(self):
        return bool(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __deepcopy__(self, memo):
        return SymTensor(self._a.copy(), self.dtype)

    def __reduce_ex__(self, proto):
        raise Unsupported("pickle of symbolic tensor")


def sym_tensor(values, dtype=None):
    """
    :param values: nested list / array of numbers / symbolic numbers
    :param dtype:
    """
    a = np.array(values, dtype=object) if not isinstance(values, np.ndarray) else values
    if a.dtype != object:
        return torch.tensor(a, dtype=dtype)
    if dtype is None:
        x = a.reshape(-1)[0]
        if type(x) is SymBool or isinstance(x, bool):
            dtype = torch.bool
        elif type(x) is SymInt or isinstance(x, int):
            dtype = torch.int32
        else:
            dtype = torch.float32
    k = kind_of(dtype)
    flat = [norm(x, k) for x in a.reshape(-1)]
    r = _emp(a.shape)
    r.reshape(-1)[:] = flat if flat else []
    return SymTensor(r, dtype)


def make_tensor(values, dtype=torch.float32):
    """symbolic tensor if there are symbolic values, otherwise a normal one"""
    a = np.array(values, dtype=object)
    if any(is_sym(x) for x in a.reshape(-1)):
        return sym_tensor(a, dtype)
    return torch.tensor(np.array([float(x) if isinstance(x, Fraction) else x for x in a.reshape(-1)]).reshape(a.shape), dtype=dtype)


def values(t):
    """:return: object array of the values, symbolic or Python numbers"""
    if isinstance(t, SymTensor):
        return t._a
    r = _emp(t.shape)
    flat = r.reshape(-1)
    for i, x in enumerate(t.detach().cpu().reshape(-1).tolist()):
        flat[i] = x
    return r


def _vals(t, kind):
    """like values but normalized to kind"""
    if isinstance(t, SymTensor):
        k0 = kind_of(t.dtype)
        if k0 == kind:
            return t._a
        return _obj(_frompy(lambda x: norm(x, kind), 1)(t._a)) if t._a.size else t._a
    if isinstance(t, torch.Tensor):
        a = values(t)
        return _obj(_frompy(lambda x: norm(x, kind), 1)(a)) if a.size else a
    r = _emp(())
    r[()] = norm(t, kind)
    return r


# ---------------- scalar ops


def v_add(a, b):
    """add"""
    if not is_sym(a) and not is_sym(b):
        if _is_special(a) or _is_special(b):
            return float(a) + float(b)
        return a + b
    if not is_sym(a) and not _is_special(a) and a == 0:
        return b
    if not is_sym(b) and not _is_special(b) and b == 0:
        return a
    return a + b


def v_sub(a, b):
    """sub"""
    if not is_sym(a) and not is_sym(b):
        if _is_special(a) or _is_special(b):
            return float(a) - float(b)
        return a - b
    if not is_sym(b) and not _is_special(b) and b == 0:
        return a
    return a - b


def v_mul(a, b):
    """mul"""
    if not is_sym(a) and not is_sym(b):
        if _is_special(a) or _is_special(b):
            return float(a) * float(b)
        return a * b
    for x, y in ((a, b), (b, a)):
        if not is_sym(x) and not _is_special(x):
            if x == 0:
                return x
            if x == 1:
                return y
    return a * b


def v_div(a, b):
    """float true division, torch semantics"""
    if _is_special(b) or _is_special(a):
        if is_sym(a):
            return _nan if math.isnan(b) else Fraction(0)
        if is_sym(b):
            if math.isnan(a):
                return a
            s = symx.sign_of(b)
            return a if s >= 0 else -a
        if _is_special(b) and not _is_special(a):
            return _nan if math.isnan(b) else Fraction(0)
        fb = float(b)
        if fb == 0:
            return a
        return float(a) / fb
    zero = bool(b == 0)
    if zero:
        if is_sym(a):
            s = symx.sign_of(a)
        else:
            s = (a > 0) - (a < 0)
        return _nan if s == 0 else s * _inf
    if not is_sym(a) and not is_sym(b):
        return a / b
    if not is_sym(b) and b == 1:
        return a
    if not is_sym(a) and a == 0:
        return Fraction(0)
    return SymReal(symx.to_z3_real(a) / symx.to_z3_real(b))


def v_div_pos(a, b):
    """division by a sum of exp, which is positive if not constant"""
    if is_sym(b) and not _is_special(a):
        if not is_sym(a) and a == 0:
            return Fraction(0)
        return SymReal(symx.to_z3_real(a) / symx.to_z3_real(b))
    return v_div(a, b)


def v_idiv_floor(a, b):
    """floor"""
    if not is_sym(b) and b == 0:
        raise RuntimeError("ZeroDivisionError")
    return a // b


def v_neg(a):
    """neg"""
    return -a


def _is_huge(x):
    """e.g. finfo.min as masking value"""
    return not is_sym(x) and not isinstance(x, bool) and (x > 10**30 or x < -(10**30))


def v_ite(c, a, b):
    """if-then-else. forks only if special floats are involved"""
    if not is_sym(c):
        return a if c else b
    if _is_special(a) or _is_special(b) or _is_huge(a) or _is_huge(b):
        if _is_special(a) and _is_special(b) and (a == b or (math.isnan(a) and math.isnan(b))):
            return a
        return a if bool(c) else b
    if a is b:
        return a
    return s_ite(c, a, b)


def v_cmp(name):
    """comparison"""
    import operator

    op = getattr(operator, name)

    def _f(a, b):
        if type(a) is SymBool or type(b) is SymBool:
            a, b = norm(a, "i"), norm(b, "i")
        r = op(a, b)
        return r

    return _f


def v_max(a, b):
    """max (nan propagates)"""
    for x in (a, b):
        if _is_special(x) and math.isnan(x):
            return x
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    return v_ite(a >= b, a, b)


def v_min(a, b):
    """min"""
    for x in (a, b):
        if _is_special(x) and math.isnan(x):
            return x
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    return v_ite(a <= b, a, b)


_uf = {}


def _get_uf(name, n=1):
    if name not in _uf:
        _uf[name] = z3.Function("f_" + name, *([z3.RealSort()] * (n + 1)))
    return _uf[name]


_UF_CONST = {
    "exp": {0: 1},
    "log": {1: 0},
    "tanh": {0: 0},
    "sigmoid": {0: Fraction(1, 2)},
    "sqrt": {0: 0, 1: 1, 4: 2},
    "rsqrt": {0: _inf, 1: 1, 4: Fraction(1, 2)},
    "erf": {0: 0},
    "sin": {0: 0},
    "cos": {0: 1},
    "log1p": {0: 0},
    "expm1": {0: 0},
    "gelu": {0: 0},
    "silu": {0: 0},
}
_UF_SPECIAL = {
    "exp": {_inf: _inf, -_inf: Fraction(0)},
    "log": {_inf: _inf},
    "tanh": {_inf: Fraction(1), -_inf: Fraction(-1)},
    "sigmoid": {_inf: Fraction(1), -_inf: Fraction(0)},
    "sqrt": {_inf: _inf},
}


CANON = True  # off for large models, where the terms are compared as they are


def canon(e):
    """canonical form (sum of monomials), such that equal polynomials get the same term"""
    return z3.simplify(e, som=True) if CANON else e


NUMERIC = False  # for testing the interpreter itself: evaluate the functions


def _numeric_uf(name, x):
    f = getattr(torch.nn.functional, name, None) if name in ("gelu", "silu", "softplus") else getattr(torch, name)
    return norm(f(torch.tensor(float(x), dtype=torch.float64)).item(), "f")


def v_uf(name):
    """uninterpreted function"""

    def _f(x):
        if NUMERIC and not is_sym(x):
            return _numeric_uf(name, x)
        if _is_special(x):
            if math.isnan(x):
                return x
            r = _UF_SPECIAL.get(name, {}).get(x)
            if r is None:
                raise Unsupported("%s(%r)" % (name, x))
            return r
        if not is_sym(x):
            r = _UF_CONST.get(name, {}).get(x)
            if r is not None:
                return r if _is_special(r) else Fraction(r)
            if name == "log" and x == 0:
                return -_inf
            if name == "exp" and x < -(10**6):
                return Fraction(0)  # underflow in any float format; relevant for finfo.min as masking value
            if name in ("log", "sqrt") and x < 0:
                return _nan
        elif name == "log":
            # log of 0 is -inf
            if bool(x == 0):
                return -_inf
        if name == "cos":
            return v_uf("sin")(v_add(x, Fraction(math.pi / 2.0)))
        e = canon(symx.to_z3_real(x))
        t = _get_uf(name)(e)
        if name == "exp":
            cur().assume(SymBool(t > 0))
        elif name in ("sqrt", "rsqrt"):
            cur().assume(SymBool(t >= 0))
        elif name == "sigmoid":
            cur().assume(SymBool(z3.And(t > 0, t < 1)))
        elif name == "tanh":
            cur().assume(SymBool(z3.And(t > -1, t < 1)))
        return SymReal(t)

    return _f


def v_pow(a, b):
    """pow"""
    if not is_sym(b) and not _is_special(b):
        if b == int(b) and -8 <= b <= 16:
            b = int(b)
            r = Fraction(1)
            for _ in range(abs(b)):
                r = v_mul(r, a)
            return r if b >= 0 else v_div(Fraction(1), r)
        if b == Fraction(1, 2):
            return v_uf("sqrt")(a)
        if b == Fraction(-1, 2):
            return v_div(Fraction(1), v_uf("sqrt")(a))
    if _is_special(a) or _is_special(b):
        raise Unsupported("pow special")
    if not is_sym(a) and a == 0:
        raise Unsupported("pow 0")
    return SymReal(_get_uf("pow", 2)(symx.to_z3_real(a), symx.to_z3_real(b)))


def v_floor(a):
    """floor"""
    if is_sym(a):
        return SymReal(z3.ToReal(z3.ToInt(symx.to_z3_real(a))))
    if _is_special(a):
        return a
    return Fraction(math.floor(a))


def v_ceil(a):
    """ceil"""
    return v_neg(v_floor(v_neg(a)))


def v_abs(a):
    """abs"""
    return abs(a)


# ---------------- ops

_ops = {}


def _op(*names):
    def _deco(f):
        for n in names:
            _ops[n] = f
        return f

    return _deco


class _Meta:
    """result template"""

    def __init__(self, t):
        self.shape = tuple(t.shape)
        self.dtype = t.dtype
        self.kind = kind_of(t.dtype)


def _to_meta(x):
    if isinstance(x, torch.Tensor):
        return torch.empty(x.shape, dtype=x.dtype, device="meta")
    return x


def _concr(x):
    """symbolic Python scalars in shapes etc"""
    if type(x) is SymInt:
        return int(x)
    return x


def dispatch(func, args, kwargs):
    """torch dispatch"""
    schema = func._schema
    name = schema.name.split("::")[1]
    overload = schema.overload_name
    args = tree_map(_concr, args)
    kwargs = tree_map(_concr, kwargs)

    inplace = name.endswith("_") and not name.endswith("__")
    base = name[:-1] if inplace else name
    if base in _special_ops:
        res = _special_ops[base](func, args, kwargs)
        if inplace:
            _write(args[0], res._a)
            return args[0]
        return res
    if name == "copy_":
        dst, src = args[:2]
        _write(dst, np.broadcast_to(_vals(src, kind_of(dst.dtype)), dst.shape))
        return dst
    if name in ("uniform_", "normal_", "random_") and not any(is_sym(x) for x in args[0]._a.reshape(-1)):
        # parameter initialization. any concrete value
        return args[0]
    if name in ("fill_", "zero_"):
        dst = args[0]
        v = args[1] if name == "fill_" else 0
        _write(dst, np.broadcast_to(_vals(v, kind_of(dst.dtype)), dst.shape))
        return dst
    f = _ops.get(base + "." + overload) or _ops.get(base)
    if f is None:
        raise Unsupported("torch op %s" % func)
    # shape and dtype from torch itself
    device = kwargs.get("device")
    m_args, m_kwargs = tree_map(_to_meta, args), tree_map(_to_meta, kwargs)
    if "device" in m_kwargs:
        m_kwargs = dict(m_kwargs, device="meta")
    out = func(*m_args, **m_kwargs)
    if isinstance(out, torch.Tensor):
        metas = _Meta(out)
    elif isinstance(out, (tuple, list)):
        metas = [_Meta(x) if isinstance(x, torch.Tensor) else None for x in out]
    else:
        raise Unsupported("torch op %s returns %s" % (func, type(out)))
    kw = {k: v for k, v in kwargs.items() if k not in ("device", "layout", "pin_memory", "non_blocking", "memory_format")}
    if "out" in kw:
        raise Unsupported("out= in %s" % func)
    res = f(metas, *args, **kw)
    if inplace:
        dst = args[0]
        _write(dst, np.broadcast_to(_obj(res), dst.shape))
        return dst
    if isinstance(metas, list):
        r = tuple(_wrap(x, m) if m is not None else x for x, m in zip(res, metas))
        return list(r) if isinstance(out, list) else r
    return _wrap(res, metas)


def _wrap(a, m: _Meta):
    if isinstance(a, SymTensor):
        return a
    a = _obj(a)
    if a.shape != m.shape:
        raise Unsupported("shape mismatch in symtorch op: %s vs %s" % (a.shape, m.shape))
    return SymTensor(a, m.dtype)


from torch.utils._python_dispatch import TorchDispatchMode

_FACTORIES = {
    "empty",
    "empty_strided",
    "zeros",
    "ones",
    "full",
    "new_empty",
    "new_empty_strided",
    "new_zeros",
    "new_ones",
    "new_full",
    "zeros_like",
    "ones_like",
    "full_like",
    "empty_like",
}


EXTRA_FACTORIES = set()


class FactoryMode(TorchDispatchMode):
    """Newly created tensors are symbolic tensors (with constant values), such that symbolic values can be written into them."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        res = func(*args, **kwargs)
        if type(res) is torch.Tensor and res.device.type == "cpu":
            name = func._schema.name.split("::")[1]
            if name in _FACTORIES or name in EXTRA_FACTORIES:
                if "empty" in name:
                    res.zero_()
                a = values(res)
                k = kind_of(res.dtype)
                r = _emp(a.shape)
                for i, x in enumerate(a.reshape(-1)):
                    r.reshape(-1)[i] = norm(x, k)
                return SymTensor(r, res.dtype)
        return res


_mode = None


def set_factory_mode(enabled: bool):
    """enable/disable :class:`FactoryMode`"""
    global _mode
    if bool(_mode) == enabled:
        return
    if enabled:
        _mode = FactoryMode()
        _mode.__enter__()
    else:
        _mode.__exit__(None, None, None)
        _mode = None


def _write(dst, a):
    if not isinstance(dst, SymTensor):
        flat = list(a.reshape(-1))
        if any(is_sym(x) for x in flat):
            raise Unsupported("in-place write of symbolic values into a normal tensor")
        dst.copy_(torch.tensor([float(x) if isinstance(x, Fraction) else x for x in flat]).reshape(dst.shape))
        return
    dst._a[...] = a.copy()


def _elem(f, n, argkind=None):
    """elementwise op. argkind: "out" (kind of result), or "common" """

    def _run(m, *args, **kw):
        ts = args[:n]
        if argkind == "common":
            k = _common_kind(ts)
        else:
            k = argkind or m.kind
        arrs = [_vals(t, k) for t in ts]
        if 0 in m.shape:
            return _emp(m.shape)
        r = _frompy(f, n)(*arrs)
        r = _obj(r)
        rk = m.kind
        return _obj(_frompy(lambda x: norm(x, rk), 1)(r))

    return _run


def _common_kind(ts):
    ks = set()
    for t in ts:
        if isinstance(t, torch.Tensor):
            ks.add(kind_of(t.dtype))
        elif isinstance(t, bool) or type(t) is SymBool:
            ks.add("b")
        elif isinstance(t, (int, np.integer)) or type(t) is SymInt:
            ks.add("i")
        else:
            ks.add("f")
    for k in "fib":
        if k in ks:
            return k
    raise AssertionError


for _n, _f in [("eq", "eq"), ("ne", "ne"), ("lt", "lt"), ("le", "le"), ("gt", "gt"), ("ge", "ge")]:
    _ops[_n] = _elem(v_cmp(_f), 2, "common")
_ops["mul"] = _elem(lambda a, b: s_and(a, b) if isinstance(a, (bool, SymBool)) else v_mul(a, b), 2)
_ops["maximum"] = _elem(v_max, 2)
_ops["minimum"] = _elem(v_min, 2)
_ops["neg"] = _elem(v_neg, 1)
_ops["abs"] = _elem(v_abs, 1)
_ops["logical_and"] = _elem(lambda a, b: s_and(a, b), 2, "b")
_ops["logical_or"] = _elem(lambda a, b: s_or(a, b), 2, "b")
_ops["logical_xor"] = _elem(lambda a, b: s_not(symx.s_iff(a, b)), 2, "b")
_ops["logical_not"] = _elem(lambda a: s_not(a), 1, "b")
_ops["relu"] = _elem(lambda a: v_max(a, type(a)(0) if not is_sym(a) else Fraction(0)), 1)
_ops["square"] = _elem(lambda a: v_mul(a, a), 1)
_ops["reciprocal"] = _elem(lambda a: v_div(Fraction(1), a), 1)
_ops["rsqrt"] = _elem(lambda a: v_uf("rsqrt")(a), 1, "f")
_ops["floor"] = _elem(v_floor, 1)
_ops["ceil"] = _elem(v_ceil, 1)
_ops["clone"] = lambda m, x, **kw: x._a.copy()
_ops["sign"] = _elem(lambda a: v_ite(a > 0, Fraction(1), v_ite(a < 0, Fraction(-1), Fraction(0))), 1, "f")
for _n in ("exp", "log", "tanh", "sigmoid", "sqrt", "sin", "cos", "erf", "log1p", "expm1", "atan", "log2", "log10"):
    _ops[_n] = _elem(v_uf(_n), 1, "f")
_ops["gelu"] = lambda m, x, approximate="none": _elem(v_uf("gelu"), 1, "f")(m, x)
_ops["silu"] = _elem(lambda a: v_mul(a, v_uf("sigmoid")(a)), 1, "f")
_ops["log_sigmoid_forward"] = lambda ms, x: (
    _elem(lambda a: v_uf("log")(v_uf("sigmoid")(a)), 1, "f")(ms[0], x),
    _emp(ms[1].shape),
)
_ops["softplus"] = lambda m, x, beta=1, threshold=20: _elem(v_uf("softplus"), 1, "f")(m, x)
_ops["isnan"] = _elem(lambda a: _is_special(a) and math.isnan(a), 1, "f")
_ops["isinf"] = _elem(lambda a: _is_special(a) and math.isinf(a), 1, "f")
_ops["isneginf"] = _elem(lambda a: _is_special(a) and a == -_inf, 1, "f")
_ops["isposinf"] = _elem(lambda a: _is_special(a) and a == _inf, 1, "f")
_ops["isfinite"] = _elem(lambda a: not _is_special(a), 1, "f")
_ops["pow"] = _elem(v_pow, 2, "f")


@_op("add")
def _add(m, a, b, alpha=1):
    if m.kind == "b":
        return _elem(lambda x, y: s_or(x, y), 2)(m, a, b)
    if alpha == 1:
        return _elem(v_add, 2)(m, a, b)
    return _elem(lambda x, y: v_add(x, v_mul(norm(alpha, m.kind), y)), 2)(m, a, b)


@_op("sub")
def _sub(m, a, b, alpha=1):
    if alpha == 1:
        return _elem(v_sub, 2)(m, a, b)
    return _elem(lambda x, y: v_sub(x, v_mul(norm(alpha, m.kind), y)), 2)(m, a, b)


@_op("rsub")
def _rsub(m, a, b, alpha=1):
    return _sub(m, b, a, alpha)


@_op("div")
def _div(m, a, b, rounding_mode=None):
    if rounding_mode is None:
        return _elem(v_div, 2, "f")(m, a, b)
    if rounding_mode == "floor":
        return _floor_divide(m, a, b)

    def _trunc(x, y):
        if m.kind == "i":
            q = abs(x) // abs(y)
            return v_ite((x < 0) == (y < 0) if not (is_sym(x) or is_sym(y)) else symx.s_iff(x < 0, y < 0), q, -q)
        q = v_div(x, y)
        return v_ite(q >= 0, v_floor(q), v_ceil(q))

    return _elem(_trunc, 2)(m, a, b)


@_op("floor_divide")
def _floor_divide(m, a, b):
    if m.kind == "i":
        return _elem(v_idiv_floor, 2)(m, a, b)
    return _elem(lambda x, y: v_floor(v_div(x, y)), 2)(m, a, b)


@_op("remainder")
def _remainder(m, a, b):
    if m.kind == "i":
        return _elem(lambda x, y: x % y, 2)(m, a, b)
    return _elem(lambda x, y: v_sub(x, v_mul(v_floor(v_div(x, y)), y)), 2)(m, a, b)


@_op("bitwise_and", "__and__")
def _band(m, a, b):
    if m.kind != "b":
        raise Unsupported("bitwise int")
    return _elem(lambda x, y: s_and(x, y), 2)(m, a, b)


@_op("bitwise_or", "__or__")
def _bor(m, a, b):
    if m.kind != "b":
        raise Unsupported("bitwise int")
    return _elem(lambda x, y: s_or(x, y), 2)(m, a, b)


@_op("bitwise_xor")
def _bxor(m, a, b):
    if m.kind != "b":
        raise Unsupported("bitwise int")
    return _elem(lambda x, y: s_not(symx.s_iff(x, y)), 2)(m, a, b)


@_op("bitwise_not")
def _bnot(m, a):
    if m.kind != "b":
        return _elem(lambda x: -x - 1, 1)(m, a)
    return _elem(lambda x: s_not(x), 1)(m, a)


@_op("where")
def _where(m, c, a, b):
    ca, aa, ba = _vals(c, "b"), _vals(a, m.kind), _vals(b, m.kind)
    if 0 in m.shape:
        return _emp(m.shape)
    return _obj(_frompy(v_ite, 3)(ca, aa, ba))


@_op("masked_fill")
def _masked_fill(m, x, mask, v):
    return _where(m, mask, v, x)


@_op("clamp")
def _clamp(m, x, min=None, max=None):
    r = _vals(x, m.kind)
    if min is not None:
        r = _frompy(v_max, 2)(r, _vals(min, m.kind))
    if max is not None:
        r = _frompy(v_min, 2)(r, _vals(max, m.kind))
    return _obj(r)


@_op("clamp_min")
def _clamp_min(m, x, v):
    return _clamp(m, x, min=v)


@_op("clamp_max")
def _clamp_max(m, x, v):
    return _clamp(m, x, max=v)


@_op("hardtanh")
def _hardtanh(m, x, lo=-1, hi=1):
    return _clamp(m, x, lo, hi)


@_op("leaky_relu")
def _leaky_relu(m, x, slope=0.01):
    return _elem(lambda a: v_ite(a >= 0, a, v_mul(norm(slope, "f"), a)), 1)(m, x)


@_op("elu")
def _elu(m, x, alpha=1, scale=1, input_scale=1):
    return _elem(v_uf("elu_%s_%s_%s" % (alpha, scale, input_scale)), 1)(m, x)


@_op("lerp")
def _lerp(m, a, b, w):
    return _elem(lambda x, y, z: v_add(x, v_mul(z, v_sub(y, x))), 3)(m, a, b, w)


@_op("addcmul")
def _addcmul(m, a, b, c, value=1):
    return _elem(lambda x, y, z: v_add(x, v_mul(norm(value, m.kind), v_mul(y, z))), 3)(m, a, b, c)


@_op("logaddexp")
def _logaddexp(m, a, b):
    def _f(x, y):
        if _is_special(x) and x == -_inf:
            return y
        if _is_special(y) and y == -_inf:
            return x
        return v_uf("log")(v_add(v_uf("exp")(x), v_uf("exp")(y)))

    return _elem(_f, 2)(m, a, b)


# reductions


def _dims(dim, ndim):
    if dim is None or (isinstance(dim, (list, tuple)) and not dim):
        return tuple(range(ndim))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(d % ndim for d in dim) if ndim else ()


def _reduce(a, dim, keepdim, f, shape):
    """f(list) -> value"""
    dims = _dims(dim, a.ndim)
    keep = [i for i in range(a.ndim) if i not in dims]
    b = a.transpose(keep + list(dims)).reshape([a.shape[i] for i in keep] + [int(np.prod([a.shape[i] for i in dims], dtype=int))])
    out = _emp(b.shape[:-1])
    for idx in np.ndindex(*out.shape):
        out[idx] = f(list(b[idx]))
    return out.reshape(shape)


def _fsum(zero):
    def _f(ls):
        r = zero
        for x in ls:
            r = v_add(r, x)
        return r

    return _f


def _fprod(one):
    def _f(ls):
        r = one
        for x in ls:
            r = v_mul(r, x)
        return r

    return _f


@_op("sum")
def _sum(m, x, dim=None, keepdim=False, dtype=None):
    a = _vals(x, m.kind)
    return _reduce(a, dim, keepdim, _fsum(norm(0, m.kind)), m.shape)


@_op("prod")
def _prod(m, x, dim=None, keepdim=False, dtype=None):
    a = _vals(x, m.kind)
    return _reduce(a, dim, keepdim, _fprod(norm(1, m.kind)), m.shape)


@_op("mean")
def _mean(m, x, dim=None, keepdim=False, dtype=None):
    a = _vals(x, m.kind)
    return _reduce(a, dim, keepdim, lambda ls: v_div(_fsum(Fraction(0))(ls), Fraction(len(ls))), m.shape)


def _fvar(correction):
    def _f(ls):
        n = len(ls)
        mu = v_div(_fsum(Fraction(0))(ls), Fraction(n))
        s = _fsum(Fraction(0))([v_mul(v_sub(x, mu), v_sub(x, mu)) for x in ls])
        return v_div(s, Fraction(n - correction))

    return _f


@_op("var")
def _var(m, x, dim=None, unbiased=None, correction=None, keepdim=False):
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    c = correction if correction is not None else (0 if unbiased is False else 1)
    return _reduce(_vals(x, "f"), dim, keepdim, _fvar(int(c)), m.shape)


@_op("var_mean")
def _var_mean(ms, x, dim=None, unbiased=None, correction=None, keepdim=False):
    return _var(ms[0], x, dim, unbiased, correction, keepdim), _mean(ms[1], x, dim, keepdim)


@_op("any")
def _any(m, x, dim=None, keepdim=False):
    return _reduce(_vals(x, "b"), dim, keepdim, lambda ls: s_or(ls), m.shape)


@_op("all")
def _all(m, x, dim=None, keepdim=False):
    return _reduce(_vals(x, "b"), dim, keepdim, lambda ls: s_and(ls), m.shape)


@_op("amax")
def _amax(m, x, dim=None, keepdim=False):
    return _reduce(_vals(x, m.kind), dim, keepdim, lambda ls: functools.reduce(v_max, ls), m.shape)


@_op("amin")
def _amin(m, x, dim=None, keepdim=False):
    return _reduce(_vals(x, m.kind), dim, keepdim, lambda ls: functools.reduce(v_min, ls), m.shape)


def _argbest(ls, better):
    """first best, without forking where possible"""
    bi, bv = 0, ls[0]
    for i, x in enumerate(ls[1:], 1):
        c = better(x, bv)
        if type(c) is SymBool and not _is_special(x) and not _is_special(bv):
            bi, bv = s_ite(c, i, bi), s_ite(c, x, bv)
        elif bool(c):
            bi, bv = i, x
    return bi, bv


@_op("argmax")
def _argmax(m, x, dim=None, keepdim=False):
    return _reduce(_vals(x, kind_of(x.dtype)), dim, keepdim, lambda ls: _argbest(ls, lambda a, b: a > b)[0], m.shape)


@_op("argmin")
def _argmin(m, x, dim=None, keepdim=False):
    return _reduce(_vals(x, kind_of(x.dtype)), dim, keepdim, lambda ls: _argbest(ls, lambda a, b: a < b)[0], m.shape)


@_op("max")
def _max(m, x, *args, **kw):
    if isinstance(m, list):
        dim = args[0] if args else kw["dim"]
        k = kind_of(x.dtype)
        better = (lambda a, b: s_and(a, s_not(b))) if k == "b" else (lambda a, b: a > b)
        a = _vals(x, k)
        idx = _reduce(a, dim, False, lambda ls: _argbest(ls, better)[0], m[0].shape)
        val = _reduce(a, dim, False, lambda ls: _argbest(ls, better)[1], m[0].shape)
        return val, idx
    if args:
        return _elem(v_max, 2)(m, x, args[0])
    return _amax(m, x)


@_op("min")
def _min(m, x, *args, **kw):
    if isinstance(m, list):
        dim = args[0] if args else kw["dim"]
        a = _vals(x, kind_of(x.dtype))
        idx = _reduce(a, dim, False, lambda ls: _argbest(ls, lambda p, q: p < q)[0], m[0].shape)
        val = _reduce(a, dim, False, lambda ls: _argbest(ls, lambda p, q: p < q)[1], m[0].shape)
        return val, idx
    if args:
        return _elem(v_min, 2)(m, x, args[0])
    return _amin(m, x)


def _lse(ls):
    """log sum exp, exact"""
    ls = [x for x in ls if is_sym(x) or not x < -(10**6)]
    if not ls:
        return -_inf
    if any(_is_special(x) for x in ls):
        return _nan if any(_is_special(x) and math.isnan(x) for x in ls) else _inf
    if len(ls) == 1:
        return ls[0]
    return v_uf("log")(_fsum(Fraction(0))([v_uf("exp")(x) for x in ls]))


@_op("logsumexp")
def _logsumexp(m, x, dim, keepdim=False):
    return _reduce(_vals(x, "f"), dim, keepdim, _lse, m.shape)


def _along(a, dim, f):
    """f: list -> list of same length"""
    if a.ndim == 0:
        r = _emp(())
        r[()] = f([a[()]])[0]
        return r
    dim = dim % a.ndim
    b = np.moveaxis(a, dim, -1)
    out = _emp(b.shape)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx][:] = f(list(b[idx]))
    return np.moveaxis(out, -1, dim)


@_op("cumsum")
def _cumsum(m, x, dim, dtype=None):
    def _f(ls):
        r, s = [], norm(0, m.kind)
        for y in ls:
            s = v_add(s, y)
            r.append(s)
        return r

    return _along(_vals(x, m.kind), dim, _f)


@_op("cumprod")
def _cumprod(m, x, dim, dtype=None):
    def _f(ls):
        r, s = [], norm(1, m.kind)
        for y in ls:
            s = v_mul(s, y)
            r.append(s)
        return r

    return _along(_vals(x, m.kind), dim, _f)


@_op("logcumsumexp")
def _logcumsumexp(m, x, dim):
    return _along(_vals(x, "f"), dim, lambda ls: [_lse(ls[: i + 1]) for i in range(len(ls))])


@_op("_softmax")
def _softmax(m, x, dim, half_to_float=False):
    def _f(ls):
        if any(_is_special(y) and not y == -_inf for y in ls):
            raise Unsupported("softmax of inf/nan")
        es = [v_uf("exp")(y) for y in ls]
        s = _fsum(Fraction(0))(es)
        return [v_div_pos(e, s) for e in es]

    return _along(_vals(x, "f"), dim, _f)


@_op("_log_softmax")
def _log_softmax(m, x, dim, half_to_float=False):
    def _f(ls):
        z = _lse(ls)
        return [v_sub(y, z) for y in ls]

    return _along(_vals(x, "f"), dim, _f)


# shape ops


@_op("view", "_unsafe_view", "reshape")
def _view(m, x, shape):
    return _arr(x).reshape(m.shape)


@_op("alias", "detach", "lift_fresh", "contiguous", "view_as")
def _alias(m, x, *args, **kw):
    return _arr(x)


def _arr(x):
    return _vals(x, kind_of(x.dtype))


@_op("permute")
def _permute(m, x, dims):
    return _arr(x).transpose([d % max(len(dims), 1) for d in dims])


@_op("transpose")
def _transpose(m, x, a, b):
    return _arr(x).swapaxes(a, b)


@_op("t")
def _t(m, x):
    return _arr(x).T


@_op("unsqueeze", "squeeze")
def _unsqueeze(m, x, *dim):
    return _arr(x).reshape(m.shape)


@_op("expand")
def _expand(m, x, size, implicit=False):
    return np.broadcast_to(_arr(x), m.shape)


@_op("slice")
def _slice(m, x, dim=0, start=None, end=None, step=1):
    a = _arr(x)
    dim = dim % a.ndim
    return a[(slice(None),) * dim + (slice(start, end, step),)]


@_op("select")
def _select(m, x, dim, index):
    a = _arr(x)
    dim = dim % a.ndim
    return a[(slice(None),) * dim + (index,)]


@_op("narrow")
def _narrow(m, x, dim, start, length):
    return _slice(m, x, dim, start, start + length)


@_op("split", "chunk", "split_with_sizes", "unbind", "unsafe_split", "unsafe_chunk", "unsafe_split_with_sizes")
def _split(ms, x, *args, **kw):
    dim = kw.get("dim")
    a = _arr(x)
    if len(ms) and len(ms[0].shape) == a.ndim - 1:  # unbind
        dim = (args[0] if args else dim or 0) % a.ndim
        return [np.moveaxis(a, dim, 0)[i] for i in range(a.shape[dim])]
    if dim is None:
        dim = args[1] if len(args) > 1 else 0
    dim = dim % a.ndim
    res, pos = [], 0
    for m in ms:
        n = m.shape[dim]
        res.append(a[(slice(None),) * dim + (slice(pos, pos + n),)])
        pos += n
    return res


@_op("cat")
def _cat(m, xs, dim=0):
    arrs = [_vals(x, m.kind) for x in xs]
    arrs = [a for a in arrs if not (a.ndim == 1 and a.size == 0 and len(m.shape) != 1)]
    return np.concatenate(arrs, axis=dim)


@_op("stack")
def _stack(m, xs, dim=0):
    return np.stack([_vals(x, m.kind) for x in xs], axis=dim)


@_op("flip")
def _flip(m, x, dims):
    return np.flip(_arr(x), axis=tuple(dims))


@_op("roll")
def _roll(m, x, shifts, dims=()):
    shifts = shifts if isinstance(shifts, (list, tuple)) else [shifts]
    dims = dims if isinstance(dims, (list, tuple)) else [dims]
    a = _arr(x)
    if not dims:
        return np.roll(a, shifts[0])
    for s, d in zip(shifts, dims):
        a = np.roll(a, s, axis=d)
    return a


@_op("repeat")
def _repeat(m, x, reps):
    a = _arr(x)
    return np.tile(a.reshape((1,) * (len(reps) - a.ndim) + a.shape), tuple(reps))


@_op("unfold")
def _unfold(m, x, dim, size, step):
    a = _arr(x)
    dim = dim % a.ndim
    n = (a.shape[dim] - size) // step + 1
    parts = [np.moveaxis(a, dim, -1)[..., i * step : i * step + size] for i in range(n)]
    return np.stack(parts, axis=dim)


@_op("tril", "triu")
def _tri(m, x, diagonal=0):
    raise Unsupported("tril")


@_op("constant_pad_nd")
def _constant_pad_nd(m, x, pad, value=0):
    a = _arr(x)
    out = _emp(m.shape)
    v = norm(value, m.kind)
    for idx in np.ndindex(*out.shape):
        out[idx] = v
    src, dst = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    for i in range(len(pad) // 2):
        d = a.ndim - 1 - i
        l, r = pad[2 * i], pad[2 * i + 1]
        n = a.shape[d]
        s0, s1 = max(0, -l), n - max(0, -r)
        src[d] = slice(s0, s1)
        dst[d] = slice(max(0, l), max(0, l) + (s1 - s0))
    out[tuple(dst)] = a[tuple(src)]
    return out


@_op("_to_copy")
def _to_copy(m, x, dtype=None):
    a = _vals(x, m.kind)
    return a.copy()


@_op("zeros_like", "new_zeros")
def _zeros_like(m, *args, **kw):
    return _full(m.shape, 0, m.kind)


@_op("ones_like", "new_ones")
def _ones_like(m, *args, **kw):
    return _full(m.shape, 1, m.kind)


@_op("empty_like", "new_empty", "empty")
def _empty_like(m, *args, **kw):
    return _full(m.shape, 0, m.kind)


@_op("full_like", "new_full")
def _full_like(m, x, *args, **kw):
    return _full(m.shape, args[-1], m.kind)


def _full(shape, v, kind):
    out = _emp(shape)
    v = norm(v, kind)
    flat = out.reshape(-1)
    for i in range(flat.size):
        flat[i] = v
    return out


# indexing


def _pick(items, i, what="index"):
    """items[i], i maybe symbolic"""
    n = len(items)
    if not is_sym(i):
        i = int(i)
        if not -n <= i < n:
            raise IndexError("%s %i out of range for size %i" % (what, i, n))
        return items[i]
    if bool(s_or(i < 0, i >= n)):
        raise IndexError("%s out of range for size %i" % (what, n))
    if n == 0:
        raise IndexError("empty")
    if any(_is_special(x) for x in items):
        return items[int(i)]
    r = items[n - 1]
    for j in reversed(range(n - 1)):
        r = v_ite(i == j, items[j], r)
    return r


@_op("gather")
def _gather(m, x, dim, index, sparse_grad=False):
    a, ix = _arr(x), _vals(index, "i")
    if a.ndim == 0:
        return a.copy()
    dim = dim % a.ndim
    out = _emp(m.shape)
    for idx in np.ndindex(*out.shape):
        col = a[idx[:dim] + (slice(None),) + idx[dim + 1 :]]
        i = ix[idx]
        if not is_sym(i) and i < 0:
            raise RuntimeError("index %s is out of bounds" % i)
        out[idx] = _pick(list(col), i)
    return out


@_op("index_select")
def _index_select(m, x, dim, index):
    a, ix = _arr(x), _vals(index, "i").reshape(-1)
    dim = dim % max(a.ndim, 1)
    b = np.moveaxis(a, dim, 0)
    out = _emp((len(ix),) + b.shape[1:])
    for j in range(len(ix)):
        for idx in np.ndindex(*b.shape[1:]):
            out[(j,) + idx] = _pick([b[(k,) + idx] for k in range(b.shape[0])], ix[j])
    return np.moveaxis(out, 0, dim)


@_op("embedding")
def _embedding(m, weight, indices, *args, **kw):
    a, ix = _arr(weight), _vals(indices, "i")
    out = _emp(m.shape)
    for idx in np.ndindex(*ix.shape):
        for k in range(a.shape[1]):
            out[idx + (k,)] = _pick([a[j, k] for j in range(a.shape[0])], ix[idx])
    return out


def _index_arrays(x, indices):
    """normalise advanced indexing"""
    idx = []
    for i in indices:
        if i is None:
            idx.append(None)
        else:
            if i.dtype == torch.bool:
                raise Unsupported("index with bool mask")
            idx.append(_vals(i, "i"))
    return idx


def _special_index(func, args, kwargs):
    x, indices = args
    indices = list(indices)
    if any(i is not None and i.dtype in (torch.bool, torch.uint8) for i in indices):
        if len([i for i in indices if i is not None]) == 1 and indices[0] is not None and indices[0].dim() == x.dim():
            return _special_masked_select(None, (x, indices[0]), {})
        new = []
        for i in indices:
            if i is not None and i.dtype in (torch.bool, torch.uint8):
                mask = np.array([bool(v) for v in _vals(i, "b").reshape(-1)], dtype=bool).reshape(i.shape)
                new.extend(torch.tensor(j) for j in np.nonzero(mask))
            else:
                new.append(i)
        indices = new
    idx = _index_arrays(x, indices)
    a = _arr(x)
    idx += [None] * (a.ndim - len(idx))
    adv = [i for i in range(a.ndim) if idx[i] is not None]
    bshape = np.broadcast_shapes(*[idx[i].shape for i in adv])
    bidx = {i: np.broadcast_to(idx[i], bshape) for i in adv}
    rest = [i for i in range(a.ndim) if idx[i] is None]
    b = a.transpose(adv + rest)
    rest_shape = b.shape[len(adv) :]
    out = _emp(bshape + rest_shape)
    for bi in np.ndindex(*bshape):
        ii = [bidx[i][bi] for i in adv]
        for ri in np.ndindex(*rest_shape):
            cur_ = b[(slice(None),) * len(adv) + ri]
            out[bi + ri] = _pick_nd(cur_, ii)
    if adv and adv == list(range(adv[0], adv[-1] + 1)):
        # result dims at the position of the first index
        nb = len(bshape)
        perm_src = list(range(nb, nb + adv[0])) + list(range(nb)) + list(range(nb + adv[0], out.ndim))
        out = out.transpose(perm_src)
    return SymTensor(out, x.dtype)


def _pick_nd(arr, ii):
    if not ii:
        return arr[()] if isinstance(arr, np.ndarray) else arr
    if not is_sym(ii[0]):
        i = int(ii[0])
        n = arr.shape[0]
        if not -n <= i < n:
            raise IndexError("index out of range")
        return _pick_nd(arr[i], ii[1:])
    return _pick([_pick_nd(arr[k], ii[1:]) for k in range(arr.shape[0])], ii[0])


@_op("index_put", "_index_put_impl")
def _index_put(m, x, indices, vals, accumulate=False, unsafe=False):
    a = _arr(x).copy()
    idx = []
    for i in indices:
        if i is None:
            idx.append(slice(None))
        elif i.dtype == torch.bool:
            idx.extend(np.nonzero(np.array([bool(v) for v in _vals(i, "b").reshape(-1)], dtype=bool).reshape(i.shape)))
        else:
            idx.append(np.array([int(v) for v in _vals(i, "i").reshape(-1)], dtype=int).reshape(i.shape))
    v = _vals(vals, m.kind)
    if accumulate:
        raise Unsupported("index_put accumulate")
    a[tuple(idx)] = v
    return a


def _scatter_impl(a, dim, ix, src, f, n_check=True):
    a = a.copy()
    dim = dim % max(a.ndim, 1)
    for idx in np.ndindex(*ix.shape):
        i = ix[idx]
        v = src[idx] if isinstance(src, np.ndarray) else src
        n = a.shape[dim]
        if is_sym(i):
            if bool(s_or(i < 0, i >= n)):
                raise RuntimeError("index out of bounds in scatter")
        else:
            if not 0 <= i < n:
                raise RuntimeError("index %s is out of bounds for dimension %s with size %s" % (i, dim, n))
        for k in range(n) if is_sym(i) else [int(i)]:
            pos = idx[:dim] + (k,) + idx[dim + 1 :]
            a[pos] = v_ite(i == k, f(a[pos], v), a[pos])
    return a


@_op("scatter")
def _scatter(m, x, dim, index, src=None, value=None, reduce=None):
    if src is None:
        src = value
    if reduce is not None:
        raise Unsupported("scatter reduce")
    s = _vals(src, m.kind) if isinstance(src, torch.Tensor) else norm(src, m.kind)
    return _scatter_impl(_vals(x, m.kind), dim, _vals(index, "i"), s, lambda old, new: new)


@_op("scatter_add")
def _scatter_add(m, x, dim, index, src):
    return _scatter_impl(_vals(x, m.kind), dim, _vals(index, "i"), _vals(src, m.kind), v_add)


@_op("scatter_reduce")
def _scatter_reduce(m, x, dim, index, src, reduce, include_self=True):
    a = _vals(x, m.kind)
    ix = _vals(index, "i")
    s = _vals(src, m.kind)
    f = {"sum": v_add, "amax": v_max, "amin": v_min, "prod": v_mul}.get(reduce)
    if f is None:
        raise Unsupported("scatter_reduce %s" % reduce)
    if include_self:
        return _scatter_impl(a, dim, ix, s, f)
    # first write replaces
    touched = _full(a.shape, False, "b")
    a = a.copy()
    dim = dim % max(a.ndim, 1)
    for idx in np.ndindex(*ix.shape):
        i = ix[idx]
        n = a.shape[dim]
        if bool(s_or(i < 0, i >= n)):
            raise RuntimeError("index out of bounds in scatter")
        for k in range(n):
            pos = idx[:dim] + (k,) + idx[dim + 1 :]
            hit = i == k
            a[pos] = v_ite(hit, v_ite(touched[pos], f(a[pos], s[idx]), s[idx]), a[pos])
            touched[pos] = s_or(touched[pos], hit)
    return a


def _cmp_sort(ls, descending, k):
    import functools as ft

    def _less(a, b):
        if k == "b":
            return bool(s_and(s_not(a), b))
        return bool(a < b)

    def _cmp(p, q):
        a, b = p[0], q[0]
        if descending:
            a, b = b, a
        if _less(a, b):
            return -1
        if _less(b, a):
            return 1
        return 0

    return sorted([(x, i) for i, x in enumerate(ls)], key=ft.cmp_to_key(_cmp))


@_op("sort")
def _sort(ms, x, *args, **kw):
    stable = kw.get("stable")
    args = list(args)
    if args and (args[0] is None or isinstance(args[0], bool)):
        stable = args.pop(0)
    dim = kw.get("dim", args[0] if args else -1)
    desc = kw.get("descending", args[1] if len(args) > 1 else False)
    k = kind_of(x.dtype)
    a = _arr(x)
    both = _along(a, dim, lambda ls: _box(_cmp_sort(ls, desc, k)))
    return _obj(_frompy(lambda p: p[0], 1)(both)), _obj(_frompy(lambda p: p[1], 1)(both))


def _box(pairs):
    return [_Pair(p) for p in pairs]


class _Pair:
    def __init__(self, p):
        self.p = p

    def __getitem__(self, i):
        return self.p[i]


@_op("argsort")
def _argsort(m, x, *args, **kw):
    return _sort([m, m], x, *args, **kw)[1]


@_op("topk")
def _topk(ms, x, k, dim=-1, largest=True, sorted=True):
    vals, idx = _sort(ms, x, dim=dim, descending=largest)
    dim = dim % max(vals.ndim, 1)
    sl = (slice(None),) * dim + (slice(0, k),)
    return vals[sl], idx[sl]


@_op("searchsorted")
def _searchsorted(m, seq, x, out_int32=False, right=False, side=None, sorter=None):
    right = right or side == "right"
    k = _common_kind([seq, x])
    s, v = _vals(seq, k), _vals(x, k)
    out = _emp(m.shape)
    for idx in np.ndindex(*out.shape):
        row = s if s.ndim == 1 else s[idx[:-1]]
        y = v[idx]
        out[idx] = symx.s_count([(r <= y) if right else (r < y) for r in row])
    return _obj(_frompy(lambda z: norm(z, "i"), 1)(out)) if out.size else out


# data dependent shapes


def _special_masked_select(func, args, kwargs):
    x, mask = args
    k = kind_of(x.dtype)
    a, mm = np.broadcast_arrays(_vals(x, k), _vals(mask, "b"))
    res = [v for v, c in zip(a.reshape(-1), mm.reshape(-1)) if bool(c)]
    out = _emp((len(res),))
    for i, v in enumerate(res):
        out[i] = v
    return SymTensor(out, x.dtype)


def _special_nonzero(func, args, kwargs):
    (x,) = args
    mm = np.array([bool(v) for v in _vals(x, "b").reshape(-1)], dtype=bool).reshape(x.shape)
    return torch.tensor(np.argwhere(mm).reshape(-1, x.dim()), dtype=torch.int64)


def _special_masked_scatter(func, args, kwargs):
    x, mask, src = args
    k = kind_of(x.dtype)
    a = _vals(x, k).copy()
    mm = np.broadcast_to(_vals(mask, "b"), a.shape)
    s = list(_vals(src, k).reshape(-1))
    j = 0
    for idx in np.ndindex(*a.shape):
        if bool(mm[idx]):
            a[idx] = s[j]
            j += 1
    return SymTensor(a, x.dtype)


def _special_scalar(func, args, kwargs):
    v = args[0]._a.reshape(-1)[0]
    k = kind_of(args[0].dtype)
    if k == "b":
        return bool(v)
    if k == "i":
        return int(v)
    if is_sym(v):
        raise Unsupported("symbolic float to Python")
    return float(v)


def _special_equal(func, args, kwargs):
    a, b = args
    if a.shape != b.shape:
        return False
    k = _common_kind([a, b])
    return bool(s_and([x == y for x, y in zip(_vals(a, k).reshape(-1), _vals(b, k).reshape(-1))]))


def _special_nonzero_(func, args, kwargs):
    return bool(args[0]._a.reshape(-1)[0])


def _special_pack_padded(func, args, kwargs):
    x, lengths, batch_first = args
    a = _arr(x)
    if batch_first:
        a = a.swapaxes(0, 1)
    lens = [int(v) for v in values(lengths).reshape(-1)]
    if any(v <= 0 for v in lens):
        raise RuntimeError("Length of all samples has to be greater than 0, but found an element in 'lengths' that is <= 0")
    if any(u < v for u, v in zip(lens, lens[1:])):
        raise RuntimeError("'lengths' array has to be sorted in decreasing order")
    sizes = [sum(v > i for v in lens) for i in range(lens[0])]
    data = np.concatenate([a[i, :n] for i, n in enumerate(sizes)], axis=0)
    return SymTensor(data, x.dtype), torch.tensor(sizes, dtype=torch.int64)


def _install_vf():
    """composite ops which access the raw data directly, thus no dispatch"""
    from torch import _VF

    orig = _VF._pad_packed_sequence

    def _pad_packed_sequence(data, batch_sizes, batch_first, padding_value, total_length):
        if not isinstance(data, SymTensor):
            if _mode:
                with torch.utils._python_dispatch._disable_current_modes():
                    return orig(data, batch_sizes, batch_first, padding_value, total_length)
            return orig(data, batch_sizes, batch_first, padding_value, total_length)
        a = _arr(data)
        sizes = [int(v) for v in values(batch_sizes).reshape(-1)]
        n_t = len(sizes)
        if total_length > 0:
            if total_length < n_t:
                raise RuntimeError("Expected total_length to be at least the length of the longest sequence in input")
            n_t = total_length
        out = _emp((n_t, sizes[0]) + a.shape[1:])
        pos = 0
        pad = norm(padding_value, kind_of(data.dtype))
        for i in range(n_t):
            n = sizes[i] if i < len(sizes) else 0
            out[i, :n] = a[pos : pos + n]
            for j in np.ndindex(*out[i, n:].shape):
                out[i, n:][j] = pad
            pos += n
        lens = [sum(s > j for s in sizes) for j in range(sizes[0])]
        if batch_first:
            out = out.swapaxes(0, 1)
        return SymTensor(out, data.dtype), torch.tensor(lens, dtype=torch.int64)

    _VF._pad_packed_sequence = _pad_packed_sequence


_install_vf()

def ctc_value(rows, labels, blank, zero_infinity=False):
    """
    CTC by its definition: -log of the sum over all alignments.

    :param rows: log probs [T][C]
    :param list[int] labels:
    """
    import itertools as _it

    c = len(rows[0]) if rows else 0
    terms = []
    for path in _it.product(range(c), repeat=len(rows)):
        out, prev = [], None
        for p in path:
            if p != prev and p != blank:
                out.append(p)
            prev = p
        if out == list(labels):
            acc = Fraction(0)
            for row, p in zip(rows, path):
                acc = v_add(acc, row[p])
            terms.append(acc)
    if not terms:
        return Fraction(0) if zero_infinity else _inf
    if len(terms) == 1:
        return v_neg(terms[0])
    total = Fraction(0)
    for x in terms:
        total = v_add(total, v_uf("exp")(x))
    return v_neg(v_uf("log")(total))


def _special_ctc(func, args, kwargs):
    log_probs, targets, in_lens, tgt_lens = args[:4]
    blank = args[4] if len(args) > 4 else kwargs.get("blank", 0)
    zero_inf = args[5] if len(args) > 5 else kwargs.get("zero_infinity", False)
    a = _arr(log_probs)
    tg = values(targets)
    il = [int(v) for v in (in_lens if isinstance(in_lens, (list, tuple)) else values(in_lens).reshape(-1))]
    tl = [int(v) for v in (tgt_lens if isinstance(tgt_lens, (list, tuple)) else values(tgt_lens).reshape(-1))]
    n = a.shape[1]
    if tg.ndim == 1:
        pos, rows = 0, []
        for v in tl:
            rows.append(tg[pos : pos + v])
            pos += v
        tg = rows
    out = _emp((n,))
    for i in range(n):
        labs = [int(v) for v in list(tg[i])[: tl[i]]]
        # the infinite loss itself is kept. the caller sets it to zero, if wanted.
        out[i] = ctc_value([list(a[t, i]) for t in range(il[i])], labs, blank)
    return SymTensor(out, log_probs.dtype), SymTensor(_full((n, 1, 1), 0, "f"), log_probs.dtype)


_special_ops = {
    "_ctc_loss": _special_ctc,
    "_pack_padded_sequence": _special_pack_padded,
    "index": _special_index,
    "masked_select": _special_masked_select,
    "nonzero": _special_nonzero,
    "masked_scatter": _special_masked_scatter,
    "_local_scalar_dense": _special_scalar,
    "item": _special_scalar,
    "equal": _special_equal,
    "is_nonzero": _special_nonzero_,
}


# matmul, conv, norm


def _dot(xs, ys, zero=Fraction(0)):
    r = zero
    for x, y in zip(xs, ys):
        r = v_add(r, v_mul(x, y))
    return r


def _mm_arr(a, b, zero):
    out = _emp((a.shape[0], b.shape[1]))
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = _dot(a[i], b[:, j], zero)
    return out


@_op("mm")
def _mm(m, a, b):
    return _mm_arr(_vals(a, m.kind), _vals(b, m.kind), norm(0, m.kind))


@_op("bmm")
def _bmm(m, a, b):
    a, b = _vals(a, m.kind), _vals(b, m.kind)
    out = _emp(m.shape)
    for i in range(a.shape[0]):
        out[i] = _mm_arr(a[i], b[i], norm(0, m.kind))
    return out


@_op("mv")
def _mv(m, a, b):
    a, b = _vals(a, m.kind), _vals(b, m.kind)
    return _mm_arr(a, b[:, None], norm(0, m.kind))[:, 0]


@_op("dot")
def _dot_op(m, a, b):
    return _dot(_vals(a, m.kind), _vals(b, m.kind), norm(0, m.kind))


@_op("addmm")
def _addmm(m, c, a, b, beta=1, alpha=1):
    r = _mm_arr(_vals(a, m.kind), _vals(b, m.kind), norm(0, m.kind))
    return _obj(_frompy(lambda x, y: v_add(v_mul(norm(beta, m.kind), x), v_mul(norm(alpha, m.kind), y)), 2)(_vals(c, m.kind), r))


@_op("linear")
def _linear(m, x, w, b=None):
    a, w = _vals(x, m.kind), _vals(w, m.kind)
    r = _mm_arr(a.reshape(-1, a.shape[-1]), w.T, norm(0, m.kind)).reshape(m.shape)
    if b is not None:
        r = _frompy(v_add, 2)(r, _vals(b, m.kind))
    return _obj(r)


@_op("convolution")
def _convolution(m, x, w, bias, stride, padding, dilation, transposed, output_padding, groups):
    a, w = _vals(x, "f"), _vals(w, "f")
    bias = _vals(bias, "f") if bias is not None else None
    nd = a.ndim - 2
    out = _full(m.shape, 0, "f")
    ks = w.shape[2:]
    if not transposed:
        cout, cin_g = w.shape[:2]
        cog = cout // groups
        for b in range(m.shape[0]):
            for co in range(cout):
                g = co // cog
                for pos in np.ndindex(*m.shape[2:]):
                    s = Fraction(0) if bias is None else bias[co]
                    for ci in range(cin_g):
                        for kp in np.ndindex(*ks):
                            src = tuple(pos[d] * stride[d] - padding[d] + kp[d] * dilation[d] for d in range(nd))
                            if all(0 <= src[d] < a.shape[2 + d] for d in range(nd)):
                                s = v_add(s, v_mul(a[(b, g * cin_g + ci) + src], w[(co, ci) + kp]))
                    out[(b, co) + pos] = s
        return out
    cin, cog = w.shape[:2]
    cig = cin // groups
    for b in range(m.shape[0]):
        if bias is not None:
            for co in range(m.shape[1]):
                for pos in np.ndindex(*m.shape[2:]):
                    out[(b, co) + pos] = bias[co]
        for ci in range(cin):
            g = ci // cig
            for co in range(cog):
                for pos in np.ndindex(*a.shape[2:]):
                    for kp in np.ndindex(*ks):
                        dst = tuple(pos[d] * stride[d] - padding[d] + kp[d] * dilation[d] for d in range(nd))
                        if all(0 <= dst[d] < m.shape[2 + d] for d in range(nd)):
                            i = (b, g * cog + co) + dst
                            out[i] = v_add(out[i], v_mul(a[(b, ci) + pos], w[(ci, co) + kp]))
    return out


def _pool_windows(a, shape, kernel, stride, padding, dilation, nd):
    kernel, stride, padding, dilation = [list(v) * nd if len(v) == 1 else list(v) for v in (kernel, stride or kernel, padding, dilation)]
    lead = a.shape[: a.ndim - nd]
    for li in np.ndindex(*lead):
        for pos in np.ndindex(*shape[len(lead) :]):
            win, idxs = [], []
            for kp in np.ndindex(*kernel):
                src = tuple(pos[d] * stride[d] - padding[d] + kp[d] * dilation[d] for d in range(nd))
                if all(0 <= src[d] < a.shape[len(lead) + d] for d in range(nd)):
                    win.append(a[li + src])
                    idxs.append(src)
            # number of elements incl. padding (count_include_pad), torch: clipped to size + padding
            cnt = 1
            for d in range(nd):
                s0 = pos[d] * stride[d] - padding[d]
                e0 = min(s0 + kernel[d], a.shape[len(lead) + d] + padding[d])
                cnt *= e0 - s0
            yield li + pos, win, idxs, cnt


@_op("max_pool2d_with_indices", "max_pool3d_with_indices")
def _max_pool(ms, x, kernel, stride=(), padding=(0,), dilation=(1,), ceil_mode=False):
    a = _arr(x)
    nd = 2 if len(kernel) != 3 else 3
    out, ind = _emp(ms[0].shape), _full(ms[1].shape, 0, "i")
    for p, win, _idxs, _ in _pool_windows(a, ms[0].shape, kernel, stride, padding, dilation, nd):
        out[p] = functools.reduce(v_max, win) if win else -_inf
    return out, ind


@_op("avg_pool2d", "avg_pool3d")
def _avg_pool(m, x, kernel, stride=(), padding=(0,), ceil_mode=False, count_include_pad=True, divisor_override=None):
    a = _arr(x)
    nd = 2 if len(kernel) != 3 else 3
    out = _emp(m.shape)
    for p, win, _idxs, cnt in _pool_windows(a, m.shape, kernel, stride, padding, (1,), nd):
        n = divisor_override or (cnt if count_include_pad else len(win))
        out[p] = v_div(_fsum(Fraction(0))(win), Fraction(n))
    return out


@_op("native_batch_norm")
def _native_batch_norm(ms, x, w, b, rm, rv, training, momentum, eps):
    a = _arr(x)
    c = a.shape[1]
    out = _emp(a.shape)
    eps = norm(eps, "f")
    save_m, save_i = _full(ms[1].shape, 0, "f"), _full(ms[2].shape, 0, "f")
    for ch in range(c):
        col = list(a[:, ch].reshape(-1))
        if training:
            mu = v_div(_fsum(Fraction(0))(col), Fraction(len(col)))
            var = _fvar(0)(col)
            if rm is not None:
                raise Unsupported("batch norm training with running stats")
        else:
            mu, var = _vals(rm, "f")[ch], _vals(rv, "f")[ch]
        inv = v_uf("rsqrt")(v_add(var, eps))
        for idx in np.ndindex(*(a.shape[0:1] + a.shape[2:])):
            p = (idx[0], ch) + idx[1:]
            v = v_mul(v_sub(a[p], mu), inv)
            if w is not None:
                v = v_mul(v, _vals(w, "f")[ch])
            if b is not None:
                v = v_add(v, _vals(b, "f")[ch])
            out[p] = v
    return out, save_m, save_i


@_op("native_layer_norm")
def _native_layer_norm(ms, x, shape, w, b, eps):
    a = _arr(x)
    n = len(shape)
    lead = a.shape[: a.ndim - n]
    out = _emp(a.shape)
    eps = norm(eps, "f")
    for li in np.ndindex(*lead):
        col = list(a[li].reshape(-1))
        mu = v_div(_fsum(Fraction(0))(col), Fraction(len(col)))
        inv = v_div(Fraction(1), v_uf("sqrt")(v_add(_fvar(0)(col), eps)))
        r = [v_mul(v_sub(v, mu), inv) for v in col]
        if w is not None:
            r = [v_mul(v, y) for v, y in zip(r, _vals(w, "f").reshape(-1))]
        if b is not None:
            r = [v_add(v, y) for v, y in zip(r, _vals(b, "f").reshape(-1))]
        o = _emp(len(r))
        o[:] = r
        out[li] = o.reshape(tuple(shape))
    return out, _full(ms[1].shape, 0, "f"), _full(ms[2].shape, 0, "f")


@_op("nll_loss_forward", "nll_loss2d_forward")
def _nll_loss(ms, x, target, weight, reduction, ignore_index):
    a, t = _arr(x), _vals(target, "i")
    if weight is not None:
        raise Unsupported("nll weight")
    if a.ndim == 1:
        a, t = a[None], t.reshape(1)
    out = _emp(t.shape)
    for idx in np.ndindex(*t.shape):
        col = [a[(idx[0], k) + idx[1:]] for k in range(a.shape[1])]
        i = t[idx]
        if not is_sym(i) and i == ignore_index:
            out[idx] = Fraction(0)
            continue
        out[idx] = v_neg(_pick(col, i))
    tot = Fraction(t.size)
    if reduction == 0:
        r = out.reshape(ms[0].shape)
    else:
        s = _fsum(Fraction(0))(list(out.reshape(-1)))
        r = s if reduction == 2 else v_div(s, tot)
    return r, tot


@_op("dropout", "native_dropout", "bernoulli", "rand_like", "randn_like")
def _rnd(m, *args, **kw):
    raise Unsupported("random op")


@_op("arange", "full", "zeros", "ones")
def _factory(m, *args, **kw):
    raise Unsupported("factory with symbolic")


# ---------------- comparison of results


def is_symbolic(t) -> bool:
    """whether symbolic tensor"""
    return isinstance(t, SymTensor)


def close(h, a, b, tol=1e-3):
    """
    equality of two numbers: exact in the symbolic run, up to rounding in the concrete run.
    :return: condition
    """
    if is_sym(a) or is_sym(b):
        if _is_special(a) or _is_special(b):
            return False
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return symx.s_iff(a, b)
        a, b = norm(a, "f"), norm(b, "f")
        d = canon(symx.to_z3_real(a) - symx.to_z3_real(b))
        if z3.is_rational_value(d):
            return d.as_fraction() == 0
        return a == b
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b if h.symbolic else abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
