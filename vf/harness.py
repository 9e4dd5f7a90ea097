"""
Harness API on top of :mod:`symx`.

A harness is a function ``fn(h, **params)``. It is run

* symbolically (:class:`SymH`): inputs are solver variables, :func:`check` is a solver query over all their values,
* concretely (:class:`ConcreteH`): the same function, with concrete inputs taken from a solver model. This is how
  counterexamples are replayed on the real code, and how explored paths are validated against real executions.
"""

from __future__ import annotations

import math
import os
import sys
import contextlib
import traceback
from fractions import Fraction
from typing import Any, Dict, List, Optional, Callable

from . import symx
from .symx import s_and, s_or, s_not, s_implies, s_iff, s_ite, s_max, s_min, s_sum, s_count, s_distinct, is_sym  # noqa

REPO = os.environ.get("VF_REPO", "/repo")


class ConcreteViolation(BaseException):
    """assertion violated in concrete run"""


class AssumptionFailed(BaseException):
    """concrete inputs not in the input space"""


class StopPath(BaseException):
    """regular early end of concrete run"""


class Case:
    """one harness with fixed bounds"""

    def __init__(
        self,
        name: str,
        fn: Callable,
        kwargs: Optional[Dict[str, Any]] = None,
        *,
        bounds: str = "",
        budget: Optional[float] = None,
        validate: int = 6,
        engine: Optional[Dict[str, Any]] = None,
        covers: Optional[List[str]] = None,
        query_timeout: float = 60,
        exceptions_ok: bool = False,
        real_rounding: bool = False,
    ):
        self.name = name
        self.fn = fn
        self.kwargs = kwargs or {}
        self.bounds = bounds
        self.budget = budget
        self.validate = validate
        self.engine = engine or {}
        self.covers = covers or []
        self.query_timeout = query_timeout
        self.exceptions_ok = exceptions_ok
        self.real_rounding = real_rounding  # exact reals vs floats: a path can differ on exact boundaries


class H:
    """common"""

    symbolic: bool

    def __init__(self):
        self.covered: Dict[str, int] = {}
        self.observed: List[Any] = []

    def cover(self, tag: str, cond=True):
        """reachability witness"""
        raise NotImplementedError

    def observe(self, *vals):
        """observable values, to compare symbolic vs concrete execution"""
        for v in vals:
            self._observe(v)

    def _observe(self, v):
        if isinstance(v, dict):
            for k in v:
                self.observed.append(str(k))
                self._observe(v[k])
        elif isinstance(v, (list, tuple)) or type(v).__name__ == "ndarray":
            self.observed.append(("len", len(v)))
            for x in v:
                self._observe(x)
        else:
            self.observed.append(v)

    # structured inputs

    def choice(self, name: str, options):
        """one of the options (forks)"""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def ints(self, name: str, n: int, lo: int, hi: int) -> list:
        """list of ints"""
        return [self.int("%s%i" % (name, i), lo, hi) for i in range(n)]

    def reals(self, name: str, n: int, lo, hi, denom=None) -> list:
        """list of reals"""
        return [self.real("%s%i" % (name, i), lo, hi, denom) for i in range(n)]

    def permutation(self, name: str, n: int) -> list:
        """arbitrary permutation of range(n)"""
        p = [self.int("%s%i" % (name, i), 0, n - 1) for i in range(n)]
        self.assume(s_distinct(p))
        return p

    def fork(self, cond) -> bool:
        """explicit branch"""
        return bool(cond)


class SymH(H):
    """symbolic"""

    symbolic = True

    def __init__(self, eng: symx.Engine):
        super().__init__()
        self.eng = eng

    def int(self, name, lo=None, hi=None):
        """int input"""
        if lo is not None and hi is not None and not is_sym(lo) and not is_sym(hi) and lo == hi:
            return lo
        return self.eng.int_var(name, lo, hi)

    def bool(self, name):
        """bool input"""
        return self.eng.bool_var(name)

    def real(self, name, lo=None, hi=None, denom=None):
        """real input"""
        return self.eng.real_var(name, lo, hi, denom)

    def assume(self, c):
        """restrict input space"""
        self.eng.assume(c)

    def check(self, c, msg):
        """property assertion: must hold for all inputs of this path"""
        self.eng.check(c, msg)

    def check_all(self, conds, msg):
        """conjunction, one query"""
        self.eng.check(s_and(*conds), msg)

    def fail(self, msg):
        """this path must be infeasible"""
        self.eng.check(False, msg)
        raise symx.PathStop()

    def cover(self, tag, cond=True):
        """reachability witness. with cond: without forking"""
        if tag in self.eng.stats.covers:
            return
        if cond is True or (not is_sym(cond) and cond):
            self.eng.stats.covers[tag] = 1
        elif is_sym(cond):
            if self.eng._check_sat(symx.to_z3_bool(cond)) == symx.z3.sat:
                self.eng.stats.covers[tag] = 1

    def stop(self):
        """regular end"""
        raise symx.PathStop()


class ConcreteH(H):
    """concrete"""

    symbolic = False

    def __init__(self, inputs: Dict[str, Any]):
        super().__init__()
        self.inputs = inputs
        self.failed = None
        self._counters: Dict[str, int] = {}

    def _get(self, name, default):
        n = self._counters.get(name, 0)
        self._counters[name] = n + 1
        name = name if n == 0 else "%s#%i" % (name, n)
        return self.inputs.get(name, default)

    def int(self, name, lo=None, hi=None):
        """int input"""
        if lo is not None and hi is not None and lo == hi:
            return lo
        v = int(self._get(name, lo if lo is not None else hi if hi is not None else 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumptionFailed("int %s" % name)
        return v

    def bool(self, name):
        """bool input"""
        return bool(self._get(name, False))

    def real(self, name, lo=None, hi=None, denom=None):
        """real input"""
        v = self._get(name, lo if lo is not None else 0)
        v = float(Fraction(v)) if not isinstance(v, float) else v
        return v

    def assume(self, c):
        """restrict input space"""
        if not c:
            raise AssumptionFailed()

    def check(self, c, msg):
        """property assertion"""
        if not c:
            self._fail(msg)

    def check_all(self, conds, msg):
        """property assertion"""
        if not all(conds):
            self._fail(msg)

    def fail(self, msg):
        """never ok"""
        self._fail(msg)

    def _fail(self, msg):
        # also recorded, in case the code under test catches it
        if self.failed is None:
            self.failed = msg
        raise ConcreteViolation(msg)

    def cover(self, tag, cond=True):
        """reachability"""
        if cond:
            self.covered[tag] = 1

    def stop(self):
        """regular end"""
        raise StopPath()


class ConcreteResult:
    """result of one concrete run"""

    def __init__(self, status: str, msg: str = "", observed=None, tb: str = ""):
        self.status = status  # ok, violation, exception, assumption
        self.msg = msg
        self.observed = observed
        self.tb = tb


def run_concrete(case: Case, inputs: Dict[str, Any]) -> ConcreteResult:
    """run the harness with concrete inputs on the real code"""
    h = ConcreteH(inputs)
    try:
        case.fn(h, **case.kwargs)
    except ConcreteViolation as exc:
        return ConcreteResult("violation", str(exc), h.observed)
    except AssumptionFailed as exc:
        return ConcreteResult("assumption", str(exc), h.observed)
    except StopPath:
        pass
    except Exception as exc:
        if h.failed is not None:
            return ConcreteResult("violation", h.failed, h.observed)
        return ConcreteResult("exception", "%s: %s" % (type(exc).__name__, exc), h.observed, traceback.format_exc())
    if h.failed is not None:
        return ConcreteResult("violation", h.failed, h.observed)
    return ConcreteResult("ok", "", h.observed)


# --- stubs usable in both modes


@contextlib.contextmanager
def patched(*triples):
    """(obj, attr, value)..."""
    old = []
    try:
        for obj, attr, value in triples:
            # inherited class attributes and builtins shadowed in a module are not own attributes
            own = vars(obj).get(attr, _missing) if hasattr(obj, "__dict__") else getattr(obj, attr)
            old.append((obj, attr, own))
            setattr(obj, attr, value)
        yield
    finally:
        for obj, attr, value in reversed(old):
            if value is _missing:
                delattr(obj, attr)
            else:
                setattr(obj, attr, value)


_missing = object()


@contextlib.contextmanager
def repr_tokens():
    """
    ``repr`` of a symbolic number is an expression, which evaluates (with ``np`` = numpy) to the same symbolic number.
    Stands for the exact round trip of ``repr`` of Python floats and ints.
    """
    import numpy

    tokens = []

    def _repr(self):
        tokens.append(self)
        return "np._vf_tok(%i)" % (len(tokens) - 1)

    with patched(
        (symx._SymNum, "__repr__", _repr), (symx._SymNum, "__str__", _repr), (numpy, "_vf_tok", lambda i: tokens[i])
    ):
        yield


class _SymFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, x=0.0):
        return x if is_sym(x) and isinstance(x, float) else (x + 0.0 if is_sym(x) else float(x))


class SymFloat(metaclass=_SymFloatMeta):
    """stand-in for ``float`` in a module, which keeps symbolic values"""


class _SymIntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *args):
        return x if is_sym(x) and isinstance(x, int) else int(x, *args)


class SymInt(metaclass=_SymIntMeta):
    """stand-in for ``int`` in a module, which keeps symbolic values"""


class RandomStub:
    """
    Stand-in for ``numpy.random.RandomState``: every draw is an arbitrary value of its documented range,
    as a deterministic function of the seed and of the index of the draw.
    (Same seed and same sequence of calls -> same values.)
    """

    def __init__(self, h: H, prefix: str = "rnd"):
        self.h = h
        self.prefix = prefix
        self.seeds: List[Any] = []
        self.memo: Dict[Any, Any] = {}
        self.num_created = 0

    def seed_index(self, seed) -> int:
        """identify seed (forks on equality with earlier seeds, if symbolic)"""
        for i, s in enumerate(self.seeds):
            if s is seed or bool(s == seed):
                return i
        self.seeds.append(seed)
        return len(self.seeds) - 1

    def RandomState(self, seed=None):  # noqa
        """ctor"""
        self.num_created += 1
        if isinstance(seed, (list, tuple)) or type(seed).__name__ == "ndarray":
            seed = tuple(seed)
        return _StubRandomState(self, self.seed_index(seed))

    default_rng = RandomState


class _StubRandomState:
    def __init__(self, owner: RandomStub, idx: int):
        self.owner = owner
        self.idx = idx
        self.n = 0

    def _draw(self, kind, make):
        key = (self.idx, self.n, kind)
        self.n += 1
        if key not in self.owner.memo:
            self.owner.memo[key] = make("%s_s%i_d%i_%s" % (self.owner.prefix, self.idx, key[1], kind[0]))
        return self.owner.memo[key]

    def seed(self, seed):
        """re-seed"""
        self.idx = self.owner.seed_index(seed)
        self.n = 0

    def permutation(self, x):
        """permutation"""
        import numpy

        if isinstance(x, int):
            n = int(x)
            items = list(range(n))
        else:
            items = list(x)
            n = len(items)
        p = self._draw(("perm", n), lambda name: self.owner.h.permutation(name, n))
        p = [int(i) for i in p]  # forks over all permutations
        res = [items[i] for i in p]
        if any(is_sym(v) for v in res):
            arr = numpy.empty((n,), dtype=object)
            arr[:] = res
            return arr
        return numpy.array(res, dtype="int64") if not res or isinstance(res[0], (int, numpy.integer)) else numpy.array(res)

    def shuffle(self, x):
        """in place"""
        n = len(x)
        p = self._draw(("perm", n), lambda name: self.owner.h.permutation(name, n))
        p = [int(i) for i in p]
        items = [x[i] for i in p]
        for i in range(n):
            x[i] = items[i]

    def randint(self, low, high=None, size=None, dtype=None):
        """[low, high)"""
        if high is None:
            low, high = 0, low

        def _one(_i=0):
            def _make(name):
                v = self.owner.h.int(name)
                return v

            v = self._draw(("randint",), _make)
            self.owner.h.assume(s_and(v >= low, v < high))
            return v

        if size is None:
            return _one()
        import numpy

        if isinstance(size, int):
            size = (int(size),)
        arr = numpy.empty(size, dtype=object)
        for ix in numpy.ndindex(*size):
            arr[ix] = _one()
        return arr

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        """choice"""
        import numpy

        items = list(range(int(a))) if isinstance(a, int) else list(a)
        assert items
        if size is None:
            return items[int(self.randint(len(items)))]
        assert replace or int(size) <= len(items)
        if not replace:
            perm = list(self.permutation(len(items)))
            return numpy.array([items[int(i)] for i in perm[: int(size)]])
        return numpy.array([items[int(self.randint(len(items)))] for _ in range(int(size))])

    def random_sample(self, size=None):
        """[0,1)"""
        assert size is None
        v = self._draw(("uni",), lambda name: self.owner.h.real(name, 0, 1 - 1.0 / 1024, 1024))
        return v

    def random(self, size=None):
        """[0,1)"""
        return self.random_sample(size)

    rand = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        """uniform"""
        return low + (high - low) * self.random_sample(size)


def math_patches():
    """math functions which are C and would need a concrete float"""
    _isinf, _isnan, _isfinite = math.isinf, math.isnan, math.isfinite

    def isinf(x):
        """isinf"""
        return False if is_sym(x) else _isinf(x)

    def isnan(x):
        """isnan"""
        return False if is_sym(x) else _isnan(x)

    def isfinite(x):
        """isfinite"""
        return True if is_sym(x) else _isfinite(x)

    return [(math, "isinf", isinf), (math, "isnan", isnan), (math, "isfinite", isfinite)]
