"""
symx: symbolic execution of real Python code with an SMT solver (z3).

The functions of /repo are executed as they are, by the normal Python interpreter, on proxy objects
(:class:`SymInt`, :class:`SymReal`, :class:`SymBool`) which carry SMT terms.
Whenever the code needs a concrete truth value (``if``, ``while``, ``and``, comparison in a sort, ...),
:meth:`Engine.branch` asks the solver which sides are feasible under the path condition, and explores all of them
(depth first, by re-executing the harness with the recorded decision prefix).
Whenever the code needs a concrete integer (index into a list, dict key, C function), :meth:`Engine.concretize`
splits over *all* values which are feasible under the path condition.
Both are sound and complete: the union of all explored paths is exactly the input space of the harness
(within the declared bounds of the inputs).

Assertions (:meth:`Engine.check`) are solver queries (path condition AND NOT assertion).
"""

from __future__ import annotations

import sys
import time
import math
from fractions import Fraction
from typing import Any, Optional, Dict, List

_Z3_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_Z3_PATH)  # at the end: everything else comes from the normal venv
    import z3

import numpy


class EngineSignal(BaseException):
    """base of all control flow signals. BaseException such that `except Exception` in the code does not catch it"""


class PathAbort(EngineSignal):
    """assumption infeasible, drop this path"""


class PathStop(EngineSignal):
    """end this path early (fine)"""


class Unsupported(EngineSignal):
    """the encoding does not cover this operation"""


class SolverUnknown(Unsupported):
    """solver gave up"""


class Nondeterminism(EngineSignal):
    """replaying a decision prefix did not reproduce the same branch conditions"""


class OutOfBudget(EngineSignal):
    """time / path budget"""


class ViolationFound(EngineSignal):
    """assertion can be violated"""

    def __init__(self, msg: str, inputs: Dict[str, Any]):
        super().__init__(msg)
        self.msg = msg
        self.inputs = inputs


_cur: Optional["Engine"] = None


def cur() -> "Engine":
    """current engine"""
    assert _cur is not None, "no symbolic engine active"
    return _cur


class _Decision:
    __slots__ = ("expr", "val", "both", "alt", "value", "kind")

    def __init__(self, expr, val, both, alt, value=None, kind="b"):
        self.expr = expr
        self.val = val
        self.both = both  # whether solver was pushed
        self.alt = alt  # whether the alternative still has to be explored
        self.value = value
        self.kind = kind


class Stats:
    """counters of one exploration"""

    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.queries = 0
        self.queries_sat = 0
        self.queries_unsat = 0
        self.assertions = 0
        self.assertions_trivial = 0
        self.concretizations = 0
        self.solver_s = 0.0
        self.max_query_s = 0.0
        self.inconclusive: List[str] = []
        self.covers: Dict[str, int] = {}
        self.validated = 0

    def as_dict(self):
        """dict"""
        return dict(self.__dict__)


class Engine:
    """
    One exploration of one harness.
    """

    def __init__(
        self,
        *,
        query_timeout_ms: int = 60_000,
        deadline: Optional[float] = None,
        max_paths: Optional[int] = None,
        max_concretize: int = 4096,
        seed: int = 1,
    ):
        self.found: Optional[ViolationFound] = None
        self.query_timeout_ms = query_timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", self._first_timeout_ms())
        self.solver.set("random_seed", seed & 0x7FFFFFFF)
        self.seed = seed
        self._sat_solver = self.solver
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_concretize = max_concretize
        self.trail: List[_Decision] = []
        self.pos = 0
        self.model: Optional[z3.ModelRef] = None
        self.stats = Stats()
        self.inputs: Dict[str, Any] = {}  # name -> z3 const (+ decode)
        self.input_kinds: Dict[str, Any] = {}
        self._counters: Dict[str, int] = {}
        self.concretize_divisors = True
        self.concretize_products = False
        self.hash_reals = False
        self.split_hook = None  # called between paths. see run.Splitter

    # --- solver

    def _first_timeout_ms(self) -> int:
        return min(self.query_timeout_ms, 2000)

    def _retry(self, assumptions) -> z3.CheckSatResult:
        """the incremental solver did not decide it in time: from scratch, with other seeds / tactics"""
        r = z3.unknown
        for i in range(4):
            if self.deadline is not None and time.time() > self.deadline:
                break
            solver = z3.Solver() if i % 2 else z3.Tactic("smt" if i else "default").solver()
            solver.set("timeout", max(self.query_timeout_ms // 4, 1000))
            if i:
                solver.set("random_seed", (self.seed + 17 * i) & 0x7FFFFFFF)
            solver.add(*self.solver.assertions())
            solver.add(*assumptions)
            r = solver.check()
            if r != z3.unknown:
                self._sat_solver = solver
                break
        return r

    def _check_sat(self, *assumptions) -> z3.CheckSatResult:
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfBudget("time budget")
        t = time.time()
        self._sat_solver = self.solver
        r = self.solver.check(*assumptions)
        if r == z3.unknown:
            r = self._retry(assumptions)
        dt = time.time() - t
        self.stats.queries += 1
        self.stats.solver_s += dt
        if dt > self.stats.max_query_s:
            self.stats.max_query_s = dt
        if r == z3.sat:
            self.stats.queries_sat += 1
        elif r == z3.unsat:
            self.stats.queries_unsat += 1
        else:
            raise SolverUnknown("solver: %s" % self.solver.reason_unknown())
        return r

    def _feasible(self, c) -> bool:
        """is pc & c satisfiable. c: z3 bool. updates self.model"""
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return True
        r = self._check_sat(c)
        if r == z3.sat:
            self.model = self._sat_solver.model()
            return True
        return False

    # --- branching

    def branch(self, c, value=None) -> bool:
        """
        :param c: z3 bool
        :param value: if given, always record
        :return: concrete truth value on this path
        """
        if value is None:
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            c = z3.simplify(c)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "b" or not (d.expr is c or d.expr.eq(c)):
                raise Nondeterminism("branch %s vs recorded %s" % (c, d.expr))
            self.pos += 1
            return d.val
        self.stats.decisions += 1
        can_t = self._feasible(c)
        model_t = self.model if can_t else None
        nc = z3.Not(c)
        if not can_t:
            can_f = True  # pc itself is feasible
            self.model = None if self.model is None else self.model
        else:
            if self.model is not None and z3.is_true(self.model.eval(nc, model_completion=True)):
                can_f = True
            else:
                can_f = self._check_sat(nc) == z3.sat
            self.model = model_t
        if can_t and can_f:
            self.solver.push()
            self.solver.add(c)
            self.trail.append(_Decision(c, True, True, True, value))
            self.pos += 1
            # model must satisfy c
            if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None
            return True
        val = can_t
        self.trail.append(_Decision(c, val, False, False, value))
        self.pos += 1
        return val

    def assume(self, c):
        """
        :param c: SymBool / bool / z3
        """
        c = to_z3_bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "a" or not d.expr.eq(c):
                raise Nondeterminism("assume %s vs recorded %s" % (c, d.expr))
            self.pos += 1
            return
        if z3.is_false(c) or not self._feasible(c):
            raise PathAbort()
        self.solver.push()
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        self.trail.append(_Decision(c, True, True, False, kind="a"))
        self.pos += 1

    def get_model(self) -> z3.ModelRef:
        """model of pc"""
        if self.model is None:
            if self._check_sat() != z3.sat:
                raise PathAbort()
            self.model = self._sat_solver.model()
        return self.model

    def concretize(self, e) -> int:
        """
        :param e: z3 Int
        :return: value. explores all feasible values.
        """
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        self.stats.concretizations += 1
        for _ in range(self.max_concretize):
            if self.pos < len(self.trail):
                v = self.trail[self.pos].value
                if v is None:
                    raise Nondeterminism("concretize")
            else:
                v = self.get_model().eval(e, model_completion=True).as_long()
            if self.branch(e == v, value=v):
                return v
        raise Unsupported("concretization of unbounded term %s" % e)

    # --- assertions

    def check(self, c, msg: str):
        """
        Assertion. All paths.

        :param c: SymBool/bool
        :param msg:
        """
        if self.pos < len(self.trail):
            return  # was already checked for the common prefix
        self.stats.assertions += 1
        if not is_sym(c) and isinstance(c, (bool, numpy.bool_)):
            if c:
                self.stats.assertions_trivial += 1
                return
            self._violation(ViolationFound(msg, self.decode_inputs(self.get_model())))
        c = to_z3_bool(c)
        nc = z3.simplify(z3.Not(c))
        if z3.is_false(nc):
            self.stats.assertions_trivial += 1
            return
        if self._check_sat(nc) == z3.sat:
            self._violation(ViolationFound(msg, self.decode_inputs(self._nice_model(nc, self._sat_solver.model()))))

    def _violation(self, exc):
        # also recorded, in case the code under test catches it
        if self.found is None:
            self.found = exc
        raise exc

    def _nice_model(self, c, model):
        """for real inputs, prefer values which are exact floats"""
        reals = [v for v in self.inputs.values() if z3.is_real(v)]
        if not reals:
            return model
        for denom in (4, 16, 1024):
            self.solver.push()
            try:
                self.solver.set("timeout", 5000)
                for v in reals:
                    self.solver.add(z3.IsInt(v * denom))
                if self.solver.check(c) == z3.sat:
                    return self.solver.model()
            except z3.Z3Exception:
                pass
            finally:
                self.solver.pop()
                self.solver.set("timeout", self._first_timeout_ms())
        return model

    def decode_inputs(self, model) -> Dict[str, Any]:
        """concrete input values"""
        res = {}
        for name, const in self.inputs.items():
            v = model.eval(const, model_completion=True)
            res[name] = decode_z3_value(v)
            kind = self.input_kinds.get(name)
            if kind is not None:
                res[name] = kind(res[name])
        return res

    # --- exploring

    def _backtrack(self) -> bool:
        while self.trail:
            d = self.trail.pop()
            if d.both:
                self.solver.pop()
            if d.kind == "b" and d.both and d.alt:
                c = z3.Not(d.expr)
                self.solver.push()
                self.solver.add(c)
                self.trail.append(_Decision(d.expr, False, True, False, d.value))
                self.model = None
                return True
        return False

    def explore(self, func, on_path_end=None) -> Optional[ViolationFound]:
        """
        :param func: func(engine). harness
        :param on_path_end: func(engine) called at the end of each completed path
        :return: violation if found
        """
        global _cur
        assert _cur is None
        _cur = self
        try:
            while True:
                self.pos = 0
                self._counters.clear()
                self.inputs.clear()
                self.input_kinds.clear()
                if self.deadline is not None and time.time() > self.deadline:
                    self.stats.inconclusive.append("time budget exhausted")
                    return None
                try:
                    self.found = None
                    func(self)
                    if self.found is not None:
                        raise self.found
                    self.stats.paths += 1
                    if on_path_end:
                        on_path_end(self)
                except PathStop:
                    self.stats.paths += 1
                except PathAbort:
                    self.stats.aborted += 1
                except ViolationFound as exc:
                    return exc
                except OutOfBudget as exc:
                    self.stats.inconclusive.append(str(exc))
                    return None
                except Unsupported as exc:
                    self.stats.inconclusive.append("%s: %s" % (type(exc).__name__, exc))
                    if len(self.stats.inconclusive) > 50:
                        return None
                if self.max_paths is not None and self.stats.paths >= self.max_paths:
                    self.stats.inconclusive.append("path budget exhausted")
                    return None
                if self.split_hook is not None and self.split_hook(self):
                    return None
                if not self._backtrack():
                    return None
        finally:
            _cur = None

    def split_point(self) -> Optional[int]:
        """first decision whose other side is still to be explored"""
        for k, d in enumerate(self.trail):
            if d.kind == "b" and d.both and d.alt:
                return k
        return None

    def keep_only_alternative(self, k: int):
        """restrict the remaining exploration to the other side of decision k"""
        while len(self.trail) > k + 1:
            d = self.trail.pop()
            if d.both:
                self.solver.pop()
        for d in self.trail[:k]:
            d.alt = False

    # --- inputs

    def fresh_name(self, prefix: str) -> str:
        """deterministic per path"""
        n = self._counters.get(prefix, 0)
        self._counters[prefix] = n + 1
        return prefix if n == 0 else "%s#%i" % (prefix, n)

    def int_var(self, name: str, lo: Optional[int] = None, hi: Optional[int] = None) -> "SymInt":
        """input"""
        name = self.fresh_name(name)
        v = z3.Int(name)
        self.inputs[name] = v
        cs = []
        if lo is not None:
            cs.append(v >= to_z3_int(lo))
        if hi is not None:
            cs.append(v <= to_z3_int(hi))
        for c in cs:
            self.assume(SymBool(c))
        return SymInt(v)

    def bool_var(self, name: str) -> "SymBool":
        """input"""
        name = self.fresh_name(name)
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def real_var(self, name: str, lo=None, hi=None, denom: Optional[int] = None) -> "SymReal":
        """input. With denom: multiple of 1/denom, i.e. exactly representable for denom a power of two"""
        name = self.fresh_name(name)
        if denom:
            v = z3.Int(name)
            self.inputs[name] = v
            self.input_kinds[name] = lambda x, d=denom: float(Fraction(x, d))
            r = z3.ToReal(v) / z3.RealVal(denom)
            if lo is not None:
                self.assume(SymBool(v >= int(math.ceil(lo * denom))))
            if hi is not None:
                self.assume(SymBool(v <= int(math.floor(hi * denom))))
            return SymReal(r)
        v = z3.Real(name)
        self.inputs[name] = v
        self.input_kinds[name] = float
        r = SymReal(v)
        if lo is not None:
            self.assume(r >= lo)
        if hi is not None:
            self.assume(r <= hi)
        return r


def decode_z3_value(v):
    """z3 value -> python"""
    if sys.get_int_max_str_digits() != 0:
        sys.set_int_max_str_digits(0)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    if z3.is_bv_value(v):
        return v.as_signed_long()
    raise TypeError("cannot decode %r" % v)


# ---------------- proxies


def to_z3_int(x):
    """any int-like -> z3 Int"""
    if isinstance(x, SymInt):
        return x.e
    t = type(x)
    if t is int or t is bool:
        return z3.IntVal(int(x))
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (int, numpy.integer, numpy.bool_)):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise TypeError("to_z3_int %r" % (x,))


def to_z3_real(x):
    """any number -> z3 Real"""
    if isinstance(x, SymReal):
        return x.e
    if type(x) is SymInt or type(x) is SymBool:
        return z3.ToReal(to_z3_int(x))
    if isinstance(x, (float, numpy.floating)):
        return z3.RealVal(Fraction(float(x)))
    if isinstance(x, (bool, int, numpy.integer, numpy.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if z3.is_expr(x):
        return x if z3.is_real(x) else z3.ToReal(x)
    raise TypeError("to_z3_real %r" % (x,))


def to_z3_bool(x):
    """any bool -> z3 Bool"""
    if type(x) is SymBool:
        return x.e
    if isinstance(x, (bool, numpy.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    if type(x) is SymInt:
        return x.e != 0
    if type(x) is SymReal:
        return x.e != 0
    return z3.BoolVal(bool(x))


def is_sym(x) -> bool:
    """whether symbolic"""
    return type(x) in (SymInt, SymReal, SymBool)


def _is_real_like(x):
    return type(x) is SymReal or not is_sym(x) and isinstance(x, (float, numpy.floating, Fraction))


def _is_num(x):
    return is_sym(x) or isinstance(x, (int, float, numpy.number, numpy.bool_, Fraction))


def _special_float(x):
    return not is_sym(x) and isinstance(x, (float, numpy.floating)) and (math.isinf(x) or math.isnan(x))


class _SymNum:
    __slots__ = ("e",)
    __array_priority__ = 1000.0

    def __init__(self, e):
        self.e = e

    # representation must never fork
    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, str(self.e)[:60])

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")

    # arithmetic dispatch
    def _bin(self, other, int_op, real_op, rev=False, name=""):
        if isinstance(other, numpy.ndarray):
            f = numpy.frompyfunc(
                (lambda b: self._bin(b, int_op, real_op, rev, name)), 1, 1
            )
            return f(other)
        if not _is_num(other):
            return NotImplemented
        if _special_float(other):
            return self._special_arith(other, name, rev)
        if _is_real_like(self) or _is_real_like(other):
            a, b = to_z3_real(self), to_z3_real(other)
            if rev:
                a, b = b, a
            return SymReal(real_op(a, b))
        a, b = to_z3_int(self), to_z3_int(other)
        if rev:
            a, b = b, a
        return SymInt(int_op(a, b))

    def _special_arith(self, other, name, rev):
        if math.isnan(other):
            return float("nan")
        if name == "add":
            return float(other)
        if name == "sub":
            return float(other) if rev else -float(other)
        if name == "mul":
            s = sign_of(self)
            return float("nan") if s == 0 else s * float(other)
        if name == "truediv":
            if not rev:
                return 0.0
            s = sign_of(self)
            if s == 0:
                raise ZeroDivisionError("float division by zero")
            return s * float(other)
        raise Unsupported("arith %s with %r" % (name, other))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, name="add")

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, rev=True, name="add")

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, name="sub")

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, rev=True, name="sub")

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * int(self)
        return self._bin(o, _imul, _rmul, name="mul")

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * int(self)
        return self._bin(o, _imul, _rmul, rev=True, name="mul")

    def __truediv__(self, o):
        return _truediv(self, o)

    def __rtruediv__(self, o):
        return _truediv(o, self)

    def __floordiv__(self, o):
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    def __mod__(self, o):
        return _mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return _mod(o, self)

    def __divmod__(self, o):
        return _floordiv(self, o), _mod(self, o)

    def __rdivmod__(self, o):
        return _floordiv(o, self), _mod(o, self)

    def __neg__(self):
        return type(self)(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        return _pow(self, o)

    def __rpow__(self, o):
        return _pow(o, self)

    # comparison
    def _cmp(self, other, op, name):
        if isinstance(other, numpy.ndarray):
            f = numpy.frompyfunc(lambda b: self._cmp(b, op, name), 1, 1)
            return f(other)
        if not _is_num(other):
            if name == "eq":
                return False
            if name == "ne":
                return True
            return NotImplemented
        if _special_float(other):
            if math.isnan(other):
                return name == "ne"
            pos = other > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[name]
        if _is_real_like(self) or _is_real_like(other):
            return SymBool(op(to_z3_real(self), to_z3_real(other)))
        return SymBool(op(to_z3_int(self), to_z3_int(other)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "lt")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "le")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, "gt")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, "ge")

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, "eq")

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, "ne")

    def __bool__(self):
        return cur().branch(self.e != 0)


class SymInt(_SymNum):
    """
    Python int (mathematical integer)
    """

    __slots__ = ()

    @property
    def __class__(self):  # isinstance(x, int) is True
        return int

    def concretize(self) -> int:
        """fork over all feasible values"""
        return cur().concretize(self.e)

    def __index__(self):
        return self.concretize()

    def __int__(self):
        return self.concretize()

    def __float__(self):
        return float(self.concretize())

    def __complex__(self):
        return complex(self.concretize())

    def __hash__(self):
        return hash(self.concretize())

    def __round__(self, n=None):
        return self

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def __invert__(self):
        return SymInt(-self.e - 1)

    def bit_length(self):
        """via concretize"""
        return self.concretize().bit_length()

    def item(self):
        """like numpy scalar"""
        return self

    @property
    def real(self):
        """self"""
        return self

    def is_integer(self):
        """True"""
        return True

    def to_bytes(self, *args, **kwargs):
        """via concretize"""
        return self.concretize().to_bytes(*args, **kwargs)

    def _via_concrete(name, rev=False):  # noqa
        def f(self, o):
            a = self.concretize()
            b = int(o)
            return getattr(b, name)(a) if rev else getattr(a, name)(b)

        return f

    __and__ = _via_concrete("__and__")
    __rand__ = _via_concrete("__and__", True)
    __or__ = _via_concrete("__or__")
    __ror__ = _via_concrete("__or__", True)
    __xor__ = _via_concrete("__xor__")
    __rxor__ = _via_concrete("__xor__", True)
    __lshift__ = _via_concrete("__lshift__")
    __rlshift__ = _via_concrete("__lshift__", True)
    __rshift__ = _via_concrete("__rshift__")
    __rrshift__ = _via_concrete("__rshift__", True)
    del _via_concrete


class SymReal(_SymNum):
    """
    Python float, as exact real number.
    """

    __slots__ = ()

    @property
    def __class__(self):  # isinstance(x, float) is True
        return float

    def __float__(self):
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        raise Unsupported("float() of symbolic real")

    def __int__(self):
        # truncation towards zero
        fl = z3.ToInt(self.e)
        neg = -z3.ToInt(-self.e)
        return cur().concretize(z3.If(self.e >= 0, fl, neg))

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(real, n)")
        fl = z3.ToInt(self.e)
        d = self.e - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        up = z3.Or(d > half, z3.And(d == half, fl % 2 == 1))
        return SymInt(z3.If(up, fl + 1, fl))

    def __hash__(self):
        if cur().hash_reals:  # sets/dicts of symbolic reals only: the lookup compares (forks)
            return 0
        raise Unsupported("hash of symbolic real")

    def item(self):
        """like numpy scalar"""
        return self

    def is_integer(self):
        """whether integer"""
        return SymBool(z3.ToReal(z3.ToInt(self.e)) == self.e)


class SymBool:
    """
    Python bool
    """

    __slots__ = ("e",)
    __array_priority__ = 1000.0

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.e)

    def __repr__(self):
        return "<SymBool %s>" % str(self.e)[:60]

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, numpy.bool_)):
            return SymBool(z3.And(self.e, to_z3_bool(o)))
        return int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, numpy.bool_)):
            return SymBool(z3.Or(self.e, to_z3_bool(o)))
        return int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, to_z3_bool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, numpy.bool_)):
            return SymBool(self.e == to_z3_bool(o))
        if _is_num(o):
            return SymInt(to_z3_int(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if type(r) is SymBool else (not r)

    def _as_int(self):
        return SymInt(to_z3_int(self))

    def __add__(self, o):
        return self._as_int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._as_int() - o

    def __rsub__(self, o):
        return o - self._as_int()

    def __mul__(self, o):
        return self._as_int() * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self._as_int()

    def __lt__(self, o):
        return self._as_int() < o

    def __le__(self, o):
        return self._as_int() <= o

    def __gt__(self, o):
        return self._as_int() > o

    def __ge__(self, o):
        return self._as_int() >= o

    def item(self):
        """like numpy scalar"""
        return self


def sign_of(x) -> int:
    """forks"""
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


def _const_int(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else None


def _imul(a, b):
    eng = cur()
    if eng.concretize_products and _const_int(a) is None and _const_int(b) is None:
        b = z3.IntVal(eng.concretize(b))
    return a * b


def _rmul(a, b):
    return a * b


def _z3_floordiv(a, b):
    """a, b: z3 Int, b != 0. z3 div: euclidean for Int (remainder >= 0)."""
    bv = _const_int(b)
    if bv is not None:
        return a / bv if bv > 0 else (-a) / z3.IntVal(-bv)
    return z3.If(b > 0, a / b, (-a) / (-b))


def _floordiv(a, b):
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        return numpy.frompyfunc(_floordiv, 2, 1)(a, b)
    if not (_is_num(a) and _is_num(b)):
        return NotImplemented
    if _is_real_like(a) or _is_real_like(b):
        if _special_float(a) or _special_float(b):
            raise Unsupported("floordiv special float")
        zb = to_z3_real(b)
        if cur().branch(zb == 0):
            raise ZeroDivisionError("float floor division by zero")
        return SymReal(z3.ToReal(z3.ToInt(to_z3_real(a) / zb)))
    za, zb = to_z3_int(a), to_z3_int(b)
    if cur().branch(zb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if cur().concretize_divisors:
        zb = z3.IntVal(cur().concretize(zb))
    return SymInt(_z3_floordiv(za, zb))


def _mod(a, b):
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        return numpy.frompyfunc(_mod, 2, 1)(a, b)
    if not (_is_num(a) and _is_num(b)):
        return NotImplemented
    if _is_real_like(a) or _is_real_like(b):
        zb = to_z3_real(b)
        if cur().branch(zb == 0):
            raise ZeroDivisionError("float modulo")
        za = to_z3_real(a)
        return SymReal(za - zb * z3.ToReal(z3.ToInt(za / zb)))
    za, zb = to_z3_int(a), to_z3_int(b)
    if cur().branch(zb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if cur().concretize_divisors:
        zb = z3.IntVal(cur().concretize(zb))
    bv = _const_int(zb)
    if bv is not None and bv > 0:
        return SymInt(za % bv)
    return SymInt(za - zb * _z3_floordiv(za, zb))


def _truediv(a, b):
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        return numpy.frompyfunc(_truediv, 2, 1)(a, b)
    if not (_is_num(a) and _is_num(b)):
        return NotImplemented
    if _special_float(b):
        return a._special_arith(b, "truediv", False)
    if _special_float(a):
        return b._special_arith(a, "truediv", True)
    zb = to_z3_real(b)
    if cur().branch(zb == 0):
        raise ZeroDivisionError("division by zero")
    return SymReal(to_z3_real(a) / zb)


def _pow(a, b):
    if not is_sym(b):
        if isinstance(b, (int, numpy.integer)):
            b = int(b)
            if 0 <= b <= 16:
                res = 1
                for _ in range(b):
                    res = a * res
                return res
            if b < 0:
                return 1.0 / _pow(a, -b)
        raise Unsupported("pow with exponent %r" % (b,))
    if type(b) is SymInt:
        return a ** b.concretize()
    raise Unsupported("pow with symbolic real exponent")


# ---------------- helpers usable on symbolic and on concrete values


def s_and(*args):
    """And without forking"""
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = args[0]
    syms = []
    for a in args:
        if is_sym(a):
            syms.append(to_z3_bool(a))
        elif not a:
            return False
    if not syms:
        return True
    return SymBool(z3.And(*syms))


def s_or(*args):
    """Or without forking"""
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = args[0]
    syms = []
    for a in args:
        if is_sym(a):
            syms.append(to_z3_bool(a))
        elif a:
            return True
    if not syms:
        return False
    return SymBool(z3.Or(*syms))


def s_not(a):
    """Not without forking"""
    if is_sym(a):
        return SymBool(z3.Not(to_z3_bool(a)))
    return not a


def s_implies(a, b):
    """Implies"""
    return s_or(s_not(a), b)


def s_iff(a, b):
    """a <-> b"""
    if is_sym(a) or is_sym(b):
        return SymBool(to_z3_bool(a) == to_z3_bool(b))
    return bool(a) == bool(b)


def s_ite(c, a, b):
    """if-then-else without forking, numeric"""
    if not is_sym(c):
        return a if c else b
    ce = to_z3_bool(c)
    if type(a) is SymBool or isinstance(a, (bool, numpy.bool_)):
        return SymBool(z3.If(ce, to_z3_bool(a), to_z3_bool(b)))
    if _is_real_like(a) or _is_real_like(b):
        return SymReal(z3.If(ce, to_z3_real(a), to_z3_real(b)))
    return SymInt(z3.If(ce, to_z3_int(a), to_z3_int(b)))


def s_max(*args):
    """max without forking"""
    if len(args) == 1:
        args = list(args[0])
    res = args[0]
    for a in args[1:]:
        res = s_ite(a > res, a, res)
    return res


def s_min(*args):
    """min without forking"""
    if len(args) == 1:
        args = list(args[0])
    res = args[0]
    for a in args[1:]:
        res = s_ite(a < res, a, res)
    return res


def s_sum(items):
    """sum"""
    res = 0
    for x in items:
        res = res + x
    return res


def s_count(conds):
    """number of true"""
    res = 0
    for c in conds:
        res = res + s_ite(c, 1, 0)
    return res


def s_distinct(items):
    """pairwise distinct"""
    items = list(items)
    if any(is_sym(x) for x in items):
        if len(items) <= 1:
            return True
        return SymBool(z3.Distinct(*[to_z3_int(x) for x in items]))
    return len(set(items)) == len(items)


def _patch_fraction():
    """let the symbolic operand handle mixed operations (Fraction would take it as a float)"""

    def _wrap(name):
        orig = getattr(Fraction, name)

        def _f(a, b):
            if is_sym(b):
                return NotImplemented
            return orig(a, b)

        _f.__name__ = name
        setattr(Fraction, name, _f)

    for name in ["add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "eq", "lt", "le", "gt", "ge"]:
        _wrap("__%s__" % name)


_patch_fraction()
