"""
C28: schedules (piecewise linear, step function) and numbers per data key (NumbersDict).
"""

import pickle
from vf.rfh import *
import returnn.util.math as math_mod
from returnn.util.basic import NumbersDict
import returnn.frontend.run_ctx as run_ctx_mod

PROPERTY = "C28"
ASSUMPTIONS = [
    "numbers are exact reals (int for //); numpy.interp itself is taken as correct (interpreted by its definition); points at concrete x, any y",
]
COVERS = ["end", "between", "outside", "tie"]


def _interp(x, xs, ys, left=None, right=None):
    """like numpy.interp"""
    assert left is None and right is None
    xs, ys = list(xs), list(ys)
    assert len(xs) == len(ys) and xs == sorted(xs), "numpy.interp needs increasing x"
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            return v_add(ys[i - 1], v_mul(v_sub(ys[i], ys[i - 1]), v_div(v_sub(x, Fraction(xs[i - 1])), Fraction(xs[i]) - Fraction(xs[i - 1]))))


class _Numpy:
    """numpy with symbolic interp"""

    interp = staticmethod(_interp)

    def __getattr__(self, item):
        return getattr(np, item)


def _points(h, n_max):
    """points, in any order"""
    n = h.choice("n", list(range(1, n_max + 1)))
    xs = h.choice("xs", [[0, 10, 25, 27], [-3, 1, 2, 40], [0.5, 0.75, 8, 9]])[:n]
    perm = h.permutation("order", n)
    ys = [h.real("y%i" % i, -4, 4) for i in range(n)]
    return xs, ys, {xs[int(i)]: ys[int(i)] for i in perm}


def _ref_linear(h, xs, ys, x):
    if x < xs[0] or x > xs[-1]:
        h.cover("outside")
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            h.cover("between")
            a, b = Fraction(xs[i - 1]), Fraction(xs[i])
            f = v_div(v_sub(x, a), b - a)
            return v_add(v_mul(ys[i - 1], v_sub(Fraction(1), f)), v_mul(ys[i], f))


def h_linear(h, n_max):
    """util PiecewiseLinear"""
    xs, ys, points = _points(h, n_max)
    x = h.real("x", -10, 50)
    kw = h.choice("kw", [None, "epoch_continuous"])
    ignore = h.choice("ignore", [False, True])
    patches = [(math_mod, "numpy", _Numpy())] if h.symbolic else []
    with patched(*patches):
        f = math_mod.PiecewiseLinear(points, **({"kw_name": kw} if kw else {}), **({"ignore_other_kwargs": True} if ignore else {}))
        if h.choice("pickle", [False, True]):
            f = _copy(f)
        _call_args(h, f, x, kw, ignore)
        y = f(**{kw: x}) if kw else f(x)
    h.check_all([close(h, y, _ref_linear(h, xs, ys, x))], "piecewise linear")
    h.cover("end")


def _copy(f):
    """as pickle does"""
    state = f.__reduce_ex__(2)
    g = state[0](*state[1])
    g.__setstate__(state[2]) if hasattr(g, "__setstate__") else g.__dict__.update(state[2])
    return g


def _call_args(h, f, x, kw, ignore):
    def _refused(*args, **kwargs):
        try:
            f(*args, **kwargs)
        except (TypeError, AssertionError):
            return True
        return False

    if kw:
        h.check(_refused(x), "positional argument although kw_name is given")
        h.check(_refused(**{kw: x, "other": 1}) == (not ignore), "other kwargs")
    else:
        h.check(_refused(x, x) and _refused(), "wrong number of arguments accepted")
        h.check(_refused(x, other=1) == (not ignore), "other kwargs")


def h_step(h, n_max):
    """util StepFunction"""
    xs, _, points = _points(h, n_max)
    perm = [xs.index(x_) for x_ in points]
    x = h.real("x", -10, 50)
    kw = h.choice("kw", [None, "epoch"])
    ignore = h.choice("ignore", [False, True])
    f = math_mod.StepFunction({xs[i]: "val%i" % i for i in perm}, kw_name=kw, ignore_other_kwargs=ignore)
    if h.choice("pickle", [False, True]):
        f = _copy(f)
    _call_args(h, f, x, kw, ignore)
    y = f(**{kw: x}) if kw else f(x)
    i = int(y[3:])
    dist = [v_ite(x >= Fraction(xs[j]), v_sub(x, Fraction(xs[j])), v_sub(Fraction(xs[j]), x)) for j in range(len(xs))]
    h.check(s_and(*[dist[i] <= d for d in dist]), "not the nearest: %s" % y)
    if i > 0 and dist[i - 1] == dist[i]:
        h.fail("with equal distance, not the lower one")
    if i + 1 < len(xs) and dist[i + 1] == dist[i]:
        h.cover("tie")
    h.observe(y)
    h.cover("end")


def h_rf_linear(h, n_max, dims, step=False):
    """rf.PiecewiseLinear"""
    r = R(h)
    n = h.choice("n", list(range(1, n_max + 1)))
    xs = h.choice("xs", [[0, 10, 25, 27], [-3, 1, 2, 40], [0.5, 0.75, 8, 9]])[:n]
    perm = [int(i) for i in h.permutation("order", n)]
    f = r.sdim(2, "f")
    with_dims = h.choice("y_dims", [False, True])
    ys = [r.tensor("y%i" % i, [f] if with_dims else [], lo=-4, hi=4) for i in range(n)]
    cls = rf.PiecewiseLinearStepwiseScheduler if step else rf.PiecewiseLinear
    mod = cls({xs[i]: ys[i] for i in perm})
    if step:
        s = h.choice("step", [0, 1, 7, 10, 26, 100])
        ctx = run_ctx_mod._run_ctx
        try:
            rf.init_train_step_run_ctx(train_flag=True, step=s, epoch=1)
            y = mod()
        finally:
            run_ctx_mod._run_ctx = ctx
        ds = []
    else:
        b = r.sdim(2, "b")
        ds = [b] if dims else []
        x = r.tensor("x", ds, lo=-10, hi=50)
        y = mod(x)

    def _ref(e):
        x_ = Fraction(s) if step else r.get(x, {d: e[d] for d in ds})
        return _ref_linear(h, xs, [r.get(v, {f: e[f]} if with_dims else {}) for v in ys], x_)

    r.check_tensor(y, ds + ([f] if with_dims else []), _ref, "rf piecewise linear")
    h.cover("end")


_KEYS = ["a", "b"]


def _numdict(h, name, lo=-4, hi=4, kind="real"):
    """:return: NumbersDict, reference (key -> value or None, None: broadcast value)"""
    mk = h.real if kind == "real" else h.int
    ref = {}
    for k in _KEYS + [None]:
        ref[k] = mk("%s_%s" % (name, k or "default"), lo, hi) if h.bool("%s_has_%s" % (name, k or "default")) else None
    d = NumbersDict(numbers_dict={k: v for k, v in ref.items() if v is not None and k}, broadcast_value=ref[None])
    return d, ref


def _get(ref, k):
    """value"""
    return ref.get(k) if ref.get(k) is not None else ref[None]


def _same(h, d, ref):
    conds = [set(d.keys()) == {k for k, v in ref.items() if k and v is not None}, (d.value is None) == (ref[None] is None)]
    if all(conds):
        for k, v in ref.items():
            if v is not None:
                conds.append(close(h, d[k] if k else d.value, v))
    return s_and(*conds)


_OPS = {
    "add": (lambda a, b: a + b, 0),
    "sub": (lambda a, b: a - b, 0),
    "mul": (lambda a, b: a * b, 1),
    "div": (lambda a, b: a / b, 1),
    "floordiv": (lambda a, b: a // b, 1),
}


def h_binop(h, op, other):
    """arithmetic"""
    f, neutral = _OPS[op]
    kind = "int" if op == "floordiv" else "real"
    lo2 = 1 if op in ("div", "floordiv") else -4
    a, ra = _numdict(h, "x", kind=kind)
    if other == "scalar":
        b = (h.int if kind == "int" else h.real)("s", lo2, 4)
        rb = {k: b if v is not None else None for k, v in ra.items()}
    else:
        b, rb = _numdict(h, "y", lo=lo2, kind=kind)
    want = {}
    for k in _KEYS + [None]:
        if k and ra[k] is None and rb[k] is None:
            want[k] = None
            continue
        va, vb = (_get(ra, k), _get(rb, k)) if k else (ra[None], rb[None])
        if va is None and vb is None:
            want[k] = None
            continue
        want[k] = f(va if va is not None else neutral, vb if vb is not None else neutral)
    res = f(a, b)
    h.check(_same(h, res, want), "%s of %s and %s" % (op, a, b))
    h.check(_same(h, a, ra), "operand changed")
    if other != "scalar":
        h.check(_same(h, b, rb), "operand changed")
    elif op in ("add", "mul", "sub"):
        res = f(b, a)
        want_r = {k: None if v is None else f(b, ra[k]) for k, v in ra.items()}
        h.check(_same(h, res, want_r), "%s of %s and %s" % (op, b, a))
    c = a
    if op == "add":
        c += b
    elif op == "sub":
        c -= b
    elif op == "mul":
        c *= b
    elif op == "div":
        c /= b
    else:
        c //= b
    h.check(c is a, "in-place op gives a new object")
    h.check(_same(h, c, want), "in-place %s" % op)
    h.cover("end")


def h_minmax(h, n):
    """min, max, compare"""
    ds, refs = zip(*[_numdict(h, "d%i" % i) for i in range(n)])
    for name, pick in (("max", v_max), ("min", v_min)):
        res = getattr(NumbersDict, name)(list(ds))
        want = {}
        for k in _KEYS + [None]:
            if k and all(r_[k] is None for r_ in refs):
                want[k] = None
                continue
            vs = [_get(r_, k) if k else r_[None] for r_ in refs]
            vs = [v for v in vs if v is not None]
            w = None
            for v in vs:
                w = v if w is None else pick(w, v)
            want[k] = w
        h.check(_same(h, res, want), "%s of %s" % (name, ds))
        vs = [v for v in refs[0].values() if v is not None]
        if vs:
            w = vs[0]
            for v in vs[1:]:
                w = pick(w, v)
            h.check(close(h, getattr(ds[0], name + "_value")(), w), "%s_value" % name)
    for d, r_ in zip(ds, refs):
        h.check(_same(h, d, r_), "operand changed")
    h.cover("end")


def h_access(h):
    """get, copy, compare"""
    a, ra = _numdict(h, "x")
    b, rb = _numdict(h, "y")
    for k in _KEYS:
        v = _get(ra, k)
        h.check(a.has_value_for(k) == (v is not None), "has_value_for")
        h.check((k in a) == (ra[k] is not None), "contains")
        if v is not None:
            h.check(s_and(close(h, a[k], v), close(h, a.get(k), v)), "get")
        else:
            h.check(a.get(k, 17) == 17 and a.get(k) is None, "get of missing key")
            try:
                a[k]
                h.fail("missing key found")
            except KeyError:
                pass
    h.check(a.has_values() == any(v is not None for v in ra.values()), "has_values")
    h.check(_same(h, a.copy(), ra) and a.copy().dict is not a.dict, "copy")
    h.check(_same(h, -a, {k: None if v is None else -v for k, v in ra.items()}), "neg")
    h.check(_same(h, NumbersDict.constant_like(3, b), {k: None if v is None else 3 for k, v in rb.items()}), "constant_like")
    want = {k: None if v is None else (_get(ra, k) if k else ra[None]) for k, v in rb.items()}
    h.check(_same(h, a.copy_like(b), want), "copy_like")
    eq = True
    for k in _KEYS + [None]:
        if ra[k] is None and rb[k] is None:
            continue
        va, vb = (_get(ra, k), _get(rb, k)) if k else (ra[None], rb[None])
        eq = s_and(eq, va == vb if va is not None and vb is not None else (k is None))
    h.check(s_iff(bool(a == b), eq), "equality of %s and %s" % (a, b))
    h.check(s_iff(bool(a != b), s_not(eq)), "inequality")
    lt = []
    for k in _KEYS:
        if ra[k] is not None and _get(rb, k) is not None:
            lt.append(ra[k] < _get(rb, k))
    if ra[None] is not None and rb[None] is not None:
        lt.append(ra[None] < rb[None])
    h.check(s_iff(bool(a.any_compare(b, lambda x, y: x < y)), s_or(False, *lt)), "any_compare")
    h.check(_same(h, a, ra) and _same(h, b, rb), "operand changed")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds=" ".join("%s=%s" % (k, v) for k, v in kw.items()), validate=4, real_rounding=True))

    add("linear", h_linear, n_max=3 if q else 4)
    add("step", h_step, n_max=3 if q else 4)
    for dims in (False, True):
        add("rf_linear/%s" % dims, h_rf_linear, n_max=(2 if dims else 3) if q else 4, dims=dims)
    add("rf_step", h_rf_linear, n_max=3, dims=False, step=True)
    for op in _OPS:
        for other in ("dict", "scalar"):
            add("numdict/%s/%s" % (op, other), h_binop, op=op, other=other)
    add("numdict/minmax2", h_minmax, n=2)
    add("numdict/minmax1", h_minmax, n=1)
    if not q:
        add("numdict/minmax3", h_minmax, n=3)
    add("numdict/access", h_access)
    return res
