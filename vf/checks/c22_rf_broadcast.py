"""
C22: tensors are combined by dim identity, never by position or by size. Native C++ code and Python fallback.
"""

import importlib.util

from vf.rfh import *

PROPERTY = "C22"
ASSUMPTIONS = [
    "tensor elements are exact reals; PyTorch backend in eager mode on CPU, ATen kernels interpreted by vf/symtorch.py",
    "the native C++ frontend module is compiled from the current source and executed; dims are concrete there, only the tensor values are symbolic",
]
COVERS = ["end"]



def _native_bc_both():
    b, f = Dim(2, name="b"), Dim(3, name="f")
    x = Tensor("x", [b], dtype="float32", raw_tensor=torch.zeros(2))
    y = Tensor("y", [f], dtype="float32", raw_tensor=torch.zeros(3))
    try:
        return set((x + y).dims) == {b, f}
    except Exception:
        return False


KNOWN_FINDINGS = {"native-broadcast-both": _native_bc_both}

_py = {}


def _python_variants():
    """the Python functions which were replaced by the native ones"""
    if _py:
        return _py
    import returnn.frontend.math_ as m
    import returnn.tensor._tensor_extra as te
    import returnn.tensor._tensor_op_overloads as to

    for mod, key in [(m, "math"), (te, "extra"), (to, "ops")]:
        spec = importlib.util.spec_from_file_location(mod.__name__ + "_py_variant", mod.__file__)
        mm = importlib.util.module_from_spec(spec)
        mm.__package__ = mod.__package__
        sys.modules[spec.name] = mm
        spec.loader.exec_module(mm)
        _py[key] = mm
    return _py


@contextlib.contextmanager
def _flavor(native):
    if native:
        yield
        return
    import returnn.frontend.math_ as m
    from returnn.tensor.tensor import _TensorOpOverloadsMixin, _TensorMixin

    py = _python_variants()
    triples = []
    for mod in (rf, m):
        for n in ("combine", "compare"):
            triples.append((mod, n, getattr(py["math"], n)))
    for n, f in py["ops"]._TensorOpOverloadsMixin.__dict__.items():
        if callable(f) and n.startswith("__") and n != "__bool__":
            triples.append((_TensorOpOverloadsMixin, n, f))
    for n in ("copy", "copy_template", "get_out_permutation_to_dims", "copy_compatible_to_dims", "copy_compatible_to_dims_raw"):
        triples.append((_TensorMixin, n, py["extra"]._TensorMixin.__dict__[n]))
    with patched(*triples):
        yield


def _dims(h, r, B=2, T=2):
    # all of the same size
    b, f, g = r.sdim(B, "b"), r.sdim(2, "f"), r.sdim(2, "g")
    t = r.tdim([b], T, fork=True)
    return b, t, f, g


def _subset(h, name, dims, orders=True):
    sub = [d for i, d in enumerate(dims) if bool(h.fork(h.bool("%s_has%i" % (name, i))))]
    if dims[1] in sub:
        h.assume(dims[0] in sub)  # the lengths depend on the batch dim
    return perms(sub, h, name + "_perm") if orders else sub


_OPS = {
    "add": (lambda a, b: a + b, v_add),
    "sub": (lambda a, b: a - b, v_sub),
    "mul": (lambda a, b: a * b, v_mul),
    "truediv": (lambda a, b: a / b, v_div),
    "maximum": (None, v_max),
    "minimum": (None, v_min),
    "squared_difference": (None, lambda a, b: v_mul(v_sub(a, b), v_sub(a, b))),
}
_CMP = {
    "equal": (lambda a, b: a == b, lambda a, b: a == b),
    "not_equal": (lambda a, b: a != b, lambda a, b: a != b),
    "less": (lambda a, b: a < b, lambda a, b: a < b),
    "less_equal": (lambda a, b: a <= b, lambda a, b: a <= b),
    "greater": (lambda a, b: a > b, lambda a, b: a > b),
    "greater_equal": (lambda a, b: a >= b, lambda a, b: a >= b),
}
_ALIAS = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "maximum": "max", "minimum": "min", "equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}


def _same_bool(h, v, e):
    return symx.s_iff(v, e)


def _check(h, r, y, dims, fn, msg):
    """like r.check_tensor, for bool or real results"""
    if y.dtype == "bool":
        h.check(set(y.dims) == set(dims) and len(y.dims) == len(set(dims)), "%s: dims %s, expected %s" % (msg, y.dims, dims))
        for ax, d in enumerate(y.dims):
            h.check(y.raw_tensor.shape[ax] == r.size(d), "%s: raw shape" % msg)
        h.check_all([_same_bool(h, r.get(y, e), fn(e)) for e in r.envs(list(y.dims))], msg)
    else:
        r.check_tensor(y, dims, fn, msg)


def h_binary(h, ops, native, full):
    """one tensor has all dims, the other a subset, in any order; either side"""
    r = R(h)
    dims = _dims(h, r)
    if not full:
        dims = dims[:3]
    with _flavor(native):
        big = perms(dims[: 3 + full], h, "big_perm") if not full else [list(dims), list(reversed(dims)), [dims[2], dims[0], dims[3], dims[1]], [dims[1], dims[3], dims[0], dims[2]]][
            h.choice("big_perm", [0, 1, 2, 3])
        ]
        small = _subset(h, "small", dims, orders=True)
        a, b = r.tensor("a", big), r.tensor("b", small)
        swap = bool(h.fork(h.bool("swap")))
        if swap:
            a, b = b, a
        for op in ops:
            f, want = {**_OPS, **_CMP}[op]
            fn = lambda e: want(r.get(a, e), r.get(b, e))
            if op == "truediv":
                for v in r.arr(b).reshape(-1):
                    h.assume(v >= 1)
            if f:
                _check(h, r, f(a, b), big, fn, "operator " + op)
            if op in _OPS:
                y = rf.combine(a, op, b)
                _check(h, r, y, big, fn, "combine " + op)
                if op in _ALIAS:
                    _check(h, r, rf.combine(a, _ALIAS[op], b), big, fn, "combine " + _ALIAS[op])
            else:
                _check(h, r, rf.compare(a, op, b), big, fn, "compare " + op)
                if op in _ALIAS:
                    _check(h, r, rf.compare(a, _ALIAS[op], b), big, fn, "compare " + _ALIAS[op])
    h.cover("end")


def h_bc_all(h, native, op):
    """neither has all the dims: refused by default, allowed with allow_broadcast_all_sources or explicit dim_order"""
    r = R(h)
    dims = _dims(h, r)
    with _flavor(native):
        da, db = _subset(h, "a", dims[:3]), _subset(h, "b", dims[:3])
        a, b = r.tensor("a", da), r.tensor("b", db)
        union = [d for d in dims if d in da or d in db]
        f, want = {**_OPS, **_CMP}[op]
        fn = lambda e: want(r.get(a, e), r.get(b, e))
        api = rf.combine if op in _OPS else rf.compare
        _check(h, r, api(a, op, b, allow_broadcast_all_sources=True), union, fn, "allow_broadcast_all_sources")
        order = perms(dims[:3], h, "order")
        y = api(a, op, b, dim_order=order, allow_broadcast_all_sources=True)
        _check(h, r, y, union, fn, "dim_order")
        h.check(list(y.dims) == [d for d in order if d in union], "dim_order: dims %s" % (y.dims,))
        _check(h, r, (rf.combine_bc if op in _OPS else rf.compare_bc)(a, op, b), union, fn, "bc variant")
        if not native and set(union) != set(da) and set(union) != set(db):  # native: known finding, see KNOWN_FINDINGS
            err = None
            try:
                f(a, b)
            except Exception as exc:
                err = exc
            h.check(isinstance(err, Exception), "implicit broadcast of both operands was not refused")
    h.cover("end")


def h_scalar(h, native):
    """Python scalars as operand on either side, also the special values 0, 1, -1"""
    r = R(h)
    b, t, f, g = _dims(h, r)
    x = r.tensor("x", perms([b, t], h))
    c = h.choice("c", [0, 1, -1, 2, 0.5, 1.0, 0.0, -1.0])
    n = r.tensor("n", [b, t], dtype="int32", lo=-5, hi=5)
    m = r.tensor("m", [b, t], dtype="bool")
    with _flavor(native):
        for op in ["add", "sub", "mul", "maximum", "minimum", "squared_difference"]:
            fo, want = _OPS[op]
            _check(h, r, rf.combine(x, op, c), [b, t], lambda e: want(r.get(x, e), Fraction(c)), "%s with scalar %s" % (op, c))
            if fo or not native:  # the native code does not support the scalar as first operand of torch.maximum etc
                _check(h, r, rf.combine(c, op, x), [b, t], lambda e: want(Fraction(c), r.get(x, e)), "scalar %s %s tensor" % (c, op))
            if fo:
                _check(h, r, fo(x, c), [b, t], lambda e: want(r.get(x, e), Fraction(c)), "operator %s with scalar %s" % (op, c))
                _check(h, r, fo(c, x), [b, t], lambda e: want(Fraction(c), r.get(x, e)), "operator scalar %s %s tensor" % (c, op))
        if c:
            _check(h, r, x / c, [b, t], lambda e: v_div(r.get(x, e), Fraction(c)), "x / %s" % c)
            y = rf.combine(x, "floordiv", c)
            _check(h, r, y, [b, t], lambda e: v_floor_(v_div(r.get(x, e), Fraction(c))), "x // %s" % c)
        if c and isinstance(c, int):
            _check(h, r, n // c, [b, t], lambda e: r.get(n, e) // c, "int // %s" % c)
            _check(h, r, rf.combine(n, "floordiv", c), [b, t], lambda e: r.get(n, e) // c, "combine int // %s" % c)
            _check(h, r, n % c, [b, t], lambda e: r.get(n, e) % c, "int %% %s" % c)
        if c in (1, 2, -1) and isinstance(c, int):
            if c < 0:
                for v in r.arr(x).reshape(-1):
                    h.assume(v >= 1)
            p = {1: lambda v: v, 2: lambda v: v_mul(v, v), -1: lambda v: v_div(Fraction(1), v)}[c]
            _check(h, r, x**c, [b, t], lambda e: p(r.get(x, e)), "x ** %s" % c)
            _check(h, r, rf.combine(x, "pow", c), [b, t], lambda e: p(r.get(x, e)), "pow %s" % c)
        for op in _CMP:
            fo, want = _CMP[op]
            _check(h, r, rf.compare(x, op, c), [b, t], lambda e: want(r.get(x, e), c), "%s scalar" % op)
            _check(h, r, fo(x, c), [b, t], lambda e: want(r.get(x, e), c), "%s scalar operator" % op)
            _check(h, r, fo(c, x), [b, t], lambda e: want(c, r.get(x, e)), "scalar %s operator" % op)
        for v in (False, True):
            for y in (rf.combine(m, "logical_or", v), rf.combine(v, "logical_or", m), rf.opt_logical_or(m, v)):
                if isinstance(y, Tensor):
                    _check(h, r, y, [b, t], lambda e: True if v else r.get(m, e), "logical_or %s" % v)
                else:
                    h.check(y is v, "logical_or const")
            for y in (rf.combine(m, "logical_and", v), rf.combine(v, "logical_and", m), rf.opt_logical_and(m, v)):
                if isinstance(y, Tensor):
                    _check(h, r, y, [b, t], lambda e: r.get(m, e) if v else False, "logical_and %s" % v)
                else:
                    h.check(y is v, "logical_and const")
        _check(h, r, rf.logical_not(m), [b, t], lambda e: s_not(r.get(m, e)), "logical_not")
        _check(h, r, ~m, [b, t], lambda e: s_not(r.get(m, e)), "invert")
        _check(h, r, -x, [b, t], lambda e: v_neg(r.get(x, e)), "neg")
        _check(h, r, abs(x), [b, t], lambda e: st.v_abs(r.get(x, e)), "abs")
        _check(h, r, rf.ceil_divide(n, 2), [b, t], lambda e: -((-r.get(n, e)) // 2), "ceil_divide")
    h.cover("end")


def v_floor_(x):
    """floor"""
    return st.v_floor(x)


def h_logical(h, native):
    """and/or of tensors with different dims"""
    r = R(h)
    b, t, f, g = _dims(h, r)
    big = perms([b, t, f], h, "big")
    small = _subset(h, "small", [b, t, f])
    x, y = r.tensor("x", big, dtype="bool"), r.tensor("y", small, dtype="bool")
    with _flavor(native):
        for z, fn, msg in [
            (rf.logical_and(x, y), lambda e: s_and(r.get(x, e), r.get(y, e)), "logical_and"),
            (rf.logical_or(y, x), lambda e: s_or(r.get(x, e), r.get(y, e)), "logical_or"),
            (x & y, lambda e: s_and(r.get(x, e), r.get(y, e)), "&"),
            (y | x, lambda e: s_or(r.get(x, e), r.get(y, e)), "|"),
        ]:
            _check(h, r, z, big, fn, msg)
    h.cover("end")


def h_where(h, native, kind):
    """where with cond, true, false having different dims"""
    r = R(h)
    b, t, f, g = _dims(h, r)
    dims = [b, t, f]
    with _flavor(native):
        dc, da, db = _subset(h, "c", dims, orders=kind == "bc"), _subset(h, "a", dims, orders=False), _subset(h, "b", dims, orders=False)
        rot = h.choice("rot", [0, 1])
        if rot:
            da, db = da[::-1], db[1:] + db[:1]
        c = r.tensor("c", dc, dtype="bool")
        x, y = r.tensor("x", da), r.tensor("y", db)
        if kind == "scalar":
            y = h.choice("y", [0.0, -1.5])
            db = []
        union = [d for d in dims if d in dc or d in da or d in db]
        z = rf.where(c, x, y, allow_broadcast_all_sources=True)
        _check(h, r, z, union, lambda e: v_ite(r.get(c, e), r.get(x, e), r.get(y, e)), "where")
        if kind == "scalar":
            z = rf.where(c, y, x, allow_broadcast_all_sources=True)
            _check(h, r, z, union, lambda e: v_ite(r.get(c, e), r.get(y, e), r.get(x, e)), "where scalar true")
    h.cover("end")


def h_misc(h, native):
    """maximum/minimum of several, clip_by_value, lerp, gating"""
    r = R(h)
    b, t, f, g = _dims(h, r)
    big = perms([b, t, f], h, "big")
    x, y, z = r.tensor("x", big), r.tensor("y", [b]), r.tensor("z", perms([t, f], h, "zp"))
    with _flavor(native):
        _check(h, r, rf.maximum(x, y, z), big, lambda e: lmax([r.get(x, e), r.get(y, e), r.get(z, e)]), "maximum")
        _check(h, r, rf.minimum(x, z, 0.5), big, lambda e: lmin([r.get(x, e), r.get(z, e), Fraction(1, 2)]), "minimum")
        _check(h, r, rf.clip_by_value(x, -1.0, 2.0), big, lambda e: v_max(Fraction(-1), v_min(r.get(x, e), Fraction(2))), "clip_by_value")
        _check(h, r, rf.relu(x), big, lambda e: v_max(r.get(x, e), Fraction(0)), "relu")
        _check(h, r, rf.square(x), big, lambda e: v_mul(r.get(x, e), r.get(x, e)), "square")
        _check(h, r, rf.lerp(x, z, 0.25), big, lambda e: v_add(r.get(x, e), v_mul(v_sub(r.get(z, e), r.get(x, e)), Fraction(1, 4))), "lerp")
        v = r.tensor("v", perms([b, g], h, "vp"), feature_dim=g)
        gt, _ = rf.gating(v)
        hd = [d for d in gt.dims if d != b]
        h.check(len(hd) == 1 and hd[0].dimension == 1, "gating dims")
        _check(
            h, r, gt, [b, hd[0]], lambda e: v_mul(r.get(v, {b: e[b], g: 0}), v_uf("sigmoid")(r.get(v, {b: e[b], g: 1}))), "gating"
        )
    h.cover("end")


def h_square(h, native):
    """operands with dims of the same size in different orders: stack, clip_by_value, lerp, where, concat of features, reshape"""
    r = R(h)
    b, f, g = r.sdim(2, "b"), r.sdim(2, "f"), r.sdim(2, "g")
    x, y, z = r.tensor("x", perms([b, f, g], h, "xp")), r.tensor("y", perms([b, f, g], h, "yp")), r.tensor("z", perms([f, b], h, "zp"))
    with _flavor(native):
        o, sd = rf.stack([x, y])
        _check(h, r, o, [sd, b, f, g], lambda e: r.get(y if e[sd] else x, {d: e[d] for d in (b, f, g)}), "stack")
        _check(h, r, rf.clip_by_value(x, z, y), [b, f, g], lambda e: v_min(v_max(r.get(x, e), r.get(z, e)), r.get(y, e)), "clip_by_value")
        _check(h, r, rf.lerp(x, y, z), [b, f, g], lambda e: v_add(r.get(x, e), v_mul(r.get(z, e), v_sub(r.get(y, e), r.get(x, e)))), "lerp")
        order = perms([b, f, g], h, "order")[:2]
        m = r.sdim(4, "m")
        (other,) = [d for d in (b, f, g) if d not in order]
        o = rf.reshape(x, in_dims=order, out_dims=[m])
        _check(h, r, o, [m, other], lambda e: r.get(x, {order[0]: e[m] // 2, order[1]: e[m] % 2, other: e[other]}), "reshape")
    h.cover("end")


def h_layout(h, native):
    """copy_transpose, copy_compatible_to_dims, copy_compatible_to, expand, copy_masked keep element identity"""
    r = R(h)
    b, t, f, g = _dims(h, r)
    dims = [b, t, f, g]
    sub = _subset(h, "x", dims[:3])
    x = r.tensor("x", sub)
    target = [dims, [g, f, t, b], [t, b, g, f], [f, g, b, t]][h.choice("target", [0, 1, 2, 3])]
    with _flavor(native):
        raw = x.copy_compatible_to_dims_raw(target)
        h.check(tuple(raw.shape) == tuple(r.size(d) if d in sub else 1 for d in target), "copy_compatible_to_dims_raw shape")
        a = st.values(raw)
        for e in r.envs(sub):
            h.check(close(h, a[tuple(e[d] if d in sub else 0 for d in target)], r.get(x, e)), "copy_compatible_to_dims_raw")
        y = x.copy_compatible_to_dims(target)
        a = st.values(y.raw_tensor)
        h.check(tuple(a.shape) == tuple(r.size(d) if d in sub else 1 for d in target), "copy_compatible_to_dims shape")
        for e in r.envs(sub):
            h.check(close(h, a[tuple(e[d] if d in sub else 0 for d in target)], r.get(x, e)), "copy_compatible_to_dims")
        y = x.copy_transpose(perms(sub, h, "tr"))
        _check(h, r, y, sub, lambda e: r.get(x, e), "copy_transpose")
        templ = Tensor("t", target, dtype="float32")
        y = x.copy_compatible_to(templ, unbroadcast=True)
        h.check(list(y.dims) == target, "copy_compatible_to dims")
        _check(h, r, y, target, lambda e: r.get(x, e), "copy_compatible_to unbroadcast")
        y = rf.expand_dims(x, [d for d in target if d not in sub])
        _check(h, r, y, target, lambda e: r.get(x, e), "expand_dims")
        y = x.copy()
        _check(h, r, y, sub, lambda e: r.get(x, e), "copy")
    h.cover("end")


def h_matmul(h, native, kind):
    """matmul by dim identity"""
    r = R(h)
    b, f, g, k = r.sdim(2, "b"), r.sdim(2, "f"), r.sdim(2, "g"), r.sdim(2, "k")
    if kind == "batch":
        x, y = r.tensor("x", perms([b, f, k], h, "xp")), r.tensor("y", perms([b, k, g], h, "yp"))
        z = rf.matmul(x, y, reduce=k)
        r.check_tensor(
            z,
            [b, f, g],
            lambda e: lsum([v_mul(r.get(x, {b: e[b], f: e[f], k: i}), r.get(y, {b: e[b], k: i, g: e[g]})) for i in range(2)]),
            "matmul",
        )
    elif kind == "common2":
        c = r.sdim(2, "c")
        xp = [[b, c, f, k], [c, b, k, f], [k, b, f, c], [f, c, k, b]][h.choice("xp", [0, 1, 2, 3])]
        x, y = r.tensor("x", xp), r.tensor("y", perms([b, c, k, g], h, "yp"))
        z = rf.matmul(x, y, reduce=k)
        r.check_tensor(
            z,
            [b, c, f, g],
            lambda e: lsum([v_mul(r.get(x, {**e, k: i}), r.get(y, {**e, k: i})) for i in range(2)]),
            "matmul with two common dims",
        )
    elif kind == "two":
        x, y = r.tensor("x", perms([b, f, k], h, "xp")), r.tensor("y", perms([f, k], h, "yp"))
        z = rf.matmul(x, y, reduce=perms([f, k], h, "rp"))
        r.check_tensor(
            z, [b], lambda e: lsum([v_mul(r.get(x, {b: e[b], f: j, k: i}), r.get(y, {k: i, f: j})) for i in range(2) for j in range(2)]), "matmul two"
        )
    elif kind == "dyn":
        t = r.tdim([b], 2, fork=True)
        x, y = r.tensor("x", perms([b, t, k], h, "xp")), r.tensor("y", perms([k, g], h, "yp"))
        for z in (rf.matmul(x, y, reduce=k), rf.dot(y, x, reduce=k)):
            r.check_tensor(
                z, [b, t, g], lambda e: lsum([v_mul(r.get(x, {b: e[b], t: e[t], k: i}), r.get(y, {k: i, g: e[g]})) for i in range(2)]), "matmul dyn"
            )
    elif kind == "linear":
        # square weight: same dim in and out
        same = bool(h.fork(h.bool("same")))
        o = k if same else g
        lin = rf.Linear(k, o)
        w = h.reals("w", 4, -4, 4)
        bias = h.reals("bias", 2, -4, 4)
        wt = r.tensor_of("wt", lin.weight.dims, w)
        bt = r.tensor_of("bt", lin.bias.dims, bias)
        lin.weight, lin.bias = wt, bt
        t = r.tdim([b], 2, fork=True)
        x = r.tensor("x", perms([b, t, k], h, "xp"), feature_dim=k)
        z = lin(x)
        h.check(z.feature_dim == o, "Linear: feature dim")
        wa = r.arr(wt)
        r.check_tensor(
            z,
            [b, t, o],
            lambda e: v_add(lsum([v_mul(r.get(x, {b: e[b], t: e[t], k: i}), wa[i, e[o]]) for i in range(2)]), bias[e[o]]),
            "Linear",
        )
    elif kind == "embedding":
        t = r.tdim([b], 2, fork=True)
        emb = rf.Embedding(k, g)
        wt = r.tensor("w", emb.weight.dims)
        emb.weight = wt
        x = r.tensor("x", perms([b, t], h, "xp"), dtype="int32", lo=0, hi=1, sparse_dim=k)
        z = emb(x)
        r.check_tensor(z, [b, t, g], lambda e: st._pick([r.get(wt, {k: i, g: e[g]}) for i in range(2)], r.get(x, e)), "Embedding")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds="4 dims of size 2 (one with dynamic lengths), any subset and order", validate=4, real_rounding=True))

    for native in (True, False):
        n = "native" if native else "python"
        for ops in (["add", "sub"], ["mul", "maximum"], ["truediv"], ["minimum", "squared_difference"], ["equal", "less"], ["not_equal", "greater_equal"], ["greater", "less_equal"]):
            if q and not native and ops[0] not in ("add", "equal", "mul", "truediv"):
                continue
            add("binary/%s/%s" % (n, "_".join(ops)), h_binary, ops=ops, native=native, full=not q)
        for op in ("sub", "less") if q else ("sub", "mul", "less", "equal"):
            add("bc/%s/%s" % (n, op), h_bc_all, native=native, op=op)
        add("scalar/" + n, h_scalar, native=native)
        add("logical/" + n, h_logical, native=native)
        add("where/%s/all" % n, h_where, native=native, kind="bc" if not q else "all")
        add("where/%s/scalar" % n, h_where, native=native, kind="scalar")
        add("misc/" + n, h_misc, native=native)
        if native:
            add("square/" + n, h_square, native=native)
        add("layout/" + n, h_layout, native=native)
    for k in ["batch", "common2", "two", "dyn", "linear", "embedding"]:
        add("matmul/" + k, h_matmul, native=True, kind=k)
    return res
