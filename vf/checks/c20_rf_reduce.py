"""
C20: padded frames never influence reductions, softmax, normalization, matmul.
"""

from vf.rfh import *

PROPERTY = "C20"
ASSUMPTIONS = [
    "tensor elements are exact reals in [-8,8], for max/min/argmax/argmin/top_k in [-1e9,1e9] (rounding is not modelled); exp/log/sqrt are uninterpreted functions with a few true facts",
    "PyTorch backend in eager mode on CPU; the ATen kernels are interpreted by vf/symtorch.py (checked against PyTorch by vf/selftest.py)",
    "latest behavior version",
]
COVERS = ["padded", "not_padded", "end"]


_WIDE = dict(lo=-(10**9), hi=10**9)  # where only comparisons are done: far outside of any plausible mask value


def _setup(h, B, T, F, extra_order=True, fork=True, dtype="float32", wide=False):
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(F, "f")
    t = r.tdim([b], T, fork=fork)
    dims = perms([b, t, f], h) if extra_order else [b, t, f]
    x = r.tensor("x", dims, dtype=dtype, **(_WIDE if wide else {}))
    h.cover("padded", any(r.lens(t, {b: i}) < r.size(t) for i in range(B)))
    h.cover("not_padded", all(r.lens(t, {b: i}) == r.size(t) for i in range(B)))
    return r, b, t, f, x


def _valid(r, x, axes, env):
    """values of x over the valid frames of the axes, other dims given by env"""
    rest = [d for d in x.dims if d not in env]
    assert set(rest) == set(axes)
    static = [d for d in rest if d.dimension is not None]
    dyn = [d for d in rest if d.dimension is None]
    vals = []
    for idx in itertools.product(*[range(d.dimension) for d in static]):
        e0 = {**env, **dict(zip(static, idx))}
        cur = [e0]
        for d in dyn:
            cur = [{**e, d: i} for e in cur for i in range(r.lens(d, e))]
        vals += [(r.get(x, e), e) for e in cur]
    return vals


def h_reduce(h, mode, axes, B, T, F, dtype="float32"):
    """reduce_*"""
    r, b, t, f, x = _setup(h, B, T, F, fork=mode == "mean", dtype=dtype, wide=mode in ("max", "min"))
    ax = {"t": [t], "bt": [b, t], "tf": [t, f], "btf": [b, t, f], "f": [f], "b": [b]}[axes]
    rest = [d for d in (b, t, f) if d not in ax]
    if mode in ("any", "all"):
        x = x > 0
    if mode.startswith("log"):
        y = getattr(rf, "reduce_" + mode)(x, axis=ax if len(ax) > 1 else ax[0])
    else:
        y = getattr(rf, "reduce_" + mode)(x, axis=ax if len(ax) > 1 or h.fork(h.bool("aslist")) else ax[0])

    def _expect(env):
        vals = [v for v, _ in _valid(r, x, ax, env)]
        if mode == "sum":
            return lsum(vals)
        if mode == "mean":
            return lmean(vals)
        if mode == "max":
            return lmax(vals)
        if mode == "min":
            return lmin(vals)
        if mode == "logsumexp":
            return lse(vals)
        if mode == "any":
            return s_or(vals)
        if mode == "all":
            return s_and(vals)
        raise ValueError

    r.check_tensor(y, rest, _expect, "reduce_%s over %s" % (mode, axes))
    h.cover("end")


def h_reduce2(h, mode):
    """reduce over two dynamic dims with own lengths: each needs its own mask"""
    r = R(h)
    b = r.sdim(2, "b")
    t, u = r.tdim([b], 2, name="t"), r.tdim([b], 2, name="u")
    x = r.tensor("x", perms([b, t, u], h))
    h.cover("padded", any(r.lens(t, {b: i}) < r.size(t) and r.lens(u, {b: i}) < r.size(u) for i in range(2)))
    h.cover("not_padded", all(r.lens(t, {b: i}) == r.size(t) and r.lens(u, {b: i}) == r.size(u) for i in range(2)))
    ax = [t, u] if h.fork(h.bool("tu")) else [u, t]
    y = getattr(rf, "reduce_" + mode)(x, axis=ax)
    fn = {"sum": lsum, "mean": lmean, "max": lmax}[mode]
    r.check_tensor(y, [b], lambda env: fn([v for v, _ in _valid(r, x, ax, env)]), "reduce_%s over two dynamic dims" % mode)
    h.cover("end")


def h_arg(h, mode, B, T, F, dtype="float32"):
    """argmax/argmin: must be a valid frame, with the best value"""
    r, b, t, f, x = _setup(h, B, T, F, dtype=dtype, wide=True)
    y = getattr(rf, "reduce_" + mode)(x, axis=t)
    h.check(y.sparse_dim == t, "sparse dim")
    h.check(set(y.dims) == {b, f}, "dims")
    for env in r.envs([b, f]):
        i = r.get(y, env)
        n = r.lens(t, env)
        vals = [r.get(x, {**env, t: j}) for j in range(n)]
        h.check(s_and(i >= 0, i < n), "%s gives a padded frame" % mode)
        best = lmax(vals) if mode == "argmax" else lmin(vals)
        h.check(s_or([s_and(i == j, close(h, vals[j], best)) for j in range(n)]), "%s is not the best frame" % mode)
    h.cover("end")


def h_softmax(h, kind, axis, B, T, F):
    """softmax"""
    r, b, t, f, x = _setup(h, B, T, F)
    a = {"t": t, "f": f}[axis]
    y = {"softmax": rf.softmax, "log_softmax": rf.log_softmax}[kind](x, axis=a)

    def _expect(env):
        rest = {d: i for d, i in env.items() if d != a}
        vals = [v for v, _ in _valid(r, x, [a], rest)]
        if kind == "softmax":
            return lsoftmax(vals)[env[a]]
        return v_sub(vals[env[a]], lse(vals))

    r.check_tensor(y, [b, t, f], _expect, "%s over %s" % (kind, axis))
    h.cover("end")


def h_moments(h, axes, B, T, F, correction=0):
    """moments"""
    r, b, t, f, x = _setup(h, B, T, F, extra_order=False)
    ax = {"t": [t], "bt": [b, t], "f": [f]}[axes]
    rest = [d for d in (b, t, f) if d not in ax]
    kw = {"correction": correction} if correction else {}
    if correction:
        for i in range(B):
            h.assume(r.lens(t, {b: i}) > correction)
    mean, var = rf.moments(x, axis=ax if len(ax) > 1 else ax[0], **kw)

    def _var(env):
        vals = [v for v, _ in _valid(r, x, ax, env)]
        mu = lmean(vals)
        return v_div(lsum([v_mul(v_sub(v, mu), v_sub(v, mu)) for v in vals]), Fraction(len(vals) - correction))

    r.check_tensor(mean, rest, lambda env: lmean([v for v, _ in _valid(r, x, ax, env)]), "mean over %s" % axes)
    r.check_tensor(var, rest, _var, "variance over %s" % axes)
    h.cover("end")


def h_normalize(h, what, B, T, F):
    """normalize, layer norm etc: only the mean/variance of the valid frames"""
    r, b, t, f, x = _setup(h, B, T, F, extra_order=False)
    eps = 0.25
    if what == "normalize":
        ax = [t]
        y = rf.normalize(x, axis=t, epsilon=eps)
    elif what == "normalize_bt":
        ax = [b, t]
        y = rf.normalize(x, axis=[b, t], epsilon=eps)
    elif what == "layer_norm":
        ax = [f]
        y = rf.LayerNorm(f, eps=eps)(x)
    elif what == "batch_norm":
        ax = [b, t]
        y = rf.BatchNorm(f, eps=eps, use_mask=True, track_running_stats=False)(x)
    elif what == "batch_norm_default":
        ax = [b, t]
        y = rf.BatchNorm(f, eps=eps, track_running_stats=False)(x)
    else:
        raise ValueError(what)

    def _expect(env):
        vals = [v for v, _ in _valid(r, x, ax, {d: i for d, i in env.items() if d not in ax})]
        mu = lmean(vals)
        var = v_div(lsum([v_mul(v_sub(v, mu), v_sub(v, mu)) for v in vals]), Fraction(len(vals)))
        return v_mul(v_sub(r.get(x, env), mu), rsqrt(v_add(var, st.norm(eps, "f"))))

    r.check_tensor(y, [b, t, f], _expect, what)
    h.cover("end")


def h_rms_norm(h, B, T, F):
    """RMSNorm, GroupNorm: statistics over the features of the frame only"""
    r, b, t, f, x = _setup(h, B, T, F, extra_order=False)
    y = rf.RMSNorm(f, eps=0.25)(x)

    def _expect(env):
        vals = [r.get(x, {**env, f: j}) for j in range(F)]
        ms = lmean([v_mul(v, v) for v in vals])
        return v_mul(r.get(x, env), rsqrt(v_add(ms, Fraction(1, 4))))

    r.check_tensor(y, [b, t, f], _expect, "RMSNorm")
    h.cover("end")


def h_group_norm(h, B, T, F):
    """GroupNorm: statistics over the features of the own group (neighbouring features) of the frame only"""
    r, b, t, f, x = _setup(h, B, T, F)
    y = rf.GroupNorm(f, num_groups=2, eps=0.25)(x)

    def _expect(env):
        n = F // 2
        g = env[f] // n
        vals = [r.get(x, {**env, f: j}) for j in range(g * n, g * n + n)]
        mu = lmean(vals)
        var = lmean([v_mul(v_sub(v, mu), v_sub(v, mu)) for v in vals])
        return v_mul(v_sub(r.get(x, env), mu), rsqrt(v_add(var, Fraction(1, 4))))

    r.check_tensor(y, [b, t, f], _expect, "GroupNorm")
    h.cover("end")


def h_batch_norm_stats(h, B, T, F):
    """running statistics of batch norm: from valid frames only, train vs eval"""
    r, b, t, f, x = _setup(h, B, T, F, extra_order=False)
    bn = rf.BatchNorm(f, eps=3.0, use_mask=True, momentum=0.25)
    for p in bn.parameters():
        if h.symbolic:
            # same values, but can get symbolic values assigned
            p.raw_tensor = torch.nn.Parameter(p.raw_tensor.clone(), requires_grad=False)
    old_m = [st.norm(v, "f") for v in r.arr(bn.running_mean)]
    assigned = {}

    def _assign(param, value, op="assign"):
        assigned[param] = (op, value)

    from returnn.torch.frontend import TorchBackend

    train = bool(h.fork(h.bool("train")))
    with patched((TorchBackend, "parameter_assign", staticmethod(_assign))):
        rf.init_train_step_run_ctx(train_flag=train, step=0, epoch=1)
        try:
            y = bn(x)
        finally:
            rf.init_train_step_run_ctx(train_flag=False, step=0, epoch=1)
    if not train:
        h.check(not assigned, "running statistics updated in eval mode")
        inv = Fraction(1, 2)
        r.check_tensor(y, [b, t, f], lambda env: v_mul(r.get(x, env), inv), "batch norm in eval mode uses the running statistics")
        h.cover("end")
        return
    h.check(set(assigned) == {bn.running_mean, bn.running_variance}, "running statistics not updated in training")
    for p, is_var in ((bn.running_mean, False), (bn.running_variance, True)):
        op, value = assigned[p]
        h.check(op == "add", "unexpected op %s" % op)

        def _expect(env):
            vals = [v for v, _ in _valid(r, x, [b, t], env)]
            mu = lmean(vals)
            if is_var:
                mu = v_div(lsum([v_mul(v_sub(v, mu), v_sub(v, mu)) for v in vals]), Fraction(len(vals)))
            return v_mul(v_sub(mu, Fraction(1 if is_var else 0)), Fraction(1, 4))

        r.check_tensor(value, [f], _expect, "running statistics update")
    h.cover("end")


def h_matmul(h, B, T, F):
    """matmul reducing over the dynamic dim"""
    r, b, t, f, x = _setup(h, B, T, F)
    g = r.sdim(2, "g")
    variant = h.choice("variant", ["btg", "tg_no_b", "bt"])
    if variant == "btg":
        dims = perms([b, t, g], h, "perm2")
    elif variant == "bt":
        dims = perms([b, t], h, "perm2")
    else:
        dims = [t, g]
    y = r.tensor("y", dims)
    # masking inside of matmul is documented as not implemented for PyTorch
    z = rf.matmul(x.copy_masked(0), y, reduce=t, use_mask=False)
    out = [b, f] + ([g] if g in dims else [])

    def _expect(env):
        return lsum([v_mul(r.get(x, {**env, t: i}), r.get(y, {**env, t: i})) for i in range(r.lens(t, env))])

    r.check_tensor(z, out, _expect, "matmul over time")
    h.cover("end")


def h_matmul_static(h, B, T, F):
    """matmul reducing over a static dim: values by dim identity"""
    r, b, t, f, x = _setup(h, B, T, F)
    g = r.sdim(2, "g")
    variant = h.choice("variant", ["fg", "bfg", "bf", "f"])
    dims = {"fg": [f, g], "bfg": [b, f, g], "bf": [b, f], "f": [f]}[variant]
    y = r.tensor("y", perms(dims, h, "perm2"))
    z = rf.matmul(x, y, reduce=f)
    out = [b, t] + ([g] if g in dims else [])
    r.check_tensor(
        z,
        out,
        lambda env: lsum([v_mul(r.get(x, {**env, f: i}), r.get(y, {**env, f: i})) for i in range(F)]),
        "matmul over feature",
    )
    h.cover("end")


def h_matmul2(h, B, T, F):
    """matmul reducing over (time, feature)"""
    r, b, t, f, x = _setup(h, B, T, F)
    y = r.tensor("y", perms([b, t, f], h, "perm2"))
    z = rf.matmul(x.copy_masked(0), y, reduce=perms([t, f], h, "perm3"), use_mask=False)
    r.check_tensor(
        z,
        [b],
        lambda env: lsum(
            [v_mul(r.get(x, {**env, t: i, f: j}), r.get(y, {**env, t: i, f: j})) for i in range(r.lens(t, env)) for j in range(F)]
        ),
        "matmul over time and feature",
    )
    h.cover("end")


def h_topk(h, B, T, k, dtype="float32"):
    """top_k over dynamic dim: the best valid frames"""
    r = R(h)
    b = r.sdim(B, "b")
    t = r.tdim([b], T, lo=k)
    x = r.tensor("x", perms([b, t], h), dtype=dtype, **_WIDE)
    n = [r.lens(t, {b: i}) for i in range(B)]
    h.cover("padded", min(n) < max(n))
    h.cover("not_padded", min(n) == max(n))
    vals, idx, kd = rf.top_k(x, axis=t, k=k)
    h.check(set(vals.dims) == {b, kd} == set(idx.dims), "dims")
    for i in range(B):
        xs = [r.get(x, {b: i, t: j}) for j in range(n[i])]
        srt = sorted(xs, key=_key, reverse=True)
        ids = []
        for j in range(k):
            v, ix = r.get(vals, {b: i, kd: j}), r.get(idx, {b: i, kd: j})
            h.check(close(h, v, srt[j]), "top_k value %i" % j)
            h.check(s_or([s_and(ix == p, close(h, xs[p], v)) for p in range(n[i])]), "top_k index does not belong to value, or is padded")
            ids.append(ix)
        h.check(s_distinct(ids), "top_k indices not distinct")
    h.cover("end")


def h_topk_dyn(h, T, k):
    """top_k over two axes, one dynamic: never a padded frame"""
    r = R(h)
    b, beam = r.sdim(2, "b"), r.sdim(2, "beam")
    t = r.dim_of([b], [int(h.int("len", 1, T)), T], "t")
    dims = perms([b, beam, t], h)
    x = r.tensor("x", dims, **_WIDE)
    h.assume(s_and([r.get(x, {b: 1, beam: p, t: q}) == p - q for p in range(2) for q in range(T)]))  # one seq fixed: less paths
    n = [r.lens(t, {b: i}) for i in range(2)]
    h.cover("padded", min(n) < max(n))
    h.cover("not_padded", min(n) == max(n))
    order = perms([beam, t], h, "axes")
    vals, idx, kd = rf.top_k(x, axis=order, k=k)
    i1, i2 = idx[order.index(beam)], idx[order.index(t)]
    h.check(i1.sparse_dim == beam and i2.sparse_dim == t, "sparse dims of the indices")
    for i in range(2):
        xs = {(p, q): r.get(x, {b: i, beam: p, t: q}) for p in range(2) for q in range(n[i])}
        for j in range(k):
            e = {b: i, kd: j}
            val, p, q = r.get(vals, e), r.get(i1, e), r.get(i2, e)
            h.check(s_or([s_and(p == pp, q == qq, close(h, v, val)) for (pp, qq), v in xs.items()]), "top_k indices do not point to the value")
            if j == 0:
                h.check(close(h, val, lmax(list(xs.values()))), "top_k best value")
            else:
                h.check(r.get(vals, {b: i, kd: j - 1}) >= val, "top_k order")
    h.cover("end")


class _key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def h_topk2(h, B, K, V, k):
    """top_k over two axes (beam, classes): indices decode to the right element"""
    r = R(h)
    b, beam, v = r.sdim(B, "b"), r.sdim(K, "beam"), r.sdim(V, "v")
    x = r.tensor("x", perms([b, beam, v], h))
    order = perms([beam, v], h, "axes")
    vals, idx, kd = rf.top_k(x, axis=order, k=k)
    h.cover("padded")
    h.cover("not_padded")
    for i in range(B):
        xs = {(p, q): r.get(x, {b: i, beam: p, v: q}) for p in range(K) for q in range(V)}
        srt = sorted(xs.values(), key=_key, reverse=True)
        i1, i2 = idx[order.index(beam)], idx[order.index(v)]
        h.check(i1.sparse_dim == beam and i2.sparse_dim == v, "sparse dims of the indices")
        for j in range(k):
            e = {b: i, kd: j}
            val, p, q = r.get(vals, e), r.get(i1, e), r.get(i2, e)
            h.check(close(h, val, srt[j]), "top_k value")
            h.check(
                s_or([s_and(p == pp, q == qq, close(h, xs[pp, qq], val)) for pp, qq in xs]), "top_k indices do not point to the value"
            )
    h.cover("end")


def h_topk3(h):
    """top_k over three axes of different sizes: the index of each axis"""
    r = R(h)
    ds = [r.sdim(2, "d0"), r.sdim(3, "d1"), r.sdim(2, "d2")]
    order = perms(list(ds), h, "axes")
    dims = perms(list(ds), h)
    envs = r.envs(ds)
    m = h.int("best", 0, len(envs) - 1)
    a = np.empty([d.dimension for d in dims], dtype=object)
    for i, e in enumerate(envs):
        a[tuple(e[d] for d in dims)] = symx.s_ite(m == i, Fraction(50), Fraction(-i))
    x = r.tensor_of("x", dims, a)
    vals, idx, kd = rf.top_k(x, axis=order, k=1)
    h.cover("padded")
    h.cover("not_padded")
    h.check(close(h, r.get(vals, {kd: 0}), Fraction(50)), "top_k value")
    for i, e in enumerate(envs):
        for d in ds:
            h.check(symx.s_implies(m == i, r.get(idx[order.index(d)], {kd: 0}) == e[d]), "top_k index of one of three axes")
    h.cover("end")


def h_num_elements(h, B, T):
    """num_elements_of_shape, masked_fraction, last_frame_position, mask"""
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(3, "f")
    t = r.tdim([b], T)
    n = [r.lens(t, {b: i}) for i in range(B)]
    h.cover("padded", min(n) < max(n))
    h.cover("not_padded", min(n) == max(n))
    dims = perms([b, t, f], h)
    v = rf.num_elements_of_shape(dims)
    h.check(r.get(v, {}) == sum(n) * 3, "num elements")
    dims2 = perms([b, t], h, "perm2")
    h.check(r.get(rf.num_elements_of_shape(dims2), {}) == sum(n), "num elements (b,t)")
    r.check_tensor(rf.num_elements_of_shape(t), [b], lambda e: n[e[b]], "num elements (t)")
    fr = rf.masked_fraction_of_shape(dims2)
    if not (isinstance(fr, int) and min(n) == max(n)):
        h.check(close(h, r.get(fr, {}), Fraction(sum(n), B * max(n))), "masked fraction")
    r.check_tensor(rf.last_frame_position_of_dim(t), [b], lambda e: max(n[e[b]] - 1, 0), "last frame position")
    m = t.get_mask(dim_order=perms([b, t], h, "perm3"))
    h.check(set(m.dims) == {b, t} or min(n) == max(n), "mask dims")
    if set(m.dims) == {b, t}:
        for i in range(B):
            for j in range(r.size(t)):
                h.check(symx.s_iff(r.get(m, {b: i, t: j}), j < n[i]), "mask")
    h.check(r.size(t) == max(n), "axis size")
    h.cover("end")


def h_copy_masked(h, B, T, F):
    """copy_masked"""
    r, b, t, f, x = _setup(h, B, T, F)
    y = x.copy_masked(7.0)
    h.check(y.dims == x.dims, "dims")
    n = [r.lens(t, {b: i}) for i in range(B)]
    for i in range(B):
        for j in range(r.size(t)):
            for k in range(F):
                e = {b: i, t: j, f: k}
                h.check(close(h, r.get(y, e), r.get(x, e) if j < n[i] else 7.0), "copy_masked")
    h.cover("end")


def h_loss_mean(h, B, T):
    """losses are reduced over the valid frames only, and over all sequences"""
    r = R(h)
    b = r.sdim(B, "b")
    t = r.tdim([b], T)
    x = r.tensor("x", perms([b, t], h))
    n = [r.lens(t, {b: i}) for i in range(B)]
    h.cover("padded", min(n) < max(n))
    h.cover("not_padded", min(n) == max(n))
    scale = 2.0
    ctx = rf.init_train_step_run_ctx(train_flag=True, step=0, epoch=1)
    ctx = rf.get_run_ctx()
    try:
        ctx.mark_as_loss(x, "frame", scale=scale, use_normalized_loss=True)
        per_seq = r.tensor("y", [b])
        inv = t.get_size_tensor()
        ctx.mark_as_loss(per_seq, "seq", custom_inv_norm_factor=inv, use_normalized_loss=True)
        ctx.mark_as_loss(per_seq, "err", as_error=True)
        ctx.mark_as_loss(per_seq, "seqsum", use_normalized_loss=False)
        losses = ctx.losses
        total = ctx.total_loss()
    finally:
        rf.init_train_step_run_ctx(train_flag=False, step=0, epoch=1)
    xs = [r.get(x, {b: i, t: j}) for i in range(B) for j in range(n[i])]
    ys = [r.get(per_seq, {b: i}) for i in range(B)]
    h.check(close(h, r.get(losses["frame"].get_summed_loss(), {}), lsum(xs)), "summed loss")
    h.check(close(h, r.get(losses["frame"].get_mean_loss(), {}), lmean(xs)), "mean loss")
    h.check(close(h, r.get(losses["frame"].get_inv_norm_factor(), {}), len(xs)), "inv norm factor")
    h.check(close(h, r.get(losses["seq"].get_mean_loss(), {}), v_div(lsum(ys), Fraction(sum(n)))), "mean loss with custom norm")
    h.check(close(h, r.get(losses["seq"].get_summed_loss(), {}), lsum(ys)), "summed loss with custom norm")
    h.check(close(h, r.get(losses["seq"].get_inv_norm_factor(), {}), sum(n)), "custom inv norm factor")
    want = v_add(
        v_add(v_mul(Fraction(2), lmean(xs)), v_div(lsum(ys), Fraction(sum(n)))), lsum(ys)
    )
    h.check(close(h, r.get(total, {}), want), "total loss")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    T = 3 if q else 4
    res = []

    def add(name, fn, **kw):
        B = kw.get("B", 2)
        res.append(Case(name, fn, kw, bounds="B=%s T<=%s, all dim orders" % (B, kw.get("T", "-")), validate=4, real_rounding=True))

    for mode in ["sum", "mean", "max", "min", "logsumexp", "any", "all"]:
        for axes in ["t", "bt", "tf"] + (["btf", "f"] if mode in ("sum", "mean") else []):
            if mode in ("max", "min", "any", "all") and axes != "t":
                continue
            if mode == "logsumexp" and axes == "tf":
                continue
            add("reduce/%s/%s" % (mode, axes), h_reduce, mode=mode, axes=axes, B=2, T=T, F=2)
    for mode in ["argmax", "argmin"]:
        add("reduce/" + mode, h_arg, mode=mode, B=2, T=T, F=1)
        add("reduce/" + mode + "/int", h_arg, mode=mode, B=2, T=2, F=1, dtype="int32")
    for mode in ["sum", "max", "min"]:
        add("reduce/%s/t/int" % mode, h_reduce, mode=mode, axes="t", B=2, T=T, F=1, dtype="int32")
    for mode in ["max", "min"]:
        for axes in ["bt", "tf"]:
            add("reduce/%s/%s" % (mode, axes), h_reduce, mode=mode, axes=axes, B=2, T=2, F=2)
    for mode in ["sum", "mean", "max"]:
        add("reduce/%s/tu" % mode, h_reduce2, mode=mode)
    for kind in ["softmax", "log_softmax"]:
        for axis in ["t", "f"]:
            add("%s/%s" % (kind, axis), h_softmax, kind=kind, axis=axis, B=2, T=T, F=2)
    for axes in ["t", "bt", "f"]:
        add("moments/" + axes, h_moments, axes=axes, B=2, T=T, F=2)
    add("moments/correction", h_moments, axes="t", B=2, T=T, F=1, correction=1)
    for what in ["normalize", "normalize_bt", "layer_norm", "batch_norm", "batch_norm_default"]:
        add("norm/" + what, h_normalize, what=what, B=2, T=2 if q else 3, F=2)
    add("norm/rms", h_rms_norm, B=2, T=2, F=2)
    add("norm/group", h_group_norm, B=2, T=2, F=4)
    add("norm/batch_norm_stats", h_batch_norm_stats, B=2, T=2 if q else 3, F=1)
    add("matmul/t", h_matmul, B=2, T=T, F=2)
    add("matmul/f", h_matmul_static, B=2, T=2, F=2)
    add("matmul/tf", h_matmul2, B=2, T=2 if q else 3, F=2)
    add("top_k/t", h_topk, B=2, T=3, k=2)
    add("top_k/t/int", h_topk, B=2, T=3, k=1, dtype="int32")
    add("top_k/beam_t", h_topk_dyn, T=2, k=2)
    add("top_k/3axes", h_topk3)
    add("top_k/beam", h_topk2, B=1, K=2, V=2, k=2)
    add("num_elements", h_num_elements, B=2, T=T)
    add("copy_masked", h_copy_masked, B=2, T=T, F=1)
    add("loss", h_loss_mean, B=2, T=T)
    return res
