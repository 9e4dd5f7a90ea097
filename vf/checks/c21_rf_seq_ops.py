"""
C21: ops which restructure sequences act on each sequence separately, as list operations, padding is never mixed in.
"""

from vf.rfh import *

PROPERTY = "C21"
ASSUMPTIONS = [
    "tensor elements are exact reals; PyTorch backend in eager mode on CPU, ATen kernels interpreted by vf/symtorch.py",
    "latest behavior version",
]
COVERS = ["padded", "not_padded", "end"]


class S:
    """setup"""

    def __init__(self, h, B, T, lo=1, F=1, order=True, fork=True, dtype="float32", name="x"):
        self.h = h
        r = self.r = R(h)
        self.b, self.f = r.sdim(B, "b"), r.sdim(F, "f")
        self.t = r.tdim([self.b], T, lo=lo, fork=fork)
        self.dims = perms([self.b, self.t] + ([self.f] if F > 1 else []), h) if order else [self.b, self.t] + ([self.f] if F > 1 else [])
        self.x = r.tensor(name, self.dims, dtype=dtype)
        self.B, self.F = B, F
        self.n = [r.lens(self.t, {self.b: i}) for i in range(B)]
        h.cover("padded", min(self.n) < max(self.n))
        h.cover("not_padded", min(self.n) == max(self.n))

    def seq(self, i, f=None):
        """list of the frames of sequence i"""
        e = {self.b: i}
        if f is not None:
            e[self.f] = f
        return [self.r.get(self.x, {**e, self.t: j}) for j in range(self.n[i])]

    def check_seqs(self, y, ydim, fn, msg, other_dims=()):
        """y has (b, ydim, [f]) and each sequence must be fn(list, i)"""
        r = self.r
        want = {}
        for i in range(self.B):
            for f in range(self.F):
                want[i, f] = fn(self.seq(i, f if self.F > 1 else None), i)
        r.check_len(ydim, [self.b], lambda e: len(want[e[self.b], 0]), msg + ": lengths")
        r.check_tensor(
            y,
            [self.b, ydim] + ([self.f] if self.F > 1 else []),
            lambda e: want[e[self.b], e.get(self.f, 0)][e[ydim]],
            msg,
        )
        self.h.cover("end")


def h_pad(h, B, T, F, mode):
    """pad"""
    s = S(h, B, T, F=F, lo=1)
    left, right = h.choice("left", [0, 1, 2]), h.choice("right", [0, 1, 2])
    val = h.real("padv", -8, 8)
    if mode == "dyn":
        # amount of right padding depends on the sequence
        amounts = [int(v) for v in h.ints("amount", B, 0, 2)]
        d = s.r.dim_of([s.b], amounts, "amount")
        y, (yd,) = rf.pad(s.x, axes=[s.t], padding=[(left, d)], value=1.5)
        s.check_seqs(y, yd, lambda xs, i: [1.5] * left + xs + [1.5] * amounts[i], "pad dyn")
        return
    if mode == "tensor_value":
        v = s.r.tensor("pv", [s.b])
        y, (yd,) = rf.pad(s.x, axes=[s.t], padding=[(left, right)], value=v)
        s.check_seqs(
            y, yd, lambda xs, i: [s.r.get(v, {s.b: i})] * left + xs + [s.r.get(v, {s.b: i})] * right, "pad with tensor value"
        )
        return
    value = 2.5
    y, (yd,) = rf.pad(s.x, axes=[s.t], padding=[(left, right)], mode=mode, **({"value": value} if mode == "constant" else {}))

    def _f(xs, i):
        n = len(xs)
        if mode == "constant":
            return [value] * left + xs + [value] * right
        raise ValueError(mode)

    s.check_seqs(y, yd, _f, "pad %s %i %i" % (mode, left, right))


def h_shift(h, B, T, F, which):
    """shift"""
    s = S(h, B, T, F=F)
    amount = h.choice("amount", [1, 2])
    if which == "right":
        y = rf.shift_right(s.x, axis=s.t, pad_value=0.5, amount=amount)
        s.check_seqs(y, s.t, lambda xs, i: ([0.5] * amount + xs)[: len(xs)], "shift_right")
    else:
        y = rf.shift_left(s.x, axis=s.t, pad_value=0.5, amount=amount)
        s.check_seqs(y, s.t, lambda xs, i: (xs + [0.5] * amount)[amount : amount + len(xs)], "shift_left")


def h_reverse(h, B, T, F):
    """reverse_sequence"""
    s = S(h, B, T, F=F, fork=False)
    y = rf.reverse_sequence(s.x, axis=s.t)
    s.check_seqs(y, s.t, lambda xs, i: xs[::-1], "reverse_sequence")


def h_slice(h, B, T, F, kind):
    """slice"""
    s = S(h, B, T, F=F, lo=2 if kind in ("neg", "end", "size") else 1)
    if kind == "start":
        start = h.choice("start", [0, 1])
        y, yd = rf.slice(s.x, axis=s.t, start=start)
        s.check_seqs(y, yd, lambda xs, i: xs[start:], "slice start")
    elif kind == "step":
        start, step = h.choice("start", [0, 1]), h.choice("step", [1, 2, 3])
        y, yd = rf.slice(s.x, axis=s.t, start=start, step=step)
        s.check_seqs(y, yd, lambda xs, i: xs[start::step], "slice start step")
    elif kind == "end":
        start, end = h.choice("start", [0, 1]), h.choice("end", [1, 2])
        h.assume(start < end)
        y, yd = rf.slice(s.x, axis=s.t, start=start, end=end)
        s.check_seqs(y, yd, lambda xs, i: xs[start:end], "slice start end")
    elif kind == "neg":
        start = h.choice("start", [0, 1])
        y, yd = rf.slice(s.x, axis=s.t, start=start, end=-1)
        s.check_seqs(y, yd, lambda xs, i: xs[start:-1], "slice end=-1")
    elif kind == "size":
        start = int(h.int("start", 0, 1))
        st_ = s.r.tensor_of("start", [], start, "int32") if h.fork(h.bool("start_tensor")) else start
        y, yd = rf.slice(s.x, axis=s.t, start=st_, size=1)
        s.check_seqs(y, yd, lambda xs, i: xs[start : start + 1], "slice start, size")
    elif kind == "size_dim":
        sizes = [int(v) for v in h.ints("size", B, 1, T)]
        h.assume(s_and([sizes[i] <= s.n[i] for i in range(B)]))
        d = s.r.dim_of([s.b], sizes, "size")
        y, yd = rf.slice(s.x, axis=s.t, size=d)
        h.check(yd == d, "out dim")
        s.check_seqs(y, yd, lambda xs, i: xs[: sizes[i]], "slice size dim")


def h_concat(h, B, T, F, kind):
    """concat"""
    s = S(h, B, T, F=F, order=False)
    r = s.r
    u = r.sdim(2, "u")
    y = r.tensor("y", perms([s.b, u] + ([s.f] if F > 1 else []), h, "perm_y"))
    # dynamic one must be last
    z, zd = rf.concat((y, u), (s.x, s.t))
    s.check_seqs(
        z,
        zd,
        lambda xs, i: [r.get(y, {s.b: i, u: k}) for k in range(2)] + xs,
        "concat static, dynamic",
    )
    if kind == "twice":
        w = r.tensor("w", [s.b, u])
        z, zd = rf.concat((w, u), (y, u), (s.x, s.t))
        s.check_seqs(
            z,
            zd,
            lambda xs, i: [r.get(w, {s.b: i, u: k}) for k in range(2)] + [r.get(y, {s.b: i, u: k}) for k in range(2)] + xs,
            "concat static, static, dynamic",
        )


def h_concat_features(h, B, T):
    """concat over the feature dim, any dim orders"""
    r = R(h)
    b, f, g = r.sdim(B, "b"), r.sdim(2, "f"), r.sdim(1, "g")
    t = r.tdim([b], T, fork=True)
    x = r.tensor("x", perms([b, t, f], h), feature_dim=f)
    y = r.tensor("y", perms([b, t, g], h, "perm2"), feature_dim=g)
    z, zd = rf.concat((x, f), (y, g))
    h.cover("padded")
    h.cover("not_padded")
    r.check_tensor(z, [b, t, zd], lambda e: r.get(x, {**e, f: e[zd]}) if e[zd] < 2 else r.get(y, {**e, g: 0}), "concat features")
    z2 = rf.concat_features(x, y)
    zd2 = z2.feature_dim
    h.check(zd2 is not None and zd2.dimension == 3, "concat_features dim")
    r.check_tensor(z2, [b, t, zd2], lambda e: r.get(x, {**e, f: e[zd2]}) if e[zd2] < 2 else r.get(y, {**e, g: 0}), "concat_features")
    # broadcast
    v = r.tensor("v", [g])
    z3, zd3 = rf.concat((v, g), (x, f), allow_broadcast=True)
    r.check_tensor(z3, [b, t, zd3], lambda e: r.get(v, {g: 0}) if e[zd3] < 1 else r.get(x, {**e, f: e[zd3] - 1}), "concat broadcast")
    h.cover("end")


def h_masked_select(h, B, T, F, kind):
    """masked_select, masked_scatter"""
    s = S(h, B, T, F=F)
    r, b, t, f = s.r, s.b, s.t, s.f
    if kind == "pack":
        order = perms([b, t], h, "order")
        y, yd = rf.pack_padded(s.x, dims=order)
        if order == [b, t]:
            pos = [(i, j) for i in range(B) for j in range(s.n[i])]
        else:
            pos = [(i, j) for j in range(max(s.n)) for i in range(B) if j < s.n[i]]
        h.check(r.size(yd) == len(pos), "packed size %s, expected %s" % (r.size(yd), len(pos)))
        rest = [f] if F > 1 else []
        r.check_tensor(
            y, [yd] + rest, lambda e: r.get(s.x, {b: pos[e[yd]][0], t: pos[e[yd]][1], **{d: e[d] for d in rest}}), "pack_padded"
        )
        z = rf.pad_packed(y, in_dim=yd, dims=order)
        r.check_tensor(z, [b, t] + rest, lambda e: r.get(s.x, e), "pad_packed(pack_padded(x)) is not x")
        h.cover("end")
        return
    m = r.tensor("mask", perms([b, t], h, "perm_m"), dtype="bool")
    ms = [[bool(r.get(m, {b: i, t: j})) for j in range(s.n[i])] for i in range(B)]
    if kind == "per_seq":
        y, yd = rf.masked_select(s.x, mask=m, dims=[t])
        s.check_seqs(y, yd, lambda xs, i: [x for x, c in zip(xs, ms[i]) if c], "masked_select per sequence")
        if sum(map(sum, ms)):
            z = rf.masked_scatter(y, mask=m, dims=[t], in_dim=yd)
            rest = [f] if F > 1 else []
            r.check_tensor(z, [b, t] + rest, lambda e: r.get(s.x, e) if ms[e[b]][e[t]] else 0, "masked_scatter per sequence")
        return
    order = perms([b, t], h, "order")
    y, yd = rf.masked_select(s.x, mask=m.copy_masked(False), dims=order)
    if order == [b, t]:
        pos = [(i, j) for i in range(B) for j in range(s.n[i]) if ms[i][j]]
    else:
        pos = [(i, j) for j in range(max(s.n)) for i in range(B) if j < s.n[i] and ms[i][j]]
    h.check(r.size(yd) == len(pos), "masked_select size")
    rest = [f] if F > 1 else []
    r.check_tensor(y, [yd] + rest, lambda e: r.get(s.x, {b: pos[e[yd]][0], t: pos[e[yd]][1], **{d: e[d] for d in rest}}), "masked_select")
    back = r.tensor("back", [b, t] + rest)
    z = rf.masked_scatter(y, back, mask=m.copy_masked(False), dims=order, in_dim=yd)
    r.check_tensor(z, [b, t] + rest, lambda e: r.get(s.x if ms[e[b]][e[t]] else back, e), "masked_scatter")
    h.cover("end")


def h_gather(h, B, T, F, kind):
    """gather"""
    s = S(h, B, T, F=F, fork=kind == "clip")
    r, b, t, f = s.r, s.b, s.t, s.f
    k = r.sdim(2, "k")
    rest = [f] if F > 1 else []
    if kind == "int":
        i = h.choice("i", [0])
        y = rf.gather(s.x, indices=i, axis=t)
        r.check_tensor(y, [b] + rest, lambda e: r.get(s.x, {**e, t: i}), "gather int")
    elif kind == "clip":
        idx = r.tensor("i", perms([b, k], h, "perm_i"), dtype="int32", lo=-2, hi=T + 1)
        y = rf.gather(s.x, indices=idx, axis=t, clip_to_valid=True)
        r.check_tensor(
            y,
            [b, k] + rest,
            lambda e: st._pick(
                [r.get(s.x, {**{d: e[d] for d in [b] + rest}, t: j}) for j in range(s.n[e[b]])],
                s_max(0, s_min(r.get(idx, e), s.n[e[b]] - 1)),
            ),
            "gather clip_to_valid",
        )
    else:
        idims = {"bk": [b, k], "k": [k], "b": [b]}[kind]
        idx = r.tensor("i", perms(idims, h, "perm_i"), dtype="int32", lo=0, hi=T - 1)
        size = r.size(t)
        h.assume(s_and([v < size for v in r.arr(idx).reshape(-1)]))
        y = rf.gather(s.x, indices=idx, axis=t)
        out = ([b] if b in idims or b in s.x.dims else []) + ([k] if k in idims else []) + rest
        r.check_tensor(
            y,
            out,
            lambda e: st._pick([r.get(s.x, {**{d: e[d] for d in [b] + rest}, t: j}) for j in range(size)], r.get(idx, e)),
            "gather",
        )
    h.cover("end")


def h_gather_static(h):
    """gather on a static axis, with clipping"""
    r = R(h)
    b, f, k = r.sdim(2, "b"), r.sdim(3, "f"), r.sdim(2, "k")
    x = r.tensor("x", perms([b, f], h))
    idx = r.tensor("i", perms([b, k], h, "perm_i") if bool(h.bool("with_b")) else [k], dtype="int32", lo=-2, hi=4)
    y = rf.gather(x, indices=idx, axis=f, clip_to_valid=True)
    r.check_tensor(
        y, [b, k], lambda e: st._pick([r.get(x, {b: e[b], f: j}) for j in range(3)], s_max(0, s_min(r.get(idx, e), 2))), "gather clip_to_valid on static axis"
    )
    h.cover("padded")
    h.cover("not_padded")
    h.cover("end")


def h_seq_mask(h):
    """sequence_mask over several dims with own lengths"""
    r = R(h)
    b, f = r.sdim(2, "b"), r.sdim(2, "f")
    t, u = r.tdim([b], 2, name="t", fork=True), r.tdim([b], 2, name="u", fork=True)
    dims = perms([b, t, u], h) if bool(h.bool("two")) else perms([b, f, u], h)
    m = rf.sequence_mask(dims)
    dyn = [d for d in dims if d in (t, u) and any(r.lens(d, {b: i}) < r.size(d) for i in range(2))]
    h.cover("padded", len(dyn) == 2)
    h.cover("not_padded", not dyn)
    h.check(set(m.dims) <= set(dims) and set(dyn) <= set(m.dims), "mask dims %s" % (m.dims,))
    a = st.values(m.raw_tensor)
    for idx in np.ndindex(*[r.size(d) for d in dims]):
        e = dict(zip(dims, idx))
        v = a[tuple(e[d] for d in m.dims)]
        h.check(bool(v) == all(e[d] < r.lens(d, e) for d in dyn), "mask at %s" % (idx,))
    h.cover("end")


def h_window_valid(h):
    """window without padding"""
    s = S(h, 2, 4, lo=2, F=1)
    r, b, t = s.r, s.b, s.t
    wd = r.sdim(2, "w")
    stride = h.choice("stride", [1, 2])
    y, yd = rf.window(s.x, spatial_dim=t, window_dim=wd, stride=stride, padding="valid")
    r.check_len(yd, [b], lambda e: -(-(s.n[e[b]] - 1) // stride), "window lengths")
    r.check_tensor(y, [b, yd, wd], lambda e: r.get(s.x, {b: e[b], t: e[yd] * stride + e[wd]}), "window valid")
    h.cover("end")


def h_scatter(h, B, T, F, mode, dtype="float32"):
    """scatter: padded frames must not be added"""
    s = S(h, B, T, F=F, dtype=dtype)
    r, b, t, f = s.r, s.b, s.t, s.f
    o = r.sdim(2, "o")
    rest = [f] if F > 1 else []
    idx = r.tensor("i", perms([b, t], h, "perm_i"), dtype="int32", lo=0, hi=1, sparse_dim=o)
    fill = h.choice("fill", [None, 0, 1.5] if dtype == "float32" else [0, -3])
    y = rf.scatter(s.x, indices=idx, indices_dim=t, mode=mode.split("/")[0], **({"fill_value": fill} if fill is not None else {}))
    ix = [[int(r.get(idx, {b: i, t: j})) for j in range(s.n[i])] for i in range(B)]

    def _expect(e):
        xs = [r.get(s.x, {**{d: e[d] for d in [b] + rest}, t: j}) for j in range(s.n[e[b]]) if ix[e[b]][j] == e[o]]
        if not xs:
            if fill is not None:
                return fill
            return {"sum": 0, "max": float("-inf"), "min": float("inf")}[mode]
        return {"sum": lsum, "max": lmax, "min": lmin}[mode](xs)

    r.check_tensor(y, [b, o] + rest, _expect, "scatter " + mode)
    h.cover("end")


def h_scatter2(h, B, T, mode):
    """scatter_argmax, scatter_logsumexp, scatter_logmeanexp"""
    s = S(h, B, T)
    r, b, t = s.r, s.b, s.t
    o = r.sdim(2, "o")
    ix = [[int(h.int("i_%i_%i" % (i, j), 0, 1)) for j in range(r.size(t))] for i in range(B)]
    idx = r.tensor_of("i", [b, t], ix, "int32", sparse_dim=o)
    y = rf.scatter(s.x, indices=idx, indices_dim=t, mode=mode, **({"fill_value": -1} if mode == "argmax" else {}))

    def _expect(e):
        js = [j for j in range(s.n[e[b]]) if ix[e[b]][j] == e[o]]
        xs = [r.get(s.x, {b: e[b], t: j}) for j in js]
        if mode == "argmax":
            res = -1
            for k in reversed(range(len(js))):  # the first one
                res = s_ite(s_and([xs[k] >= x for x in xs]), js[k], res)
            return res
        if not xs:
            return float("-inf")
        # numerically stable variant. same function, but the solver does not know that
        m = lmax(xs)
        y = v_add(log(lsum([exp(v_sub(x, m)) for x in xs])), m)
        return y if mode == "logsumexp" else v_sub(y, log(Fraction(len(xs))))

    r.check_tensor(y, [b, o], _expect, "scatter " + mode)
    h.cover("end")


def h_window(h, B, T, F):
    """window"""
    s = S(h, B, T, F=F)
    r, b, t, f = s.r, s.b, s.t, s.f
    w = h.choice("w", [2, 3])
    wd = r.sdim(w, "w")
    stride = h.choice("stride", [1, 2])
    left = h.choice("left", [None, 0, 1])
    rest = [f] if F > 1 else []
    kw = {"window_left": left} if left is not None else {}
    y, yd = rf.window(s.x, spatial_dim=t, window_dim=wd, stride=stride, **kw)
    l = (w + 1) // 2 - 1 if left is None else left
    r.check_len(yd, [b], lambda e: -(-s.n[e[b]] // stride), "window lengths")

    def _expect(e):
        j = e[yd] * stride - l + e[wd]
        if not 0 <= j < s.n[e[b]]:
            return 0
        return r.get(s.x, {**{d: e[d] for d in [b] + rest}, t: j})

    r.check_tensor(y, [b, yd, wd] + rest, _expect, "window")
    h.cover("end")


def h_merge_split(h, B, T, F):
    """merge_dims / split_dims are inverse, and flatten in the given order"""
    r = R(h)
    b, f, g = r.sdim(B, "b"), r.sdim(2, "f"), r.sdim(3, "g")
    t = r.tdim([b], T, fork=True)
    x = r.tensor("x", perms([b, t, f, g], h) if False else [[b, t, f, g], [f, b, g, t], [t, g, b, f], [g, f, t, b]][h.choice("perm", [0, 1, 2, 3])])
    order = perms([f, g], h, "order")
    y, yd = rf.merge_dims(x, dims=order)
    h.cover("padded")
    h.cover("not_padded")
    n1 = order[1].dimension
    r.check_tensor(y, [b, t, yd], lambda e: r.get(x, {**e, order[0]: e[yd] // n1, order[1]: e[yd] % n1}), "merge_dims")
    z = rf.split_dims(y, axis=yd, dims=order)
    r.check_tensor(z, [b, t, f, g], lambda e: r.get(x, e), "split_dims(merge_dims(x)) is not x")
    # merging with a dynamic dim keeps all the elements
    order2 = perms([b, t], h, "order2")
    y2, yd2 = rf.merge_dims(x, dims=order2)
    T_ = r.size(t)
    h.check(r.size(yd2) == B * T_, "merged size")

    def _e2(e):
        i = e[yd2]
        i, j = (i // T_, i % T_) if order2 == [b, t] else (i % B, i // B)
        return r.get(x, {**{f: e[f], g: e[g]}, b: i, t: j})

    h.check(set(y2.dims) == {yd2, f, g}, "merge_dims dims")
    a = r.arr(y2)
    ok = []
    for idx in np.ndindex(*a.shape):
        ok.append(close(h, a[idx], _e2(dict(zip(y2.dims, idx)))))
    h.check(s_and(ok), "merge_dims with dynamic dim")
    h.cover("end")


def h_split_dyn(h, B, T):
    """split_dims of dynamic dim into chunks, padded"""
    s = S(h, B, T)
    r, b, t = s.r, s.b, s.t
    w = h.choice("w", [2, 3])
    wd = r.sdim(w, "w")
    h.assume(r.size(t) % w == 0)  # padding to a multiple is not implemented in the PyTorch backend
    cd = t.ceildiv_right(wd)
    y = rf.split_dims(s.x, axis=t, dims=[cd, wd])
    r.check_len(cd, [b], lambda e: -(-s.n[e[b]] // w), "split_dims lengths")

    def _expect(e):
        j = e[cd] * w + e[wd]
        if j >= s.n[e[b]]:
            return None  # padding
        return r.get(s.x, {b: e[b], t: j})

    r.check_tensor(y, [b, cd, wd], _expect, "split_dims of dynamic dim")
    h.cover("end")


def h_split(h, B, T):
    """split static dim"""
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(4, "f")
    t = r.tdim([b], T)
    x = r.tensor("x", perms([b, t, f], h))
    d1, d2, d3 = r.sdim(1, "d1"), r.sdim(2, "d2"), r.sdim(1, "d3")
    outs = rf.split(x, axis=f, out_dims=[d1, d2, d3])
    h.cover("padded")
    h.cover("not_padded")
    off = 0
    for d, y in zip([d1, d2, d3], outs):
        r.check_tensor(y, [b, t, d], lambda e, off=off, d=d: r.get(x, {b: e[b], t: e[t], f: off + e[d]}), "split")
        off += d.dimension
    y, sd = rf.stack([x, x + 1.0], out_dim=None)
    r.check_tensor(y, [b, t, f, sd], lambda e: v_add(r.get(x, {d: e[d] for d in (b, t, f)}), Fraction(e[sd])), "stack")
    h.cover("end")


def h_cumsum(h, B, T):
    """cumsum, cum_concat_step"""
    s = S(h, B, T, fork=True)
    y = rf.cumsum(s.x, spatial_dim=s.t)
    s.check_seqs(y, s.t, lambda xs, i: [lsum(xs[: j + 1]) for j in range(len(xs))], "cumsum")
    r = s.r
    new = r.tensor("new", [s.b])
    z, zd = rf.cum_concat_step(new, prev_accum=s.x, axis=s.t)
    s.check_seqs(z, zd, lambda xs, i: xs + [r.get(new, {s.b: i})], "cum_concat_step appends after the last valid frame")


def h_range(h, B, T):
    """range_over_dim, one_hot, expand, squeeze, sequence_mask"""
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(3, "f")
    t = r.tdim([b], T)
    h.cover("padded")
    h.cover("not_padded")
    y = rf.range_over_dim(t)
    r.check_tensor(y, [t] if b not in y.dims else [b, t], lambda e: e[t], "range_over_dim") if b in y.dims else h.check(
        s_and([v == i for i, v in enumerate(r.arr(y))]), "range_over_dim"
    )
    lab = r.tensor("lab", perms([b, t], h), dtype="int32", lo=0, hi=2, sparse_dim=f)
    oh = rf.one_hot(lab)
    r.check_tensor(oh, [b, t, f], lambda e: s_ite(r.get(lab, e) == e[f], 1, 0), "one_hot")
    x = r.tensor("x", [b, f])
    y = rf.expand_dim(x, t)
    r.check_tensor(y, [b, f, t], lambda e: r.get(x, e), "expand_dim")
    one = r.sdim(1, "one")
    z = rf.squeeze(rf.expand_dim(x, one), one)
    r.check_tensor(z, [b, f], lambda e: r.get(x, e), "squeeze")
    m = rf.sequence_mask(perms([b, t], h, "perm2"))
    if set(m.dims) == {b, t}:
        for i in range(B):
            for j in range(r.size(t)):
                h.check(symx.s_iff(r.get(m, {b: i, t: j}), j < r.lens(t, {b: i})), "sequence_mask")
    else:
        h.check(all(r.lens(t, {b: i}) == r.size(t) for i in range(B)), "sequence_mask without dims")
    st_, sd = rf.range_over_dim_strided(t, stride=2)
    r.check_len(sd, [b], lambda e: -(-r.lens(t, e) // 2), "range_over_dim_strided length")
    h.check(s_and([v == 2 * i for i, v in enumerate(r.arr(st_).reshape(-1))]) if st_.dims == (sd,) else True, "range_over_dim_strided")
    h.cover("end")


def h_replace_dim(h, B, T):
    """replace_dim_v2: data of the valid frames is kept, also when the new dim is longer or shorter"""
    s = S(h, B, T)
    r = s.r
    new = [int(v) for v in h.ints("new", B, 1, T)]
    d = r.dim_of([s.b], new, "new")
    y, yd = rf.replace_dim_v2(s.x, in_dim=s.t, out_dim=d), d
    r.check_len(yd, [s.b], lambda e: new[e[s.b]], "replace_dim_v2 lengths")
    r.check_tensor(
        y, [s.b, d], lambda e: r.get(s.x, {s.b: e[s.b], s.t: e[d]}) if e[d] < s.n[e[s.b]] else None, "replace_dim_v2"
    )
    h.cover("end")


def h_sort(h, B, T):
    """sort over a static dim, search_sorted, top_p_mask"""
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(3, "f")
    x = r.tensor("x", perms([b, f], h))
    desc = bool(h.fork(h.bool("desc")))
    y, ix, yd = rf.sort(x, axis=f, descending=desc)
    h.check(ix.sparse_dim == f, "sparse dim")
    for i in range(B):
        xs = [r.get(x, {b: i, f: j}) for j in range(3)]
        ys = [r.get(y, {b: i, yd: j}) for j in range(3)]
        iz = [r.get(ix, {b: i, yd: j}) for j in range(3)]
        for p in range(2):
            h.check(ys[p] >= ys[p + 1] if desc else ys[p] <= ys[p + 1], "sort order")
            h.check(s_implies(close(h, ys[p], ys[p + 1]), iz[p] < iz[p + 1]), "sort is stable") if h.symbolic else None
        h.check(s_distinct(iz), "sort indices are a permutation")
        for p in range(3):
            h.check(close(h, st._pick(xs, iz[p]), ys[p]), "sort index belongs to the value")
    h.cover("end")
    h.cover("padded")
    h.cover("not_padded")


def h_search_sorted(h, B):
    """search_sorted"""
    r = R(h)
    b, f, k = r.sdim(B, "b"), r.sdim(3, "f"), r.sdim(2, "k")
    x = r.tensor("x", perms([b, f], h))
    for i in range(B):
        for j in range(2):
            h.assume(r.get(x, {b: i, f: j}) <= r.get(x, {b: i, f: j + 1}))
    v = r.tensor("v", perms([b, k], h, "perm2"))
    side = h.choice("side", ["left", "right"])
    y = rf.search_sorted(x, v, axis=f, side=side)
    r.check_tensor(
        y,
        [b, k],
        lambda e: symx.s_count(
            [(r.get(x, {b: e[b], f: j}) < r.get(v, e)) if side == "left" else (r.get(x, {b: e[b], f: j}) <= r.get(v, e)) for j in range(3)]
        ),
        "search_sorted " + side,
    )
    h.cover("end")
    h.cover("padded")
    h.cover("not_padded")


def h_top_p(h):
    """top_p_mask: smallest set of most probable labels which reaches the probability mass"""
    r = R(h)
    f = r.sdim(3, "f")
    x = r.tensor("x", [f], lo=0, hi=1)
    xs = list(r.arr(x))
    h.assume(s_and(xs[0] != xs[1], xs[1] != xs[2], xs[0] != xs[2]))
    p = h.choice("p", [0.25, 0.5, 1.0])
    one_more = bool(h.fork(h.bool("one_more")))
    m = rf.top_p_mask(x, axis=f, p=p, one_more=one_more)
    h.check(m.dtype == "bool" and set(m.dims) == {f}, "top_p_mask dtype/dims")
    for j in range(3):
        # mass of all more probable ones
        above = lsum([s_ite(xs[i] > xs[j], xs[i], Fraction(0)) for i in range(3) if i != j])
        first = s_and([xs[i] < xs[j] for i in range(3) if i != j])
        if one_more:
            want = s_or(first, above <= p)
        else:
            want = v_add(above, xs[j]) <= p
        h.check(symx.s_iff(r.get(m, {f: j}), want), "top_p_mask")
    mk = rf.top_k_mask(x, axis=f, k=2)
    for j in range(3):
        want = symx.s_count([xs[i] > xs[j] for i in range(3) if i != j]) < 2
        h.check(symx.s_iff(r.get(mk, {f: j}), want), "top_k_mask")
    h.cover("end")
    h.cover("padded")
    h.cover("not_padded")


def cases(tier):
    """cases"""
    q = tier == "quick"
    T = 3 if q else 4
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds="B=%s T<=%s, all dim orders" % (kw.get("B", "-"), kw.get("T", "-")), validate=4, real_rounding=True))

    for mode in ["constant", "dyn", "tensor_value"]:
        add("pad/" + mode, h_pad, B=2, T=T, F=1 if mode != "constant" else 2, mode=mode)
    add("shift/right", h_shift, B=2, T=T, F=2, which="right")
    add("shift/left", h_shift, B=2, T=T, F=2, which="left")
    add("reverse", h_reverse, B=2, T=T, F=2)
    for k in ["start", "step", "end", "neg", "size", "size_dim"]:
        add("slice/" + k, h_slice, B=2, T=T, F=1 if k in ("size_dim", "step") else 2, kind=k)
    add("concat/1", h_concat, B=2, T=T, F=1, kind="twice")
    add("concat/features", h_concat_features, B=2, T=2)
    for k in ["pack", "per_seq", "all"]:
        add("masked/" + k, h_masked_select, B=2, T=T if k == "pack" else 2, F=1 if k != "pack" else 2, kind=k)
    for k in ["int", "clip", "bk", "k", "b"]:
        add("gather/" + k, h_gather, B=2, T=T, F=2 if k in ("int", "b") else 1, kind=k)
    for m in ["sum", "max", "min"]:
        add("scatter/" + m, h_scatter, B=2, T=2 if m != "sum" else T, F=1, mode=m)
    for m in ["argmax", "logsumexp", "logmeanexp"]:
        add("scatter/" + m, h_scatter2, B=2, T=2, mode=m)
    for m in ["sum", "max", "min"]:
        add("scatter/%s/int" % m, h_scatter, B=2, T=2, F=1, mode=m, dtype="int32")
    add("gather/static", h_gather_static)
    add("seq_mask", h_seq_mask)
    add("window/valid", h_window_valid)
    add("window", h_window, B=2, T=T, F=1)
    add("merge_split", h_merge_split, B=2, T=2, F=1)
    add("split_dyn", h_split_dyn, B=2, T=T)
    add("split", h_split, B=2, T=2)
    add("cumsum", h_cumsum, B=2, T=T)
    add("range", h_range, B=2, T=T)
    add("replace_dim", h_replace_dim, B=2, T=T)
    add("sort", h_sort, B=1, T=0)
    add("search_sorted", h_search_sorted, B=2)
    add("top_p", h_top_p)
    return res
