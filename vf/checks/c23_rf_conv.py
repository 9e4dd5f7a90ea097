"""
C23: convolution and pooling of a batch with different lengths give, for each sequence, what the sequence alone would give.
"""

from vf.rfh import *

PROPERTY = "C23"
ASSUMPTIONS = [
    "tensor elements are exact reals; PyTorch backend in eager mode on CPU, ATen kernels interpreted by vf/symtorch.py",
    "latest behavior version (masking by default, consistent same-padding)",
    "the longest sequence is at least as long as the (dilated) filter for padding=valid (PyTorch refuses it otherwise)",
    "avg pooling only with padding=valid: with same-padding, the average at the end of a shorter sequence includes the masked zeros (documented: masks with 0)",
]
COVERS = ["padded", "not_padded", "end"]


def _out_len(n, k, s, d, padding):
    if padding == "same":
        return -(-n // s)
    p = 0 if padding == "valid" else padding
    return max(0, -(-(n + 2 * p - (k - 1) * d) // s))


def _left(k, d, padding):
    if padding == "same":
        return (k - 1) * d // 2
    return 0 if padding == "valid" else padding


def h_conv(h, B, T, k, s, d, padding, groups, bias, extra):
    """1d"""
    r = R(h)
    b, e_ = r.sdim(B, "b"), r.sdim(2, "e")
    i, o = r.sdim(2 if groups > 1 else 1 + (k < 3), "in"), r.sdim(2 if groups > 1 else 1, "out")
    I, O = i.dimension, o.dimension
    lo = 1
    t = r.tdim([b], T, lo=lo, fork=True)
    lens = [r.lens(t, {b: x}) for x in range(B)]
    h.cover("padded", min(lens) < max(lens))
    h.cover("not_padded", min(lens) == max(lens))
    if padding != "same":
        h.assume(max(lens) + 2 * _left(k, d, padding) >= (k - 1) * d + 1)
    mod = rf.Conv1d(i, o, k, padding=padding, strides=s if s > 1 or h.fork(h.bool("stride_set")) else None, dilation_rate=d if d > 1 else None, groups=groups if groups > 1 else None, with_bias=bias)
    w = r.tensor("w", mod.filter.dims, lo=-4, hi=4)
    mod.filter = w
    if bias:
        bt = r.tensor("bias", mod.bias.dims)
        mod.bias = bt
    dims = [b, t, i] + ([e_] if extra else [])
    x = r.tensor("x", perms(dims, h) if not extra else [dims, [e_, i, t, b], [t, e_, b, i]][h.choice("perm", [0, 1, 2])], feature_dim=i)
    y, yt = mod(x, in_spatial_dim=t)
    r.check_len(yt, [b], lambda e: _out_len(lens[e[b]], k, s, d, padding), "conv lengths")
    wi = w.dims.index
    fd = [dd for dd in w.dims if dd not in (i, o) and dd.dimension == k][-1:] or None
    fdim = mod.filter_size[0]
    in_g = [dd for dd in w.dims if dd not in (o, fdim)][0] if len(w.dims) == 3 else None
    left = _left(k, d, padding)

    def _expect(e):
        n = lens[e[b]]
        g = e[o] // (O // groups)
        acc = Fraction(0)
        terms = []
        for kk in range(k):
            j = e[yt] * s - left + kk * d
            if not 0 <= j < n:
                continue
            for c in range(I // groups):
                env = {**e, t: j, i: g * (I // groups) + c}
                we = {o: e[o], fdim: kk, in_g: c}
                terms.append(v_mul(r.get(x, env), r.get(w, we)))
        acc = lsum(terms) if terms else acc
        return v_add(acc, r.get(bt, {o: e[o]})) if bias else acc

    r.check_tensor(y, [b, yt, o] + ([e_] if extra else []), _expect, "conv")
    h.check(y.feature_dim == o, "feature dim")
    h.cover("end")


def h_conv2d(h, B, T, dil=False):
    """2d, second spatial dim static"""
    r = R(h)
    b, f, i, o = r.sdim(B, "b"), r.sdim(3, "f"), r.sdim(1, "in"), r.sdim(1, "out")
    t = r.tdim([b], T, fork=True)
    lens = [r.lens(t, {b: x}) for x in range(B)]
    h.cover("padded", min(lens) < max(lens))
    h.cover("not_padded", min(lens) == max(lens))
    ks = h.choice("ks", [(3, 2), (2, 3), (3, 3), (1, 2)] if not dil else [(3, 3), (2, 3)])
    ss = h.choice("ss", [(1, 1), (2, 1), (1, 2)] if not dil else [(1, 1)])
    ds = h.choice("ds", [(1, 1), (2, 1), (1, 2)]) if dil else (1, 1)
    mod = rf.Conv2d(i, o, ks, padding="same", strides=ss, with_bias=False, **({"dilation_rate": ds} if dil else {}))
    w = r.tensor("w", mod.filter.dims, lo=-4, hi=4)
    mod.filter = w
    x = r.tensor("x", [[b, t, f, i], [f, i, b, t], [i, t, b, f]][h.choice("perm", [0, 1, 2])])
    y, (yt, yf) = mod(x, in_spatial_dims=[t, f])
    r.check_len(yt, [b], lambda e: -(-lens[e[b]] // ss[0]), "conv lengths")
    h.check(r.size(yf) == -(-3 // ss[1]), "conv static out dim")
    fa, fb = mod.filter_size

    def _expect(e):
        terms = []
        for k1 in range(ks[0]):
            for k2 in range(ks[1]):
                j1, j2 = [
                    e[yd] * ss[ax] - (ks[ax] - 1) * ds[ax] // 2 + kk * ds[ax] for ax, (yd, kk) in enumerate([(yt, k1), (yf, k2)])
                ]
                if 0 <= j1 < lens[e[b]] and 0 <= j2 < 3:
                    a = st.values(w.raw_tensor)
                    idx = tuple(k1 if ax is fa else k2 if ax is fb else 0 for ax in w.dims)
                    terms.append(v_mul(r.get(x, {b: e[b], t: j1, f: j2, i: 0}), a[idx]))
        return lsum(terms) if terms else Fraction(0)

    r.check_tensor(y, [b, yt, yf, o], _expect, "conv2d")
    h.cover("end")


def h_pool2d(h, B, T, mode, padding):
    """2d pooling, second spatial dim static"""
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(4, "f")
    t = r.tdim([b], T, lo=2, fork=True)
    lens = [r.lens(t, {b: x}) for x in range(B)]
    h.cover("padded", min(lens) < max(lens))
    h.cover("not_padded", min(lens) == max(lens))
    ks = h.choice("ks", [(2, 3), (2, 2), (1, 3)])
    ss = h.choice("ss", [None, (1, 1), (2, 1), (1, 2)])
    x = r.tensor("x", perms([b, t, f], h))
    y, (yt, yf) = rf.pool2d(x, mode=mode, pool_size=ks, padding=padding, strides=ss, in_spatial_dims=[t, f])
    ss = ss or ks
    r.check_len(yt, [b], lambda e: _out_len(lens[e[b]], ks[0], ss[0], 1, padding), "pool lengths")
    h.check(r.size(yf) == _out_len(4, ks[1], ss[1], 1, padding), "pool static out dim")
    left = [_left(k, 1, padding) for k in ks]

    def _expect(e):
        xs = []
        for k1 in range(ks[0]):
            for k2 in range(ks[1]):
                j1, j2 = e[yt] * ss[0] - left[0] + k1, e[yf] * ss[1] - left[1] + k2
                if 0 <= j1 < lens[e[b]] and 0 <= j2 < 4:
                    xs.append(r.get(x, {b: e[b], t: j1, f: j2}))
        if not xs:
            return None
        return lmax(xs) if mode == "max" else lmean(xs)

    r.check_tensor(y, [b, yt, yf], _expect, "pool2d %s %s" % (mode, padding))
    h.cover("end")


def h_pool(h, B, T, mode, padding, k, s, d):
    """pooling"""
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(2, "f")
    t = r.tdim([b], T, fork=True)
    lens = [r.lens(t, {b: x}) for x in range(B)]
    h.cover("padded", min(lens) < max(lens))
    h.cover("not_padded", min(lens) == max(lens))
    if padding != "same":
        h.assume(max(lens) + 2 * _left(k, d, padding) >= (k - 1) * d + 1)
    x = r.tensor("x", perms([b, t, f], h))
    y, yt = rf.pool1d(x, mode=mode, pool_size=k, padding=padding, strides=s, dilation_rate=d, in_spatial_dim=t)
    stride = s or k
    r.check_len(yt, [b], lambda e: _out_len(lens[e[b]], k, stride, d, padding), "pool lengths")
    left = _left(k, d, padding)

    def _expect(e):
        xs = [r.get(x, {**e, t: j}) for j in [e[yt] * stride - left + kk * d for kk in range(k)] if 0 <= j < lens[e[b]]]
        if not xs:
            return None
        return lmax(xs) if mode == "max" else lmean(xs)

    r.check_tensor(y, [b, yt, f], _expect, "pool %s %s" % (mode, padding))
    if mode == "max" and padding == "same" and d == 1:
        z, zt = rf.max_pool1d(x, pool_size=k, padding=padding, strides=s, in_spatial_dim=t)
        r.check_tensor(z, [b, zt, f], lambda e: _expect({**e, yt: e[zt]}), "max_pool1d")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    T = 4 if q else 5
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds="B=%s T<=%s" % (kw.get("B", "-"), kw.get("T", "-")), validate=4, real_rounding=True))

    for padding in ["same", "valid", 1]:
        for k in (1, 2, 3):
            for s in (1, 2, 3):
                for d in (1, 2):
                    if q and (s == 3 and (k != 2 or d == 2)) or (k == 1 and d == 2):
                        continue
                    add("conv/%s/k%i_s%i_d%i" % (padding, k, s, d), h_conv, B=2, T=T, k=k, s=s, d=d, padding=padding, groups=1, bias=k == 2, extra=False)
    add("conv/groups", h_conv, B=2, T=3, k=2, s=1, d=1, padding="same", groups=2, bias=True, extra=False)
    add("conv/extra", h_conv, B=2, T=3, k=3, s=2, d=1, padding="same", groups=1, bias=True, extra=True)
    add("conv2d", h_conv2d, B=2, T=3)
    add("conv2d/dilation", h_conv2d, B=2, T=3, dil=True)
    for mode, padding in [("max", "same"), ("max", "valid"), ("avg", "valid")]:
        add("pool2d/%s/%s" % (mode, padding), h_pool2d, B=2, T=3, mode=mode, padding=padding)
    for mode in ("max", "avg"):
        for padding in ("same", "valid", 1):
            if mode == "avg" and padding != "valid":
                continue
            for k in (2, 3):
                for s in (1, 2, 3, None):
                    for d in (1, 2):
                        if d == 2 and (mode == "avg" or s == 3 or (k == 3 and padding == "same" and s != 1)):
                            continue
                        add("pool/%s/%s/k%i_s%s_d%i" % (mode, padding, k, s, d), h_pool, B=2, T=T, mode=mode, padding=padding, k=k, s=s, d=d)
    return res
