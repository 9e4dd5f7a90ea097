"""
C24: attention looks at exactly the right frames: all frames of the own sequence (or the past ones), with the right positions.
"""

import math
from vf.rfh import *
from returnn.tensor import single_step_dim

PROPERTY = "C24"
st.EXTRA_FACTORIES.add("arange")  # positions go symbolically into sin
ASSUMPTIONS = [
    "tensor elements are exact reals; exp / sin are uninterpreted functions (equal results only for equal arguments); PyTorch backend in eager mode on CPU, ATen kernels interpreted by vf/symtorch.py",
    "evaluation mode (no dropout); projection weights are fixed distinct numbers, inputs, biases u/v and learned position embeddings are free",
    "position encodings are those of the code's documented formula (base 1e4)",
]
COVERS = ["padded", "not_padded", "end"]


def _weights(r, mod, i0=0):
    """all params get distinct small values"""
    n = [i0]
    for name, p in mod.named_parameters():
        shape = [d.dimension for d in p.dims]
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            n[0] += 1
            a[idx] = Fraction((n[0] * 7 + n[0] * n[0]) % 17 - 8 or 9, 8)
        p.raw_tensor = torch.nn.Parameter(torch.tensor([float(x) for x in a.flat]).reshape(shape), requires_grad=False)


def _par(mod_or_p, *idx):
    v = mod_or_p.raw_tensor.detach()[tuple(idx)].item()
    return Fraction(v)


def _setup(h, B, T, lo=1, n_in=1):
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(n_in, "in")
    t = r.tdim([b], T, lo=lo, fork=True)
    lens = [r.lens(t, {b: x}) for x in range(B)]
    h.cover("padded", min(lens) < max(lens))
    h.cover("not_padded", min(lens) == max(lens))
    return r, b, t, f, lens


def _att(scores, values):
    """softmax-weighted sum"""
    ws = lsoftmax(scores)
    return lsum([v_mul(w, v) for w, v in zip(ws, values)])


def _dot(xs, ys):
    return lsum([v_mul(x, y) for x, y in zip(xs, ys)])


def h_dot(h, B, T, qdim):
    """rf.dot_attention"""
    r, b, t, f, lens = _setup(h, B, T)
    nh, kd, vd = r.sdim(1 + (qdim is None), "heads"), r.sdim(2, "key"), r.sdim(1, "val")
    q_ = {"static": r.sdim(2, "q"), "dyn": r.tdim([b], 2, name="qt", fork=True), None: None}[qdim]
    qd = [b, nh, kd] + ([q_] if q_ else [])
    q = r.tensor("q", perms(qd, h, "permq") if len(qd) < 4 else [qd, list(reversed(qd))][h.choice("permq", [0, 1])])
    kdims = [b, t, nh, kd]
    k = r.tensor("k", [kdims, [t, b, nh, kd], [nh, kd, t, b]][h.choice("permk", [0, 1, 2])])
    v = r.tensor("v", [[b, t, nh, vd], [vd, nh, t, b]][h.choice("permv", [0, 1])], feature_dim=vd)
    y = rf.dot_attention(q, k, v, key_dim=kd, axis=t)
    sc = Fraction(2**-0.5)

    def _expect(e):
        fr = range(lens[e[b]])
        scores = [v_mul(_dot([r.get(q, {**e, kd: d}) for d in range(2)], [r.get(k, {**e, t: j, kd: d}) for d in range(2)]), sc) for j in fr]
        return _att(scores, [r.get(v, {**e, t: j}) for j in fr])

    r.check_tensor(y, [b, nh, vd] + ([q_] if q_ else []), _expect, "dot_attention")
    h.check(y.feature_dim == vd, "feature dim")
    h.cover("end")


def _qkv_ref(mod, x_of, nh, kd, vd, n_in):
    """:return: func (frame) -> q,k,v with [head][i]"""
    w = mod.qkv.weight
    bias = mod.qkv.bias
    per = 2 * kd + vd

    def _f(env):
        xs = x_of(env)
        out = []
        for o in range(nh * per):
            a = lsum([v_mul(xs[i], _par(w, i, o) if w.dims[0] is mod.qkv.in_dim else _par(w, o, i)) for i in range(n_in)])
            out.append(v_add(a, _par(bias, o)) if bias is not None else a)
        heads = [out[i * per : (i + 1) * per] for i in range(nh)]
        return [hd[:kd] for hd in heads], [hd[kd : 2 * kd] for hd in heads], [hd[2 * kd :] for hd in heads]

    return _f


def _mk(h, cls, B, T, nh, kd, vd, n_in, proj, **kw):
    r, b, t, f, lens = _setup(h, B, T, n_in=n_in)
    dims = dict(key_dim_total=Dim(nh * kd, name="key_total"), value_dim_total=Dim(nh * vd, name="value_total"))
    pd = Dim(1, name="proj") if proj else None
    mod = cls(f, pd, num_heads=nh, **dims, **kw)
    _weights(r, mod)
    x = r.tensor("x", [[b, t, f], [t, b, f], [f, t, b]][h.choice("perm", [0, 1, 2])], feature_dim=f, lo=-4, hi=4)
    qkv = _qkv_ref(mod, lambda e: [r.get(x, {b: e[0], t: e[1], f: i}) for i in range(n_in)], nh, kd, vd, n_in)
    return r, b, t, f, lens, mod, x, qkv


def _final(mod, vals):
    """:param vals: flat value_dim_total"""
    if not mod.proj:
        return vals
    w = mod.proj.weight
    o_first = w.dims[0] is mod.proj.out_dim
    res = []
    for o in range(mod.out_dim.dimension):
        a = lsum([v_mul(v, _par(w, o, i) if o_first else _par(w, i, o)) for i, v in enumerate(vals)])
        res.append(v_add(a, _par(mod.proj.bias, o)) if mod.proj.bias is not None else a)
    return res


def _sin_pos(i, D, base=1e4):
    """absolute sinusoidal encoding, frame i"""
    n = D // 2
    div = [exp(Fraction(k) * Fraction(-(math.log(base) / (n - 1)))) for k in range(n)]
    s = v_uf("sin")
    return [s(v_mul(Fraction(i), d)) for d in div] + [s(v_add(v_mul(Fraction(i), d), Fraction(math.pi / 2.0))) for d in div]


def _rope(vec, i):
    """rotate"""
    D = len(vec)
    pe = _sin_pos(i, D, base=10_000 ** (1 - 2 / D))
    sin, cos = pe[: D // 2], pe[D // 2 :]
    res = []
    for n in range(D // 2):
        re, im = vec[2 * n], vec[2 * n + 1]
        res += [v_sub(v_mul(re, cos[n]), v_mul(im, sin[n])), v_add(v_mul(re, sin[n]), v_mul(im, cos[n]))]
    return res


def _ref(mod, qkv, nh, kd, rope=False, rel=None):
    """:return: func (batch, frame, frames to look at) -> output"""
    sc = Fraction(kd**-0.5)
    cache = {}

    def _get(bb, i):
        if (bb, i) not in cache:
            cache[bb, i] = qkv((bb, i))
        return cache[bb, i]

    def _f(bb, i, frames):
        out = []
        for hd in range(nh):
            q = _get(bb, i)[0][hd]
            if rope:
                q = _rope(q, i)
            scores, vals = [], []
            for j in frames:
                k = _get(bb, j)[1][hd]
                if rope:
                    k = _rope(k, j)
                s = rel(q, k, hd, j - i) if rel else _dot(q, k)
                scores.append(v_mul(s, sc))
                vals.append(_get(bb, j)[2][hd])
            for d in range(len(vals[0])):
                out.append(_att(scores, [v[d] for v in vals]))
        return _final(mod, out)

    return _f


def _check_seq(r, h, y, b, t, od, ref, lens, causal, msg):
    cache = {}

    def _expect(e):
        key = (e[b], e[t])
        if key not in cache:
            cache[key] = ref(e[b], e[t], range(e[t] + 1 if causal else lens[e[b]]))
        return cache[key][e[od]]

    r.check_tensor(y, [b, t, od], _expect, msg)


def _frame(r, x, b, t, f, i):
    """frame i of x"""
    a = r.arr(x.copy_transpose([b, t, f]))
    return r.tensor_of("x%i" % i, [b, f], a[:, i], feature_dim=f)


def _steps(r, h, mod, x, b, t, f, lens, ref, state, offset, n, msg):
    """single steps, from a state where `offset(batch entry)` frames are already in"""
    B = len(lens)
    for i in range(n):
        rows = [[r.get(x, {b: z, t: offset(z) + i, f: c}) for c in range(f.dimension)] for z in range(B)]
        xi = r.tensor_of("xs%i" % i, [b, f], np.array(rows, dtype=object), feature_dim=f)
        y, state = mod(xi, axis=single_step_dim, state=state)
        od = mod.out_dim
        outs = {z: ref(z, offset(z) + i, range(offset(z) + i + 1)) for z in range(B)}
        r.check_tensor(y, [b, od], lambda e: outs[e[b]][e[od]], "%s, step %i" % (msg, i))
    return state


def h_self(h, B, T, kind, nh, kd, vd, n_in, proj, bias):
    """self attention, over all frames of the sequence"""
    rope = kind == "rope"
    cls = rf.RotaryPosSelfAttention if rope else rf.SelfAttention
    r, b, t, f, lens, mod, x, qkv = _mk(h, cls, B, T, nh, kd, vd, n_in, proj, with_bias=bias)
    y = mod(x, axis=t)
    _check_seq(r, h, y, b, t, mod.out_dim, _ref(mod, qkv, nh, kd, rope=rope), lens, False, "self attention")
    h.cover("end")


def h_causal(h, B, T, kind, nh, kd, vd, n_in, proj, bias, how):
    """causal: whole sequence; frame by frame; a prefix and then frame by frame"""
    rope = kind == "rope"
    cls = rf.RotaryPosCausalSelfAttention if rope else rf.CausalSelfAttention
    r, b, t, f, lens, mod, x, qkv = _mk(h, cls, B, T, nh, kd, vd, n_in, proj, with_bias=bias)
    ref = _ref(mod, qkv, nh, kd, rope=rope)
    _run_causal(r, h, mod, x, b, t, f, lens, ref, how)
    h.cover("end")


def _run_causal(r, h, mod, x, b, t, f, lens, ref, how):
    B = len(lens)
    if how == "seq":
        y, _ = mod(x, axis=t, state=h.choice("init", [0, 1]) and mod.default_initial_state(batch_dims=[b]) or None)
        _check_seq(r, h, y, b, t, mod.out_dim, ref, lens, True, "causal self attention")
    elif how == "steps":
        h.assume(min(lens) == max(lens))
        _steps(r, h, mod, x, b, t, f, lens, ref, mod.default_initial_state(batch_dims=[b]), lambda z: 0, lens[0], "causal self attention")
    else:  # prefix with different lengths, and then one or two more frames
        x_ = x.copy_transpose([b, t, f])
        a = r.arr(x_)
        n = max(lens)
        n_more = 1
        pre = [l - n_more for l in lens]
        h.assume(min(pre) >= 1)
        t0 = r.dim_of([b], pre, "prefix")
        x0 = r.tensor_of("x0", [b, t0, f], a[:, : n - n_more], feature_dim=f)
        y, state = mod(x0, axis=t0)
        _check_seq(r, h, y, b, t0, mod.out_dim, ref, pre, True, "causal self attention on prefix")
        _steps(r, h, mod, x, b, t, f, lens, ref, state, lambda z: pre[z], n_more, "causal self attention after prefix")


def h_relpos(h, B, T, causal, learned, linear, bias, per_head, how, nh, kd, clip=1):
    """relative position"""
    cls = rf.RelPosCausalSelfAttention if causal else rf.RelPosSelfAttention
    n_in = 2 if linear else 1
    r, b, t, f, lens, mod, x, qkv = _mk(
        h, cls, B, T, nh, kd, 1, n_in, False, with_bias=False,
        with_linear_pos=linear, with_pos_bias=bias, learnable_pos_emb=learned, learnable_pos_emb_clipping=clip, separate_pos_emb_per_head=per_head,
    )  # fmt: skip
    D = mod.pos_emb_feat_dim.dimension
    if learned:
        emb = r.tensor("emb", mod.learned_pos_emb.pos_emb.dims, lo=-4, hi=4)
        mod.learned_pos_emb.pos_emb = emb

    def _emb(rel):
        if learned:
            a = r.arr(emb)
            return [a[max(-clip, min(clip, rel)) + clip, d] for d in range(D)]
        n = D // 2
        div = [exp(Fraction(k) * Fraction(-(2.0 * math.log(1e4) / D))) for k in range(n)]
        s = v_uf("sin")
        return [s(v_mul(Fraction(rel), d)) for d in div] + [s(v_add(v_mul(Fraction(rel), d), Fraction(math.pi / 2.0))) for d in div]

    if bias:
        u = r.tensor("u", mod.pos_bias_u.dims, lo=-4, hi=4)
        v = r.tensor("v", mod.pos_bias_v.dims, lo=-4, hi=4)
        mod.pos_bias_u, mod.pos_bias_v = u, v
        ua, va = r.arr(u), r.arr(v)

    def _pos(rel, hd):
        p = _emb(rel)
        if linear:
            w = mod.linear_pos.weight
            p = [lsum([v_mul(p[i], _par(w, i, o) if w.dims[0] is mod.linear_pos.in_dim else _par(w, o, i)) for i in range(D)]) for o in range((nh if per_head else 1) * kd)]
        return p[hd * kd : (hd + 1) * kd] if per_head else p

    def _rel(q, k, hd, rel):
        qu = [v_add(q[d], ua[hd, d]) for d in range(kd)] if bias else q
        qv = [v_add(q[d], va[hd, d]) for d in range(kd)] if bias else q
        return v_add(_dot(qu, k), _dot(qv, _pos(rel, hd)))

    ref = _ref(mod, qkv, nh, kd, rel=_rel)
    if causal:
        _run_causal(r, h, mod, x, b, t, f, lens, ref, how)
    else:
        y = mod(x, axis=t)
        _check_seq(r, h, y, b, t, mod.out_dim, ref, lens, False, "self attention with relative positions")
    h.cover("end")


def h_cross(h, B, T, query):
    """cross attention"""
    r, b, t, f, lens = _setup(h, B, T)
    nh, kd, vd = 2, 1, 1
    qf = r.sdim(1, "qin")
    mod = rf.CrossAttention(f, qf, Dim(1, name="proj"), key_dim_total=Dim(nh * kd, name="kt"), value_dim_total=Dim(nh * vd, name="vt"), num_heads=nh)
    _weights(r, mod)
    enc = r.tensor("enc", [[b, t, f], [t, b, f], [f, t, b]][h.choice("perm", [0, 1, 2])], feature_dim=f)
    q_ = {"dyn": r.tdim([b], 2, name="qt", fork=True), "single": None, "same": t}[query]
    if query == "same":
        return
    q = r.tensor("q", perms([b, qf] + ([q_] if q_ else []), h, "permq"), feature_dim=qf)
    y = mod(q, mod.transform_encoder(enc, axis=t))

    def _lin(lin, v, o):
        w = lin.weight
        return v_add(v_mul(v, _par(w, 0, o) if w.dims[0] is lin.in_dim else _par(w, o, 0)), _par(lin.bias, o))

    def _expect(e):
        outs = []
        for hd in range(nh):
            qq = _lin(mod.q, r.get(q, {**e, qf: 0}), hd)
            fr = range(lens[e[b]])
            ks = [_lin(mod.kv, r.get(enc, {**e, t: j, f: 0}), hd * 2) for j in fr]
            vs = [_lin(mod.kv, r.get(enc, {**e, t: j, f: 0}), hd * 2 + 1) for j in fr]
            outs.append(_att([v_mul(qq, k) for k in ks], vs))
        return _final(mod, outs)[0]

    r.check_tensor(y, [b, mod.out_dim] + ([q_] if q_ else []), _expect, "cross attention")
    h.cover("end")


def h_posenc(h, B, T):
    """encodings"""
    r, b, t, f, lens = _setup(h, B, T)
    D = Dim(4, name="feat")
    off = h.choice("offset", [None, 0, 3])
    pe = rf.sinusoidal_positional_encoding(spatial_dim=t, feat_dim=D, offset=off)
    n = max(lens)
    r.check_tensor(pe, [t, D], lambda e: _sin_pos(e[t] + (off or 0), 4)[e[D]] if e[t] < n else None, "sinusoidal") if set(pe.dims) == {t, D} and not t.dyn_size_ext.dims else _check_posenc(r, h, pe, t, D, n, off or 0)
    # cached, with other args in between
    pe2 = rf.sinusoidal_positional_encoding(spatial_dim=t, feat_dim=D, offset=(off or 0) + 1)
    _check_posenc(r, h, pe2, t, D, n, (off or 0) + 1)
    _check_posenc(r, h, rf.sinusoidal_positional_encoding(spatial_dim=t, feat_dim=D, offset=off), t, D, n, off or 0)
    _check_posenc(r, h, rf.sinusoidal_positional_encoding(spatial_dim=t, feat_dim=D, offset=off, base=100), t, D, n, off or 0, base=100)
    i = h.choice("step", [0, 2])
    pe3 = rf.sinusoidal_positional_encoding(spatial_dim=single_step_dim, feat_dim=D, offset=rf.constant(i, dims=()))
    r.check_tensor(pe3, [D], lambda e: _sin_pos(i, 4)[e[D]], "sinusoidal single step")
    h.cover("end")


def h_rel_enc(h, B, T):
    """relative encodings directly: as full matrix, with offset, cached"""
    r, b, t, f, lens = _setup(h, B, T)
    D = Dim(2, name="feat")
    clip = h.choice("clip", [1, 2])
    causal = h.choice("causal", [False, True])
    mod = rf.LearnedRelativePositionalEncoding(D, clipping=clip, causal=causal)
    emb = r.tensor("emb", mod.pos_emb.dims, lo=-4, hi=4)
    mod.pos_emb = emb
    ea = r.arr(emb)
    n = max(lens)

    def _emb(rel, d):
        return ea[max(-clip, min(0 if causal else clip, rel)) + clip, d]

    q = r.sdim(2, "q")
    off = h.choice("offset", [None, 0, 1, 2])
    m = mod.full_matrix(query_spatial_dim=q, key_value_spatial_dim=t, query_offset=off)
    h.check(set(m.dims) == {q, t, D}, "dims")
    a = r.arr(m.copy_transpose([q, t, D]))
    h.check_all([close(h, a[i, j, d], _emb(j - i - (off or 0), d)) for i in range(2) for j in range(n) for d in range(2)], "full matrix of learned encoding")
    m = mod.full_matrix(query_spatial_dim=single_step_dim, key_value_spatial_dim=t)
    r.check_tensor(m, [b, t, D], lambda e: _emb(e[t] - (lens[e[b]] - 1), e[D]), "full matrix, single step")
    # vector of the relative positions, learned
    v, vd = mod(query_spatial_dim=q, key_value_spatial_dim=t, query_offset=off)
    h.check(set(v.dims) == {vd, D}, "dims")
    a = r.arr(v.copy_transpose([vd, D]))
    h.check(a.shape == (n + 1, 2), "number of relative positions")
    h.check_all([close(h, a[i, d], _emb(i - 1 - (off or 0), d)) for i in range(n + 1) for d in range(2)], "learned encoding")
    # sinusoidal, and again from the cache with other args in between
    for o in [0, 1, 0]:
        v, vd = rf.relative_positional_encoding(query_spatial_dim=q, key_value_spatial_dim=t, feat_dim=D, query_offset=o)
        h.check(set(v.dims) == {vd, D}, "dims")
        a = r.arr(v.copy_transpose([vd, D]))
        s = v_uf("sin")
        h.check_all(
            [close(h, a[i, d], s(v_add(Fraction(i - 1 - o), Fraction(0 if d == 0 else math.pi / 2.0)))) for i in range(n + 1) for d in range(2)],
            "sinusoidal relative encoding, offset %i" % o,
        )
    h.cover("end")


def _check_posenc(r, h, pe, t, D, n, off, base=1e4):
    h.check(set(pe.dims) == {t, D}, "dims")
    a = r.arr(pe.copy_transpose([t, D]))
    h.check(a.shape == (n, 4), "shape")
    h.check_all([close(h, a[i, d], _sin_pos(i + off, 4, base)[d]) for i in range(n) for d in range(4)], "sinusoidal encoding")


def cases(tier):
    """cases"""
    q = tier == "quick"
    T = 3 if q else 4
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds="B=%s T<=%s" % (kw.get("B", "-"), kw.get("T", "-")), validate=4, real_rounding=True))

    for qd in (None, "static", "dyn"):
        add("dot/%s" % qd, h_dot, B=2, T=T, qdim=qd)
    add("self/plain", h_self, B=2, T=T, kind="plain", nh=2, kd=1, vd=1, n_in=1, proj=True, bias=True)
    add("self/dims", h_self, B=2, T=2, kind="plain", nh=2, kd=2, vd=1, n_in=2, proj=False, bias=False)
    add("self/rope", h_self, B=2, T=T, kind="rope", nh=1, kd=4, vd=1, n_in=1, proj=False, bias=False)
    for how in ("seq", "steps", "prefix"):
        add("causal/plain/%s" % how, h_causal, B=2, T=T, kind="plain", nh=2, kd=1, vd=1, n_in=1, proj=True, bias=True, how=how)
        add("causal/rope/%s" % how, h_causal, B=2, T=T, kind="rope", nh=1, kd=4, vd=1, n_in=1, proj=False, bias=False, how=how)
    for learned, linear, bias, per_head in ((False, True, True, True), (True, False, False, False), (True, True, False, True), (True, False, True, True), (False, False, False, True)):
        kw = dict(learned=learned, linear=linear, bias=bias, per_head=per_head)
        name = "%s%s%s%s" % ("learned" if learned else "sin", "_lin" if linear else "", "_bias" if bias else "", "_ph" if per_head else "")
        nh, kd = (2, 1)
        add("relpos/%s" % name, h_relpos, B=2, T=T, causal=False, how=None, nh=nh, kd=kd, **kw)
        for how in ("seq", "steps", "prefix"):
            add("relpos_causal/%s/%s" % (name, how), h_relpos, B=2, T=T, causal=True, how=how, nh=nh, kd=kd, **kw)
    add("relpos/clip2", h_relpos, B=2, T=T + 1, causal=False, how=None, nh=1, kd=1, learned=True, linear=False, bias=False, per_head=False, clip=2)
    for query in ("dyn", "single"):
        add("cross/%s" % query, h_cross, B=2, T=T, query=query)
    add("posenc", h_posenc, B=2, T=T)
    add("rel_enc", h_rel_enc, B=2, T=T)
    return res
