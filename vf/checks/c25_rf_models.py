"""
C25: recurrent modules, loops and whole encoder/decoder models: each sequence of a batch gets what it would get alone,
and processing step by step gives the same as the whole sequence at once.
"""

import math
from vf.rfh import *
from returnn.tensor import single_step_dim
from returnn.frontend.decoder.transformer import TransformerDecoder, FeedForward as rf_ff
from returnn.frontend.encoder.transformer import TransformerEncoder
from returnn.frontend.encoder.conformer import ConformerEncoder, ConformerEncoderLayer, ConformerConvSubsample

PROPERTY = "C25"
st.EXTRA_FACTORIES.add("arange")  # positions go symbolically into sin
ASSUMPTIONS = [
    "tensor elements are exact reals; exp, tanh, sigmoid, ... are uninterpreted functions (equal results only for equal arguments); PyTorch backend in eager mode on CPU, ATen kernels interpreted by vf/symtorch.py",
    "evaluation mode (no dropout); parameters are fixed distinct numbers, inputs and initial states are free",
    "models: one or two layers, tiny dims; compared by running the same code on each sequence alone",
    "LSTM: lengths > 0 (PyTorch refuses empty sequences)",
]
COVERS = ["padded", "not_padded", "end"]


def _weights(mod):
    """all params get distinct small values"""
    n = 0
    for name, p in mod.named_parameters():
        shape = [d.dimension for d in p.dims]
        num = int(np.prod(shape)) if shape else 1
        vals = []
        for _ in range(num):
            n += 1
            v = (n * 7 + n * n) % 17 - 8 or 9
            vals.append((abs(v) if "variance" in name else v) / 8)
        p.raw_tensor = torch.nn.Parameter(torch.tensor(vals).reshape(shape), requires_grad=False)


def _par(p, *idx):
    return Fraction(p.raw_tensor.detach()[tuple(idx)].item())


def _setup(h, B, T, lo=1, n_in=1):
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(n_in, "in")
    t = r.tdim([b], T, lo=lo, fork=True)
    lens = [r.lens(t, {b: x}) for x in range(B)]
    h.cover("padded", min(lens) < max(lens))
    h.cover("not_padded", min(lens) == max(lens))
    return r, b, t, f, lens


def _lstm_ref(mod, xs, h0, c0, order="ifjo", forget_bias=0, zc=0, zh=0, use_zh=True):
    """:param xs: list of frames"""
    sig, tanh = v_uf("sigmoid"), v_uf("tanh")
    n_in, n = mod.in_dim.dimension, mod.out_dim.dimension
    W, U = mod.ff_weight, mod.rec_weight

    def _w(p, o, i):
        return _par(p, o, i) if p.dims[0].dimension == 4 * n and p.dims[0] not in (mod.in_dim, mod.out_dim) else _par(p, i, o)

    hs, cs = list(h0), list(c0)
    ys = []
    for x in xs:
        pre = []
        for o in range(4 * n):
            terms = [v_mul(x[i], _w(W, o, i)) for i in range(n_in)] + [v_mul(hs[i], _w(U, o, i)) for i in range(n)]
            if mod.bias is not None:
                terms.append(_par(mod.bias, o))
            pre.append(lsum(terms))
        g = {k: pre[j * n : (j + 1) * n] for j, k in enumerate(order)}
        c2, h2, out = [], [], []
        for d in range(n):
            c_ = v_add(v_mul(sig(v_add(g["f"][d], Fraction(forget_bias))), cs[d]), v_mul(sig(g["i"][d]), tanh(g["j"][d])))
            h_ = v_mul(sig(g["o"][d]), tanh(c_))
            cz = v_add(v_mul(Fraction(1 - zc), c_), v_mul(Fraction(zc), cs[d])) if zc else c_
            hz = v_add(v_mul(Fraction(1 - zh), h_), v_mul(Fraction(zh), hs[d])) if zh else h_
            c2.append(cz)
            h2.append(hz)
            out.append(hz if use_zh else h_)
        hs, cs = h2, c2
        ys.append(out)
    return ys, hs, cs


def h_lstm(h, B, T, kind, bias, n_in, n_out, extra, how):
    """LSTM"""
    r, b, t, f, lens = _setup(h, B, T, n_in=n_in, lo=1 if kind == "lstm" else 0)
    if kind != "lstm":
        h.assume(max(lens) > 0)
    e_ = r.sdim(3, "extra")
    o = r.sdim(n_out, "out")
    kw = {}
    if kind == "zoneout":
        use_zo, order = h.choice("opts", [(True, "icfo"), (False, "ifco"), (True, "cifo")])
        kw = dict(zoneout_factor_cell=0.25, zoneout_factor_output=0.125, use_zoneout_output=use_zo, forget_bias=1.0, parts_order=order)
        mod = rf.ZoneoutLSTM(f, o, with_bias=bias, **kw)
    else:
        mod = rf.LSTM(f, o, with_bias=bias)
    _weights(mod)
    bd = [b] + ([e_] if extra else [])
    init, permh, permc = h.choice("init", [(0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1)])
    h0 = r.tensor("h0", [bd + [o], [o] + bd][permh], feature_dim=o)
    c0 = r.tensor("c0", [bd + [o], [o] + bd][permc], feature_dim=o)
    state = rf.LstmState(h=h0, c=c0) if init else mod.default_initial_state(batch_dims=bd)
    ref_kw = dict(order=kw["parts_order"].replace("c", "j"), forget_bias=1, zc=0.25, zh=0.125, use_zh=kw["use_zoneout_output"]) if kw else {}

    def _ref(e, xs):
        zero = [Fraction(0)] * n_out
        return _lstm_ref(mod, xs, [r.get(h0, {**e, o: d}) for d in range(n_out)] if init else zero, [r.get(c0, {**e, o: d}) for d in range(n_out)] if init else zero, **ref_kw)

    if how == "seq":
        dims = [b, t, f] + ([e_] if extra else [])
        x = r.tensor("x", [dims, list(reversed(dims))][h.choice("perm", [0, 1])] if extra else perms(dims, h), feature_dim=f)
        y, s = mod(x, state=state, spatial_dim=t)
        cache = {}

        def _get(e):
            key = tuple(e[d] for d in bd)
            if key not in cache:
                cache[key] = _ref(e, [[r.get(x, {**e, t: i, f: j}) for j in range(n_in)] for i in range(lens[e[b]])])
            return cache[key]

        r.check_tensor(y, bd + [t, o], lambda e: _get(e)[0][e[t]][e[o]], "lstm output")
    else:
        n = 2
        s = state
        xs = [r.tensor("x%i" % i, bd + [f], feature_dim=f) for i in range(n)]

        def _get(e):
            return _ref(e, [[r.get(xi, {**e, f: j}) for j in range(n_in)] for xi in xs])

        for i in range(n):
            y, s = mod(xs[i], state=s, spatial_dim=single_step_dim)
            r.check_tensor(y, bd + [o], lambda e: _get(e)[0][i][e[o]], "lstm step %i" % i)
    r.check_tensor(s.h, bd + [o], lambda e: _get(e)[1][e[o]], "lstm final h")
    r.check_tensor(s.c, bd + [o], lambda e: _get(e)[2][e[o]], "lstm final c")
    h.check(y.feature_dim == o and s.h.feature_dim == o, "feature dim")
    h.cover("end")


def h_scan(h, B, T):
    """scan over a given spatial dim"""
    r, b, t, f, lens = _setup(h, B, T, lo=0)
    x = r.tensor("x", perms([b, t, f], h), feature_dim=f)
    s0 = r.tensor("s0", [b, f], feature_dim=f)
    with_y = h.choice("ys", [0, 1])

    def _body(x_, s):
        n = {"a": s["a"] * 2 + x_, "n": s["n"] + 1}
        return (n["a"] - s["a"]) if with_y else None, n

    ys, s, dim = rf.scan(
        spatial_dim=t,
        initial={"a": s0, "n": rf.constant(0, dims=[b], dtype="int32")},
        xs=x,
        ys=Tensor("y", [b, f], dtype="float32", feature_dim=f) if with_y else None,
        body=_body,
    )
    h.check(dim == t, "out dim")

    def _ref(e):
        a, ys_ = r.get(s0, {b: e[b], f: 0}), []
        for i in range(lens[e[b]]):
            a2 = v_add(v_mul(a, Fraction(2)), r.get(x, {b: e[b], t: i, f: 0}))
            ys_.append(v_sub(a2, a))
            a = a2
        return a, ys_

    if with_y:
        r.check_tensor(ys, [b, t, f], lambda e: _ref(e)[1][e[t]], "scan ys")
    r.check_tensor(s["a"], [b, f], lambda e: _ref(e)[0], "scan final state")
    r.check_tensor(s["n"], [b], lambda e: lens[e[b]], "scan final state n")
    h.cover("end")


def h_scan_cond(h, B, T, before, max_len):
    """scan with condition. each entry gets what it would get alone"""
    r = R(h)
    f = r.sdim(1, "f")
    b = r.sdim(B, "b")
    stop = h.ints("stop", B, 0, T)
    stop = [int(s) for s in stop]
    h.cover("padded", min(stop) < max(stop))
    h.cover("not_padded", min(stop) == max(stop))
    s0 = r.tensor("s0", [b, f])

    def _run(b_, stop_, s0_):
        st_ = r.tensor_of("stop", [b_], np.array(stop_, dtype=object), dtype="int32")

        def _cond(_, s):
            return s["n"] < st_

        def _body(_, s):
            n = {"a": s["a"] * 2 + 1, "n": s["n"] + 1}
            return n["a"] + s["a"], n

        return rf.scan(
            cond=_cond, cond_dims=[b_], cond_before_body=before, initial={"a": s0_, "n": rf.constant(0, dims=[b_], dtype="int32")},
            ys=Tensor("y", [b_, f], dtype="float32"), body=_body, max_seq_len=max_len,
        )  # fmt: skip

    if max_len is None and before:
        pass
    h.assume(not before or max(stop) > 0)
    ys, s, dim = _run(b, stop, s0)
    for z in range(B):
        n = stop[z] if before else max(stop[z], 1)
        if max_len is not None:
            n = min(n, max_len)
        h.check(r.lens(dim, {b: z}) == n, "scan length")
        a, want = r.get(s0, {b: z, f: 0}), []
        for i in range(n):
            a2 = v_add(v_mul(a, Fraction(2)), Fraction(1))
            want.append(v_add(a2, a))
            a = a2
        got = [r.get(ys, {b: z, dim: i, f: 0}) for i in range(n)]
        h.check_all([close(h, x, y) for x, y in zip(got, want)], "scan ys")
        if n > 0:
            b1 = r.sdim(1, "b1")
            ys1, s1, dim1 = _run(b1, [stop[z]], r.tensor_of("s0", [b1, f], [[r.get(s0, {b: z, f: 0})]]))
            h.check(r.lens(dim1, {b1: 0}) == n, "scan length alone")
            h.check(close(h, r.get(s["a"], {b: z, f: 0}), r.get(s1["a"], {b1: 0, f: 0})), "scan final state")
    h.cover("end")


# --- whole models. the same model on the whole batch and on each sequence alone


def _alone(r, x, b, t, f, z, n, sparse=False):
    """:return: tensor, b, t with only sequence z"""
    b1 = r.sdim(1, "b1")
    t1 = r.dim_of([b1], [n], "time1")
    a = r.arr(x.copy_transpose([b, t] + ([] if sparse else [f])))
    a = a[z : z + 1, :n]
    return r.tensor_of("x1", [b1, t1] + ([] if sparse else [f]), a, dtype=x.dtype, feature_dim=None if sparse else f, sparse_dim=x.sparse_dim), b1, t1


def _mk_encoder(kind, f):
    d = 2
    kw = dict(num_layers=1, num_heads=1)
    if kind == "transformer":
        vocab = None
        return None
    if kind == "conformer":
        return ConformerEncoder(f, f, input_layer=None, ff_dim=Dim(1, name="ff"), conv_kernel_size=3, conv_norm=rf.BatchNorm, **kw)
    if kind == "conformer_even":
        return ConformerEncoder(f, f, input_layer=None, ff_dim=Dim(1, name="ff"), conv_kernel_size=2, conv_norm=rf.LayerNorm, **kw)
    if kind == "conformer_sub":
        inp = ConformerConvSubsample(f, out_dims=[Dim(1, name="c1"), Dim(1, name="c2")], filter_sizes=[3, 2], pool_sizes=[(2, 1)], strides=[1, 2])
        return ConformerEncoder(f, Dim(d, name="model"), input_layer=inp, ff_dim=Dim(1, name="ff"), conv_kernel_size=3, conv_norm=rf.LayerNorm, **kw)
    if kind == "ebranchformer":
        from returnn.frontend.encoder.e_branchformer import EBranchformerLayer

        return EBranchformerLayer(f, ff_dim=Dim(1, name="ff"), num_heads=1, cgmlp_ff_dim=Dim(2, name="cgmlp"), cgmlp_conv_kernel=3)
    if kind == "conformer_v2":
        from returnn.frontend.encoder.conformer_v2 import ConformerEncoderV2

        return ConformerEncoderV2(f, ff_dim=Dim(1, name="ff"), conv_kernel_size=3, conv_norm=rf.LayerNorm, **kw)
    if kind == "subsample":
        return ConformerConvSubsample(f, out_dims=[Dim(1, name="c1"), Dim(2, name="c2")], filter_sizes=[3, 2], pool_sizes=[(2, 1)], strides=[1, 2])
    if kind == "subsample_valid":
        return ConformerConvSubsample(f, out_dims=[Dim(1, name="c1")], filter_sizes=[(2, 1)], strides=[(2, 1)], padding="valid")
    raise ValueError(kind)


def h_encoder(h, B, T, kind):
    """encoder on features"""
    r, b, t, f, lens = _setup(h, B, T, n_in=2, lo=2 if "valid" in kind else 1)
    st.CANON = False
    mod = _mk_encoder(kind, f)
    _weights(mod)
    x = r.tensor("x", [[b, t, f], [f, t, b]][h.choice("perm", [0, 1])], feature_dim=f, lo=-4, hi=4)

    def _call(x_, t_):
        if kind in ("ebranchformer", "conformer_v2"):
            return mod(x_, spatial_dim=t_), t_
        return mod(x_, in_spatial_dim=t_)

    y, yt = _call(x, t)
    o = y.feature_dim
    ya = {}
    for z in range(B):
        x1, b1, t1 = _alone(r, x, b, t, f, z, lens[z])
        y1, yt1 = _call(x1, t1)
        ya[z] = r.arr(y1.copy_transpose([b1, yt1, y1.feature_dim]))
        h.check(r.lens(yt, {b: z}) == ya[z].shape[1], "%s: out length" % kind)
    r.check_tensor(y, [b, yt, o], lambda e: ya[e[b]][0, e[yt], e[o]], "%s: batch vs alone" % kind)
    h.cover("end")


def _labels(r, h, b, t):
    """
    Each position has its own label. As the embedding of each label is free,
    this covers all label sequences (same label = same embedding).
    """
    n = r.size(t)
    vocab = r.sdim(b.dimension * n, "vocab")
    a = np.arange(b.dimension * n).reshape(b.dimension, n).astype(object)
    return r.tensor_of("labels", [b, t], a, dtype="int32", sparse_dim=vocab), vocab


def h_transformer_encoder(h, B, T):
    """encoder on labels"""
    r, b, t, f, lens = _setup(h, B, T)
    st.CANON = False
    x, vocab = _labels(r, h, b, t)
    mod = TransformerEncoder(vocab, Dim(4, name="model"), num_layers=1, num_heads=2, ff=rf.build_dict(rf_ff, ff_dim=Dim(1, name="ff")))
    _weights(mod)
    emb = r.tensor("emb", mod.input_embedding.weight.dims, lo=-4, hi=4)
    mod.input_embedding.weight = emb
    y = mod(x, spatial_dim=t)
    o = mod.model_dim
    ya = {}
    for z in range(B):
        x1, b1, t1 = _alone(r, x, b, t, None, z, lens[z], sparse=True)
        y1 = mod(x1, spatial_dim=t1)
        ya[z] = r.arr(y1.copy_transpose([b1, t1, o]))
    r.check_tensor(y, [b, t, o], lambda e: ya[e[b]][0, e[t], e[o]], "transformer encoder: batch vs alone")
    h.cover("end")


def h_decoder(h, B, T, cross, self_att, how):
    """decoder: batch vs alone; whole sequence vs single steps; only past labels matter"""
    r, b, t, f, lens = _setup(h, B, T)
    st.CANON = False
    x, vocab = _labels(r, h, b, t)
    enc_dim = r.sdim(1, "enc")
    opts = {}
    if self_att == "relpos":
        opts = dict(pos_enc=None, layer_opts=dict(self_att=rf.RelPosCausalSelfAttention))
    elif self_att == "rope":
        opts = dict(pos_enc=None, layer_opts=dict(self_att=rf.RotaryPosCausalSelfAttention))
    mod = TransformerDecoder(enc_dim if cross else None, vocab, Dim(4, name="model"), share_embedding=False, num_layers=1, num_heads=1 if self_att == "rope" else 2, ff_dim=Dim(1, name="ff"), **opts)
    _weights(mod)
    emb = r.tensor("emb", mod.input_embedding.weight.dims, lo=-4, hi=4)
    mod.input_embedding.weight = emb
    enc = encs = None
    if cross:
        et = r.tdim([b], 2, name="enc_time", fork=True)
        enc_x = r.tensor("enc", [b, et, enc_dim], feature_dim=enc_dim, lo=-4, hi=4)
        enc = mod.transform_encoder(enc_x, axis=et)
        elens = [r.lens(et, {b: z}) for z in range(B)]
    y, _ = mod(x, spatial_dim=t, state=mod.default_initial_state(batch_dims=[b]), encoder=enc)
    ya = {}
    for z in range(B):
        x1, b1, t1 = _alone(r, x, b, t, None, z, lens[z], sparse=True)
        enc1 = None
        if cross:
            ex1, eb1, et1 = _alone(r, enc_x, b, et, enc_dim, z, elens[z])
            a = r.arr(ex1)
            et1_ = r.dim_of([b1], [elens[z]], "enc_time1")
            enc1 = mod.transform_encoder(r.tensor_of("e1", [b1, et1_, enc_dim], a, feature_dim=enc_dim), axis=et1_)
        if how == "seq":
            y1, _ = mod(x1, spatial_dim=t1, state=mod.default_initial_state(batch_dims=[b1]), encoder=enc1)
            ya[z] = r.arr(y1.copy_transpose([b1, t1, vocab]))[0]
        else:
            s = mod.default_initial_state(batch_dims=[b1])
            rows = []
            la = r.arr(x1)
            for i in range(lens[z]):
                xi = r.tensor_of("xi", [b1], la[:, i], dtype="int32", sparse_dim=vocab)
                yi, s = mod(xi, spatial_dim=single_step_dim, state=s, encoder=enc1)
                rows.append(r.arr(yi.copy_transpose([b1, vocab]))[0])
            ya[z] = np.array(rows, dtype=object).reshape(lens[z], vocab.dimension)
    r.check_tensor(y, [b, t, vocab], lambda e: ya[e[b]][e[t], e[vocab]], "transformer decoder: batch vs alone (%s)" % how)
    if how == "seq" and not cross:
        yl, _ = mod(x, spatial_dim=t, state=mod.default_initial_state(batch_dims=[b]), encoder=enc, output_only_last_frame=True)
        r.check_tensor(yl, [b, vocab], lambda e: ya[e[b]][lens[e[b]] - 1, e[vocab]], "transformer decoder: only last frame")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    T = 3 if q else 4
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds="B=%s T<=%s" % (kw.get("B", "-"), kw.get("T", "-")), validate=4, real_rounding=True))

    for how in ("seq", "step"):
        add("lstm/%s" % how, h_lstm, B=2, T=T, kind="lstm", bias=True, n_in=1, n_out=1, extra=False, how=how)
        add("lstm_nobias/%s" % how, h_lstm, B=2, T=2, kind="lstm", bias=False, n_in=2, n_out=2, extra=False, how=how)
        add("lstm_extra/%s" % how, h_lstm, B=2, T=2, kind="lstm", bias=True, n_in=1, n_out=1, extra=True, how=how)
        add("zoneout/%s" % how, h_lstm, B=2, T=T, kind="zoneout", bias=True, n_in=1, n_out=1, extra=False, how=how)
        add("zoneout_dims/%s" % how, h_lstm, B=2, T=2, kind="zoneout", bias=False, n_in=2, n_out=2, extra=False, how=how)
    add("scan", h_scan, B=2, T=T)
    for before in (True, False):
        for ml in (None, 2):
            add("scan_cond/%s_%s" % (before, ml), h_scan_cond, B=2, T=T, before=before, max_len=ml)
    for kind in ("conformer", "conformer_even", "conformer_sub", "ebranchformer", "conformer_v2", "subsample", "subsample_valid"):
        add("encoder/%s" % kind, h_encoder, B=2, T=T + 2 if "sub" in kind else T, kind=kind)
    add("transformer_encoder", h_transformer_encoder, B=2, T=T)
    for how in ("seq", "steps"):
        for cross in (False, True):
            add("decoder/%s/%s" % ("cross" if cross else "lm", how), h_decoder, B=2, T=2 if cross else T, cross=cross, self_att=None, how=how)
        for sa in ("relpos", "rope"):
            add("decoder/%s/%s" % (sa, how), h_decoder, B=2, T=2 if q else 3, cross=False, self_att=sa, how=how)
    return res
