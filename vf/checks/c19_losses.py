"""
C19: losses and metrics: each frame / sequence of the batch gets the textbook value, for any dim order.
"""

from vf.rfh import *

PROPERTY = "C19"
ASSUMPTIONS = [
    "tensor elements are exact reals; exp, log uninterpreted (equal results only for equal arguments); PyTorch backend in eager mode on CPU, ATen kernels interpreted by vf/symtorch.py",
    "the CTC kernel of PyTorch itself is taken as correct (interpreted by its definition)",
    "valid labels (in range of the vocabulary), also in the padded area",
]
COVERS = ["end"]


def _labels(r, h, name, dims, V, vocab, fork=True):
    shape = [r.size(d) for d in dims]
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        v = h.int("%s_%s" % (name, "_".join(map(str, idx))), 0, V - 1)
        a[idx] = int(v) if fork else v
    return r.tensor_of(name, dims, a, dtype="int32", sparse_dim=vocab)


def h_ce(h, dims, V, typ, sparse):
    """cross entropy"""
    r = R(h)
    b, s2 = r.sdim(2, "b"), r.sdim(2, "s2")
    t = r.tdim([b], 2, lo=1, fork=True) if "t" in dims else None
    vocab = r.sdim(V, "vocab")
    ds = [{"b": b, "t": t, "s": s2}[x] for x in dims]
    est = r.tensor("est", perms(ds + [vocab], h, "perm_e"), feature_dim=vocab, lo=Fraction(1, 8) if typ == "probs" else -4, hi=4)
    if sparse:
        tdims = perms(ds, h, "perm_t") if ds else []
        # any label per position, different ones
        shape = [r.size(d) for d in tdims]
        off = h.choice("off", list(range(V)))
        lab = {}
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            e = dict(zip(tdims, idx))
            n = sum(e[d] * (i + 1) for i, d in enumerate(ds))
            a[idx] = (n + off) % V
        tgt = r.tensor_of("tgt", tdims, a, dtype="int32", sparse_dim=vocab)
    else:
        tgt = r.tensor("tgt", perms(ds + [vocab], h, "perm_t"), feature_dim=vocab, lo=0, hi=1)
    y = rf.cross_entropy(estimated=est, target=tgt, axis=vocab, estimated_type=typ)

    def _ref(e):
        xs = [r.get(est, {**e, vocab: v}) for v in range(V)]
        if typ == "logits":
            m = lse(xs)
            lp = [v_sub(x, m) for x in xs]
        elif typ == "probs":
            lp = [log(x) for x in xs]
        else:
            lp = xs
        if sparse:
            return v_neg(lp[r.get(tgt, e)])
        return v_neg(lsum([v_mul(r.get(tgt, {**e, vocab: v}), lp[v]) for v in range(V)]))

    r.check_tensor(y, ds, _ref, "cross entropy %s" % typ)
    h.cover("end")


def _edit_dist(a, b):
    prev = list(range(len(b) + 1))
    for i in range(len(a)):
        cur = [i + 1]
        for j in range(len(b)):
            cur.append(s_min(prev[j + 1] + 1, cur[j] + 1, prev[j] + s_ite(a[i] == b[j], 0, 1)))
        prev = cur
    return prev[-1]


def h_edit(h, B, Ta, Tb, V, extra=None):
    """edit distance"""
    r = R(h)
    b = r.sdim(B, "b")
    e_ = r.sdim(2, "extra")
    ta = r.tdim([b], Ta, lo=0, name="ta", fork=True)
    tb = r.tdim([b], Tb, lo=0, name="tb", fork=True)
    h.assume(r.size(ta) > 0 and r.size(tb) > 0)
    vocab = r.sdim(V, "vocab")
    da = [b, ta] + ([e_] if extra in ("a", "both") else [])
    db = [b, tb] + ([e_] if extra in ("b", "both") else [])
    if not extra:
        da, db = perms(da, h, "perm_a"), perms(db, h, "perm_b")
    x = _labels(r, h, "x", da, V, vocab, fork=False)
    y = _labels(r, h, "y", db, V, vocab, fork=False)
    d = rf.edit_distance(x, ta, y, tb)
    out = [b] + ([e_] if extra in ("a", "b", "both") else [])

    def _ref(e):
        xs = [r.get(x, {**e, ta: i}) for i in range(r.lens(ta, e))]
        ys = [r.get(y, {**e, tb: i}) for i in range(r.lens(tb, e))]
        return _edit_dist(xs, ys)

    r.check_tensor(d, out, _ref, "edit distance")
    h.cover("end")


def h_ctc(h, B, T, S, V, extra, normalized):
    """CTC"""
    r = R(h)
    b = r.sdim(B, "b")
    e_ = r.sdim(2, "extra")
    t = r.tdim([b], T, lo=1, name="time", fork=True)
    s = r.tdim([b], S, lo=0, name="labels", fork=True)
    h.assume(r.size(s) > 0)
    vocab, wb = r.sdim(V, "vocab"), r.sdim(V + 1, "vocab_blank")
    blank = h.choice("blank", [V, 0])
    dx = [b, t, wb] + ([e_] if extra in ("logits", "both") else [])
    dy = [b, s] + ([e_] if extra in ("targets", "both") else [])
    x = r.tensor("x", perms(dx, h, "perm_x") if not extra else [dx, dx[::-1]][h.choice("perm_x", [0, 1])], feature_dim=wb, lo=-4, hi=4)
    ydims = perms(dy, h, "perm_y") if not extra else [dy, dy[::-1]][h.choice("perm_y", [0, 1])]
    off = h.choice("off", [0, 1])
    shape = [r.size(d) for d in ydims]
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        e = dict(zip(ydims, idx))
        a[idx] = (e[b] + e[s] * (1 if h.symbolic or True else 0) + e.get(e_, 0) + off) % V + (1 if blank == 0 else 0)
    y = r.tensor_of("y", ydims, a, dtype="int32", sparse_dim=wb if blank == 0 else vocab)
    loss = rf.ctc_loss(logits=x, logits_normalized=normalized, targets=y, input_spatial_dim=t, targets_spatial_dim=s, blank_index=blank)

    def _ref(e):
        rows = []
        for i in range(r.lens(t, e)):
            xs = [r.get(x, {**e, t: i, wb: v}) for v in range(V + 1)]
            m = lse(xs)
            rows.append(xs if normalized else [v_sub(v, m) for v in xs])
        labs = [int(r.get(y, {**e, s: i})) for i in range(r.lens(s, e))]
        return st.ctc_value(rows, labs, blank, zero_infinity=True)

    r.check_tensor(loss, [b] + ([e_] if extra else []), _ref, "ctc loss")
    h.cover("end")


def h_smoothing(h, V, sparse):
    """label smoothing"""
    r = R(h)
    b = r.sdim(2, "b")
    t = r.tdim([b], 2, lo=1, fork=True)
    vocab = r.sdim(V, "vocab")
    smoothing = h.choice("smoothing", [0.25, 0.5, 0.0])
    sm = Fraction(smoothing)
    if sparse:
        x = _labels(r, h, "x", perms([b, t], h), V, vocab)
        y = rf.label_smoothing(x, smoothing)
    else:
        x = r.tensor("x", perms([b, t, vocab], h), feature_dim=vocab, lo=0, hi=1)
        y = rf.label_smoothing(x, smoothing, axis=vocab)

    def _ref(e):
        other = sm / (V - 1)
        if sparse:
            return 1 - sm if int(r.get(x, e)) == e[vocab] else other
        p = r.get(x, e)
        return v_add(v_mul(p, 1 - sm), v_mul(v_sub(Fraction(1), p), other))

    r.check_tensor(y, [b, t, vocab], _ref, "label smoothing")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds=" ".join("%s=%s" % (k, v) for k, v in kw.items()), validate=5, real_rounding=True))

    for typ in ("logits", "probs", "log-probs"):
        for sparse in (True, False):
            for dims in ("", "b", "bt", "bs") + (() if q else ("bts",)):
                add("ce/%s/%s/%s" % (typ, "sparse" if sparse else "dense", dims or "scalar"), h_ce, dims=dims, V=2, typ=typ, sparse=sparse)
    add("edit/perm", h_edit, B=2, Ta=2 if q else 3, Tb=2, V=3)
    add("edit/batch", h_edit, B=3, Ta=2, Tb=2, V=2, extra="none")
    add("edit/len", h_edit, B=1, Ta=4, Tb=3 if q else 4, V=4)
    add("edit/len2", h_edit, B=1, Ta=1, Tb=4, V=4)
    for extra in ("a", "b", "both"):
        add("edit/extra_%s" % extra, h_edit, B=1 if q else 2, Ta=2, Tb=2, V=3, extra=extra)
    for norm_ in (False, True):
        add("ctc/%s" % norm_, h_ctc, B=2, T=2 if q else 3, S=2, V=2, extra=None, normalized=norm_)
    add("ctc/len", h_ctc, B=1, T=3 if q else 4, S=2, V=2, extra=None, normalized=True)
    for extra in ("logits", "targets", "both"):
        add("ctc/extra_%s" % extra, h_ctc, B=2, T=2, S=1, V=2, extra=extra, normalized=True)
    for sparse in (True, False):
        add("smoothing/%s" % ("sparse" if sparse else "dense"), h_smoothing, V=3, sparse=sparse)
    return res
