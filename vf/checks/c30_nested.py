"""
C30: nested states (search, loops): selecting, masking, packing and unpacking acts on each entry (sequence, hypothesis) separately,
together with its own sequence lengths.
"""

from vf.rfh import *
from returnn.frontend.tensor_array import TensorArray

PROPERTY = "C30"
ASSUMPTIONS = [
    "tensor elements are exact reals; PyTorch backend in eager mode on CPU, ATen kernels interpreted by vf/symtorch.py",
    "latest behavior version",
]
COVERS = ["end", "mixed", "dims_differ", "same_dim"]


class N:
    """nested state over batch and beam, with an own sequence (e.g. label history) per hypothesis"""

    def __init__(self, h, B, K, T, name="s", r=None, dims=None, order=True, lo=0):
        self.h = h
        r = self.r = r or R(h)
        self.b, self.k, self.f = dims or (r.sdim(B, "b"), r.sdim(K, "k"), r.sdim(2, "f"))
        self.B, self.K, self.name = B, K, name
        self.t = r.tdim([self.b, self.k], T, lo=lo, name=name + "_hist", fork=True)
        self.n = {(i, j): r.lens(self.t, {self.b: i, self.k: j}) for i in range(B) for j in range(K)}
        hd = [self.b, self.k, self.t]
        if order and name == "s":
            hd = perms(hd, h, "perm_" + name)
        self.hist = r.tensor(name + "_hist", hd, dtype="int32", lo=0, hi=9)
        self.vec = r.tensor(name + "_vec", [self.k, self.b, self.f])
        self.glob = r.tensor(name + "_glob", [self.f])
        self.bonly = r.tensor(name + "_bonly", [self.b])

    def struct(self):
        """the nested structure"""
        return {"a": [self.hist, self.t], "v": self.vec, "g": self.glob, "b": (self.bonly, {"f": self.f})}

    def seq(self, i, j):
        """history of one hypothesis"""
        return [self.r.get(self.hist, {self.b: i, self.k: j, self.t: x}) for x in range(self.n[i, j])]


def _check_seqs(r, y, yd, bdims, want, msg):
    """:param want: func(env) -> list"""
    r.check_len(yd, bdims, lambda e: len(want(e)), msg + ": lengths")
    r.check_tensor(y, list(bdims) + [yd], lambda e: want(e)[e[yd]], msg)


def h_gather(h, B, K, T, K2):
    """gather_nested"""
    s = N(h, B, K, T, order=B == 1)
    r, b, k, f = s.r, s.b, s.k, s.f
    k2 = r.sdim(K2, "k2")
    idx = r.tensor("idx", perms([b, k2], h, "perm_i") if B == 1 else [b, k2], dtype="int32", lo=0, hi=K - 1, sparse_dim=k)
    ii = {(i, j): int(r.get(idx, {b: i, k2: j})) for i in range(B) for j in range(K2)}
    dim_map = {}
    res = rf.nested.gather_nested(s.struct(), indices=idx, dim_map=dim_map)
    (hist, t2), vec, glob, (bonly, rest) = res["a"], res["v"], res["g"], res["b"]
    _check_seqs(r, hist, t2, [b, k2], lambda e: s.seq(e[b], ii[e[b], e[k2]]), "gather_nested: history")
    r.check_tensor(vec, [b, k2, f], lambda e: r.get(s.vec, {b: e[b], f: e[f], k: ii[e[b], e[k2]]}), "gather_nested: vector")
    r.check_tensor(glob, [f], lambda e: r.get(s.glob, e), "gather_nested: tensor without beam")
    r.check_tensor(bonly, [b], lambda e: r.get(s.bonly, e), "gather_nested: tensor without beam (batch)")
    h.check(rest["f"] == f, "gather_nested: static dim")
    h.check(dim_map.get(s.t) == t2, "gather_nested: dim map")
    h.cover("mixed", len(set(s.n.values())) > 1)
    h.cover("end")


def h_select(h, B, K, T, kind):
    """masked_select_nested, masked_scatter_nested"""
    s = N(h, B, K, T, order=kind != "scatter" and B == 1)
    r, b, k, f = s.r, s.b, s.k, s.f
    m = r.tensor("mask", perms([b, k], h, "perm_m") if kind == "select" and B == 1 else [b, k], dtype="bool")
    ms = {(i, j): bool(r.get(m, {b: i, k: j})) for i in range(B) for j in range(K)}
    order = perms([b, k], h, "order")
    pos = [(i, j) for i in range(B) for j in range(K) if ms[i, j]]
    if order == [k, b]:
        pos = [(i, j) for j in range(K) for i in range(B) if ms[i, j]]
    h.assume(len(pos) > 0)
    y, yd, dim_map = rf.nested.masked_select_nested(s.struct(), mask=m, mask_cpu=m, dims=order)
    (hist, t2), vec, glob, (bonly, rest) = y["a"], y["v"], y["g"], y["b"]
    h.check(r.size(yd) == len(pos), "packed size")
    if kind == "select":
        for p, (i, j) in enumerate(pos):
            h.check(r.lens(t2, {yd: p}) == s.n[i, j], "masked_select_nested: length of hypothesis %s" % ((i, j),))
        h.check(r.size(t2) >= max(s.n[p] for p in pos), "axis size")
        h.check(set(hist.dims) == {yd, t2} and hist.raw_tensor.shape[list(hist.dims).index(t2)] == r.size(t2), "masked_select_nested: dims of the history")
        h.check_all([close(h, r.get(hist, {yd: p, t2: x}), v) for p, ij in enumerate(pos) for x, v in enumerate(s.seq(*ij))], "masked_select_nested: history")
        r.check_tensor(vec, [yd, f], lambda e: r.get(s.vec, {b: pos[e[yd]][0], k: pos[e[yd]][1], f: e[f]}), "masked_select_nested: vector")
        r.check_tensor(glob, [f], lambda e: r.get(s.glob, e), "masked_select_nested: tensor without beam")
        r.check_tensor(bonly, [yd], lambda e: r.get(s.bonly, {b: pos[e[yd]][0]}), "masked_select_nested: tensor with batch only")
        h.check(dim_map.get(s.t) == t2, "masked_select_nested: dim map")
    else:
        # new content for the selected hypotheses, one label longer
        new = r.tensor("new", [yd], dtype="int32", lo=0, hi=9)
        h2, (t3,) = rf.pad(hist, axes=[t2], padding=[(0, 1)], value=new)
        vec2 = vec + 1
        st_new = {"a": [h2, t3], "v": vec2, "b": bonly}
        st_old = {"a": [s.hist, s.t], "v": s.vec, "b": s.bonly}
        sm = {}
        z = rf.nested.masked_scatter_nested(
            st_new, st_old, mask=m, mask_cpu=m, dims=order, in_dim=yd, masked_select_dim_map=dim_map, masked_scatter_dim_map=sm
        )
        (zh, zt), zv, zb = z["a"], z["v"], z["b"]
        newv = {ij: r.get(new, {yd: p}) for p, ij in enumerate(pos)}

        def want(e):
            """history"""
            ij = (e[b], e[k])
            return s.seq(*ij) + ([newv[ij]] if ms[ij] else [])

        _check_seqs(r, zh, zt, [b, k], want, "masked_scatter_nested: history")
        r.check_tensor(zv, [b, k, f], lambda e: v_add(r.get(s.vec, e), Fraction(1 if ms[e[b], e[k]] else 0)), "masked_scatter_nested: vector")
        r.check_tensor(zb, [b, k], lambda e: r.get(s.bonly, {b: e[b]}), "masked_scatter_nested: tensor with batch only")
        h.cover("dims_differ")
        # and without any new label: exactly as before
        z = rf.nested.masked_scatter_nested(
            {"a": [hist, t2], "v": vec}, {"a": [s.hist, s.t], "v": s.vec}, mask=m, mask_cpu=m, dims=order, in_dim=yd, masked_select_dim_map=dim_map
        )
        h.check(z["a"][1] == s.t, "masked_scatter_nested: unchanged dim")
        _check_seqs(r, z["a"][0], s.t, [b, k], lambda e: s.seq(e[b], e[k]), "masked_scatter_nested: history after select and scatter")
        r.check_tensor(z["v"], [b, k, f], lambda e: r.get(s.vec, e), "masked_scatter_nested: vector after select and scatter")
        h.cover("same_dim")
    h.cover("mixed", len(set(s.n.values())) > 1 and 0 < len(pos) < B * K)
    h.cover("end")


def h_mask(h, B, K, T, kind):
    """mask_nested"""
    s = N(h, B, K, 0 if kind.endswith("/none") else T, order=False)
    r, b, k, f = s.r, s.b, s.k, s.f
    mdims = {"bk": [b, k], "b": [b], "k": [k]}[kind.split("/")[0]]
    m = r.tensor("mask", perms(mdims, h, "perm_m") if kind.endswith("/none") else mdims, dtype="bool")
    ms = {(i, j): bool(r.get(m, {d: v for d, v in {b: i, k: j}.items() if d in mdims})) for i in range(B) for j in range(K)}
    if kind.endswith("/none"):
        # no other value: zeros
        y = rf.nested.mask_nested({"v": s.vec, "g": s.glob, "n": None}, mask=m, mask_value=0)
        r.check_tensor(y["v"], [b, k, f], lambda e: r.get(s.vec, e) if ms[e[b], e[k]] else 0, "mask_nested: zeros")
        r.check_tensor(y["g"], [f], lambda e: r.get(s.glob, e), "mask_nested: independent tensor")
        h.check(y["n"] is None, "mask_nested: None")
        h.cover("end")
        return
    o = N(h, B, K, T, name="o", r=r, dims=(b, k, f))
    y = rf.nested.mask_nested({"a": [s.hist, s.t], "v": s.vec, "f": f}, mask=m, mask_value={"a": [o.hist, o.t], "v": o.vec, "f": f})
    hist, t2 = y["a"]
    _check_seqs(r, hist, t2, [b, k], lambda e: (s if ms[e[b], e[k]] else o).seq(e[b], e[k]), "mask_nested: history")
    r.check_tensor(y["v"], [b, k, f], lambda e: r.get((s if ms[e[b], e[k]] else o).vec, e), "mask_nested: vector")
    h.check(y["f"] == f, "mask_nested: static dim")
    h.cover("mixed", len(set(s.n.values())) > 1)
    h.cover("end")


def h_tensor_array(h, B, T):
    """TensorArray"""
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(2, "f")
    t = r.tdim([b], T, lo=1, fork=True)
    x = r.tensor("x", perms([b, t, f], h))
    ta = TensorArray.unstack(x, axis=t)
    n = r.size(t)
    parts = [ta[i] for i in range(n)]
    for i, p in enumerate(parts):
        r.check_tensor(p, [b, f], lambda e: r.get(x, {**e, t: i}), "unstack")
    i = h.int("i", 0, T - 1)
    h.assume(i < n)
    it = r.tensor_of("i", [], np.array(i, dtype=object), dtype="int32")
    p = ta[it]
    r.check_tensor(p, [b, f], lambda e: r.get(x, {**e, t: int(i)}), "get item by tensor")
    ta2 = TensorArray(parts[0].copy_template())
    for i, p in enumerate(parts):
        if bool(h.bool("perm_part_%i" % i)):
            p = p.copy_transpose([f, b])
        ta2 = ta2.push_back(p)
    y = ta2.stack(axis=t)
    r.check_tensor(y, [b, t, f], lambda e: r.get(x, e), "stack(unstack(x))")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds="%s, all dim orders" % kw, validate=4, real_rounding=True))

    add("gather", h_gather, B=1, K=2, T=2, K2=2)
    add("gather/b2", h_gather, B=2, K=2, T=1, K2=2)
    add("gather/bigger", h_gather, B=1, K=2, T=1, K2=3)
    add("select", h_select, B=1 if q else 2, K=3 if q else 2, T=1, kind="select")
    add("select/b2", h_select, B=2, K=2, T=1, kind="select")
    add("scatter", h_select, B=1, K=2, T=2, kind="scatter")
    add("scatter/b2", h_select, B=2, K=2, T=1, kind="scatter")
    for k in ["bk", "b", "k"]:
        add("mask/" + k, h_mask, B=2 if k == "b" else 1, K=1 if k == "b" else 2, T=2, kind=k)
        add("mask/%s/none" % k, h_mask, B=2, K=2, T=1, kind=k + "/none")
    if not q:
        add("mask/bk/b2", h_mask, B=2, K=2, T=1, kind="bk")
    add("tensor_array", h_tensor_array, B=2, T=2)
    return res
