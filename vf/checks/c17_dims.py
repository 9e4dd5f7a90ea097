"""
C17: dim arithmetic: the sizes of derived dims are the arithmetic of the sizes, and equal dims have equal sizes.
"""

from vf.rfh import *

PROPERTY = "C17"
ASSUMPTIONS = [
    "chains of 2-3 operations (+, -, *, //, ceildiv, exact /; with ints, static and dynamic dims, from both sides) on dynamic dims (per-sequence lengths) or static dims",
    "only lengths where no intermediate result is negative, and exact division leaves no remainder",
    "PyTorch backend in eager mode; latest behavior version",
]
COVERS = ["end"]


class _Skip(Exception):
    pass


def _ops(leafs, consts, kinds):
    """all operations on a dim x. (name, func on dims, func on ints -> value, needs exact division)"""
    res = []
    for k in consts:
        res += [
            ("x+%i" % k, lambda x, k=k: x + k, lambda x, k=k: x + k),
            ("%i+x" % k, lambda x, k=k: k + x, lambda x, k=k: x + k),
            ("x-%i" % k, lambda x, k=k: x - k, lambda x, k=k: x - k),
            ("sub_left(x,%i)" % k, lambda x, k=k: x.sub_left(k), lambda x, k=k: x - k),
            ("x*%i" % k, lambda x, k=k: x * k, lambda x, k=k: x * k),
            ("%i*x" % k, lambda x, k=k: k * x, lambda x, k=k: x * k),
            ("x//%i" % k, lambda x, k=k: x // k, lambda x, k=k: x // k),
            ("ceildiv_right(x,%i)" % k, lambda x, k=k: x.ceildiv_right(k), lambda x, k=k: -((-x) // k)),
            ("ceildiv_left(x,%i)" % k, lambda x, k=k: x.ceildiv_left(k), lambda x, k=k: -((-x) // k)),
            ("x/%i" % k, lambda x, k=k: x / k, lambda x, k=k: ("exact", x, k)),
            ("div_left(x,%i)" % k, lambda x, k=k: x.div_left(k), lambda x, k=k: ("exact", x, k)),
        ]
    for name in leafs:
        res += [
            ("x+" + name, lambda x, d: x + d, lambda x, v: x + v, name),
            (name + "+x", lambda x, d: d + x, lambda x, v: x + v, name),
            ("x-" + name, lambda x, d: x - d, lambda x, v: x - v, name),
            (name + "-x", lambda x, d: d - x, lambda x, v: v - x, name),
            ("sub_left(x,%s)" % name, lambda x, d: x.sub_left(d), lambda x, v: x - v, name),
            ("x*" + name, lambda x, d: x * d, lambda x, v: x * v, name),
            (name + "*x", lambda x, d: d * x, lambda x, v: x * v, name),
        ]
        if name.startswith("s"):
            res += [
                ("x//" + name, lambda x, d: x // d, lambda x, v: x // v, name),
                ("ceildiv_right(x,%s)" % name, lambda x, d: x.ceildiv_right(d), lambda x, v: -((-x) // v), name),
                ("x/" + name, lambda x, d: x / d, lambda x, v: ("exact", x, v), name),
                ("div_left(x,%s)" % name, lambda x, d: x.div_left(d), lambda x, v: ("exact", x, v), name),
            ]
    return [o for o in res if any(o[0].replace("x", "").strip() and _kind(o[0]) == k for k in kinds)] if kinds else res


def _kind(name):
    for k in ("ceildiv", "div_left", "//", "/", "*", "sub_left", "-", "+"):
        if k in name:
            return k
    raise ValueError(name)


def h_chain(h, n_ops, consts, leafs, start, kinds=None, T=6, rounds=1, first=None):
    """chain of ops"""
    r = R(h)
    B = 2
    b = r.sdim(B, "b")
    s_size = int(h.int("s_size", 2, 3)) if "s" in leafs or start == "s" else 2

    def _mk_lens(n):
        return {name: h.ints("len%i_%s" % (n, name), B, 0, T) for name in ("t", "u")}

    lens = _mk_lens(0)
    dims = {name: r.dim_of([b], lens[name], name) for name in ("t", "u")}
    dims["s"] = Dim(s_size, name="s")
    ops = _ops(leafs, consts, kinds)
    chosen = []
    for i in range(n_ops):
        cand = ops
        if i == 0 and first:
            cand = [o for o in ops if _kind(o[0]) in first]
        chosen.append(cand[h.choice("op%i" % i, list(range(len(cand))))])

    left = any("sub_left" in op[0] or op[0].endswith("-x") for op in chosen)
    dim_mul = any(_kind(op[0]) == "*" and len(op) == 4 and op[3] in ("t", "u") for op in chosen)
    sub = any(_kind(op[0]) in ("-", "sub_left") for op in chosen)
    if (left or (dim_mul and sub)) and sum(_kind(op[0]) in ("+", "-", "sub_left") for op in chosen) > 1:
        h.stop()  # see KNOWN_FINDINGS

    def _apply(x, vals, env):
        """:return: list of all (dim, sizes)"""
        out = [(x, list(vals))]
        for op in chosen:
            if len(op) == 4:
                d = dims[op[3]]
                ws = env[op[3]]
            else:
                d = ws = None
            vals2 = []
            for i in range(B):
                v = op[2](vals[i], ws[i]) if ws is not None else op[2](vals[i])
                if isinstance(v, tuple):
                    _, p, q = v
                    h.assume(p % q == 0)
                    v = p // q
                h.assume(v >= 0)
                vals2.append(v)
            x = op[1](x, d) if d is not None else op[1](x)
            vals = vals2
            out.append((x, vals))
        return out

    for rnd in range(rounds):
        env = {**lens, "s": [s_size] * B}
        res = _apply(dims[start], env[start], env)
        h.observe([o[0] for o in chosen])
        what = " ; ".join([start] + [o[0] for o in chosen])
        for x, vals in res[1:]:
            conds = []
            for i in range(B):
                if x.dimension is not None:
                    got = x.dimension
                else:
                    x.complete_dyn_size()
                    t = x.dyn_size_ext
                    got = st.values(t.raw_tensor)[tuple({b: i}[d] for d in t.dims)]
                conds.append(got == vals[i])
            h.check_all(conds, "size of %s" % what)
            m = x.dimension if x.dimension is not None else st.values(x.get_dim_value_tensor().raw_tensor)[()]
            h.check_all([m >= v for v in vals], "axis size of %s" % what)
            h.check((x.dimension is None) == (any(n in what for n in "tu") and x.dimension is None), "static")
        # equal dims have equal sizes
        for i, (x, vx) in enumerate(res):
            for y, vy in res[i + 1 :] + [(dims[n], env[n]) for n in ("t", "u", "s")]:
                if x == y:
                    h.check(hash(x) == hash(y), "equal dims, hash: %s" % what)
                    h.check_all([p == q for p, q in zip(vx, vy)], "equal dims, size: %s" % what)
        # same expression again
        again = _apply(dims[start], env[start], env)
        h.check(all(x == y and hash(x) == hash(y) for (x, _), (y, _) in zip(res, again)), "same expression: same dim: %s" % what)
        if rnd + 1 < rounds:  # next batch
            lens = _mk_lens(rnd + 1)
            for name in ("t", "u"):
                dims[name].reset_eager()
                raw = st.sym_tensor(np.array(lens[name], dtype=object), torch.int32) if h.symbolic else st.make_tensor(np.array(lens[name], dtype=object), torch.int32)
                dims[name].dyn_size_ext = Tensor(name + "_len", [b], dtype="int32", raw_tensor=raw)
    h.cover("end")


def _probe_left_sub():
    b = Dim(1, name="b")
    t, u = [Dim(Tensor(n, [b], dtype="int32", raw_tensor=torch.tensor([v], dtype=torch.int32)), name=n) for n, v in [("t", 6), ("u", 3)]]
    return (2 + t).sub_left(u).get_size_tensor().raw_tensor.tolist() != [5]


KNOWN_FINDINGS = {"left-sub-clip": _probe_left_sub}


def h_identities(h):
    """documented identities"""
    r = R(h)
    b = r.sdim(2, "b")
    t = r.tdim([b], 4, lo=0)
    u = r.tdim([b], 4, lo=0, name="u")
    s = Dim(int(h.int("s_size", 2, 3)), name="s")
    x = {"t": t, "s": s}[h.choice("dim", ["t", "s"])]
    k = int(h.int("k", 1, 3))
    h.check((x + k) - k == x, "(x + k) - k")
    h.check((k + x).sub_left(k) == x, "(k + x) left - k")
    h.check((x + u) - u == x, "(x + u) - u")
    h.check((x * k) // k == x or (k * x) // k == x, "x * k // k")
    h.check((k * x).div_left(k) == x, "(k * x) left / k")
    h.check(x * 1 == x and 1 * x == x and x + 0 == x and x // 1 == x and 0 + x == x, "neutral")
    h.check(x + k + k == x + 2 * k, "x + k + k")
    h.check(-(-x) == x, "- - x")
    h.check(x + x == 2 * x, "x + x")
    h.check(x != u and x + k != x and x * (k + 1) != x, "different")
    h.check(t != s and hash(x) == hash(x), "different")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds="%i ops, lengths 0-%i" % (kw.get("n_ops", 1), kw.get("T", 6)), validate=6, real_rounding=False))

    add("identities", h_identities)
    for start in ("t", "s"):
        add("chain2/%s" % start, h_chain, n_ops=2, consts=[2, 3], leafs=["t", "u", "s"], start=start)
        if not q:
            for first in ("+", "-", "*", "//", "/", "ceildiv", "div_left", "sub_left"):
                add("chain3/%s/%s" % (start, first), h_chain, n_ops=3, consts=[2, 3], leafs=["u", "s"], start=start, first=[first])
        for first in (["*"], ["//", "ceildiv"], ["/", "div_left"]):
            add("muldiv/%s/%s" % (start, first[0].replace("/", "d")), h_chain, n_ops=3, consts=[2] if q else [2, 3], leafs=["s"] if q else ["u", "s"], start=start, kinds=["*", "//", "ceildiv", "/", "div_left"], first=first)
    for first in ("+", "-", "*"):
        add("linear/%s" % {"+": "add", "-": "sub", "*": "mul"}[first], h_chain, n_ops=3, consts=[2], leafs=["u"] if q else ["t", "u"], start="t", kinds=["+", "-", "*"], first=[first], T=4)
    add("rounds", h_chain, n_ops=2, consts=[2], leafs=["u"], start="t", rounds=2)
    return res
