"""
C29: random regularization (dropout, SpecAugment, weight noise, sampling): only in training, only within the documented limits, for any random draw.
Also the update rule of the Lion optimizer.
"""

from vf.rfh import *
import contextlib

PROPERTY = "C29"
ASSUMPTIONS = [
    "random draws: Tensor.uniform_, random_, normal_ give any value of their range (reals, integers)",
    "tensor elements are exact reals; PyTorch backend in eager mode on CPU, ATen kernels interpreted by vf/symtorch.py",
    "latest behavior version",
]
COVERS = ["end", "train", "eval", "dropped", "kept", "clipped", "masked", "unmasked", "two_masks", "padded"]


class Draws:
    """random draws"""

    def __init__(self, h, mode="sym"):
        self.h, self.mode, self.n = h, mode, 0
        self.max_sym = 100
        self.ranges = []
        self.last = []

    def _fill(self, t, func):
        a = np.empty(tuple(t.shape), dtype=object)
        for idx in np.ndindex(*a.shape):
            a[idx] = func("draw%i_%s" % (self.n, "_".join(map(str, idx))))
        self.n += 1
        self.last.append(a)
        t.copy_(st.make_tensor(a, t.dtype))
        return t

    def real(self, name):
        """in [0,1)"""
        if self.mode == "sym":
            q = self.h.real(name, 0, 1)
            self.h.assume(q < 1)
            return q
        return Fraction(0) if self.mode == "min" else Fraction(63, 64)

    def uniform_(self, t, lo=0, hi=1, generator=None):
        """uniform"""
        lo, hi = _scalar(lo), _scalar(hi)
        if t.numel() > self.max_sym:  # too many orders of the draws
            k = self.h.choice("shift%i" % self.n, list(range(t.numel())))
            it = iter(range(t.numel()))
            return self._fill(t, lambda n: Fraction((next(it) * 2 + k) % t.numel() + 1, 16))
        return self._fill(t, lambda n: v_add(lo, v_mul(self.real(n), v_sub(hi, lo))))

    def random_(self, t, lo=0, hi=None, generator=None):
        """random int, hi exclusive"""
        if hi is None:
            lo, hi = 0, lo
        lo, hi = int(_scalar(lo)), int(_scalar(hi))
        self.h.check(lo < hi, "random int: empty range %s, %s" % (lo, hi))
        self.ranges.append((lo, hi))
        if self.mode == "sym":
            return self._fill(t, lambda n: int(self.h.int(n, lo, hi - 1)))
        if self.mode == "mixed":  # last entry largest
            return self._fill(t, lambda n: hi - 1 if n.endswith("_1") else lo)
        return self._fill(t, lambda n: lo if self.mode == "min" else hi - 1)

    def normal_(self, t, mean=0.0, std=1.0, generator=None):
        """normal"""
        mean, std = _scalar(mean), _scalar(std)
        base = self.normal_base = []  # mean 0, stddev 1

        def _draw(n):
            base.append(self.h.real(n, -4, 4))
            return v_add(mean, v_mul(std, base[-1]))

        return self._fill(t, _draw)

    @contextlib.contextmanager
    def installed(self):
        """patch"""
        names = ["uniform_", "random_", "normal_"]
        old = {n: vars(torch.Tensor).get(n) for n in names}
        for n in names:
            f = getattr(self, n)
            setattr(torch.Tensor, n, (lambda f: lambda t, *args, **kwargs: f(t, *args, **kwargs))(f))
        try:
            yield self
        finally:
            for n in names:
                if old[n] is None:
                    delattr(torch.Tensor, n)
                else:
                    setattr(torch.Tensor, n, old[n])


def _scalar(x):
    if isinstance(x, torch.Tensor):
        return st.values(x)[()]
    return Fraction(x) if isinstance(x, float) else x


@contextlib.contextmanager
def _ctx(train, step=0):
    rf.init_train_step_run_ctx(train_flag=train, step=step, epoch=1)
    try:
        yield
    finally:
        rf.init_train_step_run_ctx(train_flag=False, step=0, epoch=1)


def h_dropout(h, B, T, F, axis, on_forward, p):
    """dropout"""
    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(F, "f")
    t = r.tdim([b], T, lo=1, fork=True)
    x = r.tensor("x", perms([b, t, f], h), lo=1, hi=8, feature_dim=f)
    train = bool(h.bool("train"))
    ax = {"none": None, "false": False, "f": f, "bf": [b, f], "tb": [t, b], "all": [f, t, b]}[axis]
    ndims = {"none": [b, t, f], "false": [b, t, f], "f": [f], "bf": [b, f], "tb": [t, b], "all": [b, t, f]}[axis]
    p = Fraction(p)
    prob = float(p)
    if h.choice("ptype", [False, True] if train and axis in ("none", "f") else [False]):
        prob = r.tensor_of("p", [], np.array(p, dtype=object))
    with _ctx(train), Draws(h).installed() as d:
        y = rf.dropout(x, prob, axis=ax, on_forward=on_forward)
    r.check_tensor(x, [b, t, f], lambda e: None, "dropout: input")
    if p == 0 or not (train or on_forward):
        h.cover("eval")
        r.check_tensor(y, [b, t, f], lambda e: r.get(x, e), "dropout without training (or with drop_prob 0) is the identity")
        h.cover("end")
        return
    h.cover("train")
    scale = Fraction(1) / (1 - p)
    mask = {}
    conds = []
    for e in r.envs(y.dims):
        xv, yv = r.get(x, e), r.get(y, e)
        keep = close(h, yv, v_mul(xv, scale))
        drop = close(h, yv, Fraction(0))
        conds.append(symx.s_or(keep, drop))
        key = tuple(e[q] for q in ndims)
        mask.setdefault(key, []).append(keep)
    h.check_all(conds, "dropout: each element is either 0 or scaled by 1/(1-drop_prob)")
    h.check_all([symx.s_iff(k, ks[0]) for ks in mask.values() for k in ks], "dropout: same mask over the broadcast axes")
    # each mask entry depends on an own draw, with the right probability
    h.check(sum(a.size for a in d.last) >= len(mask), "dropout: fewer random draws than entries of the mask")
    draws = d.last[-1] if len(d.last) == 1 else None
    n = 1
    for q in ndims:
        n *= r.size(q)
    if draws is not None and draws.size == n:
        us = list(draws.reshape(-1))
        if n == 1:
            u = us[0]
            k = mask[next(iter(mask))][0]
            h.assume(u != p)
            h.assume(u != 1 - p)
            up, down = symx.s_iff(k, u > p), symx.s_iff(k, u < 1 - p)
            h.check(symx.s_or(up, down), "dropout: probability of the draw")
        # the number of kept entries is the number of draws in the interval (all valid entries only if not padded)
        if len(mask) == n:
            for u in us:
                h.assume(u != p)
                h.assume(u != 1 - p)
            kept = symx.s_count([ks[0] for ks in mask.values()])
            c1, c2 = symx.s_count([u > p for u in us]), symx.s_count([u < 1 - p for u in us])
            h.check(symx.s_or(kept == c1, kept == c2), "dropout: an independent draw for each entry of the mask")
    k0 = mask[next(iter(mask))][0]
    h.cover("dropped", symx.s_not(k0))
    h.cover("kept", k0)
    h.cover("end")


def h_mask(h, B, T, mode, axis):
    """mask"""
    import importlib

    sa = importlib.import_module("returnn.frontend.audio.specaugment")

    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(2, "f")
    t = r.tdim([b], T, lo=1, fork=True)
    x = r.tensor("x", perms([b, t, f], h), lo=1, hi=8)
    m_ax = t if axis == "t" else f
    pos = r.tensor("pos", [b], dtype="int32", lo=0, hi=(T if axis == "t" else 2) - 1)
    ps = [int(r.get(pos, {b: i})) for i in range(B)]
    ns = [r.lens(m_ax, {b: i}) for i in range(B)]
    for i in range(B):
        h.assume(ps[i] < ns[i])
    amount = h.choice("max", [1, 2, 3])
    value = h.real("value", -8, 0)
    with Draws(h, mode).installed() as d:
        y = sa.mask(x, mask_axis=m_ax, pos=pos, max_amount=amount, mask_value=value if not h.symbolic or symx.is_sym(value) is False else _const(r, value))
    if mode != "sym":
        want = [1 if mode == "min" else amount] * B
        r.check_tensor(
            y, [b, t, f], lambda e: value if ps[e[b]] <= e[m_ax] < ps[e[b]] + want[e[b]] else r.get(x, e), "mask: %s frames from the start position" % mode
        )
        h.cover("clipped", any(ps[i] + amount > ns[i] for i in range(B)))
    else:
        conds = []
        for i in range(B):
            alts = []
            for a in range(1, amount + 1):
                alts.append(
                    symx.s_and(
                        *[
                            close(h, r.get(y, e), value if ps[i] <= e[m_ax] < ps[i] + a else r.get(x, e))
                            for e in r.envs([b, t, f])
                            if e[b] == i
                        ]
                    )
                )
            conds.append(symx.s_or(*alts))
        h.check_all(conds, "mask: between 1 and max_amount frames from the start position")
    h.cover("end")


def _const(r, v):
    return r.tensor_of("value", [], np.array(v, dtype=object))


def _masked(h, r, x, y, dims):
    """:return: env keys -> bool"""
    res = {}
    for e in r.envs(dims):
        yv, xv = r.get(y, e), r.get(x, e)
        z = bool(close(h, yv, Fraction(0)))
        if not z:
            h.check(close(h, yv, xv), "masking changes other elements")
        res[tuple(e[d] for d in dims)] = z
    return res


def h_random_mask(h, B, T, lo_hi, max_dims, axis):
    """random_mask"""
    import importlib

    sa = importlib.import_module("returnn.frontend.audio.specaugment")

    r = R(h)
    b, f = r.sdim(B, "b"), r.sdim(2 if axis == "t" else T, "f")
    t = r.tdim([b], T if axis == "t" else 2, lo=1, fork=True)
    x = r.tensor("x", [b, t, f], lo=1, hi=8)
    m_ax, bc = (t, f) if axis == "t" else (f, t)
    lo, hi = lo_hi
    if hi > r.size(m_ax):
        h.assume(False)
    as_tensor = lo != hi and h.choice("tensor", [False, True])
    kw = dict(min_num=_const_int(r, lo), max_num=_const_int(r, hi)) if as_tensor else dict(min_num=lo, max_num=hi)
    with Draws(h).installed() as d:
        y = sa.random_mask(x, mask_axis=m_ax, broadcast_axis=bc if not as_tensor else [bc], max_dims=max_dims, **kw)
    h.check(set(y.dims) == {b, t, f}, "random_mask: dims")
    mm = _masked(h, r, x, y, [b, t, f])
    for i in range(B):
        n, nbc = r.lens(m_ax, {b: i}), r.lens(bc, {b: i})

        def at(j, k):
            return mm[(i, j, k) if axis == "t" else (i, k, j)]

        bits = [at(j, 0) for j in range(n)]
        h.check(all(at(j, k) == bits[j] for j in range(n) for k in range(nbc)), "random_mask: same over the broadcast axis")
        num = sum(bits)
        h.check(num <= hi * max_dims, "random_mask: %i masked, at most %i times %i" % (num, hi, max_dims))
        h.check(num >= min(lo, n) if n == r.size(m_ax) else True, "random_mask: %i masked, at least %i" % (num, lo))
        runs = sum(1 for j in range(n) if bits[j] and (j == 0 or not bits[j - 1]))
        h.check(runs <= hi, "random_mask: %i regions, at most %i" % (runs, hi))
        h.cover("masked", num > 0)
        h.cover("unmasked", num < n)
        h.cover("two_masks", runs > 1)
        h.cover("padded", axis == "t" and n < r.size(t))
    h.cover("end")


def _const_int(r, v):
    return r.tensor_of("num", [], np.array(v, dtype=object), dtype="int32")


def h_random_mask_mixed(h, T, num, max_dims):
    """each sequence has its own number of masks, of an own size"""
    import importlib

    sa = importlib.import_module("returnn.frontend.audio.specaugment")
    r = R(h)
    b, f = r.sdim(2, "b"), r.sdim(1, "f")
    t = r.tdim([b], T, lo=T, fork=True)
    x = r.tensor("x", [b, t, f], lo=1, hi=8)
    d = Draws(h, "mixed")
    d.max_sym = 1
    with d.installed():
        y = sa.random_mask(x, mask_axis=t, broadcast_axis=f, min_num=num - 1, max_num=num, max_dims=max_dims)
    mm = _masked(h, r, x, y, [b, t, f])
    for i, (k, a) in enumerate([(num - 1, 1), (num, max_dims)]):
        bits = [mm[i, j, 0] for j in range(T)]
        alts = [[any(s <= j < s + a for s in starts) for j in range(T)] for starts in itertools.combinations(range(T), k)]
        h.check(bits in alts, "random_mask: masked %s in sequence %i with %i masks of %i" % (bits, i, k, a))
    h.cover("end")


def h_random_mask_extreme(h, T, num, max_dims, mode):
    """the limits are inclusive: with the largest draws, exactly max_num masks of max_dims"""
    import importlib

    sa = importlib.import_module("returnn.frontend.audio.specaugment")

    r = R(h)
    b, f = r.sdim(1, "b"), r.sdim(1, "f")
    t = r.tdim([b], T, lo=T, fork=True)
    x = r.tensor("x", [b, t, f], lo=1, hi=8)

    class _D(Draws):
        def real(self, name):
            q = self.h.real(name, 0, 1)
            self.h.assume(q < 1)
            return q

    with _D(h, mode).installed() as d:
        y = sa.random_mask(x, mask_axis=t, broadcast_axis=f, min_num=num - 1, max_num=num, max_dims=max_dims)
    bits = [m for m in _masked(h, r, x, y, [t, b, f]).values()]
    # which start positions is up to the draws: the n positions of the largest (or smallest) values
    alts = []
    k, a = (num, max_dims) if mode == "max" else (num - 1, 1)
    for starts in itertools.combinations(range(T), k):
        alts.append([any(s <= j < s + a for s in starts) for j in range(T)])
    h.check(bits in alts, "random_mask with the %s draws: masked %s" % (mode, bits))
    h.cover("end")


def h_specaugment(h, T, F, phase, what, mode="sym"):
    """specaugment"""
    r = R(h)
    b, f = r.sdim(1, "b"), r.sdim(F, "f")
    t = r.tdim([b], T, lo=1, fork=True)
    x = r.tensor("x", perms([b, t, f], h) if phase == "eval" else [b, t, f], lo=1, hi=8, feature_dim=f)
    n = r.lens(t, {b: 0})
    train = phase != "eval"
    step = {"eval": 5000, "before": 4, "first": 5, "second": 7, "third": 20, "always": 0}[phase]
    kw = dict(steps=(5, 7, 9), num_spatial_mask_factor=100)
    kw.update(max_consecutive_spatial_dims=1 if "t" in what else 0)
    if "f" in what and F < 5 or mode == "max":
        kw.update(max_consecutive_feature_dims=1 if "f" in what else None)  # the default is a fifth of the features
    if phase == "always":
        train = bool(h.bool("train"))
        kw.update(only_on_train=train, global_train_step_dependent=False)
    d = Draws(h, mode)
    d.max_sym = 3 if mode == "sym" else 0
    with _ctx(train, step=step), d.installed():
        y = rf.audio.specaugment(x, spatial_dim=t, feature_dim=f if h.choice("fd", [0, 1]) else None, **kw)
    if phase in ("eval", "before"):
        h.cover("eval")
        r.check_tensor(y, [b, t, f], lambda e: r.get(x, e), "specaugment: nothing is masked (%s)" % phase)
        h.cover("end")
        return
    mm = _masked(h, r, x, y, [b, t, f])
    rows = [j for j in range(n) if all(mm[0, j, k] for k in range(F))]
    cols = [k for k in range(F) if all(mm[0, j, k] for j in range(n))]
    h.check(all(z == (j in rows or k in cols) for (_, j, k), z in mm.items()), "specaugment: masks whole frames or whole features")
    lo, hi_t, hi_f = {"first": (0, 2, 2), "second": (1, 4, 3), "third": (2, 8, 5), "always": (2, 8, 5)}[phase]
    if mode == "max":
        if what == "t":
            h.check(len(rows) == min(hi_t, n), "specaugment with the largest draws: %i of %i frames masked" % (len(rows), n))
        else:
            h.check(len(cols) == hi_f, "specaugment with the largest draws: %i of %i features masked" % (len(cols), F))
    if what == "t" or len(cols) < F:
        lo_, hi_ = (min(lo, n), hi_t) if "t" in what else (0, 0)
        h.check(lo_ <= len(rows) <= hi_, "specaugment: %i of %i frames masked" % (len(rows), n))
    if what == "f" or len(rows) < n:
        lo_, hi_ = (min(lo, F), hi_f) if "f" in what else (0, 0)
        h.check(lo_ <= len(cols) <= hi_, "specaugment: %i of %i features masked" % (len(cols), F))
    h.cover("train")
    h.cover("end")


def h_choice(h, T, K):
    """random_choice_without_replacement"""
    r = R(h)
    b, f, k = r.sdim(1, "b"), r.sdim(T, "f"), r.sdim(K, "k")
    x = r.tensor("x", perms([b, f], h))
    scale = h.choice("scale", [0.0, 1.0])
    with Draws(h).installed():
        if scale:
            # any noise (monotone in the draw): only distinct and valid labels
            idx = rf.random_choice_without_replacement(log_probs=x, axis=f, num_samples_dim=k)
        else:
            idx = rf.random_choice_without_replacement(log_probs=x, axis=f, num_samples_dim=k, noise_scale=0.0)
    h.check(set(idx.dims) == {b, k} and idx.sparse_dim == f, "random_choice: dims %s, sparse dim %s" % (idx.dims, idx.sparse_dim))
    ii = [int(r.get(idx, {b: 0, k: j})) for j in range(K)]
    h.check(len(set(ii)) == K and all(0 <= i < T for i in ii), "random_choice: labels %s must be different and valid" % ii)
    h.cover("end")


def h_param(h, which):
    """weight_noise, weight_dropout"""
    r = R(h)
    i, o = r.sdim(2, "in"), r.sdim(1, "out")
    train = bool(h.bool("train"))
    lin = rf.Linear(i, o, with_bias=False)
    w = r.tensor("w", [i, o], lo=1, hi=8)
    lin.weight.raw_tensor = torch.nn.Parameter(w.raw_tensor) if not h.symbolic else w.raw_tensor
    orig = lin.weight
    names = [n for n, _ in lin.named_parameters()]
    if which == "noise":
        rf.weight_noise(lin, "weight", std=0.5)
    else:
        rf.weight_dropout(lin, "weight", drop_prob=0.75)
    c = r.sdim(2, "c")
    x = r.tensor("x", [c, i])
    import returnn.torch.util.gradient_checkpoint as gc_mod

    with _ctx(train), Draws(h).installed() as d, patched((gc_mod, "gradient_checkpoint_scope", contextlib.nullcontext)):
        y = lin(x)
        w1 = lin.weight
    h.check([n for n, _ in lin.named_parameters()] == names, "parametrization: parameter names")
    h.check_all([close(h, r.get(orig, e), r.get(w, e)) for e in r.envs([i, o])], "parametrization: the parameter itself is not changed")
    if not train:
        h.cover("eval")
        r.check_tensor(y, [c, o], lambda e: lsum([v_mul(r.get(x, {c: e[c], i: j}), r.get(w, {i: j, o: 0})) for j in range(2)]), "parametrization: exact parameter outside of training")
    else:
        h.cover("train")
        h.check(len(d.last) >= 1, "parametrization: no noise in training")
        if which == "noise":
            h.check_all(
                [close(h, r.get(w1, {i: j, o: 0}), v_add(r.get(w, {i: j, o: 0}), v_mul(Fraction(1, 2), d.normal_base[j]))) for j in range(2)],
                "weight noise: normal noise of the configured stddev is added to the weight",
            )
        else:
            conds = []
            for j in range(2):
                v, wv = r.get(w1, {i: j, o: 0}), r.get(w, {i: j, o: 0})
                conds.append(symx.s_or(close(h, v, Fraction(0)), close(h, v, v_mul(wv, Fraction(4)))))
            h.check_all(conds, "weight dropout: 0 or scaled")
    rf.remove_parametrization(lin, "weight")
    h.check(type(lin) is rf.Linear, "parametrization removed")
    with _ctx(True), Draws(h).installed():
        y = lin(x)
    r.check_tensor(y, [c, o], lambda e: lsum([v_mul(r.get(x, {c: e[c], i: j}), r.get(w, {i: j, o: 0})) for j in range(2)]), "after removal: exact parameter")
    h.cover("end")


def h_random(h, dist):
    """rf.random_uniform, random_normal"""
    r = R(h)
    a, c = r.sdim(2, "a"), r.sdim(1, "c")
    with Draws(h).installed() as d:
        if dist == "int":
            lo = h.choice("lo", [-1, 0, 2])
            n = h.choice("n", [1, 3])
            lt, ht = (lo, lo + n) if h.choice("t", [0, 1]) else (_const_int(r, lo), _const_int(r, lo + n))
            y = rf.random_uniform([a, c], dtype="int32", minval=lt, maxval=ht, sparse_dim=None)
            h.check(d.ranges == [(lo, lo + n)], "random_uniform int: range %s, expected %s" % (d.ranges, (lo, lo + n)))
            h.check(y.dtype == "int32", "dtype")
        elif dist == "float":
            lo, hi = h.real("lo", -4, 0), h.real("hi", 1, 4)
            lt, ht = _const(r, lo), _const(r, hi)
            y = rf.random_uniform([a, c], minval=lt, maxval=ht)
            h.check_all([symx.s_and(v >= lo, v < hi) for v in r.arr(y).reshape(-1)], "random_uniform: range")
            y2 = rf.random_uniform([c, a])
            h.check_all([symx.s_and(v >= 0, v < 1) for v in r.arr(y2).reshape(-1)], "random_uniform: default range")
        else:
            mean, std = h.real("mean", -4, 4), h.real("std", 0, 4)
            y = rf.random_normal([a, c], mean=_const(r, mean), stddev=_const(r, std))
    h.check(list(y.dims) == [a, c], "random: dims")
    h.check_all([close(h, v, u) for v, u in zip(r.arr(y).reshape(-1), d.last[0].reshape(-1))], "random: one draw per element")
    h.cover("end")


def h_lion(h, steps, decoupled):
    """Lion"""
    from returnn.torch.optim.lion import Lion

    r = R(h)
    n = 2
    ws = [h.real("w%i" % i, -4, 4) for i in range(n)]
    b1, b2, wd = Fraction(3, 4), Fraction(1, 2), Fraction(1, 4)
    lrs = [Fraction(1, 2), Fraction(1, 8), Fraction(1, 4), Fraction(1)]
    ps = [torch.nn.Parameter(st.make_tensor(np.array([w], dtype=object), torch.float32), requires_grad=not h.symbolic) for w in ws]
    unused = torch.nn.Parameter(st.make_tensor(np.array([Fraction(3)], dtype=object), torch.float32), requires_grad=not h.symbolic)
    opt = Lion(
        [{"params": [unused, ps[0]]}, {"params": [ps[1]], "weight_decay": 0.0}], lr=float(lrs[0]), betas=(float(b1), float(b2)), weight_decay=float(wd), decoupled_weight_decay=decoupled
    )
    m = [Fraction(0)] * n
    for s in range(steps):
        for g in opt.param_groups:
            g["lr"] = float(lrs[s])
        for i in range(n):
            skip = bool(h.bool("skip%i_%i" % (s, i))) if s == 1 else False
            if skip:
                ps[i].grad = None
                continue
            g = h.real("g%i_%i" % (s, i), -4, 4)
            ps[i].grad = st.make_tensor(np.array([g], dtype=object), torch.float32)
            w_ = wd if i == 0 else Fraction(0)
            if decoupled:
                w_ = w_ / lrs[0]
            c = v_add(v_mul(b1, m[i]), v_mul(1 - b1, g))
            h.assume(symx.s_or(c > Fraction(1, 100), c < Fraction(-1, 100)))  # else the sign depends on rounding
            sgn = 1 if bool(c > 0) else (-1 if bool(c < 0) else 0)
            ws[i] = v_sub(v_mul(ws[i], 1 - lrs[s] * w_), lrs[s] * sgn)
            m[i] = v_add(v_mul(b2, m[i]), v_mul(1 - b2, g))
        opt.step()
        h.check_all([close(h, st.values(p.data).reshape(-1)[0], w) for p, w in zip(ps, ws)], "Lion: parameter after step %i" % (s + 1))
        h.check(close(h, st.values(unused.data).reshape(-1)[0], Fraction(3)), "Lion: parameter without gradient is not changed")
    h.cover("end")


def cases(tier):
    """cases"""
    q = tier == "quick"
    res = []

    def add(name, fn, **kw):
        res.append(Case(name, fn, kw, bounds="%s, any draws" % kw, validate=4, real_rounding=True))

    for ax in ["none", "false", "f", "bf", "tb", "all"]:
        add("dropout/" + ax, h_dropout, B=2, T=2 if q else 3, F=2 if ax != "all" else 1, axis=ax, on_forward=False, p=0.75)
    add("dropout/one", h_dropout, B=1, T=2, F=1, axis="f", on_forward=False, p=0.75)
    add("dropout/on_forward", h_dropout, B=2, T=1, F=2, axis="f", on_forward=True, p=0.5)
    add("dropout/zero", h_dropout, B=2, T=1, F=2, axis="none", on_forward=True, p=0)
    for m in ["sym", "min", "max"]:
        for ax in ["t", "f"]:
            add("mask/%s/%s" % (ax, m), h_mask, B=2 if ax == "t" else 1, T=2 if m == "sym" and q else 3, mode=m, axis=ax)
    for lo_hi in [(0, 1), (1, 1), (1, 2), (2, 2)]:
        for ax in ["t", "f"]:
            add("random_mask/%s/%i-%i" % ((ax,) + lo_hi), h_random_mask, B=1, T=3, lo_hi=lo_hi, max_dims=2, axis=ax)
    add("random_mask/b2", h_random_mask, B=2, T=2, lo_hi=(1, 2), max_dims=1, axis="t")
    add("random_mask/b2/f", h_random_mask, B=2, T=2, lo_hi=(0, 1), max_dims=2, axis="f")
    add("random_mask/mixed", h_random_mask_mixed, T=4, num=2, max_dims=2)
    add("random_mask/mixed3", h_random_mask_mixed, T=5, num=3, max_dims=1)
    for m in ["min", "max"]:
        add("random_mask/" + m, h_random_mask_extreme, T=4, num=2, max_dims=2, mode=m)
    for p in ["eval", "before", "first", "second", "third", "always"]:
        if p in ("eval", "before"):
            add("specaugment/" + p, h_specaugment, T=2, F=5, phase=p, what="tf")
            continue
        add("specaugment/%s/t" % p, h_specaugment, T=2 if q else 3, F=2, phase=p, what="t")
        add("specaugment/%s/f" % p, h_specaugment, T=1, F=5, phase=p, what="f")
        add("specaugment/%s/t/max" % p, h_specaugment, T=5, F=2, phase=p, what="t", mode="max")
        add("specaugment/%s/f/max" % p, h_specaugment, T=1, F=6, phase=p, what="f", mode="max")
    add("specaugment/first/tf", h_specaugment, T=2, F=2, phase="first", what="tf")
    add("specaugment/second/tf", h_specaugment, T=1, F=3, phase="second", what="tf")
    add("choice", h_choice, T=3, K=2)
    for w in ["noise", "dropout"]:
        add("param/" + w, h_param, which=w)
    for dist in ["int", "float", "normal"]:
        add("random/" + dist, h_random, dist=dist)
    for dec in [False, True]:
        add("lion/%s" % dec, h_lion, steps=3 if q else 4, decoupled=dec)
    return res
