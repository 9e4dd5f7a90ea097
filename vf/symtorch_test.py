"""
Test of symtorch: all ops on constant symbolic tensors must agree with PyTorch.
"""

import numpy as np
import torch
import torch.nn.functional as F
from vf import symtorch as st
from vf import symx


def main():
    """main"""
    st.NUMERIC = True
    rng = np.random.RandomState(3)
    x = torch.tensor(rng.randint(-6, 7, size=(2, 3, 4)) / 4.0, dtype=torch.float32)
    y = torch.tensor(rng.randint(-6, 7, size=(2, 3, 4)) / 4.0 + 0.125, dtype=torch.float32)
    w = torch.tensor(rng.randint(-3, 4, size=(4, 5)) / 2.0, dtype=torch.float32)
    i = torch.tensor([[1, 0, 2], [2, 2, 0]], dtype=torch.int64)
    k = torch.tensor([3, -7, 5], dtype=torch.int32)
    k2 = torch.tensor([2, 2, -3], dtype=torch.int32)
    m = x > 0
    im = torch.tensor(rng.randint(-6, 7, size=(2, 2, 6)) / 4.0, dtype=torch.float32)
    cw = torch.tensor(rng.randint(-3, 4, size=(4, 1, 3)) / 2.0, dtype=torch.float32)
    cw2 = torch.tensor(rng.randint(-3, 4, size=(3, 2, 3)) / 2.0, dtype=torch.float32)
    ctw = torch.tensor(rng.randint(-3, 4, size=(2, 3, 3)) / 2.0, dtype=torch.float32)

    def sel(a):
        a = a.clone()
        a[:, 1] = 3.0
        a[0, 2, 1:] += 1.0
        return a

    tests = [
        lambda x, y, w, i, k, k2, m, im, cw, cw2, ctw: f(x, y, w, i, k, k2, m, im, cw, cw2, ctw)
        for f in [
            lambda x, y, w, i, k, k2, m, *_: [x + y, x - y, x * y, x / y, x // y, x % y, 1 - x, x**2, -x, abs(x), x + 1, 2 * x, x + i[:, :, None]],
            lambda x, y, w, i, k, k2, m, *_: [k // k2, k % k2, torch.div(k, k2, rounding_mode="trunc"), torch.div(k, k2, rounding_mode="floor"), k / k2, k + k2, k * 3, k - 1],
            lambda x, y, w, i, k, k2, m, *_: [x > y, x >= y, x == y, x != y, x < 0, x <= 1, (x > 0) & (y > 0), m | (y < 0), ~m, m ^ (y > 0), torch.logical_not(x)],
            lambda x, y, w, i, k, k2, m, *_: [torch.where(m, x, y), torch.where(m, x, -1.0), x.masked_fill(m, 0.5), x.clamp(-0.5, 0.5), x.clamp(min=0), torch.maximum(x, y), torch.minimum(x, y), torch.relu(x)],
            lambda x, y, w, i, k, k2, m, *_: [x.sum(), x.sum(1), x.sum((0, 2)), x.sum(1, keepdim=True), x.mean(1), x.mean(), x.prod(1), k.sum(), m.sum(1), m.any(1), m.all(2), m.any(), x.amax(1), x.amin((0, 1)), x.max(), x.min()],
            lambda x, y, w, i, k, k2, m, *_: [*x.max(dim=1), *x.min(dim=2), x.argmax(1), x.argmin(-1), x.var(1), x.var(1, unbiased=False), torch.var_mean(x, dim=1, correction=0)[0], x.std(1) ** 2],
            lambda x, y, w, i, k, k2, m, *_: [x.cumsum(1), x.cumprod(2), m.cumsum(1), torch.logsumexp(x, 1), torch.softmax(x, -1), torch.log_softmax(x, 1), torch.logcumsumexp(x, 1), torch.logaddexp(x, y)],
            lambda x, y, w, i, k, k2, m, *_: [x.exp(), x.tanh(), x.sigmoid(), F.silu(x), F.gelu(x), (x * x).sqrt(), F.logsigmoid(x), torch.rsqrt(x * x + 1), torch.sign(x), x.floor(), x.ceil(), x.square(), F.leaky_relu(x)],
            lambda x, y, w, i, k, k2, m, *_: [x.reshape(6, 4), x.permute(2, 0, 1).reshape(8, 3), x.transpose(0, 2), x[:, 1], x[..., 1:3], x[:, None], x.unsqueeze(-1), x[:1].squeeze(0), x[:, :1].expand(2, 5, 4), x.flip([1]), x.roll(1, 1), x.repeat(2, 1, 1), torch.tile(x, (1, 2, 1)), x.unfold(1, 2, 1), x[:, ::2]],
            lambda x, y, w, i, k, k2, m, *_: [*x.split([1, 2], 1), *x.split(2, 2), *x.chunk(2, 2), *x.unbind(1), torch.cat([x, y], 1), torch.stack([x, y], 1), F.pad(x, (1, 2)), F.pad(x, (0, 0, 1, -1), value=3.0), sel(x)],
            lambda x, y, w, i, k, k2, m, *_: [torch.gather(x, 1, i[:, :, None].expand(2, 3, 4)), torch.gather(i, 1, i), x.index_select(1, i[0]), F.embedding(i, w), x[:, i[0]], x[i % 2], x[torch.arange(2)[:, None], i], x[m], torch.masked_select(x, m), torch.nonzero(m), x.to(torch.float64), x.to(torch.int32), k.float(), m.int(), m.float(), k.bool()],
            lambda x, y, w, i, k, k2, m, *_: [torch.scatter(x, 1, i[:, :, None].expand(2, 3, 4), y), torch.scatter_add(x, 1, i[:, :, None].expand(2, 3, 4), y), x.scatter_reduce(1, i[:, :, None].expand(2, 3, 4), y, "amax", include_self=False), x.masked_scatter(m, y), torch.scatter(x, 1, i[:, :, None], 2.0)],
            lambda x, y, w, i, k, k2, m, *_: [torch.sort(x, 1)[0], *torch.sort(k), *torch.sort(k, descending=True, stable=True), torch.topk(y, 2, dim=1)[0], torch.searchsorted(torch.sort(x, -1)[0].contiguous(), y), torch.searchsorted(torch.sort(x, -1)[0].contiguous(), y, side="right"), torch.argsort(k)],
            lambda x, y, w, i, k, k2, m, *_: [x @ w, torch.einsum("bij,bkj->bik", x, y), x[0] @ w, torch.bmm(x, y.transpose(1, 2)), F.linear(x, w.t(), w[0]), torch.mv(x[0], w[:, 0]), torch.dot(x[0, 0], y[0, 0]), torch.addmm(w[:1], x[0], w)],
            lambda x, y, w, i, k, k2, m, im, cw, cw2, ctw: [F.conv1d(im, cw2), F.conv1d(im, cw2, cw2[:, 0, 0], stride=2, padding=1, dilation=2), F.conv1d(im, cw, groups=2), F.conv_transpose1d(im, ctw, stride=2), F.conv2d(im[:, None], cw2[:, None]), F.conv_transpose1d(im, ctw, ctw[0, :, 0], stride=3, padding=1, output_padding=1)],
            lambda x, y, w, i, k, k2, m, im, cw, cw2, ctw: [F.max_pool1d(im, 2), F.max_pool1d(im, 3, 2, 1), F.avg_pool1d(im, 2), F.avg_pool1d(im, 3, 2, 1), F.avg_pool1d(im, 3, 2, 1, False, False), F.max_pool2d(im, (2, 3)), F.max_pool1d(im, 2, 2, ceil_mode=True), F.avg_pool1d(im, 4, 3, 0, True)],
            lambda x, y, w, i, k, k2, m, *_: [F.batch_norm(x, x[0, :, 0], x[0, :, 1] ** 2, training=False), F.batch_norm(x, None, None, training=True), F.layer_norm(x, (4,), w[:, 0], w[:, 1]), F.cross_entropy(x, i[:, 0], reduction="none") if False else F.nll_loss(x.transpose(1, 2)[:, 0], i[:, 0], reduction="none"), F.cross_entropy(x.reshape(6, 4), i.reshape(6), reduction="none"), F.cross_entropy(x, torch.zeros(2, 4, dtype=torch.long), reduction="sum"), torch.lerp(x, y, 0.25)],
            lambda x, y, w, i, k, k2, m, *_: [torch.zeros_like(x), torch.ones_like(k), torch.full_like(x, 2.0), x.new_zeros((2,)), torch.isfinite(x / 0.0), torch.isinf(x / 0.0), torch.isneginf(-abs(y) / 0.0)],
        ]
    ]
    n = 0
    args = (x, y, w, i, k, k2, m, im, cw, cw2, ctw)
    with torch.no_grad():
        for fi, f in enumerate(tests):
            ref = f(*args)
            out = f(*[st.sym_tensor(st.values(a), a.dtype) for a in args])
            assert len(ref) == len(out)
            for j, (r, o) in enumerate(zip(ref, out)):
                assert r.shape == o.shape and r.dtype == o.dtype, (fi, j, r.shape, o.shape, r.dtype, o.dtype)
                rv, ov = st.values(r).reshape(-1), st.values(o).reshape(-1)
                for a, b in zip(rv, ov):
                    assert not symx.is_sym(b)
                    a, b = float(a), float(b)
                    assert a == b or abs(a - b) < 1e-5 or (a != a and b != b), (fi, j, r, ov)
                n += 1
    st.NUMERIC = False
    print("symtorch: %i ops agree with PyTorch" % n)


if __name__ == "__main__":
    main()
