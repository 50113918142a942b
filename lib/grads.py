"""Parametrised fields and random losses for the sensitivity checks; reference gradients by autograd through `ref.fine`."""
import math
import torch
import torch.nn as nn
from lib import ref


class Net(nn.Module):
    """field (t, x, args) with parameters of several shapes, optionally unused, frozen, shared or 0-dimensional ones; `xfree`: independent of the state"""
    def __init__(self, gen, d, kind='mlp', dtype=torch.float64, extras=()):
        super().__init__()
        r = lambda *s: nn.Parameter(torch.randn(*s, generator=gen, dtype=torch.float64).to(dtype))
        h = d + 2
        self.kind, self.d, self.extras = kind, d, tuple(extras)
        if 'unused_first' in extras: self.zzz = r(3)
        self.W1, self.b1, self.u = r(d, h), r(h), r(h)
        if 'frozen' in extras: self.b1.requires_grad_(False)
        self.W2 = r(h, d)
        self.scale = nn.Parameter(torch.tensor(0.7, dtype=dtype))
        if 'unused_last' in extras: self.aaa = r(2, 2)
        if 'frozen_last' in extras:
            self.off = r(d)
            self.off.requires_grad_(False)
        self.n, self.ts = 0, []

    def forward(self, t, x, args={}):
        self.n += 1
        if len(self.ts) < 5000: self.ts.append(float(t))
        if isinstance(t, torch.Tensor): t = t.to(x.dtype)
        if self.kind == 'mlp':
            y = torch.tanh(x @ self.W1 / math.sqrt(self.d) + self.u * torch.sin(1.3 * t) + self.b1) @ self.W2 / math.sqrt(self.d)
        elif self.kind == 'auto':
            y = torch.tanh(x @ self.W1 / math.sqrt(self.d) + self.b1) @ self.W2 / math.sqrt(self.d)
        elif self.kind == 'bilinear':
            y = torch.sin(x @ self.W1 + self.b1 * torch.cos(2 * t)) @ self.W2 * 0.3 - 0.3 * x + 0 * self.u.sum()
        elif self.kind == 'xfree':
            y = (torch.sin(self.u * t + self.b1) @ self.W2) + 0 * t
            y = y.expand(x.shape)
        elif self.kind == 'xfree_noparam':
            y = torch.cos(3 * t + torch.arange(self.d, dtype=x.dtype)).expand(x.shape)
        elif self.kind == 'const':
            y = torch.sin(1. + torch.arange(self.d, dtype=x.dtype)).expand(x.shape)
        elif self.kind == 'noparam':
            y = torch.sin(2 * t) * x.roll(1, -1) - 0.4 * torch.tanh(x)
        else: raise KeyError(self.kind)
        if self.kind not in ('xfree_noparam', 'noparam', 'const') and 'noscale' not in self.extras: y = y * self.scale
        if 'frozen_last' in self.extras: y = y + 0.3 * self.off
        return y


KINDS = ['mlp', 'mlp', 'mlp', 'auto', 'bilinear', 'xfree', 'noparam', 'xfree_noparam', 'const']
EXTRAS = [(), (), ('unused_first',), ('unused_last',), ('frozen',), ('frozen_last', 'unused_first'), ('frozen', 'unused_last', 'noscale')]


def make_net(ctx, d, kind=None, dtype=torch.float64):
    kind = kind or ctx.rng.choice(KINDS)
    return Net(ctx.gen, d, kind, dtype, ctx.rng.choice(EXTRAS))


def loss_of(ctx, n, shape, dtype=torch.float64, kind=None):
    "random scalar loss touching a random subset of the n output rows -> (name, function of the solution)"
    rng = ctx.rng
    kind = kind or rng.choice(['last', 'first', 'interior', 'some', 'all', 'ends', 'square', 'entry'])
    rows = dict(last=[n - 1], first=[0], ends=[0, n - 1], all=list(range(n)), square=list(range(n)),
                interior=[rng.randrange(1, n - 1)] if n > 2 else [0], entry=[rng.randrange(n)]).get(kind)
    if rows is None: rows = sorted(rng.sample(range(n), rng.randint(1, n)))
    w = torch.randn(n, *shape, generator=ctx.gen, dtype=torch.float64)
    v = torch.randn(n, *shape, generator=ctx.gen, dtype=torch.float64)
    mask = torch.zeros(n, *[1] * len(shape), dtype=torch.float64)
    mask[rows] = 1.
    if kind == 'entry':
        m = torch.zeros(n, *shape, dtype=torch.float64).reshape(n, -1)
        m[rows[0], rng.randrange(m.shape[1])] = 1.
        mask = m.reshape(n, *shape)
    w, v, mask = w.to(dtype), v.to(dtype), mask.to(dtype)
    return f"{kind}{rows if len(rows) < 4 else len(rows)}", lambda s: (mask * (w * s + .5 * v * s ** 2)).sum()


def grads(loss, wrt):
    "gradients, zeros where the loss does not depend"
    gs = torch.autograd.grad(loss, wrt, allow_unused=True)
    return [torch.zeros_like(w) if g is None else g for g, w in zip(gs, wrt)]


def trainable(net): return [p for p in net.parameters() if p.requires_grad]


def reference(net, x, ts, loss, sub=30, step=ref.rk4):
    "-> solution, d loss/dx, [d loss/dp] of the exact solution map"
    x = x.detach().clone().requires_grad_(True)
    sol = ref.fine(net, x, ts.detach(), sub, step)
    ps = trainable(net)
    g = grads(loss(sol), [x] + ps)
    return sol.detach(), g[0], g[1:]
