"""Zoo of smooth vector fields (written against plain torch), probes and configuration generators."""
import math
import torch
import torch.nn as nn

from lib.core import Budget

KINDS = ['lin', 'linauto', 'osc', 'tanh', 'tanhauto', 'sin', 'logistic', 'tonly', 'riccati', 'mix']
AUTONOMOUS = {'linauto', 'tanhauto', 'logistic'}


class Field(nn.Module):
    """dx/dt = f(t, x) for states of any shape [..., d]; bounded growth on |t| of order a few units"""
    def __init__(self, kind, d, gen, dtype=torch.float64, stiff=1.):
        super().__init__()
        self.kind, self.d = kind, d
        r = lambda *s: torch.randn(*s, generator=gen, dtype=torch.float64)
        h = 2 * d + 2
        S = r(d, d) / math.sqrt(d)
        p = dict(A=stiff * (S - S.T - 0.3 * torch.eye(d, dtype=torch.float64) + 0.3 * r(d, d) / math.sqrt(d)),
                 b=0.7 * r(d), w=1 + 2 * torch.rand(d, generator=gen, dtype=torch.float64), ph=r(d),
                 W1=stiff * r(d, h) / math.sqrt(d), u=r(h), c1=0.5 * r(h), W2=r(h, d) / math.sqrt(h))
        for k, v in p.items():
            self.register_parameter(k, nn.Parameter(v.to(dtype), requires_grad=False))

    @property
    def autonomous(self): return self.kind in AUTONOMOUS

    def forward(self, t, x):
        k = self.kind
        if isinstance(t, torch.Tensor) and t.dtype != x.dtype and not x.is_complex(): t = t.to(x.dtype)
        if k == 'lin': return x @ self.A.T.to(x.dtype) + self.b * torch.cos(self.w * t + self.ph)
        if k == 'linauto': return x @ self.A.T.to(x.dtype) + self.b
        if k == 'osc':
            return (1 + 0.5 * torch.sin(self.w[0] * t)) * (x @ (self.A - self.A.T).T.to(x.dtype)) / 2 - 0.1 * x
        if k == 'tanh': return torch.tanh(x @ self.W1 + self.u * torch.sin(1.7 * t) + self.c1) @ self.W2
        if k == 'tanhauto': return torch.tanh(x @ self.W1 + self.c1) @ self.W2
        if k == 'sin': return torch.sin(x + self.w * t) + 0.5 * self.b
        if k == 'logistic': return 0.8 * x * (1 - x.abs() / 3)
        if k == 'tonly': return self.b * torch.cos(self.w * t + self.ph) + 0.2 * t * self.b + 0 * x
        if k == 'riccati': return -x * x.abs() / (1 + x.abs()) + torch.cos(self.w * t)
        if k == 'mix': return 0.5 * torch.tanh(x @ self.A.T) * torch.cos(self.w * t) + 0.3 * t.sin() * x.roll(1, -1)
        raise KeyError(k)


def time_dependent(rng):
    return rng.choice([k for k in KINDS if k not in AUTONOMOUS])


def make_field(ctx, d, kind=None, dtype=torch.float64, stiff=1.):
    kind = kind or ctx.rng.choice(KINDS)
    return Field(kind, d, ctx.gen, dtype, stiff)


class Probe:
    "Records every evaluation of a field (time, optionally state) and bounds their number"
    def __init__(self, f, budget=40000, keep_x=False):
        self.f, self.budget, self.keep_x = f, budget, keep_x
        self.t, self.x, self.n, self.out = [], [], 0, []

    def __call__(self, t, x):
        self.n += 1
        if self.n > self.budget: raise Budget(f"more than {self.budget} field evaluations")
        self.t.append(float(t))
        if self.keep_x: self.x.append(x.detach().clone())
        y = self.f(t, x)
        if self.keep_x: self.out.append(y.detach().clone())
        return y


SHAPES = [(1, 1), (1, 3), (3, 1), (2,), (1,), (4, 2), (7, 3), (40, 2), (2, 18), (2, 3, 2), (2, 1, 2, 3), (5, 4), (1, 1, 2)]


def state(ctx, shape=None, dtype=torch.float64, kind=None):
    shape = shape or ctx.rng.choice(SHAPES)
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    mode = ctx.rng.choice(['normal', 'normal', 'normal', 'small', 'mixed', 'zero', 'pos'])
    if mode == 'small': x = x * 1e-3
    if mode == 'zero': x = x * 0
    if mode == 'pos': x = x.abs() + 0.1
    if mode == 'mixed': x = x * torch.where(torch.rand(x.shape, generator=ctx.gen) < 0.3, 0., 1.).to(x)
    return x.to(dtype), mode


GRIDS = ['even', 'uneven', 'two', 'tight', 'offset', 'negative', 'cross', 'geometric', 'jitter', 'clustered']


def grid(ctx, kind=None, n=None, T=None, dtype=torch.float64, reverse=None):
    "strictly monotone time grid"
    rng = ctx.rng
    kind = kind or rng.choice(GRIDS)
    T = T or rng.uniform(0.3, 2.5)
    n = n or (rng.choice([30, 70]) if rng.random() < .04 else rng.randint(3, 12))
    if kind == 'two': n = 2
    if kind in ('even', 'two', 'offset', 'negative', 'cross'):
        s = torch.linspace(0, 1, n, dtype=torch.float64)
    elif kind == 'geometric':
        s = torch.tensor([0.] + [2. ** -(n - 1 - i) for i in range(1, n)], dtype=torch.float64)
    elif kind == 'tight':
        s = torch.linspace(0, 1, n, dtype=torch.float64).tolist()
        i = rng.randrange(len(s) - 1)
        e = rng.choice([1e-3, 1e-6, 1e-8])
        s = torch.tensor(sorted(set(s + [s[i] + e])), dtype=torch.float64)
    elif kind == 'clustered':
        a = sorted(rng.uniform(0.4, 0.45) for _ in range(n - 2)) if n > 2 else []
        s = torch.tensor([0.] + a + [1.], dtype=torch.float64)
    elif kind == 'jitter':
        s = torch.linspace(0, 1, n, dtype=torch.float64)
        s[1:-1] += (torch.rand(n - 2, generator=ctx.gen, dtype=torch.float64) - 0.5) * 0.6 / n
    else:
        w = torch.rand(n - 1, generator=ctx.gen, dtype=torch.float64) ** 2 + 0.02
        s = torch.cat([torch.zeros(1, dtype=torch.float64), torch.cumsum(w, 0)])
        s = s / s[-1]
    t0 = dict(offset=rng.uniform(1, 8), negative=-T - rng.uniform(0.1, 3), cross=-T * rng.uniform(.2, .8)).get(kind, 0.)
    if kind in ('uneven', 'jitter', 'tight') and rng.random() < .4: t0 = rng.uniform(-2, 2)
    t = (t0 + T * s).to(dtype)
    keep = torch.cat([torch.ones(1, dtype=torch.bool), (t[1:] - t[:-1]) > 0])
    t = t[keep]
    assert len(t) >= 2 and (t[1:] > t[:-1]).all()
    if reverse is None: reverse = rng.random() < 0.25
    if reverse: t = t.flip(0)
    return t, kind, reverse


def fl(ts): return [float(v) for v in ts]


def many(rng, B):
    "a batch size: `B`, or now and then a large one"
    return rng.choice([9, 17, 40, 70]) if rng.random() < .07 else B


def wide(rng, d):
    "a dimension: `d`, or now and then a large (even) one"
    return rng.choice([8, 10, 14, 20]) if rng.random() < .07 else d
