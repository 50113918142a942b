"""C35: differentiation of SDE solutions."""
import copy
import torch
import torch.nn as nn
import torchsde
from lib.core import family
from lib.fields import grid, wide
from torchdyn.numerics import sdeint
from torchdyn.core import NeuralSDE
from torchdyn.core.defunc import SDEFunc
from torchdyn.nn import DataControl

PROPERTY = 'C35'
RULE = ("random drift and diffusion networks (also sharing parameters, frozen or unused ones), schemes, grids, states and losses over random rows: gradients of sdeint and NeuralSDE with respect to the initial state and "
        "every parameter against autograd through the scheme written out along the same path, and against finite differences; training steps against the same steps on the written-out scheme; "
        "key = scheme, interface, networks, shape, grid, loss rows")
ASSUMPTIONS = ['diagonal noise, forward grids, double precision; no rounding difference between query end points (own path)']
SCHEMES = {'euler': 'ito', 'eulerHeun': 'stratonovich', 'milstein_ito': 'ito', 'milstein_stratonovich': 'stratonovich'}


def step(scheme, f, g, t, dt, x, dW):
    a, b = f(t, x), g(t, x)
    if scheme == 'euler': return x + a * dt + b * dW
    if scheme == 'eulerHeun': return x + a * dt + .5 * (b + g(t + dt, x + b * dW)) * dW
    s = dt ** .5
    if scheme == 'milstein_ito': return x + a * dt + b * dW + (g(t, x + a * dt + b * s) - b) / (2 * s) * (dW ** 2 - dt)
    return x + a * dt + b * dW + (g(t, x + b * s) - b) / (2 * s) * dW ** 2


class Path:
    "a fixed continuous path"
    def __init__(self, ctx, shape):
        self.a = torch.randn(6, *shape, generator=ctx.gen, dtype=torch.float64) / 3
        self.w = 1 + 20 * torch.rand(6, generator=ctx.gen, dtype=torch.float64)
    def W(self, t): return torch.tensordot(torch.sin(self.w * float(t)), self.a, 1)
    def __call__(self, s, t): return self.W(t) - self.W(s)


class Time(nn.Module):
    def __init__(self, net, w): super().__init__(); self.net, self.w = net, nn.Parameter(torch.tensor(w, dtype=torch.float64))
    def forward(self, t, x): return self.net(x) * torch.cos(self.w * t) + .1 * x


class Plain(nn.Module):
    def __init__(self, net): super().__init__(); self.net = net
    def forward(self, x): return self.net(x)


def pair(ctx, d):
    rng = ctx.rng
    with torch.random.fork_rng():
        torch.manual_seed(rng.randrange(2 ** 30))
        L = lambda i, o: nn.Linear(i, o).double()
        body = lambda: nn.Sequential(L(d, 4), nn.Tanh(), L(4, d))
        a, b = body(), nn.Sequential(L(d, d), nn.Tanh()) if rng.random() < .5 else body()
        shared = rng.random() < .2
        if shared: b = a
        if rng.random() < .3: a[0].bias.requires_grad_(False)
        wrap = lambda n: rng.choice([Time(n, rng.uniform(.5, 3)), Plain(n)])
        f, g = wrap(a), wrap(b)
        if rng.random() < .3: f.unused = nn.Parameter(torch.ones(2, dtype=torch.float64))
    call = lambda m: m if isinstance(m, Time) else (lambda t, x: m(x))
    return f, g, call(f), call(g), (type(f).__name__, type(g).__name__, shared)


def written(scheme, f, g, x, ts, bm):
    rows = [x]
    for a, b in zip(ts[:-1], ts[1:]): rows.append(step(scheme, f, g, a, b - a, rows[-1], bm(a, b)))
    return torch.stack(rows)


def weights(ctx, n, shape):
    w = torch.randn(n, *shape, generator=ctx.gen, dtype=torch.float64)
    rows = sorted(ctx.rng.sample(range(n), ctx.rng.randint(1, n)))
    m = torch.zeros(n, *[1] * len(shape), dtype=torch.float64)
    m[rows] = 1.
    return rows, lambda y: (m * (w * y + .3 * y ** 2)).sum()


def grads(l, ps): return [torch.zeros_like(p) if v is None else v for v, p in zip(torch.autograd.grad(l, ps, allow_unused=True), ps)]


@family(quick=300, thorough=8000)
def gradients(ctx):
    rng = ctx.rng
    shape = rng.choice([(1, 1), (3, 2), (2, 3), (5, 1), (1, 4), (2, 2, 2)] * 3 + [(30, 2), (2, 14)])
    f, g, fc, gc, nk = pair(ctx, shape[-1])
    scheme = rng.choice(list(SCHEMES))
    ts, kind, _ = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter']), reverse=False, T=rng.uniform(.3, 1.2))
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    bm = Path(ctx, shape)
    iface = rng.choice(['sdeint', 'NeuralSDE', 'trajectory', 'save_at'])
    rows, loss = weights(ctx, len(ts), shape)
    ctx.desc(scheme=scheme, iface=iface, nets=nk, shape=shape, grid=kind, n=len(ts), rows=len(rows))
    params, seen = [], set()
    for p in list(f.parameters()) + list(g.parameters()):
        if p.requires_grad and id(p) not in seen: seen.add(id(p)), params.append(p)
    names = ['x'] + [f"parameter {tuple(p.shape)}" for p in params]
    x0 = x.clone().requires_grad_(True)
    curved = rng.random() < .3
    z = torch.sin(x0) if curved else x0 * 1.
    ns = NeuralSDE(f, g, solver=scheme, sde_type=SCHEMES[scheme], bm=bm, return_t_eval=rng.random() < .5)
    if iface == 'sdeint': y = sdeint(SDEFunc(f, g, noise_type='diagonal', sde_type=SCHEMES[scheme]), z, ts, scheme, bm)[1]
    elif iface == 'trajectory': y = ns.trajectory(z, ts)
    else:
        out = ns(z, ts, save_at=ts) if iface == 'save_at' else ns(z, ts)
        y = out[1] if isinstance(out, tuple) else out
    if rng.random() < .3:
        for p in params + [x0]: p.grad = None
        loss(y).backward()
        got = [torch.zeros_like(p) if p.grad is None else p.grad.clone() for p in [x0] + params]
    else: got = grads(loss(y), [x0] + params)
    x1 = x.clone().requires_grad_(True)
    r = written(scheme, fc, gc, torch.sin(x1) if curved else x1, ts, bm)
    exp = grads(loss(r), [x1] + params)
    ctx.close(y, r, 1e-9, 'rows', 'rows differ from the written-out scheme')
    s = max(float(e.abs().max()) for e in exp)
    for a, e, n in zip(got, exp, names): ctx.close(a, e, 1e-7, 'gradient', f"gradient of {n}", scale=max(s, 1e-3))
    if rng.random() < .3:   # directional finite difference through the real code
        v = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
        sde = SDEFunc(f, g, noise_type='diagonal', sde_type=SCHEMES[scheme])
        with torch.no_grad():
            e = 1e-6
            hi, lo = (loss(sdeint(sde, x + k * e * v, ts, scheme, bm)[1]) for k in (1, -1))
            u = x.clone()
        u.requires_grad_(True)
        gu, = torch.autograd.grad(loss(sdeint(sde, u, ts, scheme, bm)[1]), u)
        ctx.close((gu * v).sum(), (hi - lo) / (2 * e), 1e-5, 'difference', 'directional derivative', scale=max(float((hi - lo).abs() / (2 * e)), float(gu.abs().max()), 1.))
    ctx.ev('gradients', len(got))
    if s > 1e-8: ctx.key(scheme, iface, nk, shape, kind, len(ts), rows)


@family(quick=40, thorough=800)
def training(ctx):
    "optimisation steps through NeuralSDE are those of the written-out scheme; every trainable parameter is registered"
    rng = ctx.rng
    d = wide(rng, rng.randint(1, 3))
    f, g, _, _, nk = pair(ctx, d)
    f2, g2 = copy.deepcopy((f, g))
    call = lambda m: m if isinstance(m, Time) else (lambda t, x: m(x))
    scheme = rng.choice(list(SCHEMES))
    ts, kind, _ = grid(ctx, kind=rng.choice(['even', 'jitter']), reverse=False, n=rng.randint(3, 8), T=1.)
    shape = (rng.randint(1, 5), d)
    ns = NeuralSDE(f, g, solver=scheme, sde_type=SCHEMES[scheme])
    mine = {id(p) for p in list(f.parameters()) + list(g.parameters())}
    ctx.check({id(p) for p in ns.parameters()} == mine, 'registered', 'parameters of the model are not those of drift and diffusion')
    O = rng.choice([torch.optim.SGD, torch.optim.Adam])
    plain = nn.ModuleList([f2, g2])
    oa, ob = O([p for p in ns.parameters() if p.requires_grad], lr=.05), O([p for p in plain.parameters() if p.requires_grad], lr=.05)
    ctx.desc(scheme=scheme, nets=nk, optimiser=O.__name__, grid=kind)
    for k in range(4):
        x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
        ns.bm = bm = Path(ctx, shape)
        oa.zero_grad(), ob.zero_grad()
        la = ns(x, ts)[1][-1].pow(2).mean()
        lb = written(scheme, call(f2), call(g2), x, ts, bm)[-1].pow(2).mean()
        ctx.close(la, lb, 1e-8, 'loss', f"loss at step {k}")
        la.backward(), lb.backward()
        oa.step(), ob.step()
    a, b = [p for m in (f, g) for p in m.parameters()], [p for m in (f2, g2) for p in m.parameters()]
    for p, q in zip(a, b): ctx.close(p, q, 1e-5, 'trained', 'parameters after four steps')
    ctx.ev('training_steps', 4)
    ctx.key(scheme, nk, O.__name__, kind, shape)
