"""C27: hypersolvers."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid, make_field, state, wide
from lib import ref
from lib.grads import loss_of, grads, make_net, trainable
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem

PROPERTY = 'C27'
RULE = ("random (hypersolver, field, hypernetwork, shape, precision, grid, direction, interface): every row against base step + dt^(order+1) * g(t, x) of the previous row, the times and states the "
        "hypernetwork received, equality with the base solver for a zero network, order gained by the exact residual, gradients of network, field, state and grid; "
        "key = solver, field, hypernetwork, shape, grid, direction, interface")
ASSUMPTIONS = ['explicit fixed-step bases: Euler, midpoint, classical Runge-Kutta']
SOLVERS = dict(euler=HyperEuler, midpoint=HyperMidpoint, rk4=HyperRungeKutta4)


class Hyper(nn.Module):
    def __init__(self, ctx, d, dtype=torch.float64, kind=None):
        super().__init__()
        self.kind = kind or ctx.rng.choice(['mlp', 'mlp', 'linear', 'time', 'const'])
        r = lambda *s: nn.Parameter(torch.randn(*s, generator=ctx.gen, dtype=torch.float64).to(dtype))
        self.W, self.b, self.c = r(d, d), r(d), r(d)
        self.log = []
    def value(self, t, x):
        t = torch.as_tensor(t).to(x.dtype)
        if self.kind == 'mlp': return torch.tanh(x @ self.W + self.b * t) * self.c
        if self.kind == 'linear': return x @ self.W + self.b
        if self.kind == 'time': return torch.cos(2 * t) * self.b + 0 * x
        return self.c.expand(x.shape)
    def forward(self, t, x):
        if len(self.log) < 3000: self.log.append((float(t), x.detach().clone()))
        return self.value(t, x)


def hyperstep(base, g):
    p = ref.ORDERS[base] + 1
    return lambda f, t, h, x: ref.STEPS[base](f, t, h, x) + h ** p * g(t, x)


def run(iface, f, x, ts, solver, **kw):
    if iface == 'odeint': return odeint(f, x, ts, solver, **kw)
    if iface == 'trajectory': return ts, NeuralODE(f, solver).trajectory(x, ts)
    return dict(NeuralODE=NeuralODE, ODEProblem=ODEProblem)[iface](f, solver, sensitivity=kw.get('sensitivity', 'autograd'))(x, ts)


@family(quick=360, thorough=8000)
def steps(ctx):
    rng = ctx.rng
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    x, mode = state(ctx, dtype=dtype)
    ts, kind, rev = grid(ctx, dtype=dtype)
    f = make_field(ctx, x.shape[-1], dtype=dtype)
    base = rng.choice(list(SOLVERS))
    g = Hyper(ctx, x.shape[-1], dtype)
    iface = rng.choice(['odeint', 'odeint', 'NeuralODE', 'ODEProblem', 'trajectory'])
    ctx.desc(base=base, field=f.kind, hyper=g.kind, shape=tuple(x.shape), mode=mode, dtype=dtype, grid=kind, reverse=rev, n=len(ts), iface=iface)
    fw = f if iface == 'odeint' else (lambda t, x: f(t, x))
    if iface == 'ODEProblem': fw = f
    te, out = run(iface, fw, x.clone(), ts, SOLVERS[base](g, dtype))
    log = list(g.log)
    tol = 1e-10 if dtype == torch.float64 else 2e-5
    ctx.check(torch.equal(te, ts), 'times', 'times')
    ctx.check(tuple(out.shape) == (len(ts),) + tuple(x.shape) and out.dtype == dtype, 'shape', f"{tuple(out.shape)} {out.dtype}", stop=True)
    ctx.check(torch.equal(out[0].detach(), x), 'initial', 'first row')
    step = hyperstep(base, g.value)
    for i in range(len(ts) - 1):
        e = step(f, ts[i], ts[i + 1] - ts[i], out[i].detach())
        if not ctx.close(out[i + 1], e, tol, f"row_{base}{str(dtype)[-2:]}", f"row {i + 1}"): break
    ctx.ev('rows', len(ts) - 1)
    ctx.check(len(log) >= len(ts) - 1, 'calls', f"{len(log)} hypernetwork calls for {len(ts) - 1} steps")
    # the network is evaluated at the start of steps only
    tt = [float(v) for v in ts[:-1]]
    eps = 1e-9 if dtype == torch.float64 else 1e-5
    for t, xs in log:
        i = min(range(len(tt)), key=lambda j: abs(tt[j] - t))
        if not ctx.check(abs(tt[i] - t) <= eps * (1 + abs(t)), 'where', f"hypernetwork evaluated at {t}, not the start of a step"): break
    ctx.ev('hypernetwork_calls', len(log))
    ctx.key(base, f.kind, g.kind, tuple(x.shape), str(dtype), kind, rev, iface)


@family(quick=80, thorough=1500)
def zero(ctx):
    "a zero hypernetwork leaves the base solver"
    rng = ctx.rng
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx)
    f = make_field(ctx, x.shape[-1])
    base = rng.choice(list(SOLVERS))
    iface = rng.choice(['odeint', 'NeuralODE', 'trajectory'])
    ctx.desc(base=base, field=f.kind, shape=tuple(x.shape), grid=kind, reverse=rev, iface=iface)
    z = lambda t, y: torch.zeros_like(y)
    fw = lambda t, y: f(t, y)
    _, a = run(iface, fw, x, ts, SOLVERS[base](z, torch.float64))
    _, b = run(iface, fw, x, ts, str_to_solver(base, torch.float64))
    ctx.close(a, b, 1e-12, 'zero', 'differs from the base solver')
    ctx.key(base, f.kind, tuple(x.shape), kind, rev, iface)


@family(quick=40, thorough=600)
def order(ctx):
    "with the exact residual of the base step the solution gains one order"
    rng = ctx.rng
    d = wide(rng, rng.choice([1, 2, 3]))
    base = rng.choice(list(SOLVERS))
    p = ref.ORDERS[base]
    # linear autonomous field: the residual of a step is known, x(t+h) - step = h^(p+1) A^(p+1) x / (p+1)! + O(h^(p+2))
    A = torch.randn(d, d, generator=ctx.gen, dtype=torch.float64)
    A = A / A.abs().sum() * 1.5 * d ** .5
    x = torch.randn(2, d, generator=ctx.gen, dtype=torch.float64)
    fact = {1: 2, 2: 6, 4: 120}[p]
    R = torch.linalg.matrix_power(A, p + 1).T / fact
    T = rng.uniform(.8, 1.5) * rng.choice([1, -1])
    ctx.desc(base=base, d=d, T=T)
    exact = x @ torch.linalg.matrix_exp(T * A).T
    f, g = (lambda t, y: y @ A.T), (lambda t, y: y @ R)
    ns = (8, 16) if p < 4 else (4, 8)
    e = []
    for n in ns:
        ts = torch.linspace(0, T, n + 1, dtype=torch.float64)
        h = odeint(f, x, ts, SOLVERS[base](g, torch.float64))[1][-1]
        b = odeint(f, x, ts, str_to_solver(base, torch.float64))[1][-1]
        e.append((float((h - exact).abs().max()), float((b - exact).abs().max())))
    if e[1][0] < 1e-14 or e[1][1] < 1e-14: return
    o = torch.log2(torch.tensor(e[0][0] / e[1][0])).item()
    # nearly cancelling leading terms make slopes meaningless: compare magnitudes with the a-priori remainder
    h = abs(T) / ns[1]
    a = float(A.abs().sum())
    bound = 5 * abs(T) * a * (a * h) ** (p + 1) * float(x.abs().max() + 1) * 2.718 ** (a * abs(T))
    ctx.check(e[1][0] <= bound, 'order', f"error {e[1][0]:.2e} exceeds the bound {bound:.2e} of order {p + 1}")
    ctx.check(e[1][0] < e[1][1] * 1.01 + 1e-13 or o > p + .5, 'gain', f"hypersolver error {e[1][0]:.2e}, base {e[1][1]:.2e}, slope {o:.2f}")
    ctx.ev('slopes')
    ctx.key(base, d, ctx.index)


@family(quick=160, thorough=3000)
def gradients(ctx):
    rng = ctx.rng
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx)
    net = make_net(ctx, x.shape[-1])
    base = rng.choice(list(SOLVERS))
    g = Hyper(ctx, x.shape[-1])
    iface = rng.choice(['odeint', 'NeuralODE', 'ODEProblem'])
    wrt_t = rng.random() < .4
    lname, loss = loss_of(ctx, len(ts), x.shape)
    ctx.desc(base=base, field=net.kind, hyper=g.kind, shape=tuple(x.shape), grid=kind, reverse=rev, iface=iface, loss=lname, wrt_t=wrt_t)
    ps = trainable(net) + list(g.parameters())
    xa, ta, xb, tb = x.clone().requires_grad_(True), ts.clone().requires_grad_(wrt_t), x.clone().requires_grad_(True), ts.clone().requires_grad_(wrt_t)
    _, out = run(iface, net, xa, ta, SOLVERS[base](g, torch.float64))
    e = ref.compose(hyperstep(base, g.value), net, xb, tb)
    ctx.close(out, e, 1e-10, 'values', 'rows')
    ga = grads(loss(out), [xa] + ps + ([ta] if wrt_t else []))
    gb = grads(loss(e), [xb] + ps + ([tb] if wrt_t else []))
    s = max(float(v.abs().max()) for v in gb)
    for a, b in zip(ga, gb): ctx.close(a, b, 1e-9, 'gradient', 'gradient', scale=s)
    ctx.ev('gradients', len(ga))
    if s > 1e-9: ctx.key(base, net.kind, g.kind, tuple(x.shape), kind, rev, iface, lname, wrt_t)


@family(quick=40, thorough=600)
def training(ctx):
    "fitting the residual of the base solver on a trajectory makes the hypersolver exact on it"
    rng = ctx.rng
    d = wide(rng, rng.choice([1, 2, 3]))
    f = make_field(ctx, d)
    base = rng.choice(list(SOLVERS))
    p = ref.ORDERS[base]
    x = torch.randn(3, d, generator=ctx.gen, dtype=torch.float64)
    ts, kind, rev = grid(ctx, n=rng.randint(3, 7), T=rng.uniform(.4, 1.2), kind=rng.choice(['even', 'uneven', 'offset', 'jitter']))
    ctx.desc(base=base, field=f.kind, grid=kind, reverse=rev)
    with torch.no_grad(): e = ref.fine(f, x, ts, 60)
    tt = [float(v) for v in ts]
    def g(t, y):
        i = min(range(len(tt)), key=lambda j: abs(tt[j] - float(t)))
        h = ts[i + 1] - ts[i]
        return (e[i + 1] - ref.STEPS[base](f, ts[i], h, e[i])) / h ** (p + 1)
    with torch.no_grad(): _, out = odeint(f, x, ts, SOLVERS[base](g, torch.float64))
    ctx.close(out, e, 1e-9, 'exact', 'solution with the exact residual')
    ctx.key(base, f.kind, d, kind, rev)
