"""C08: save_at."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import Probe, make_field, state, grid
from torchdyn.numerics import odeint, sdeint, odeint_symplectic
from torchdyn.numerics.solvers.ode import str_to_solver, AsynchronousLeapfrog
from torchdyn.core import NeuralODE, ODEProblem, NeuralSDE, SDEProblem
import torchsde

PROPERTY = 'C08'
RULE = ("random selections (any subset, any order, tensor / list / other dtype) of the grid of random fixed-step solves, compared with the rows of the full solve; "
        "plus selections with one foreign time, which must raise; non-trivial = every case; key = path, solver, sensitivity, selection size, direction, kind of foreign time")
ASSUMPTIONS = ['grid points at least 1e-3 (relative) apart, foreign times at least 1e-3 of a gap from any grid point']


def sel(ctx, ts, allow_empty=False):
    rng = ctx.rng
    n = len(ts)
    m = rng.choice(['one', 'first', 'last', 'ends', 'any', 'any', 'any', 'all', 'allrev', 'shuffled'])
    idx = dict(one=[rng.randrange(n)], first=[0], last=[n - 1], ends=[0, n - 1], all=list(range(n)), allrev=list(range(n))[::-1]).get(m)
    if idx is None:
        idx = rng.sample(range(n), rng.randint(1, n))
        if m == 'any': idx.sort()
    form = rng.choice(['tensor', 'tensor', 'list', 'tuple', 'clone'])
    sa = ts[idx]
    arg = [float(v) for v in sa] if form == 'list' else tuple(float(v) for v in sa) if form == 'tuple' else sa.clone()
    return m, form, idx, sa, arg


def foreign(ctx, ts):
    rng = ctx.rng
    lo, hi = min(ts.tolist()), max(ts.tolist())
    s = ts.sort()[0]
    i = rng.randrange(len(s) - 1)
    gap = float(s[i + 1] - s[i])
    m = rng.choice(['mid', 'before', 'after', 'near', 'mirror'])
    v = dict(mid=float(s[i]) + .5 * gap, before=lo - .37 * (hi - lo), after=hi + .21 * (hi - lo), near=float(s[i]) + max(.02 * gap, 3e-3),
             mirror=-float(s[i]) - .377 * gap)[m]
    if min(abs(float(t) - v) for t in ts) < 1e-3: v = float(s[i]) + .5 * gap
    return m, v


def agrid(ctx, **k):
    return grid(ctx, kind=ctx.rng.choice(['even', 'uneven', 'jitter', 'offset', 'negative', 'cross']), n=ctx.rng.randint(3, 10),
                T=ctx.rng.uniform(.8, 2.5), **k)


def fgrid(ctx):
    "fine spacing far from the origin: neighbouring points are closer than customary relative tolerances"
    rng = ctx.rng
    t0, h, n = rng.choice([-500., 1000., 50.]), 10 ** rng.uniform(-4, -2), rng.randint(3, 10)
    ts = t0 + h * torch.arange(n, dtype=torch.float64)
    return ts.flip(0) if rng.random() < .3 else ts


@family(quick=150, thorough=2000)
def fine(ctx):
    x, mode = state(ctx, shape=(2, 2))
    ts = fgrid(ctx)
    f = make_field(ctx, x.shape[-1])
    name = ctx.rng.choice(['euler', 'midpoint', 'rk4', 'sde'])
    if name == 'sde':
        ts = ts.sort()[0]
        bm = torchsde.BrownianInterval(t0=float(ts[0]), t1=float(ts[-1]), size=x.shape, dtype=x.dtype, entropy=ctx.rng.randrange(10 ** 6))
        call = lambda sa: sdeint(SDE(f), x.clone(), ts.clone(), 'euler', bm, **({} if sa is None else dict(save_at=sa)))
    else: call = lambda sa: odeint(f, x.clone(), ts.clone(), name, **({} if sa is None else dict(save_at=sa)))
    te, full = call(None)
    m, form, idx, sa, arg = sel(ctx, ts)
    ctx.desc(solver=name, selection=m, form=form, idx=idx, n=len(ts), t0=float(ts[0]), h=float(ts[1] - ts[0]))
    te, sol = call(arg)
    ctx.check(len(te) == len(idx) and (te - sa).abs().max() < .1 * (ts[1] - ts[0]).abs(), 'labels', 'returned times are not those of save_at', stop=True)
    ctx.close(sol, full[idx], 1e-13, 'rows', f"selected rows {idx}")
    s = ts.sort()[0]
    i = ctx.rng.randrange(len(s) - 1)
    w = ctx.rng.choice(['mid', 'quarter', 'before', 'after'])
    h = float(s[1] - s[0])
    v = dict(mid=float(s[i]) + .5 * h, quarter=float(s[i]) + .25 * h, before=float(s[0]) - h, after=float(s[-1]) + .7 * h)[w]
    try:
        out = call(torch.tensor([v], dtype=ts.dtype))
        ctx.fail('accepted_foreign', f"save_at {v} ({w}) not contained in the grid was answered with time {out[0]}")
    except Exception:  # noqa
        ctx.ev('rejections')
    ctx.key(name, m, form, w, round(h, 5), bool(ts[1] < ts[0]))


def well(ts): return (ts[1:] - ts[:-1]).abs().min() > 8e-3


def judge(ctx, call, full_t, full, ts, path):
    "call(save_at) -> (times, rows)"
    m, form, idx, sa, arg = sel(ctx, ts)
    ctx.desc(path=path, selection=m, form=form, idx=idx, n=len(ts))
    te, sol = call(arg)
    te = torch.as_tensor(te)
    ctx.close(te.reshape(-1), sa, 1e-12 if form != 'list' and form != 'tuple' else 1e-6, 'labels', 'returned times are not those of save_at')
    if isinstance(full, dict):
        for k in full: ctx.check(torch.equal(sol[k], full[k][idx]), 'rows', f"rows of '{k}' for selection {idx}")
    else:
        ctx.check(sol.shape[0] == len(idx), 'rows', f"{sol.shape[0]} rows for {len(idx)} selected times", stop=True)
        ctx.close(sol, full[idx], 1e-13, 'rows', f"selected rows {idx}")
    ctx.ev('rows', len(idx))
    # unchanged by the selection: the last row of a selection ending at T
    k, v = foreign(ctx, ts)
    mix = ctx.rng.choice(['alone', 'with', 'within'])
    bad = {'alone': [v], 'with': [float(ts[0]), v], 'within': [float(t) for t in ts[:2]] + [v, float(ts[-1])]}[mix]
    try:
        out = call(torch.tensor(bad, dtype=ts.dtype))
        ctx.fail('accepted_foreign', f"save_at {bad} ({k}) not contained in {ts.tolist()} was answered with times {out[0]}")
    except Exception as e:  # noqa
        ctx.ev('rejections')
        ctx.check(not isinstance(e, (RecursionError, MemoryError)), 'rejection', repr(e))
    ctx.ev('assertions')
    ctx.key(path, m, form, k, mix, bool(ts[1] < ts[0]))


@family(quick=500, thorough=8000)
def functional(ctx):
    rng = ctx.rng
    name = rng.choice(['euler', 'midpoint', 'rk4', 'rk-4'])
    x, mode = state(ctx)
    ts, kind, rev = agrid(ctx)
    if not well(ts): ts = torch.linspace(float(ts[0]), float(ts[-1]), len(ts), dtype=torch.float64)
    f = make_field(ctx, x.shape[-1])
    n = [0]

    def g(t, y):
        n[0] += 1
        return f(t, y)
    if rng.random() < .15 and x.dim() > 1 and not rev:
        full = odeint(lambda t, s: D(f(t, s['a']), .5 * f(t, s['a'])), D(x, 2 * x), ts.clone(), Dict())
        return judge(ctx, lambda sa: odeint(lambda t, s: D(f(t, s['a']), .5 * f(t, s['a'])), D(x, 2 * x), ts.clone(), Dict(), save_at=sa), *full, ts, 'dict')
    te, full = odeint(g, x.clone(), ts.clone(), name)
    calls, n[0] = n[0], 0
    judge(ctx, lambda sa: odeint(g, x.clone(), ts.clone(), name, save_at=sa), te, full, ts, name)


class D(dict):
    def __init__(self, a, b): super().__init__(a=a, b=b)


class Dict(torch.nn.Module):
    "euler on dictionaries"
    stepping_class, order = 'fixed', 1
    def sync_device_dtype(self, x, t): return x, t
    def step(self, f, x, t, dt, k1=None, args=None):
        k = f(t, x)
        return None, D(x['a'] + dt * k['a'], x['b'] + dt * k['b']), None


class Mod(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f, self.s = f, nn.Parameter(torch.ones(1, dtype=torch.float64))

    def forward(self, t, x, args={}): return self.s * self.f(t, x)


@family(quick=450, thorough=7000)
def wrapped(ctx):
    rng = ctx.rng
    cls = rng.choice([NeuralODE, ODEProblem])
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    name = rng.choice(['euler', 'midpoint', 'rk4'])
    x, mode = state(ctx, shape=rng.choice([(2, 3), (3, 1), (1, 2), (2, 2, 2)] * 3 + [(30, 2), (2, 14)]))
    ts, kind, rev = agrid(ctx)
    if not well(ts): ts = torch.linspace(float(ts[0]), float(ts[-1]), len(ts), dtype=torch.float64)
    node = cls(Mod(make_field(ctx, x.shape[-1])), str_to_solver(name, torch.float64), sensitivity=sens)
    y = x.clone().requires_grad_(rng.random() < .5)
    te, full = node(y, ts.clone())
    ctx.desc(cls=cls.__name__, sens=sens, solver=name)

    def call(sa):
        out = node(y, ts.clone(), save_at=sa)
        if y.requires_grad and rng.random() < .3:  # selected rows stay differentiable
            g, = torch.autograd.grad(out[1].sum(), y, allow_unused=True, retain_graph=True)
            ctx.check(g is not None, 'connected', 'selected rows are not connected to the initial condition')
        return out
    judge(ctx, call, te, full.detach(), ts, f"{cls.__name__}/{sens}/{name}")


class SDE(nn.Module):
    noise_type, sde_type = 'diagonal', 'ito'

    def __init__(self, f):
        super().__init__()
        self.ff = f

    def f(self, t, x): return self.ff(t, x)
    def g(self, t, x): return .3 * torch.cos(t + x)


@family(quick=120, thorough=2000)
def stochastic(ctx):
    rng = ctx.rng
    x, mode = state(ctx, shape=rng.choice([(2, 3), (3, 1), (1, 2)] * 3 + [(30, 2), (2, 14)]))
    ts, kind, rev = agrid(ctx, reverse=False)
    if not well(ts): ts = torch.linspace(float(ts[0]), float(ts[-1]), len(ts), dtype=torch.float64)
    path = rng.choice(['sdeint', 'NeuralSDE', 'SDEProblem'])
    f = make_field(ctx, x.shape[-1])
    bm = torchsde.BrownianInterval(t0=float(ts[0]), t1=float(ts[-1]), size=x.shape, dtype=x.dtype, entropy=rng.randrange(10 ** 6))
    ctx.desc(path=path)
    if path == 'sdeint':
        sde = SDE(f)
        call = lambda sa: sdeint(sde, x.clone(), ts.clone(), 'euler', bm, **({} if sa is None else dict(save_at=sa)))
    elif path == 'NeuralSDE':
        fd, gd = (lambda t, x: f(t, x)), (lambda t, x: .3 * torch.cos(t + x))
        node = NeuralSDE(fd, gd, solver='euler', bm=bm)
        call = lambda sa: node(x.clone(), ts.clone(), **({} if sa is None else dict(save_at=sa)))
    else:
        p = SDEProblem(SDE(f), 'euler')
        call = lambda sa: p(x.clone(), ts.clone(), bm, **({} if sa is None else dict(save_at=sa)))
    te, full = call(None)
    judge(ctx, call, te, full, ts, path)


class ALFField:
    order = 1
    def __init__(self, f): self.f = f
    def __call__(self, t, x): return self.f(t, x)


@family(quick=60, thorough=1000)
def symplectic(ctx):
    x, mode = state(ctx, shape=ctx.rng.choice([(2, 2), (3, 1), (1, 2)]))
    ts, kind, rev = agrid(ctx)
    if not well(ts): ts = torch.linspace(float(ts[0]), float(ts[-1]), len(ts), dtype=torch.float64)
    f = ALFField(make_field(ctx, x.shape[-1]))
    xv = torch.cat([x, f(ts[0], x)], -1)
    call = lambda sa: odeint_symplectic(f, xv.clone(), ts.clone(), AsynchronousLeapfrog(dtype=torch.float64), **({} if sa is None else dict(save_at=sa)))
    te, full = call(None)
    judge(ctx, call, te, full, ts, 'symplectic')
