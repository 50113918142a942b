"""C33: work done by solves."""
import math
import torch
import torch.nn as nn
from scipy.integrate import solve_ivp
from lib.core import family
from lib.fields import Probe, make_field, state, grid
from lib.grads import make_net
from lib.trace import StepLog
from torchdyn.numerics import odeint, odeint_mshooting
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.core import NeuralODE, ODEProblem

PROPERTY = 'C33'
RULE = ("every field evaluation and every step call of random solves is counted: fixed-step solves against stages x intervals, adaptive solves against six evaluations per attempted step, the number of attempted steps "
        "against an independent step controller on the same problem (and scipy's RK45), its growth when the tolerance is tightened against the order of the method, its independence of the grid when interpolating, "
        "and fields that the method integrates exactly; key = family, solver, field, tolerance, grid, numbers of evaluations and attempts")
ASSUMPTIONS = ['upper bounds only: doing less work is never reported', 'allowance 1.25x + 9 attempts against the reference controller, 3 more per additional grid point']
STAGES = dict(euler=1, midpoint=2, rk4=4)


class Count(nn.Module):
    def __init__(self, f): super().__init__(); self.f, self.n = f, 0

    def forward(self, t, x, args={}):
        self.n += 1
        return self.f(t, x)


@family(quick=160, thorough=4000)
def fixed(ctx):
    rng = ctx.rng
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx, n=rng.choice([2, 3, 5, 9, 33]))
    f = Count(make_field(ctx, x.shape[-1]))
    name, n = rng.choice(list(STAGES)), len(ts) - 1
    how = rng.choice(['odeint', 'NeuralODE', 'ODEProblem', 'adjoint', 'hyper', 'save_at', 'trajectory'])
    bound, h = STAGES[name] * n, None
    if how == 'odeint': odeint(f, x, ts, name)
    elif how == 'save_at': odeint(f, x, ts, name, save_at=ts[[0, -1]])
    elif how == 'NeuralODE': NeuralODE(f, name)(x, ts)
    elif how == 'trajectory': NeuralODE(f, name).trajectory(x, ts)
    elif how == 'ODEProblem': ODEProblem(f, name)(x, ts)
    elif how == 'adjoint': NeuralODE(f, name, sensitivity='adjoint', solver_adjoint='dopri5')(x.clone().requires_grad_(True), ts)
    else:
        h = Probe(lambda t, x: torch.cos(x))
        odeint(f, x, ts, dict(euler=HyperEuler, midpoint=HyperMidpoint, rk4=HyperRungeKutta4)[name](h, x.dtype))
    ctx.desc(solver=name, how=how, n=n + 1, grid=kind, reverse=rev, evaluations=f.n)
    ctx.ev('evaluations', f.n)
    ctx.check(f.n <= bound, 'evaluations', f"{f.n} field evaluations for {n} {name} steps ({bound} stages)")
    if h: ctx.check(h.n <= n, 'hypernet', f"{h.n} evaluations of the hypersolver network for {n} steps")
    ctx.key(name, how, n, kind, rev, f.kind if hasattr(f, 'kind') else f.f.kind)


def control(f, x, t0, T, solver, atol, rtol, fac=10., part=None):
    "attempts of an own step controller with the same one-step method; T > t0"
    rms = lambda v: float((v.abs() ** 2).mean().sqrt())
    k = f(torch.tensor(t0, dtype=torch.float64), x)
    sc = atol + rtol * x.abs()
    d0, d1 = rms(x / sc), rms(k / sc)
    h0 = 1e-6 if min(d0, d1) < 1e-5 else .01 * d0 / d1
    k2 = f(torch.tensor(t0 + h0, dtype=torch.float64), x + h0 * k)
    d2 = rms((k2 - k) / sc) / h0
    h1 = max(1e-6, h0 * 1e-3) if max(d1, d2) <= 1e-15 else (.01 / max(d1, d2)) ** (1 / 6)
    h, t, n, rej = min(100 * h0, h1), t0, 0, False
    while t < T - 1e-13 * (1 + abs(T)):
        h = min(h, T - t)
        n += 1
        if n > 5000: return None
        kn, y, e, _ = solver.step(f, x, torch.tensor(t, dtype=torch.float64), torch.tensor(h, dtype=torch.float64), k1=k)
        r = rms((e / (atol + rtol * torch.maximum(x.abs(), y.abs())))[:part])
        if r <= 1:
            t, x, k = t + h, y, kn
            h *= min(fac, max(1., .9 * r ** -.2)) if r else fac
        else: h *= max(.2, .9 * r ** -.2)
    return n


def backward(f, ts):
    "the problem on an increasing grid"
    if ts[0] < ts[-1]: return f, ts
    return (lambda t, x: -f(-t, x)), -ts


SMOOTH = ['lin', 'osc', 'tanh', 'sin', 'mix', 'tanhauto', 'linauto', 'tonly', 'riccati']


@family(quick=260, thorough=6000)
def adaptive(ctx):
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx, kind=rng.choice(['two', 'two', 'even', 'uneven', 'jitter', 'offset', 'clustered', 'geometric']), T=rng.uniform(.5, 6))
    f0 = make_field(ctx, x.shape[-1], stiff=rng.choice([1., 2.]), kind=rng.choice(SMOOTH))
    tol = 10 ** rng.uniform(-9, -2)
    atol, rtol = tol * 10 ** rng.uniform(-1, 1), tol
    interp = '4th' if rng.random() < .3 and name == 'dopri5' else None
    solver = str_to_solver(name, torch.float64)
    f, log = Count(f0), StepLog(solver)
    odeint(f, x, ts, solver, atol=atol, rtol=rtol, interpolator=interp)
    n, calls = len(log.ev), f.n
    with torch.no_grad():
        g, up = backward(f0, ts)
        ref = control(g, x, float(up[0]), float(up[-1]), str_to_solver(name, torch.float64), atol, rtol)
    ctx.desc(solver=name, field=f0.kind, tol=tol, atol=atol, grid=kind, n=len(ts), reverse=rev, interp=interp, attempts=n, evaluations=calls, reference=ref)
    ctx.ev('attempts', n), ctx.ev('evaluations', calls)
    ctx.check(calls <= 6 * n + 2, 'evaluations', f"{calls} field evaluations for {n} attempted steps")
    bound = 1.25 * ref + 9 + (0 if interp else 3 * (len(ts) - 2))
    ctx.worst('attempts', n / bound)
    ctx.check(n <= bound, 'attempts', f"{n} attempted steps, a standard controller needs {ref} (grid of {len(ts)})")
    if name == 'dopri5':
        g, up = backward(f0, ts)
        shape = x.shape
        s = solve_ivp(lambda t, y: g(torch.tensor(t, dtype=torch.float64), torch.as_tensor(y).reshape(shape)).reshape(-1).numpy(), (float(up[0]), float(up[-1])), x.reshape(-1).numpy(), rtol=max(rtol, 2.3e-14), atol=atol)
        b = 1.6 * s.nfev / 6 + 12 + (0 if interp else 4 * (len(ts) - 2))
        ctx.worst('scipy', n / b)
        ctx.check(n <= b, 'attempts', f"{n} attempted steps, scipy's RK45 makes {s.nfev} evaluations (grid of {len(ts)})")
    if n >= 4: ctx.key(name, f0.kind, f"{tol:.1e}", kind, rev, interp, n)


@family(quick=60, thorough=1200)
def dense(ctx):
    "many requested times: one step each, two more to recover the step size; none at all when interpolating"
    rng = ctx.rng
    name = rng.choice(['dopri5', 'dopri5', 'tsit5'])
    x, mode = state(ctx)
    n = rng.choice([20, 50, 120])
    T = rng.uniform(.5, 5)
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'jitter', 'offset']), T=T, n=n)
    f0 = make_field(ctx, x.shape[-1], kind=rng.choice(SMOOTH))
    tol = 10 ** rng.uniform(-8, -3)
    count = {}
    for mode in ('plain', 'two', 'interp'):
        if mode == 'interp' and name != 'dopri5': continue
        solver = str_to_solver(name, torch.float64)
        f, log = Count(f0), StepLog(solver)
        odeint(f, x, ts if mode != 'two' else ts[[0, -1]], solver, atol=tol, rtol=tol, interpolator='4th' if mode == 'interp' else None)
        count[mode] = len(log.ev)
        ctx.check(f.n <= 6 * len(log.ev) + 2, 'evaluations', f"{f.n} evaluations for {len(log.ev)} attempts")
    ctx.desc(solver=name, field=f0.kind, grid=kind, n=n, tol=tol, reverse=rev, **count)
    ctx.ev('attempts', sum(count.values()))
    ctx.worst('dense', count['plain'] / (count['two'] * 1.25 + 2.5 * n + 10))
    ctx.check(count['plain'] <= count['two'] * 1.25 + 2.5 * n + 10, 'dense_grid', f"{count['plain']} attempts for {n} requested times, {count['two']} for the end alone")
    if 'interp' in count: ctx.check(count['interp'] <= 1.1 * count['two'] + 3, 'interpolation', f"{count['interp']} attempts for {n} interpolated times, {count['two']} for the end alone")
    ctx.key(name, f0.kind, n, kind, f"{tol:.1e}", count['plain'])


@family(quick=60, thorough=1200)
def scaling(ctx):
    "the number of steps grows like the fifth root of the tolerance"
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    d = rng.randint(1, 3)
    x = torch.randn(rng.randint(1, 4), d, generator=ctx.gen, dtype=torch.float64)
    f0 = make_field(ctx, d, kind=rng.choice(['lin', 'sin', 'osc', 'tanh', 'mix']))
    ts = torch.tensor([0., rng.uniform(6, 15)], dtype=torch.float64)
    f0.A.data -= .5 * torch.eye(d)
    n = []
    for tol in (1e-5, 1e-7, 1e-9):
        solver = str_to_solver(name, torch.float64)
        log = StepLog(solver)
        odeint(f0, x, ts, solver, atol=tol, rtol=tol)
        n.append(len(log.ev))
    ctx.desc(solver=name, field=f0.kind, T=float(ts[1]), attempts=n)
    for a, b in ((0, 1), (1, 2)):
        bound = 100 ** .2 * 1.15 * n[a] + 9
        ctx.worst('scaling', n[b] / bound)
        ctx.check(n[b] <= bound, 'scaling', f"a hundredfold smaller tolerance costs {n[b]} attempts instead of {n[a]}")
    ctx.ev('attempts', sum(n))
    if n[0] > 10: ctx.key(name, f0.kind, *n)


@family(quick=60, thorough=1200)
def seminorm(ctx):
    "step control on part of the state: the attempts of a controller that ignores the rest, none added when nothing is ignored"
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    d, e = rng.randint(1, 4), rng.randint(1, 4)
    f0 = make_field(ctx, d, kind=rng.choice(['lin', 'osc', 'tanh', 'sin', 'mix']))
    fast = rng.choice([0., 5., 20.])
    f = lambda t, z: torch.cat([f0(t, z[None, :d])[0], torch.cos(fast * t) * z[:1].expand(e) - z[d:]])
    x = torch.randn(d + e, generator=ctx.gen, dtype=torch.float64)
    ts, kind, rev = grid(ctx, kind=rng.choice(['two', 'two', 'even', 'offset']), T=rng.uniform(.5, 4), n=rng.randint(2, 4), reverse=False)
    tol = 10 ** rng.uniform(-8, -2)
    n = {}
    for k in (None, d + e, d):
        solver = str_to_solver(name, torch.float64)
        log = StepLog(solver)
        odeint(f, x, ts, solver, atol=tol, rtol=tol, **({} if k is None else dict(seminorm=(True, k))))
        n[k] = len(log.ev)
    with torch.no_grad(): r = control(f, x, float(ts[0]), float(ts[-1]), str_to_solver(name, torch.float64), tol, tol, part=d)
    ctx.desc(solver=name, field=f0.kind, fast=fast, grid=kind, n=len(ts), tol=tol, plain=n[None], full=n[d + e], part=n[d], reference=r)
    ctx.ev('attempts', sum(n.values()))
    ctx.check(n[d + e] <= n[None] + 1, 'seminorm_full', f"{n[d + e]} attempts with the norm restricted to the whole state, {n[None]} without restriction")
    bound = 1.2 * r + 4 + 3 * (len(ts) - 2)
    ctx.worst('seminorm', n[d] / bound)
    ctx.check(n[d] <= bound, 'seminorm_part', f"{n[d]} attempts, a standard controller needs {r}")
    ctx.key(name, f0.kind, fast, kind, f"{tol:.1e}", n[d])


class Poly(nn.Module):
    def __init__(self, c, lam): super().__init__(); self.c, self.lam = c, lam

    def forward(self, t, x):
        y = sum(c * t ** i for i, c in enumerate(self.c))
        return y + 0 * x


@family(quick=60, thorough=1200)
def exact(ctx):
    "fields the method integrates exactly need a handful of steps, whatever the tolerance and the length of the interval"
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    d = rng.randint(1, 4)
    deg = rng.choice([0, 0, 1, 2, 3])
    f = Poly([torch.randn(d, generator=ctx.gen, dtype=torch.float64) for _ in range(deg + 1)] if rng.random() < .9 else [torch.zeros(d, dtype=torch.float64)], 0)
    x = torch.randn(3, d, generator=ctx.gen, dtype=torch.float64)
    T = 10 ** rng.uniform(-2, 2 if deg < 2 else .7)
    t0 = 0 if rng.random() < .5 else rng.uniform(-1, 1) * T
    ts = torch.tensor([t0, t0 + T], dtype=torch.float64)
    if rng.random() < .3: ts = ts.flip(0)
    tol = 10 ** rng.uniform(-8, -2)
    solver = str_to_solver(name, torch.float64)
    log = StepLog(solver)
    te, y = odeint(f, x, ts, solver, atol=tol, rtol=tol)
    n = len(log.ev)
    ctx.desc(solver=name, degree=deg, T=T, tol=tol, attempts=n)
    b = 11 + 2 * max(0., math.log10(T))
    ctx.worst('exact', n / b)
    ctx.check(n <= b, 'exact', f"{n} attempts over an interval of {T} for a field of degree {deg} in time")
    ctx.key(name, deg, f"{T:.2e}", f"{tol:.1e}", n)


@family(quick=60, thorough=1000)
def backsolve(ctx):
    "evaluations of the adjoint methods: no more than one augmented evaluation per stage of the attempted steps"
    rng = ctx.rng
    d = rng.randint(1, 4)
    net = make_net(ctx, d, kind=rng.choice(['mlp', 'auto', 'bilinear']))
    f = Count(net)
    sens, name = rng.choice(['adjoint', 'interpolated_adjoint']), rng.choice(['dopri5', 'tsit5', 'rk4'])
    fwd, bwd = str_to_solver(name, torch.float64), str_to_solver(rng.choice(['dopri5', 'tsit5']), torch.float64)
    lf, lb = StepLog(fwd), StepLog(bwd)
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'jitter', 'two', 'offset']), n=rng.randint(2, 12))
    tol = 10 ** rng.uniform(-7, -3)
    m = rng.choice([NeuralODE, ODEProblem])(f, fwd, sensitivity=sens, atol=tol, rtol=tol, solver_adjoint=bwd, atol_adjoint=tol, rtol_adjoint=tol)
    x = torch.randn(rng.randint(1, 4), d, generator=ctx.gen, dtype=torch.float64).requires_grad_(True)
    y = m(x, ts)[1]
    nf = f.n
    w = torch.randn(y.shape, generator=ctx.gen, dtype=torch.float64)
    (w * y).sum().backward()
    nb, stages = f.n - nf, 4 if name == 'rk4' else 6
    k = len(ts) - 1
    ctx.desc(sensitivity=sens, solver=name, n=len(ts), tol=tol, forward=nf, fsteps=len(lf.ev), backward=nb, bsteps=len(lb.ev))
    ctx.ev('evaluations', f.n), ctx.ev('attempts', len(lf.ev) + len(lb.ev))
    ctx.check(nf <= stages * len(lf.ev) + 2, 'forward', f"{nf} evaluations for {len(lf.ev)} forward steps")
    ctx.check(nb <= 6 * len(lb.ev) + 4 * k + 4, 'backward', f"{nb} evaluations for {len(lb.ev)} backward steps over {k} intervals")
    bound = 1.2 * control_adjoint(ctx, net, y.detach(), ts, w, str_to_solver('dopri5', torch.float64), tol) + 8 * k + 12
    ctx.worst('backsolve', len(lb.ev) / bound)
    ctx.check(len(lb.ev) <= bound, 'backward', f"{len(lb.ev)} backward steps over {k} intervals")
    ctx.key(sens, name, len(ts), kind, rev, nf, nb)


def control_adjoint(ctx, net, y, ts, w, solver, tol):
    "attempts of the reference controller for the state and its adjoint, interval by interval"
    ps = [p for p in net.parameters() if p.requires_grad]
    shape, k, total = y[0].shape, y[0].numel(), 0
    lam = torch.zeros(k, dtype=torch.float64)

    def aug(t, z):
        with torch.enable_grad():
            xx = z[:k].reshape(shape).detach().requires_grad_(True)
            v = net(t, xx)
            g, = torch.autograd.grad(v, xx, z[k:].reshape(shape), allow_unused=True)
        return torch.cat([v.detach().reshape(-1), -(g if g is not None else torch.zeros_like(xx)).reshape(-1)])
    for i in range(len(ts) - 1, 0, -1):
        lam = lam + w[i].reshape(-1)
        seg = ts[[i, i - 1]]
        g, up = backward(aug, seg)
        z = torch.cat([y[i].reshape(-1), lam])
        n = control(g, z, float(up[0]), float(up[-1]), solver, tol, tol)
        total += n
        from lib import ref
        for a in range(8): z = ref.rk4(aug, seg[0] + (seg[1] - seg[0]) * a / 8, (seg[1] - seg[0]) / 8, z)
        lam = z[k:]
    return total


@family(quick=40, thorough=600)
def shooting(ctx):
    "iterations of the multiple shooting solvers are at most those asked for"
    rng = ctx.rng
    d, B = rng.randint(1, 3), rng.randint(1, 3)
    f = Count(make_field(ctx, d, kind='tanhauto'))
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    ts = torch.linspace(0, rng.uniform(.5, 2), rng.randint(3, 12)).double()
    counts = []
    fine = rng.randint(2, 5)
    for k in (1, 2, 3, 6):
        f.n = 0
        odeint_mshooting(f, x, ts, 'zero', fine_steps=fine, maxiter=k)
        counts.append(f.n)
    ctx.desc(n=len(ts), fine=fine, counts=counts)
    ctx.ev('evaluations', sum(counts))
    per = counts[1] - counts[0]
    ctx.check(counts[2] - counts[1] <= per and counts[3] - counts[2] <= 3 * per, 'iterations', f"evaluations for 1, 2, 3 and 6 iterations: {counts}")
    ctx.check(per <= 4 * (fine + len(ts)) + 4 * len(ts), 'iterations', f"{per} evaluations per iteration")
    ctx.key(len(ts), fine, d, B)
