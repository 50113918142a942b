"""C01: rows exactly on the requested grid."""
import torch
from lib.core import family
from lib.fields import Probe, make_field, state, grid, fl, SHAPES
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver

PROPERTY = 'C01'
RULE = ("random (solver alias or instance, state shape, dtype, grid kind, direction, tolerance, interpolator, field) configurations; "
        "non-trivial = the solve returned and the grid had at least two rows compared; key = solver, shape, dtype, grid kind, direction, length, tolerance")
ASSUMPTIONS = ['grids strictly monotone; state and grid of equal precision, or a double state on a single-precision grid']

FIXED = ['euler', 'midpoint', 'rk4', 'rk-4', 'RungeKutta4']
ADAPT = ['dopri5', 'DormandPrince45', 'DormandPrince5', 'tsit5', 'Tsitouras45', 'Tsitouras5']


class Clock:
    "dx/dt = s: every solver integrates it exactly, so that each row tells the time it really belongs to"
    def __init__(self, s): self.s = s
    def __call__(self, t, x): return self.s + 0 * x


def contract(ctx, te, sol, x, ts, xd):
    ctx.check(isinstance(te, torch.Tensor) and isinstance(sol, torch.Tensor), 'types', 'odeint must return tensors', stop=True)
    ctx.ev('rows', len(sol))
    ctx.check(tuple(sol.shape) == (len(ts),) + tuple(x.shape), 'row_count',
              f"solution shape {tuple(sol.shape)} for {len(ts)} times and state {tuple(x.shape)}", stop=True)
    ctx.check(te.shape == ts.shape, 'times_shape', f"times {tuple(te.shape)} for grid {tuple(ts.shape)}", stop=True)
    ctx.check(torch.equal(te.to(ts.dtype), ts), 'times', f"returned times {fl(te)} for grid {fl(ts)}")
    ctx.check(sol.dtype == xd, 'dtype', f"rows are {sol.dtype}, state is {xd}")
    ctx.check(torch.equal(sol[0], x), 'first_row', f"first row deviates by {(sol[0] - x).abs().max()}")


def clock_rows(ctx, sol, x, ts, s, mech, eps):
    exp = torch.stack([x.double() + s * (t - ts[0].double()) for t in ts.double()])
    T = (ts.double() - ts[0].double()).abs().max().item() + ts.double().abs().max().item()
    ctx.close(sol, exp, eps * (1 + abs(s)) * (1 + T) * len(ts), mech, 'row does not belong to its time', scale=exp.abs().max())


def setup(ctx, names, single_grid=True):
    rng = ctx.rng
    xd = rng.choice([torch.float64, torch.float64, torch.float32])
    td = xd if rng.random() < .8 or xd == torch.float32 else torch.float32
    x, mode = state(ctx, dtype=xd)
    ts, kind, rev = grid(ctx, dtype=td)
    name = rng.choice(names)
    return xd, td, x, ts, kind, rev, name


def as_arg(ctx, ts):
    "grids may be given as a tensor (possibly non contiguous) or as a list of one-element tensors"
    m = ctx.rng.choice(['tensor', 'tensor', 'tensor', 'list', 'strided'])
    if m == 'list': return m, [t.reshape(1) for t in ts]
    if m == 'strided': return m, torch.stack([ts, ts + 1], 1).reshape(-1)[::2]
    return m, ts.clone()


@family(quick=160, thorough=2400)
def fixed(ctx):
    xd, td, x, ts, kind, rev, name = setup(ctx, FIXED)
    eps = 1e-13 if xd == torch.float64 and td == torch.float64 else 2e-6
    inst = ctx.rng.random() < .4
    how, arg = as_arg(ctx, ts)
    s = ctx.rng.choice([1., -2.5])
    ctx.desc(solver=name, inst=inst, shape=tuple(x.shape), dtype=xd, tdtype=td, grid=kind, reverse=rev, n=len(ts), arg=how)
    solver = str_to_solver(name, xd) if inst else name
    pr = Probe(Clock(s))
    te, sol = odeint(pr, x.clone(), arg, solver)
    contract(ctx, te, sol, x, ts, xd)
    clock_rows(ctx, sol, x, ts, s, 'clock', eps if name not in ('rk4', 'rk-4', 'RungeKutta4') or xd != torch.float64 or td != torch.float64 else 1e-12)
    f = make_field(ctx, x.shape[-1], dtype=xd)
    te, sol = odeint(f, x.clone(), arg, solver)
    contract(ctx, te, sol, x, ts, xd)
    ctx.check(torch.isfinite(sol).all(), 'finite', 'non-finite rows')
    ctx.key(name, inst, tuple(x.shape), xd, td, kind, rev, len(ts), how)


@family(quick=12, thorough=120)
def implicit(ctx):
    xd, td, x, ts, kind, rev, name = setup(ctx, ['ieuler', 'implicit_euler'])
    x, ts = x.double(), ts.double()[:6]
    ctx.desc(solver=name, shape=tuple(x.shape), grid=kind, reverse=rev, n=len(ts))
    f = make_field(ctx, x.shape[-1])
    te, sol = odeint(f, x.clone(), ts.clone(), name)
    contract(ctx, te, sol, x, ts, torch.float64)
    ctx.key(name, tuple(x.shape), kind, rev, len(ts))


@family(quick=220, thorough=4000)
def adaptive(ctx):
    rng = ctx.rng
    xd, td, x, ts, kind, rev, name = setup(ctx, ADAPT)
    tol = 10. ** rng.uniform(-9 if xd == td == torch.float64 else -5, -1)
    interp = '4th' if rng.random() < .35 else None
    inst = rng.random() < .4
    how, arg = as_arg(ctx, ts)
    s = rng.choice([1., -2.5])
    ctx.desc(solver=name, inst=inst, shape=tuple(x.shape), dtype=xd, tdtype=td, grid=kind, reverse=rev, n=len(ts), tol=tol, interp=interp, arg=how)
    solver = str_to_solver(name, xd) if inst else name
    eps = 1e-12 if xd == td == torch.float64 else 4e-6
    pr = Probe(Clock(s))
    te, sol = odeint(pr, x.clone(), arg, solver, atol=tol, rtol=tol, interpolator=interp)
    contract(ctx, te, sol, x, ts, xd)
    clock_rows(ctx, sol, x, ts, s, 'clock', eps)
    f = Probe(make_field(ctx, x.shape[-1], dtype=xd))
    te, sol = odeint(f, x.clone(), arg, solver, atol=tol, rtol=tol, interpolator=interp)
    contract(ctx, te, sol, x, ts, xd)
    ctx.check(torch.isfinite(sol).all(), 'finite', 'non-finite rows')
    ctx.ev('field_calls', f.n + pr.n)
    ctx.key(name, inst, tuple(x.shape), xd, td, kind, rev, len(ts), round(tol, 10), interp, how)


@family(quick=120, thorough=2000)
def hostile(ctx):
    "grids built against the step controller: points a rounding error or a fraction beside where steps end, huge and tiny spans"
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    xd = rng.choice([torch.float64, torch.float32])
    eps_t = torch.finfo(xd).eps
    tol = 10. ** rng.uniform(-5, -2)
    x = torch.randn(rng.choice([1, 3]), rng.choice([1, 2]), generator=ctx.gen, dtype=torch.float64).to(xd)
    f = Probe(make_field(ctx, x.shape[-1], dtype=xd, kind=rng.choice(['lin', 'osc', 'logistic', 'sin'])))
    T = rng.uniform(.5, 3)
    # record where the natural steps of a first solve end
    solver = str_to_solver(name, xd)
    ends, orig = [], solver.step

    def step(f_, x_, t_, dt_, *a, **k):
        ends.append(float(t_ + dt_))
        return orig(f_, x_, t_, dt_, *a, **k)
    solver.step = step
    t0 = rng.choice([0., 0., -1., 3.7, 100.])
    odeint(f, x.clone(), torch.tensor([t0, t0 + T], dtype=xd), solver, atol=tol, rtol=tol)
    mode = rng.choice(['ulp', 'ulps', 'frac', 'long', 'short'])
    if mode in ('ulp', 'ulps', 'frac'):
        pts = [t0]
        for e in ends[:12]:
            if not t0 < e < t0 + T: continue
            if mode == 'ulp': pts.append(e + rng.choice([-1, 0, 1]) * eps_t * max(abs(e), .1))
            elif mode == 'ulps': pts += [e - eps_t * 2 * max(abs(e), .1), e, e + eps_t * 2 * max(abs(e), .1)]
            else: pts.append(e + (rng.random() - .5) * 1e-3 * T)
        pts.append(t0 + T)
    elif mode == 'long': pts = [t0 + v for v in (0, 1e-4, 50., 50.001, 120.)]
    else: pts = [t0 + v * (1 if abs(t0) < 10 else 1e3) for v in (0, 1e-5, 2e-5, 1e-4, 1.1e-4)]
    ts = torch.tensor(sorted(pts), dtype=xd)
    keep = torch.cat([torch.ones(1, dtype=torch.bool), ts[1:] > ts[:-1]])
    ts = ts[keep]
    if rng.random() < .3: ts = ts.flip(0)
    interp = '4th' if rng.random() < .3 else None
    ctx.desc(solver=name, mode=mode, dtype=xd, n=len(ts), tol=tol, t0=t0, interp=interp, field=f.f.kind)
    pr = Probe(Clock(1.))
    te, sol = odeint(pr, x.clone(), ts.clone(), name, atol=tol, rtol=tol, interpolator=interp)
    contract(ctx, te, sol, x, ts, xd)
    clock_rows(ctx, sol, x, ts, 1., 'clock', 1e-12 if xd == torch.float64 else 4e-6)
    if mode != 'long':
        g = Probe(f.f)
        te, sol = odeint(g, x.clone(), ts.clone(), name, atol=tol, rtol=tol, interpolator=interp)
        contract(ctx, te, sol, x, ts, xd)
        ctx.ev('field_calls', g.n)
    ctx.key(name, mode, xd, len(ts), round(tol, 8), t0, interp)
