"""C06: reversed time spans."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import Probe, make_field, state, grid
from lib import ref
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem

PROPERTY = 'C06'
RULE = ("random decreasing grids (fields mostly time dependent); oracles: textbook rule with negative steps, scipy DOP853 backwards, the time-mirrored forward problem, "
        "the round trip, and the set of times at which the field is evaluated; non-trivial = a reversed solve compared; key = path, solver, field, grid, options")
ASSUMPTIONS = ['lib/ref.py and scipy as references', 'allowances as in C03']
TD = ['lin', 'osc', 'tanh', 'sin', 'tonly', 'mix', 'linauto', 'tanhauto']


def mirrored(f): return lambda t, x: -f(-t, x)


def probed_inside(ctx, pr, ts, slack=0):
    lo, hi = min(ts.tolist()), max(ts.tolist())
    e = 1e-9 * (1 + abs(lo) + abs(hi))
    out = [t for t in pr.t if not lo - e <= t <= hi + e]
    ctx.check(len(out) <= slack, 'times', f"field evaluated at {out[:3]}, outside [{lo}, {hi}]")
    ctx.ev('field_calls', pr.n)


def pick(ctx, ts):
    "random selection of grid points in random order"
    idx = ctx.rng.sample(range(len(ts)), ctx.rng.randint(1, len(ts)))
    if ctx.rng.random() < .5: idx.sort()
    return idx, ts[idx]


def separated(ts):
    d = (ts[:, None] - ts[None]).abs() + torch.eye(len(ts)) * 10
    return d.min() > 1e-3 * (1 + ts.abs().max())


@family(quick=800, thorough=14000)
def fixed(ctx):
    rng = ctx.rng
    name = rng.choice(['euler', 'midpoint', 'rk4'])
    x, mode = state(ctx)
    ts, kind, _ = grid(ctx, reverse=True)
    f = make_field(ctx, x.shape[-1], kind=rng.choice(TD))
    pr = Probe(f)
    sel = separated(ts) and rng.random() < .5
    ctx.desc(solver=name, field=f.kind, grid=kind, shape=tuple(x.shape), save_at=sel, n=len(ts))
    exp = ref.compose(ref.STEPS[name], f, x, ts)
    if sel:
        idx, sa = pick(ctx, ts)
        te, sol = odeint(pr, x.clone(), ts.clone(), name, save_at=sa)
        exp_t, exp_s = sa, exp[idx]
    else:
        te, sol = odeint(pr, x.clone(), ts.clone(), name)
        exp_t, exp_s = ts, exp
        m = odeint(mirrored(f), x.clone(), -ts, name)
        ctx.close(sol, m[1], 1e-11, 'mirror', 'time-mirrored forward problem')
    ctx.close(te, exp_t, 1e-14, 'times_returned', 'returned times')
    ctx.close(sol, exp_s, 1e-11, 'rows', f"{name} over negative steps")
    probed_inside(ctx, pr, ts)
    ctx.ev('rows', len(sol))
    ctx.key('fixed', name, f.kind, kind, tuple(x.shape), sel, len(ts))


@family(quick=400, thorough=7000)
def adaptive(ctx):
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    x, mode = state(ctx)
    ts, kind, _ = grid(ctx, reverse=True, T=rng.uniform(.3, 3))
    f = make_field(ctx, x.shape[-1], kind=rng.choice(TD))
    tol = 10 ** rng.uniform(-9, -3)
    interp = '4th' if rng.random() < .35 else None
    pr = Probe(f)
    ctx.desc(solver=name, field=f.kind, grid=kind, shape=tuple(x.shape), tol=tol, interp=interp, n=len(ts))
    exp = ref.truth(f, x, ts)
    kw = dict(atol=tol, rtol=tol, interpolator=interp)
    with torch.no_grad():
        te, sol = odeint(pr, x.clone(), ts.clone(), name, **kw)
        m = odeint(mirrored(f), x.clone(), -ts, name, **kw)
        amp = ref.amplification(f, x, ts, ctx)
        ampb = ref.amplification(f, exp[-1], ts.flip(0), ctx)
        tb, back = odeint(f, sol[-1].clone(), ts.flip(0), name, **kw)
    ctx.check(torch.equal(te, ts), 'times_returned', f"times {te.tolist()} for {ts.tolist()}")
    sc = 200 * tol * (1 + exp.abs().max().item()) * x.numel() ** .5 * (4 if interp else 1) + 1e-10
    err = (sol - exp).abs().max().item()
    ctx.worst('rows', err / (sc * amp))
    ctx.check(sol.shape == exp.shape and err <= sc * amp, 'rows', f"error {err:.3e} > {sc * amp:.3e}")
    ctx.close(sol, m[1], 1e-9, 'mirror', 'time-mirrored forward problem')
    rt = (back[-1] - x).abs().max().item()
    ctx.worst('round_trip', rt / (sc * (1 + amp) * ampb))
    ctx.check(rt <= sc * (1 + amp) * ampb, 'round_trip', f"forward and back misses the start by {rt:.3e}")
    probed_inside(ctx, pr, ts, slack=1)
    ctx.ev('rows', len(sol))
    ctx.key('adaptive', name, f.kind, kind, tuple(x.shape), interp, f"{tol:.1e}")


class Mod(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f, self.s = f, nn.Parameter(torch.ones(1, dtype=torch.float64))

    def forward(self, t, x, args={}): return self.s * self.f(t, x)


@family(quick=500, thorough=8000)
def wrapped(ctx):
    "Neural ODEs and ODE problems of every sensitivity, with save_at, trajectory and interpolation"
    rng = ctx.rng
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    name = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5'])
    x, mode = state(ctx, shape=rng.choice([(2, 3), (3, 1), (1, 2), (2, 2, 2)] * 3 + [(30, 2), (2, 14)]))
    if sens == 'interpolated_adjoint': x = x[:, :].reshape(x.shape)
    ts, kind, _ = grid(ctx, kind=rng.choice(['even', 'uneven', 'jitter', 'offset', 'negative', 'cross', 'two']), reverse=True)
    f = make_field(ctx, x.shape[-1], kind=rng.choice(TD))
    pr = Probe(f)
    fixed = name in ref.STEPS and name not in ('dopri5', 'tsit5')
    tol = 10 ** rng.uniform(-8, -4)
    interp = '4th' if (not fixed and sens != 'interpolated_adjoint' and rng.random() < .3) else None
    cls = rng.choice([NeuralODE, ODEProblem])
    ctx.desc(cls=cls.__name__, sens=sens, solver=name, field=f.kind, grid=kind, tol=tol, interp=interp, shape=tuple(x.shape), n=len(ts))
    node = cls(Mod(pr), str_to_solver(name, torch.float64), sensitivity=sens, atol=tol, rtol=tol, interpolator=interp)
    grad = rng.random() < .5
    y = x.clone().requires_grad_(grad)
    te, sol = node(y, ts.clone())
    ctx.check(torch.equal(te, ts), 'times_returned', f"times {te.tolist()} for {ts.tolist()}", stop=True)
    probed_inside(ctx, pr, ts, slack=1)
    if fixed:
        exp = ref.compose(ref.STEPS[name], f, x, ts)
        ctx.close(sol, exp, 1e-10, 'rows', f"{cls.__name__} {name} reversed")
    else:
        exp = ref.truth(f, x, ts)
        amp = ref.amplification(f, x, ts, ctx)
        sc = 200 * tol * (1 + exp.abs().max().item()) * x.numel() ** .5 * (4 if interp else 1) * amp + 1e-10
        err = (sol - exp).abs().max().item()
        ctx.worst('rows', err / sc)
        ctx.check(sol.shape == exp.shape and err <= sc, 'rows', f"{cls.__name__} error {err:.3e} > {sc:.3e}")
    if cls is NeuralODE and interp is None:
        ctx.close(node.trajectory(x.clone(), ts.clone()), sol, 1e-10, 'trajectory', 'trajectory against forward')
    if fixed and separated(ts):
        idx, sa = pick(ctx, ts)
        t2, s2 = node(x.clone(), ts.clone(), save_at=sa)
        ctx.close(t2, sa, 1e-14, 'save_at', 'times of the selection')
        ctx.close(s2, exp[idx], 1e-10, 'save_at', 'selected rows of a reversed solve')
    ctx.ev('rows', len(sol))
    ctx.key(cls.__name__, sens, name, f.kind, kind, interp)
