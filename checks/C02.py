"""C02: fixed-step solvers are the serial composition of their textbook rule."""
import torch
from lib.core import family
from lib.fields import Probe, make_field, state, grid, SHAPES, KINDS, AUTONOMOUS
from lib import ref
from torchdyn.numerics import odeint, Euler, RungeKutta4
from torchdyn.numerics.solvers.ode import str_to_solver, Midpoint

PROPERTY = 'C02'
RULE = ("random (solver alias/instance, field, state shape, dtype, uneven/reversed grid); the oracle recomputes every row by the textbook rule "
        "in double precision; non-trivial = a solve of at least one step whose rows were compared; key = solver, field kind, shape, grid, direction, length")
ASSUMPTIONS = ['textbook rules as in lib/ref.py', 'backward Euler is held to the accuracy of its optimiser (residual of the implicit equation)']
NAMES = {'euler': ['euler'], 'midpoint': ['midpoint'], 'rk4': ['rk4', 'rk-4', 'RungeKutta4']}
CLS = {'euler': Euler, 'midpoint': Midpoint, 'rk4': RungeKutta4}


@family(quick=700, thorough=12000)
def explicit(ctx):
    rng = ctx.rng
    base = rng.choice(list(NAMES))
    how = rng.choice(['str', 'str', 'factory', 'class', 'reused'])
    xd = rng.choice([torch.float64] * 4 + [torch.float32])
    x, mode = state(ctx, dtype=xd)
    ts, kind, rev = grid(ctx, dtype=xd)
    f = make_field(ctx, x.shape[-1], dtype=xd)
    name = rng.choice(NAMES[base])
    ctx.desc(solver=name, how=how, shape=tuple(x.shape), dtype=xd, grid=kind, reverse=rev, n=len(ts), field=f.kind)
    if how == 'str': solver = name
    elif how == 'factory': solver = str_to_solver(name, xd)
    else: solver = CLS[base](xd)
    if how == 'reused':  # left over state of an earlier solve of another problem must not matter
        y = torch.randn(3, x.shape[-1], generator=ctx.gen, dtype=torch.float64).to(xd)
        odeint(f, y, torch.linspace(1, 2, 5, dtype=xd), solver)
    pr = Probe(f)
    te, sol = odeint(pr, x.clone(), ts.clone(), solver)
    refcalls = []

    def g(t, y):
        refcalls.append(float(t))
        return f(t.to(xd), y.to(xd)).double()
    exp = ref.compose(ref.STEPS[base], g, x.double(), ts.double())
    eps = 1e-11 if xd == torch.float64 else 2e-5
    ctx.ev('steps', len(ts) - 1)
    ctx.close(sol, exp, eps, 'rows', f"{name} rows vs textbook {base}")
    # times at which the field is evaluated are stage times of the rule
    rt = torch.tensor(refcalls)
    T = ts.abs().max().item()
    for t in pr.t[:400]:
        d = (rt - t).abs().min().item()
        ctx.check(d <= (1e-9 if xd == torch.float64 else 1e-4) * (1 + T), 'stage_times', f"field evaluated at t={t}, no stage time within {d}")
    ctx.ev('field_calls', pr.n)
    ctx.key(name, how, f.kind, tuple(x.shape), kind, rev, len(ts), xd)


@family(quick=300, thorough=5000)
def stepwise(ctx):
    "each step by itself, from large and small states and steps, with the public step method too"
    rng = ctx.rng
    base = rng.choice(list(NAMES))
    x, mode = state(ctx)
    x = x * 10 ** rng.uniform(-3, 1)
    f = make_field(ctx, x.shape[-1])
    t = torch.tensor(rng.uniform(-3, 3), dtype=torch.float64)
    dt = torch.tensor(rng.choice([-1, 1]) * 10 ** rng.uniform(-4, .3), dtype=torch.float64)
    solver = CLS[base](torch.float64)
    ctx.desc(solver=base, shape=tuple(x.shape), field=f.kind, t=float(t), dt=float(dt))
    x_, t_ = solver.sync_device_dtype(x, torch.stack([t, t + dt]))
    exp = ref.STEPS[base](f, t, dt, x)
    out = solver.step(f, x, t, dt)[1]
    ctx.close(out, exp, 1e-12, 'step', f"{base}.step")
    out = solver.step(f, x, t, dt, k1=f(t, x))[1]
    ctx.close(out, exp, 1e-12, 'step_k1', f"{base}.step with first stage given")
    ctx.ev('steps', 2)
    ctx.key(base, f.kind, tuple(x.shape), round(float(dt), 6))


@family(quick=60, thorough=600)
def implicit(ctx):
    rng = ctx.rng
    x, mode = state(ctx, shape=rng.choice([(2,), (1, 2), (3, 2), (2, 1), (12, 2)]))
    ts, kind, rev = grid(ctx, n=rng.randint(2, 5), T=rng.uniform(.2, 1.))
    f = make_field(ctx, x.shape[-1], stiff=.5)
    name = rng.choice(['ieuler', 'implicit_euler'])
    ctx.desc(solver=name, shape=tuple(x.shape), grid=kind, reverse=rev, n=len(ts), field=f.kind)
    te, sol = odeint(f, x.clone(), ts.clone(), name)
    for i in range(len(ts) - 1):
        dt = ts[i + 1] - ts[i]
        res = sol[i + 1] - sol[i] - dt * f(ts[i + 1], sol[i + 1])
        exp = torch.zeros_like(res)
        ctx.close(res, exp, 2e-5, 'backward_euler', f"residual of the implicit equation at step {i}", scale=x.abs().max().item())
        ctx.ev('steps')
    ctx.key(name, f.kind, tuple(x.shape), kind, rev, len(ts))
