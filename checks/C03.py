"""C03: adaptive accuracy against an independent integrator."""
import torch
from lib.core import family
from lib.fields import Probe, make_field, state, grid, Field
from lib import ref
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver

PROPERTY = 'C03'
RULE = ("random (solver, field, tolerances, grid, shape); reference = scipy DOP853 at 1e-11; allowance = 200*(atol+rtol*max|x|)*amplification, the amplification "
        "measured by solving perturbed problems; non-trivial = rows compared at two or more times; key = solver, field, tolerance, grid, shape")
ASSUMPTIONS = ['scipy DOP853 at rtol 1e-11 is the true solution', 'K = 200 covers accumulation over the few hundred steps of these spans']
K = 200.


@family(quick=900, thorough=12000)
def accuracy(ctx):
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx, T=rng.uniform(.3, 4))
    f = make_field(ctx, x.shape[-1], stiff=rng.choice([1., 1., 2.]),
                   kind=rng.choice(['lin', 'linauto', 'osc', 'tanh', 'tanhauto', 'sin', 'tonly', 'mix']))
    rtol = 10 ** rng.uniform(-10, -2)
    atol = rtol * 10 ** rng.uniform(-1, 1)
    interp = '4th' if rng.random() < .25 else None
    scale = 10 ** rng.uniform(-4, 5) if rng.random() < .3 else 1.
    ctx.desc(solver=name, field=f.kind, rtol=rtol, atol=atol, grid=kind, reverse=rev, n=len(ts), shape=tuple(x.shape), interp=interp, scale=scale)
    exp = ref.truth(f, x, ts)
    solver = str_to_solver(name, torch.float64) if rng.random() < .3 else name
    pr = Probe(f if scale == 1. else (lambda t, x: scale * f(scale * t, x)))
    with torch.no_grad():
        te, sol = odeint(pr, x.clone(), ts / scale, solver, atol=atol, rtol=rtol, interpolator=interp)
        amp = ref.amplification(f, x, ts, ctx)
    ctx.ev('field_calls', pr.n)
    ctx.ev('rows', len(ts))
    ctx.check(sol.shape == exp.shape, 'shape', f"{sol.shape} vs {exp.shape}", stop=True)
    err = (sol - exp).abs().amax(0).max().item()
    # the error norm is a mean over all entries: one entry may carry all of it
    allow = K * (atol + rtol * exp.abs().max().item()) * amp * (x.numel() ** .5) * (4 if interp else 1) + 1e-10 * amp
    ctx.worst('accuracy', err / allow)
    ctx.check(err <= allow, 'accuracy', f"error {err:.3e}, allowed {allow:.3e} (amplification {amp:.2f})")
    ctx.key(name, f.kind, f"{rtol:.3e}", kind, rev, tuple(x.shape), interp)


@family(quick=150, thorough=2500)
def tightening(ctx):
    "tolerances going to zero: the solution converges to the true one, on sparse and dense grids alike"
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    x, mode = state(ctx, shape=rng.choice([(1, 2), (3, 2), (2,), (2, 2, 2)] * 2 + [(30, 2), (40, 1, 2)]))
    t0, T = rng.choice([0., -2., 3.]), rng.uniform(1, 3)
    f = make_field(ctx, x.shape[-1], kind=rng.choice(['lin', 'osc', 'tanh', 'sin', 'mix', 'tanhauto']))
    ctx.desc(solver=name, field=f.kind, t0=t0, T=T, shape=tuple(x.shape))
    two = torch.tensor([t0, t0 + T], dtype=torch.float64)
    dense = torch.linspace(t0, t0 + T, 40, dtype=torch.float64)
    exp = ref.truth(f, x, two)[-1]
    amp = ref.amplification(f, x, two, ctx)
    errs = []
    for tol in (1e-3, 1e-6, 1e-9):
        for g in (two, dense):
            sol = odeint(f, x.clone(), g.clone(), name, atol=tol, rtol=tol)[1][-1]
            e = (sol - exp).abs().max().item()
            allow = K * tol * (1 + exp.abs().max().item()) * amp * x.numel() ** .5
            ctx.worst('convergence', e / allow)
            ctx.check(e <= allow, 'convergence', f"tol {tol}, grid of {len(g)}: error {e:.3e} > {allow:.3e}")
            errs.append(e)
            ctx.ev('rows')
    ctx.key(name, f.kind, t0, round(T, 4), tuple(x.shape))


@family(quick=200, thorough=4000)
def magnitudes(ctx):
    "components that do not interact, of very different magnitudes: each is accurate relative to its own size"
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    shape = rng.choice([(1, 2), (4,), (1, 8), (3, 3), (2, 9), (1, 16), (2, 2, 5), (1, 40), (20, 4), (70,)])
    U = lambda a, b: a + (b - a) * torch.rand(*shape, generator=ctx.gen, dtype=torch.float64)
    size, a, w, p, b, c = 10 ** U(-4, 6), U(-1, 1), U(.5, 6), U(0, 6), U(0, 3), U(-.5, .8)
    if rng.random() < .3: size = torch.where(U(0, 1) < .5, 1., 10 ** rng.uniform(4, 8)) # two groups
    if rng.random() < .3: size[..., :1] = 1e7
    if rng.random() < .6: # the largest components are the easiest ones
        easy = 10 ** U(-4, -1)
        easy = torch.where(size > 30 * size.min(), easy, 1.)
        a, b, c = a * easy, b * easy, c * easy
    z = U(-2, 2)
    ts, kind, rev = grid(ctx, T=rng.uniform(.3, 3))
    s = -1. if rev else 1.
    h = lambda t, z: s * (a * torch.sin(w * t + p) - b * z + c * torch.tanh(z))
    rtol, atol = 10 ** rng.uniform(-9, -3), 10 ** rng.uniform(-13, -8)
    interp = '4th' if rng.random() < .25 else None
    ctx.desc(solver=name, shape=shape, grid=kind, reverse=rev, rtol=rtol, atol=atol, interp=interp)
    exp = ref.truth(h, z, ts)
    pr = Probe(lambda t, x: size * h(t, x / size))
    with torch.no_grad(): sol = odeint(pr, size * z, ts, name, atol=atol, rtol=rtol, interpolator=interp)[1] / size
    amp = torch.exp(c.clamp(min=0) * (ts[-1] - ts[0]).abs())
    err = (sol - exp).abs().amax(0)
    allow = 40 * (atol / size + rtol * exp.abs().amax(0)) * amp * z.numel() ** .5 * (4 if interp else 1) + 1e-10
    r = (err / allow).max().item()
    ctx.worst('magnitude', r)
    ctx.check(r <= 1, 'magnitude', f"a component of size {size.flatten()[(err / allow).argmax()]:.1e} of {float(size.min()):.1e} to {float(size.max()):.1e}: {r:.1f} times the allowed error")
    ctx.ev('rows', len(ts))
    ctx.ev('field_calls', pr.n)
    ctx.key(name, shape, kind, rev, f"{rtol:.3e}", interp)
