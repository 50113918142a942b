"""C18: multiple shooting."""
import torch
from lib.core import family
from lib.fields import make_field, AUTONOMOUS
from lib import ref
from lib.grads import make_net, loss_of, grads, trainable
from torchdyn.numerics import odeint_mshooting
from torchdyn.numerics.solvers.ode import MSZero, MSBackward, ParallelImplicitEuler
from torchdyn.core import MultipleShootingLayer, MultipleShootingProblem

PROPERTY = 'C18'
RULE = ("random (autonomous field, state shape, even grid and direction, coarse / fine method, fine_steps, number of sweeps, initial guess incl. none, random, huge) for the zero and backward solvers: "
        "shooting states 0..maxiter against the serially composed fine method; parallel implicit Euler against its defining equations; layers against the functional interface; "
        "key = solver, methods, field, shape, intervals, fine_steps, maxiter, guess, direction")
ASSUMPTIONS = ['even grids, autonomous fields', 'the fine method takes fine_steps - 1 steps per interval (as the implementation defines it)']
KINDS = sorted(AUTONOMOUS - {'logistic'}) + ['linauto']


def even(ctx, n=None, T=None):
    rng = ctx.rng
    n, T = n or rng.randint(2, 8), T or rng.uniform(.3, 2.)
    t0 = rng.choice([0., 0., 1.5, -2.])
    ts = t0 + torch.linspace(0, T, n, dtype=torch.float64)
    rev = rng.random() < .25
    return (ts.flip(0) if rev else ts), rev


def serial(f, x, ts, fine, fine_steps):
    dt = ts[1] - ts[0]
    rows = [x]
    for _ in ts[1:]:
        rows.append(ref.compose(ref.STEPS[fine], f, rows[-1], torch.linspace(0, float(dt), fine_steps, dtype=torch.float64))[-1])
    return torch.stack(rows)


SH = [(1, 1), (1, 3), (3, 1), (2,), (1,), (4, 2), (2, 3, 2), (5, 4), (20, 2), (2, 16)]


def guess(ctx, x, n):
    kind = ctx.rng.choice(['none', 'none', 'randn', 'far', 'zeros', 'const'])
    r = torch.randn(n, *x.shape, generator=ctx.gen, dtype=torch.float64)
    return kind, dict(none=None, randn=r, far=3 * r + 2, zeros=0 * r, const=x[None].repeat(n, *[1] * x.dim()))[kind]


@family(quick=320, thorough=6000)
def sweeps(ctx):
    rng = ctx.rng
    shape = rng.choice(SH)
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    field = make_field(ctx, shape[-1], kind=rng.choice(KINDS))
    f = lambda t, x: field(t, x)
    ts, rev = even(ctx)
    n = len(ts)
    coarse, fine = rng.choice(['euler', 'euler', 'midpoint', 'rk4']), rng.choice(['rk4', 'rk4', 'midpoint', 'euler'])
    which = rng.choice(['zero', 'backward'])
    default = coarse == 'euler' and fine == 'rk4' and rng.random() < .5
    solver = rng.choice(dict(zero=['zero', 'mszero', 'parareal'], backward=['backward', 'msbackward', 'discrete-adjoint'])[which]) if default \
        else dict(zero=MSZero, backward=MSBackward)[which](coarse, fine)
    fs, maxiter = rng.randint(2, 6), rng.choice([0, 1, 1, 2, 3, n - 2, n - 1, n, n + 3])
    maxiter = max(maxiter, 0)
    gk, B0 = guess(ctx, x, n)
    ctx.desc(solver=which, coarse=coarse, fine=fine, field=field.kind, shape=shape, n=n, reverse=rev, fine_steps=fs, maxiter=maxiter, guess=gk)
    x_in, B_in = x.clone(), None if B0 is None else B0.clone()
    te, B = odeint_mshooting(f, x_in, ts, solver, B0=B_in, fine_steps=fs, maxiter=maxiter)
    exp = serial(f, x, ts, fine, fs)
    ctx.check(torch.equal(te, ts), 'times', 'times')
    ctx.check(tuple(B.shape) == tuple(exp.shape), 'shape', f"{tuple(B.shape)}", stop=True)
    ctx.check(torch.equal(B[0].detach(), x), 'initial', 'the first state is not the initial condition')
    m = min(maxiter, n - 1) + 1
    ctx.close(B[:m], exp[:m], 1e-10, 'prefix', f"the first {m} of {n} states after {maxiter} sweeps", scale=float(exp.abs().max()) + (float(B0.abs().max()) if B0 is not None else 0.))
    ctx.check(torch.equal(x_in, x) and (B_in is None or torch.equal(B_in, B0)), 'inputs', 'arguments were modified')
    ctx.ev('exact_states', m), ctx.ev('sweeps', maxiter)
    if m > 1: ctx.key(which, coarse, fine, field.kind, shape, n, rev, fs, maxiter, gk)


@family(quick=80, thorough=1200)
def implicit(ctx):
    rng = ctx.rng
    n = rng.randint(2, 6)
    shape = rng.choice(SH + [(n - 1, 2, 2), (n - 1,), (n - 2 or 1, 3), (2, n - 1, 2)]) # as many intervals as entries along an axis
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    field = make_field(ctx, shape[-1], kind=rng.choice(KINDS))
    f = lambda t, x: field(torch.as_tensor(t), x)
    ts, rev = even(ctx, n=n, T=rng.uniform(.2, .25 * (n - 1)))
    if rng.random() < .4:  # the implicit equations do not need an even grid
        ts = torch.cat([ts[:1], ts[1:] + (torch.rand(n - 1, generator=ctx.gen, dtype=torch.float64) - .5) * .4 * (ts[1] - ts[0])])
    gk, B0 = guess(ctx, x, n)
    if gk == 'far': gk, B0 = 'none', None
    name = rng.choice(['ieuler', 'parallel-implicit-euler', None])
    ctx.desc(field=field.kind, shape=shape, n=n, reverse=rev, guess=gk)
    te, B = odeint_mshooting(f, x, ts, name or ParallelImplicitEuler(), B0=None if B0 is None else B0.clone())
    B = B.detach()
    ctx.check(torch.equal(te, ts), 'times', 'times')
    ctx.check(torch.equal(B[0], x), 'initial', 'the first state is not the initial condition')
    # backward Euler by fixed-point iteration on each interval
    rows = [x]
    for a, b in zip(ts[:-1], ts[1:]):
        y = rows[-1]
        for _ in range(400):
            J = torch.stack([torch.autograd.functional.jvp(lambda z: f(0., z), y, e)[1] for e in torch.eye(y.numel(), dtype=y.dtype).reshape(-1, *y.shape)], -1).reshape(y.numel(), -1)
            r = (y - rows[-1] - (b - a) * f(0., y)).reshape(-1)
            step = torch.linalg.solve(torch.eye(y.numel(), dtype=y.dtype) - (b - a) * J, r)
            y = y - step.reshape(y.shape)
            if step.abs().max() < 1e-12: break
        rows.append(y)
    ctx.close(B, torch.stack(rows), 2e-4, 'implicit', 'rows differ from the backward Euler trajectory')
    ctx.key(field.kind, shape, n, rev, gk, name)


@family(quick=80, thorough=1200)
def layers(ctx):
    "layers and problems return the functional result; converged solutions are differentiated like the serial fine one"
    rng = ctx.rng
    shape = rng.choice(SH)
    net = make_net(ctx, shape[-1], kind='auto')
    ts, rev = even(ctx, T=rng.uniform(.3, 1.2))
    n = len(ts)
    which, fs = rng.choice(['zero', 'backward', 'parareal', 'discrete-adjoint']), rng.randint(2, 6)
    maxiter = rng.choice([1, 2, n - 1, n])
    sens = rng.choice(['autograd', 'autograd', 'adjoint', 'interpolated_adjoint'])
    cls = rng.choice([MultipleShootingLayer, MultipleShootingProblem])
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    gk, B0 = guess(ctx, x, n)
    ctx.desc(cls=cls.__name__, solver=which, sensitivity=sens, shape=shape, n=n, reverse=rev, fine_steps=fs, maxiter=maxiter, guess=gk)
    layer = cls(net, which, sensitivity=sens, maxiter=maxiter, fine_steps=fs)
    xa = x.clone().requires_grad_(True)
    te, B = layer(xa, ts, B0) if B0 is not None else layer(xa, ts)
    te2, exp = odeint_mshooting(net, x, ts, which, B0=B0, fine_steps=fs, maxiter=maxiter)
    ctx.check(torch.equal(te, te2), 'times', 'times')
    ctx.close(B, exp, 1e-9, 'layer', 'layer differs from the functional interface')
    if maxiter >= n - 1 and sens == 'autograd':
        lname, loss = loss_of(ctx, n, shape)
        xb = x.clone().requires_grad_(True)
        sb = serial(net, xb, ts, 'rk4', fs)
        ga, gb = grads(loss(B), [xa] + trainable(net)), grads(loss(sb), [xb] + trainable(net))
        sc = max(float(v.abs().max()) for v in gb) + (float(B0.abs().max()) if B0 is not None else 0.)
        for u, v in zip(ga, gb): ctx.close(u, v, 1e-9, 'gradient', 'gradient', scale=sc)
    # default settings: four sweeps
    d1 = cls(net, which)(x, ts)[1]
    ctx.close(d1, odeint_mshooting(net, x, ts, which, fine_steps=4, maxiter=4)[1], 1e-9, 'layer_default', 'layer with default settings')
    ctx.key(cls.__name__, which, sens, shape, n, rev, fs, maxiter, gk)
