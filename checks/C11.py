"""C11: interpolated adjoint."""
import torch
from lib.core import family
from lib.fields import grid, state, wide
from lib.grads import make_net, loss_of, reference, grads, trainable
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem

PROPERTY = 'C11'
RULE = ("random (field with unused / frozen / 0-d parameters, state shape, dense grid, direction, loss over a random subset of rows, solver pair, class) solved with "
        "sensitivity 'interpolated_adjoint'; returned rows against odeint, gradients against autograd through a fine differentiable reference; non-trivial = a non-zero gradient; "
        "key = class, solvers, field, extras, shape, grid, direction, loss")
ASSUMPTIONS = ['reference: rk4 sub-steps per interval, double precision', 'grids dense enough (spacing <= 0.03) for the cubic spline of the backward pass to be accurate to 1e-4']


def compare(ctx, got, exp, names, tol, mech='gradient'):
    scale = max(float(e.abs().max()) for e in exp if e.numel())
    for g, e, n in zip(got, exp, names):
        ctx.close(g, e, tol, mech, f"gradient of {n}", scale=max(scale, float(e.abs().max()) if e.numel() else 0.))
    ctx.ev('gradients', len(exp))
    return scale


def names(net): return ['x'] + [n for n, p in net.named_parameters() if p.requires_grad]


def dense(ctx):
    T = ctx.rng.uniform(.3, 1.2)
    n = int(T / .022) + ctx.rng.randint(6, 20)
    return grid(ctx, kind=ctx.rng.choice(['even', 'offset', 'negative', 'cross', 'jitter']), n=n, T=T)


@family(quick=130, thorough=2500)
def interpolated(ctx):
    rng = ctx.rng
    x, mode = state(ctx)
    ts, kind, rev = dense(ctx)
    net = make_net(ctx, x.shape[-1])
    lname, loss0 = loss_of(ctx, len(ts), x.shape)
    mag = 10 ** rng.uniform(-1, 4) if rng.random() < .5 else 1.
    loss = lambda z: mag * loss0(z)
    cls = rng.choice([NeuralODE, ODEProblem])
    s, sa = rng.choice(['dopri5', 'tsit5', 'rk4']), rng.choice(['dopri5', 'tsit5'])
    tol = 1e-7
    interp = '4th' if s == 'dopri5' and rng.random() < .4 else None
    node = cls(net, str_to_solver(s, torch.float64), sensitivity='interpolated_adjoint', atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol,
               interpolator=interp, solver_adjoint=str_to_solver(sa, torch.float64))
    ctx.desc(cls=cls.__name__, solver=s, adjoint=sa, interpolator=interp, field=net.kind, extras=net.extras, shape=tuple(x.shape), grid=kind, reverse=rev, n=len(ts), loss=lname, scale=mag)
    sol, gx, gp = reference(net, x, ts, loss, sub=2)
    x0 = x.clone().requires_grad_(True)
    te, out = node(x0, ts.clone())
    ctx.check(torch.equal(te, ts), 'times', 'returned times differ from the requested ones')
    with torch.no_grad():
        _, plain = odeint(net, x, ts, str_to_solver(s, torch.float64), atol=tol, rtol=tol)
    ctx.close(out, plain, 1e-4 if interp else 1e-9, 'trajectory', 'rows differ from odeint')
    got = grads(loss(out), [x0] + trainable(net))
    for n, p in net.named_parameters():
        if not p.requires_grad: ctx.check(p.grad is None, 'frozen', f"frozen parameter {n} received a gradient")
    s_ = compare(ctx, got, [gx] + gp, names(net), 2e-4)
    if s_ > 1e-6 * mag: ctx.key(cls.__name__, s, sa, interp, net.kind, net.extras, tuple(x.shape), kind, rev, lname)


@family(quick=24, thorough=400)
def repeated(ctx):
    "several losses from one forward pass, parameter updates and new batches in between"
    rng = ctx.rng
    shape = rng.choice([(2, 2), (3, 1), (2,)] * 3 + [(30, 2), (2, 14)])
    net = make_net(ctx, shape[-1], kind=rng.choice(['mlp', 'bilinear', 'auto']))
    ts, kind, rev = dense(ctx)
    tol = 1e-7
    node = rng.choice([NeuralODE, ODEProblem])(net, str_to_solver('dopri5', torch.float64), sensitivity='interpolated_adjoint', atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
    ctx.desc(field=net.kind, extras=net.extras, shape=shape, grid=kind, reverse=rev)
    ls, pend = [], []
    for k in range(2):
        shp = shape if rng.random() < .5 else (rng.randint(1, 4),) + shape[-1:]
        x = torch.randn(*shp, generator=ctx.gen, dtype=torch.float64)
        x0 = x.clone().requires_grad_(True)
        te, out = node(x0, ts.clone())
        la, a = loss_of(ctx, len(ts), shp)
        lb, b = loss_of(ctx, len(ts), shp)
        ls += [la, lb]
        for l in (a, b):
            g = torch.autograd.grad(l(out), [x0] + trainable(net), retain_graph=True, allow_unused=True)
            g = [torch.zeros_like(p) if v is None else v for v, p in zip(g, [x0] + trainable(net))]
            sol, gx, gp = reference(net, x, ts, l, sub=2)
            compare(ctx, g, [gx] + gp, names(net), 2e-4, 'repeated')
        with torch.no_grad():
            for p in trainable(net): p.mul_(.9).add_(.05)
    ctx.key(net.kind, net.extras, shape, kind, rev, ls)


@family(quick=24, thorough=300)
def single(ctx):
    "single precision with solvers given by name"
    rng = ctx.rng
    shape = rng.choice([(2, 2), (4, 3), (1, 2)] * 3 + [(30, 2), (2, 14)])
    net = make_net(ctx, shape[-1], kind=rng.choice(['mlp', 'bilinear', 'auto']), dtype=torch.float32)
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64).float()
    n = rng.randint(30, 45)
    ts = torch.linspace(0, rng.uniform(.5, 1.), n)
    if rng.random() < .4: ts = ts.flip(0)
    lname, loss = loss_of(ctx, n, shape, torch.float32)
    kw = dict(solver=rng.choice(['dopri5', 'tsit5', 'rk4']), solver_adjoint=rng.choice(['dopri5', 'tsit5', 'rk4']), atol=1e-5, rtol=1e-5, atol_adjoint=1e-5, rtol_adjoint=1e-5)
    node = NeuralODE(net, sensitivity='interpolated_adjoint', **kw)
    ctx.desc(field=net.kind, extras=net.extras, shape=shape, loss=lname, **kw)
    x0 = x.clone().requires_grad_(True)
    te, out = node(x0, ts)
    got = grads(loss(out), [x0] + trainable(net))
    sol, gx, gp = reference(net, x, ts, loss, sub=4)
    ctx.check(all(g.dtype == torch.float32 for g in got), 'dtype', 'gradient dtype')
    compare(ctx, got, [gx] + gp, names(net), 5e-3, 'single')
    ctx.key(kw['solver'], kw['solver_adjoint'], net.kind, net.extras, shape, lname, n)


@family(quick=24, thorough=300)
def coarse(ctx):
    """coarse grids: the spline error is what the guarantee concedes, so only what does not depend on it is compared:
    a field linear in the state with a loss on the last row (the state enters the adjoint nowhere but the parameter part)"""
    rng = ctx.rng
    d = wide(rng, rng.randint(1, 3))
    shape = rng.choice([(d,), (2, d), (3, 2, d)])
    A = torch.randn(d, d, generator=ctx.gen, dtype=torch.float64)
    class F(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.A = torch.nn.Parameter(A)
            self.W1 = torch.nn.Parameter(torch.ones(2))
        def forward(self, t, x, args={}): return (x * (1 + .5 * torch.sin(2 * t))) @ self.A + torch.cos(3 * t)
    net = F()
    ts, kind, rev = grid(ctx, n=rng.randint(2, 6), T=rng.uniform(.4, 1.5), kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'clustered']))
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    lname, loss = loss_of(ctx, len(ts), shape)
    tol = 1e-8
    node = NeuralODE(net, str_to_solver('dopri5', torch.float64), sensitivity='interpolated_adjoint', atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
    ctx.desc(shape=shape, grid=kind, reverse=rev, n=len(ts), loss=lname)
    sol, gx, gp = reference(net, x, ts, loss)
    x0 = x.clone().requires_grad_(True)
    te, out = node(x0, ts)
    ctx.check(torch.equal(te, ts), 'times', 'returned times differ from the requested ones')
    ctx.close(out, sol, 1e-5, 'coarse_rows', 'rows')
    got = grads(loss(out), [x0])[0]
    # the derivative of an affine field does not involve the (splined) state
    ctx.close(got, gx, 2e-5, 'coarse', 'gradient of x')
    ctx.key(shape, kind, rev, len(ts), lname)
