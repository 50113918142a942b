"""C10: continuous adjoint."""
import torch
from lib.core import family
from lib.fields import grid, state, many, wide
from lib import ref
from lib.grads import make_net, loss_of, reference, grads, trainable, KINDS
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingLayer, MultipleShootingProblem

PROPERTY = 'C10'
RULE = ("random (field with unused / frozen / 0-d parameters, state shape, grid, direction, loss over a random subset of rows, solver pair, class) solved with sensitivity 'adjoint'; "
        "gradients w.r.t. the initial condition and every parameter against autograd through a fine differentiable reference; non-trivial = every case with a non-zero gradient; "
        "key = class, solvers, field, extras, shape, grid, direction, loss")
ASSUMPTIONS = ['reference: rk4 with 30 sub-steps per interval, double precision', 'allowance 2e-5 relative at solver tolerances of 1e-8']


def compare(ctx, got, exp, names, tol, mech='gradient'):
    scale = max(float(e.abs().max()) for e in exp if e.numel()) if exp else 0.
    for g, e, n in zip(got, exp, names):
        ctx.close(g, e, tol, mech, f"gradient of {n}", scale=max(scale, float(e.abs().max()) if e.numel() else 0.))
    ctx.ev('gradients', len(exp))
    return scale


def pgrid(ctx, n=None, T=None, kinds=('even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter', 'clustered', 'geometric')):
    return grid(ctx, kind=ctx.rng.choice(kinds), n=n or ctx.rng.randint(2, 7), T=T or ctx.rng.uniform(.4, 2.))


def names(net): return ['x'] + [n for n, p in net.named_parameters() if p.requires_grad]


@family(quick=260, thorough=4500)
def adjoint(ctx):
    rng = ctx.rng
    x, mode = state(ctx)
    ts, kind, rev = pgrid(ctx)
    net = make_net(ctx, x.shape[-1])
    lname, loss0 = loss_of(ctx, len(ts), x.shape)
    mag = 10 ** rng.uniform(-2, 5) if rng.random() < .5 else 1.
    loss = lambda z: mag * loss0(z)
    cls = rng.choice([NeuralODE, ODEProblem])
    s, sa = rng.choice(['dopri5', 'tsit5']), rng.choice([None, 'dopri5', 'tsit5'])
    tol = 1e-8
    node = cls(net, str_to_solver(s, torch.float64), sensitivity='adjoint', atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol,
               solver_adjoint=None if sa is None else str_to_solver(sa, torch.float64))
    ctx.desc(cls=cls.__name__, solver=s, adjoint=sa, field=net.kind, extras=net.extras, shape=tuple(x.shape), grid=kind, reverse=rev, n=len(ts), loss=lname, scale=mag)
    sol, gx, gp = reference(net, x, ts, loss)
    leaf = rng.random() < .7
    x0 = x.clone().requires_grad_(True)
    xi = x0 if leaf else torch.sin(x0) * 0 + x0 * 1.  # an intermediate of a larger graph
    te, out = node(xi, ts.clone())
    ctx.close(out, sol, 1e-5, 'forward', 'trajectory')
    if rng.random() < .5:
        got = grads(loss(out), [x0] + trainable(net))
    else:  # through .backward()
        for p in net.parameters(): p.grad = None
        loss(out).backward()
        got = [torch.zeros_like(p) if p.grad is None else p.grad for p in [x0] + trainable(net)]
        for n, p in net.named_parameters():
            if not p.requires_grad: ctx.check(p.grad is None, 'frozen', f"frozen parameter {n} received a gradient")
    s_ = compare(ctx, got, [gx] + gp, names(net), 2e-5)
    ctx.ev('field_calls', net.n)
    if s_ > 1e-6 * mag: ctx.key(cls.__name__, s, sa, net.kind, net.extras, tuple(x.shape), kind, rev, lname)


class Quiet(torch.nn.Module):
    "the state is at rest or drifts slowly, its sensitivities oscillate"
    def __init__(self, gen, d, om):
        super().__init__()
        r = lambda *s: torch.nn.Parameter(torch.randn(*s, generator=gen, dtype=torch.float64))
        self.M0, self.M1, self.b, self.om = r(d, d), r(d, d), r(d), om

    def forward(self, t, x, args={}):
        t = t.to(x.dtype) if isinstance(t, torch.Tensor) else t
        y = x - self.at(t)
        return (y @ self.M0 * .3 + torch.sin(self.om * t) * (y @ self.M1) + .2 * y ** 2).contiguous() + self.slope()

    def at(self, t): return 1e-3 * torch.tanh(self.b.detach()) * t
    def slope(self): return 1e-3 * torch.tanh(self.b.detach())


@family(quick=60, thorough=900)
def quiet(ctx):
    "the steps of the backward solve follow the adjoint even when the state itself needs none"
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([1, 2, 4]))
    net = Quiet(ctx.gen, d, rng.uniform(2, 12))
    ts, kind, rev = pgrid(ctx, n=rng.randint(2, 4), T=rng.uniform(.8, 2))
    tol = 10 ** rng.uniform(-9, -7.5)
    cls = rng.choice([NeuralODE, ODEProblem])
    s, sa = rng.choice(['dopri5', 'tsit5']), rng.choice(['dopri5', 'tsit5'])
    x = net.at(ts[0]).detach().expand(B, d) + 1e-7 * torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    w = torch.randn(len(ts), B, d, generator=ctx.gen, dtype=torch.float64)
    # the backward solve follows its own tolerances, the absolute one relative to the size of the loss
    mag, fwd, ab, rl = rng.choice([(1., tol, tol, tol), (1., 1e-3, tol, tol), (1e8, tol, .1, tol), (1e8, 1e-3, .1, tol)])
    loss = lambda z: mag * (w * z).sum()
    ctx.desc(cls=cls.__name__, solver=s, adjoint=sa, grid=kind, reverse=rev, n=len(ts), tol=tol, om=net.om, mag=mag, forward=fwd, atol_adjoint=ab)
    sol, gx, gp = reference(net, x, ts, loss, sub=100)
    node = cls(net, str_to_solver(s, torch.float64), sensitivity='adjoint', atol=fwd, rtol=fwd, atol_adjoint=ab, rtol_adjoint=rl, solver_adjoint=str_to_solver(sa, torch.float64))
    x0 = x.clone().requires_grad_(True)
    got = grads(loss(node(x0, ts.clone())[1]), [x0] + trainable(net))
    scale = compare(ctx, got, [gx] + gp, names(net), 1e-4, 'quiet')
    if scale > 1e-3 * mag: ctx.key(cls.__name__, s, sa, d, B, kind, rev, len(ts))


@family(quick=60, thorough=900)
def repeated(ctx):
    "several losses from one forward pass, parameter updates and new batches in between"
    rng = ctx.rng
    shape = rng.choice([(2, 2), (3, 1), (2,)] * 3 + [(30, 2), (2, 14)])
    net = make_net(ctx, shape[-1], kind=rng.choice(['mlp', 'bilinear', 'auto']))
    ts, kind, rev = pgrid(ctx, n=rng.randint(3, 5))
    tol = 1e-8
    node = rng.choice([NeuralODE, ODEProblem])(net, str_to_solver('dopri5', torch.float64), sensitivity='adjoint', atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
    opt = torch.optim.SGD(trainable(net), lr=.05)
    ctx.desc(field=net.kind, extras=net.extras, shape=shape, grid=kind, reverse=rev)
    ls = []
    for k in range(3):
        shp = shape if rng.random() < .5 else (rng.randint(1, 4),) + shape[-1:]
        x = torch.randn(*shp, generator=ctx.gen, dtype=torch.float64)
        x0 = x.clone().requires_grad_(True)
        te, out = node(x0, ts.clone())
        la, a = loss_of(ctx, len(ts), shp)
        lb, b = loss_of(ctx, len(ts), shp)
        ls += [la, lb]
        ps = [x0] + trainable(net)
        for l in (a, b, a):
            g = torch.autograd.grad(l(out), ps, retain_graph=True, allow_unused=True)
            g = [torch.zeros_like(p) if v is None else v for v, p in zip(g, ps)]
            sol, gx, gp = reference(net, x, ts, l)
            compare(ctx, g, [gx] + gp, names(net), 2e-5, 'repeated')
        opt.zero_grad()
        if rng.random() < .5:
            a(out).backward()
            opt.step()
        else:
            with torch.no_grad():
                for p in trainable(net): p.mul_(.9).add_(.05)
    ctx.key(net.kind, net.extras, shape, kind, rev, ls)


@family(quick=50, thorough=700)
def single(ctx):
    "single precision, solvers given by name, default-like tolerances, fixed-step forward and adjoint solvers on dense grids"
    rng = ctx.rng
    shape = rng.choice([(2, 2), (4, 3), (1, 2)] * 3 + [(30, 2), (2, 14)])
    net = make_net(ctx, shape[-1], kind=rng.choice(['mlp', 'bilinear', 'auto']), dtype=torch.float32)
    mode = rng.choice(['names', 'rk4'])
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64).float()
    n = 30 if mode == 'rk4' else rng.randint(2, 6)
    ts = torch.linspace(0, rng.uniform(.5, 1.2), n)
    if rng.random() < .3: ts = ts.flip(0)
    lname, loss = loss_of(ctx, n, shape, torch.float32)
    kw = dict(solver='rk4') if mode == 'rk4' else dict(solver=rng.choice(['dopri5', 'tsit5']), solver_adjoint=rng.choice([None, 'dopri5', 'tsit5']),
                                                      atol=1e-5, rtol=1e-5, atol_adjoint=1e-5, rtol_adjoint=1e-5)
    node = NeuralODE(net, sensitivity='adjoint', **kw)
    ctx.desc(mode=mode, field=net.kind, extras=net.extras, shape=shape, loss=lname, **kw)
    x0 = x.clone().requires_grad_(True)
    te, out = node(x0, ts)
    got = grads(loss(out), [x0] + trainable(net))
    sol, gx, gp = reference(net, x, ts, loss, sub=6)
    ctx.check(all(g.dtype == torch.float32 for g in got), 'dtype', 'gradient dtype')
    compare(ctx, got, [gx] + gp, names(net), 5e-3, 'single')
    ctx.key(mode, net.kind, net.extras, shape, lname, n)


@family(quick=30, thorough=300)
def shooting(ctx):
    "multiple-shooting layers: the adjoint of their converged solution"
    rng = ctx.rng
    shape = rng.choice([(2, 2), (3, 1)])
    net = make_net(ctx, shape[-1], kind=rng.choice(['auto', 'noparam'] if False else ['auto']))
    n = rng.randint(3, 6)
    ts = torch.linspace(0, rng.uniform(.3, .8), n, dtype=torch.float64)
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    lname, loss = loss_of(ctx, n, shape)
    cls, ms = rng.choice([MultipleShootingLayer, MultipleShootingProblem]), rng.choice(['zero', 'backward'])
    layer = cls(net, ms, sensitivity='adjoint', maxiter=n, fine_steps=8, solver_adjoint=str_to_solver('tsit5', torch.float64), atol_adjoint=1e-8, rtol_adjoint=1e-8)
    ctx.desc(cls=cls.__name__, solver=ms, extras=net.extras, shape=shape, n=n, loss=lname)
    x0 = x.clone().requires_grad_(True)
    te, out = layer(x0, ts)
    got = grads(loss(out), [x0] + trainable(net))
    sol, gx, gp = reference(net, x, ts, loss)
    ctx.close(out, sol, 1e-4, 'forward', 'multiple-shooting trajectory')
    compare(ctx, got, [gx] + gp, names(net), 1e-3, 'shooting')
    ctx.key(cls.__name__, ms, net.extras, shape, n, lname)
