"""C14: gradients with respect to the time grid."""
import torch
from lib.core import family
from lib.fields import grid, state
from lib import ref
from lib.grads import make_net, loss_of, grads, trainable
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem

PROPERTY = 'C14'
RULE = ("random (field, shape, grid of any length and direction requiring gradients, loss on a random subset of rows, solver pair, class) with sensitivity 'adjoint'; the gradient of the grid against "
        "autograd through a fine differentiable reference; non-trivial = a non-zero gradient; key = class, solver, field, extras, shape, grid, length, direction, loss")
ASSUMPTIONS = ['allowance 2e-5 relative at tolerances of 1e-8']


@family(quick=300, thorough=5000)
def tgrad(ctx):
    rng = ctx.rng
    x, mode = state(ctx)
    n = rng.choice([2, 2, 3, 4, 5, 7, 12])
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'offset', 'negative', 'cross', 'jitter', 'clustered', 'tight']), n=n, T=rng.uniform(.4, 2.))
    net = make_net(ctx, x.shape[-1])
    lname, loss = loss_of(ctx, len(ts), x.shape)
    cls = rng.choice([NeuralODE, ODEProblem])
    s, sa = rng.choice(['dopri5', 'tsit5']), rng.choice([None, 'dopri5', 'tsit5'])
    tol = 1e-8
    node = cls(net, str_to_solver(s, torch.float64), sensitivity='adjoint', atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol,
               solver_adjoint=None if sa is None else str_to_solver(sa, torch.float64))
    ctx.desc(cls=cls.__name__, solver=s, adjoint=sa, field=net.kind, extras=net.extras, shape=tuple(x.shape), grid=kind, reverse=rev, n=len(ts), loss=lname)
    xb, tb = x.clone().requires_grad_(True), ts.clone().requires_grad_(True)
    sb = ref.fine(net, xb, tb, 30)
    xa, ta = x.clone().requires_grad_(rng.random() < .7), ts.clone().requires_grad_(True)
    te, out = node(xa, ta)
    w = torch.randn(len(ts), generator=ctx.gen, dtype=torch.float64) * (rng.random() < .3)
    La, Lb = loss(out) + (w * te).sum(), loss(sb) + (w * tb).sum()
    if rng.random() < .5:
        ga = grads(La, [ta] + trainable(net))
    else:
        La.backward()
        ga = [torch.zeros_like(ts) if ta.grad is None else ta.grad] + [torch.zeros_like(p) if p.grad is None else p.grad for p in trainable(net)]
    gb = grads(Lb, [tb] + trainable(net))
    if not ctx.check(ga[0].shape == ts.shape, 'shape', f"gradient has shape {tuple(ga[0].shape)} for a grid of {len(ts)} points"): return
    ctx.close(ga[0], gb[0], 2e-5, 'tgrad', 'gradient of t_span', scale=float(gb[0].abs().max()) + float(sb.abs().max()))
    sc = max([1e-3] + [float(v.abs().max()) for v in gb[1:]])
    for u, v in zip(ga[1:], gb[1:]): ctx.close(u, v, 2e-5, 'params', 'gradient of a parameter', scale=sc)
    ctx.ev('grid_entries', len(ts))
    if float(gb[0].abs().max()) > 1e-6: ctx.key(cls.__name__, s, sa, net.kind, net.extras, tuple(x.shape), kind, len(ts), rev, lname)


@family(quick=40, thorough=500)
def horizon(ctx):
    "end times that are outputs of a computation (learned integration depth): gradient descent on the horizon, float32 and float64"
    rng = ctx.rng
    dtype = rng.choice([torch.float32, torch.float64])
    shape = rng.choice([(2, 2), (3,), (1, 1)] * 3 + [(30, 2), (2, 14)])
    net = make_net(ctx, shape[-1], kind=rng.choice(['mlp', 'bilinear', 'auto']), dtype=dtype)
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64).to(dtype)
    tol = 1e-8 if dtype == torch.float64 else 1e-5
    node = NeuralODE(net, str_to_solver(rng.choice(['dopri5', 'tsit5']), dtype), sensitivity='adjoint', atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
    T = torch.tensor(rng.uniform(.4, 1.5), dtype=dtype, requires_grad=True)
    n = rng.randint(2, 5)
    s = torch.linspace(0, 1, n, dtype=dtype)
    a = rng.choice([0., -.7, 1.3])
    lname, loss = loss_of(ctx, n, shape, dtype)
    ctx.desc(dtype=dtype, shape=shape, field=net.kind, n=n, offset=a, loss=lname)
    _, out = node(x, a + T * s)
    got = grads(loss(out), [T])[0]
    exp = grads(loss(ref.fine(net, x, a + T * s, 20)), [T])[0]
    ctx.close(got, exp, 2e-5 if dtype == torch.float64 else 5e-3, 'horizon', 'gradient of the horizon', scale=max(1., abs(float(exp))))
    ctx.key(str(dtype), shape, net.kind, n, a, lname)
