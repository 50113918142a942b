"""C13: integral losses."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid, many, wide
from lib import ref
from lib.grads import make_net, loss_of, grads, trainable
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem

PROPERTY = 'C13'
RULE = ("random (field, order, integral loss, batch, width, grid, direction, terminal loss, solver, sensitivity); autograd: the loss column and the other columns against an independently written "
        "augmented system; adjoint methods: gradients of terminal plus integral loss against autograd through a fine augmented reference; non-trivial = integral loss non-zero; "
        "key = sensitivity, solver, order, field, loss, shape, grid, direction")
ASSUMPTIONS = ['losses depend on the state, time, parameters of the field, or (modules given to a Neural ODE) their own parameters', 'adjoint allowance 3e-5 at tolerances of 1e-8; interpolated adjoint on dense grids 3e-4']


class Quad(nn.Module):
    def __init__(self, w): super().__init__(); self.w = w
    def forward(self, t, x): return (self.w[:x.shape[1]] * x ** 2).sum(1)


class Own(nn.Module):
    "a loss with parameters of its own"
    def __init__(self, w): super().__init__(); self.w = nn.Parameter(w)
    def forward(self, t, x): return (self.w * torch.sin(x) ** 2).sum(1)


def make_gloss(ctx, d, dtype=torch.float64, net=None):
    "net: field on whose parameters the loss may depend directly"
    rng = ctx.rng
    w = torch.randn(d, generator=ctx.gen, dtype=torch.float64).to(dtype)
    kind = rng.choice(['quad', 'module', 'col', 'time', 'norm', 'lin', 'tonly', 'const'] + (['kinetic', 'kinetic', 'weights', 'own'] if net is not None else []))
    fn = dict(quad=lambda t, x: (w * x ** 2).sum(1), module=Quad(w), col=lambda t, x: (torch.sin(x) * w).sum(1, keepdim=True),
              time=lambda t, x: torch.cos(3 * t) * (x * w).sum(1) + (x ** 2).mean(1), norm=lambda t, x: (x ** 2 + 1).sqrt().sum(1),
              lin=lambda t, x: x[:, -1:] * 1.,
              tonly=lambda t, x: (w[0] * torch.cos(2 * t)).reshape(1).expand(x.shape[0]), const=lambda t, x: w[0].expand(x.shape[0]),
              kinetic=lambda t, x: (net(t, x) ** 2).sum(1) * .5, weights=lambda t, x: (net.W1 ** 2).mean() * torch.cos(x).sum(1) + net.scale, own=Own(w))[kind]
    return kind, fn


def companion(net, order):
    if order == 1: return net
    def f(t, x):
        k = x.shape[1] // order
        return torch.cat([x[:, k:], net(t, x)], 1)
    return f


class Cut(nn.Module):
    "field with all n blocks as input and one block as output"
    def __init__(self, net, order):
        super().__init__()
        self.net, self.order = net, order
    def forward(self, t, x, args={}): return self.net(t, x)[:, -(x.shape[1] // self.order):]


def setup(ctx, order, k, kinds=None, dtype=torch.float64):
    d = order * k
    net = make_net(ctx, d, kind=ctx.rng.choice(kinds or ['mlp', 'bilinear', 'auto', 'noparam']), dtype=dtype)
    vf = net if order == 1 else Cut(net, order)
    return d, net, vf, companion(vf, order)


def augmented(f, g):
    def F(t, z):
        l = g(t, z[:, 1:])
        return torch.cat([l.reshape(-1, 1), f(t, z[:, 1:])], 1)
    return F


@family(quick=260, thorough=5000)
def propagated(ctx):
    rng = ctx.rng
    order, k, b = rng.choice([1, 1, 2, 2, 3]), rng.randint(1, 3), rng.randint(1, 4)
    d, net, vf, f = setup(ctx, order, k)
    gk, g = make_gloss(ctx, d, net=net)
    ps = trainable(net) + (list(g.parameters()) if gk == 'own' else [])
    s = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5'])
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter', 'clustered']), n=rng.randint(2, 8))
    l0 = torch.zeros(b, 1, dtype=torch.float64) if rng.random() < .7 else torch.randn(b, 1, generator=ctx.gen, dtype=torch.float64)
    x = torch.randn(b, d, generator=ctx.gen, dtype=torch.float64)
    ctx.desc(solver=s, order=order, width=k, batch=b, field=net.kind, loss=gk, grid=kind, reverse=rev, n=len(ts))
    tol = 1e-8
    node = NeuralODE(vf, str_to_solver(s, torch.float64), order=order, atol=tol, rtol=tol, integral_loss=g)
    z0 = torch.cat([l0, x], 1)
    za, zb = z0.clone().requires_grad_(True), z0.clone().requires_grad_(True)
    traj = rng.random() < .2
    sa = node.trajectory(za, ts) if traj else node(za, ts)[1]
    F = augmented(f, g)
    if s in ref.ORDERS and s not in ('dopri5', 'tsit5'):
        sb, tv, tg = ref.compose(ref.STEPS[s], F, zb, ts), 1e-10, 1e-9
    else: sb, tv, tg = ref.fine(F, zb, ts, 30), 1e-5, 5e-5
    ctx.close(sa[..., 1:], sb[..., 1:], tv, 'dynamics', 'state columns')
    ctx.close(sa[..., :1], sb[..., :1], tv, 'integral', 'loss column')
    # what is minimised: mean of the loss column at the end + terminal loss
    lname, loss = loss_of(ctx, len(ts), z0.shape)
    La, Lb = loss(sa) + sa[-1, :, 0].mean(), loss(sb) + sb[-1, :, 0].mean()
    ga, gb = grads(La, [za] + ps), grads(Lb, [zb] + ps)
    sc = max(float(v.abs().max()) for v in gb)
    for u, v in zip(ga, gb): ctx.close(u, v, tg, 'autograd_gradient', f'gradient ({gk})', scale=sc)
    ctx.ev('gradients', len(ga))
    ctx.key('autograd', s, order, k, b, net.kind, gk, kind, rev)


@family(quick=160, thorough=3000)
def adjoint(ctx):
    rng = ctx.rng
    interp = rng.random() < .35
    order, k, b = rng.choice([1, 1, 1, 2, 3]), rng.randint(1, 3), rng.randint(1, 4)
    d, net, vf, f = setup(ctx, order, k, ['mlp', 'bilinear', 'auto', 'noparam', 'xfree', 'const'])
    gk, g = make_gloss(ctx, d, net=net)
    if interp:
        T = rng.uniform(.3, .9)
        ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'offset', 'jitter']), n=int(T / .022) + 6, T=T)
    else: ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'clustered']), n=rng.randint(2, 7), T=rng.uniform(.4, 1.6))
    x = torch.randn(b, d, generator=ctx.gen, dtype=torch.float64)
    cls = NeuralODE if order > 1 or rng.random() < .6 else ODEProblem
    # a loss module belongs to the field of a Neural ODE, an ODE problem differentiates the parameters of its field
    ps = trainable(net) + (list(g.parameters()) if gk == 'own' and cls is NeuralODE else [])
    s, sens = rng.choice(['dopri5', 'tsit5']), 'interpolated_adjoint' if interp else 'adjoint'
    tol = 1e-7 if interp else 1e-8
    kw = dict(order=order) if cls is NeuralODE else {}
    node = cls(vf, str_to_solver(s, torch.float64), sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol, integral_loss=g, **kw)
    ctx.desc(cls=cls.__name__, solver=s, sensitivity=sens, order=order, width=k, batch=b, field=net.kind, extras=net.extras, loss=gk, grid=kind, reverse=rev, n=len(ts))
    lname, loss = loss_of(ctx, len(ts), x.shape)
    if rng.random() < .15: lname, loss = 'none', lambda s: 0 * s.sum()  # the integral alone
    xa, xb = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    # the end points of the grid delimit the integral
    timed = not interp and rng.random() < .5
    ta, tb = ts.clone().requires_grad_(timed), ts.clone().requires_grad_(timed)
    _, sa = node(xa, ta)
    zb = torch.cat([torch.zeros(b, 1, dtype=torch.float64), xb], 1)
    sb = ref.fine(augmented(f, g), zb, tb, 2 if interp else 30)
    ctx.check(sa.shape == (len(ts), b, d), 'shape', f"shape {tuple(sa.shape)}", stop=True)
    ctx.close(sa, sb[..., 1:], 1e-5, 'dynamics_adjoint', 'trajectory')
    Lb = loss(sb[..., 1:]) + sb[-1, :, 0].sum()
    ga, gb = grads(loss(sa), [xa] + ps + [ta] * timed), grads(Lb, [xb] + ps + [tb] * timed)
    if timed:
        vt = gb.pop()
        ctx.close(ga.pop(), vt, 3e-5, 'grid', f'gradient of the time grid ({gk})', scale=float(vt.abs().max()) + float(sb.detach().abs().max()))
        ctx.ev('grid_gradients')
    sc = max(float(v.abs().max()) for v in gb)
    for u, v in zip(ga, gb): ctx.close(u, v, 3e-4 if interp else 3e-5, sens + ('_direct' if gk in ('kinetic', 'weights', 'own') else ''), f'gradient ({gk})', scale=sc)
    ctx.ev('gradients', len(ga))
    ctx.key(cls.__name__, sens, s, order, k, b, net.kind, net.extras, gk, kind, rev, lname)


@family(quick=40, thorough=400)
def agree(ctx):
    "float32 training signal: autograd with a propagated loss and the adjoint report the same gradients"
    rng = ctx.rng
    b, d = many(rng, rng.randint(1, 5)), wide(rng, rng.randint(1, 3))
    net = make_net(ctx, d, kind=rng.choice(['mlp', 'bilinear', 'auto']), dtype=torch.float32)
    gk, g = make_gloss(ctx, d, torch.float32, net)
    x = torch.randn(b, d, generator=ctx.gen, dtype=torch.float64).float()
    ps = trainable(net) + (list(g.parameters()) if gk == 'own' else [])
    ts = torch.linspace(0, rng.uniform(.5, 1.2), rng.randint(2, 5))
    s = rng.choice(['dopri5', 'tsit5'])
    ctx.desc(solver=s, batch=b, width=d, field=net.kind, loss=gk)
    kw = dict(atol=1e-6, rtol=1e-6, atol_adjoint=1e-6, rtol_adjoint=1e-6, integral_loss=g)
    lname, loss = loss_of(ctx, len(ts), x.shape, torch.float32)
    xa, xb = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    _, sa = NeuralODE(net, s, sensitivity='adjoint', **kw)(xa, ts)
    ga = grads(loss(sa), [xa] + ps)
    _, sb = NeuralODE(net, s, sensitivity='autograd', **kw)(torch.cat([torch.zeros(b, 1), xb], 1), ts)
    gb = grads(loss(sb[..., 1:]) + sb[-1, :, 0].sum(), [xb] + ps)
    sc = max(float(v.abs().max()) for v in gb)
    for u, v in zip(ga, gb): ctx.close(u, v, 3e-3, 'agree', 'gradient', scale=sc)
    ctx.key(s, b, d, net.kind, gk, lname)
