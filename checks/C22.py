"""C22: energy-based fields."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid, many
from lib import ref
from lib.grads import loss_of, grads
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE
from torchdyn.models import HNN, LNN, GNF, ConservativeLinearSNF

PROPERTY = 'C22'
RULE = ("random (model, energy, dimension, batch, dtype, layout of the state, grad mode) evaluated sample by sample against derivatives computed independently for each sample; trajectories through random "
        "solvers, sensitivities and directions against the conservation or decay law and an independent field; derivatives of values and of solves against the independent field; "
        "key = model, energy, dimension, batch, dtype, layout")
ASSUMPTIONS = ['states [batch, dim], energies smooth, Lagrangians regular (invertible velocity Hessian)']


class Energy(nn.Module):
    "E(x) for one sample [d] or a batch [B, d]; returns [.., 1] or [..]"
    def __init__(self, ctx, d, kind=None, dtype=torch.float64, lagrangian=False):
        super().__init__()
        rng = ctx.rng
        self.d, self.lag = d, lagrangian
        self.kind = kind or rng.choice(['mlp', 'mlp', 'quad', 'poly', 'mixed', 'sep'])
        self.col = rng.random() < .6
        r = lambda *s: nn.Parameter(torch.randn(*s, generator=ctx.gen, dtype=torch.float64).to(dtype))
        h = d + 3
        self.W1, self.b1, self.W2, self.Q, self.c = r(d, h), r(h), r(h), r(d, d), r(d)
        # unequal masses: velocities whose inertia differ by orders of magnitude
        self.mass = torch.ones(d // 2, dtype=dtype)
        if lagrangian and dtype == torch.float64 and rng.random() < .35:
            self.mass = torch.tensor([10 ** rng.uniform(0, 5) * rng.choice([1, 1, -1]) for _ in range(d // 2)], dtype=dtype)

    def forward(self, x):
        n = self.d // 2
        if self.kind == 'mlp': e = torch.tanh(x @ self.W1 / self.d ** .5 + self.b1) @ self.W2 + .1 * (x ** 2).sum(-1) + 0 * self.Q.sum() + 0 * self.c.sum()
        elif self.kind == 'quad': e = .5 * ((x @ self.Q) * x).sum(-1) / self.d + x @ self.c
        elif self.kind == 'poly': e = .05 * (x ** 4).sum(-1) + .3 * (x @ self.c) ** 2 + (x.prod(-1) if self.d < 4 else 0)
        elif self.kind == 'mixed': e = torch.sin(x @ self.Q).sum(-1) * .5 + .2 * (x ** 2).sum(-1) + torch.cos(x @ self.c)
        else: e = .5 * (x[..., n:] ** 2).sum(-1) - torch.cos(x[..., :n]).sum(-1)
        # a Lagrangian needs an invertible Hessian in the velocities
        if self.lag: e = .2 * min(1., 4 / self.d) * e + (self.mass * (1.5 + .3 * torch.sin(x[..., :n] + .1 * self.c[:n])) * x[..., n:] ** 2).sum(-1) + .2 * x[..., n:].sum(-1) * torch.sin(x[..., :n]).sum(-1)
        return e[..., None] if self.col else e


class Skew(nn.Module):
    def __init__(self, ctx, d, dtype):
        super().__init__()
        r = lambda *s: nn.Parameter(torch.randn(*s, generator=ctx.gen, dtype=torch.float64).to(dtype))
        self.W, self.b, self.flat = r(d, d * d), r(d * d), ctx.rng.random() < .5
        self.d = d
    def forward(self, x):
        m = torch.tanh(x @ self.W / self.d + self.b)
        return m if self.flat else m.reshape(*x.shape[:-1], self.d, self.d)


def single(E, x): return E(x).sum()


def expected(model, E, J, x):
    "the field at one sample [d], from derivatives of that sample alone, differentiable"
    d = len(x)
    n = d // 2
    g = torch.func.grad(lambda v: single(E, v))(x)
    if model == 'HNN': return torch.cat([g[n:], -g[:n]])
    if model == 'GNF': return -g
    if model == 'SNF':
        M = J(x).reshape(d, d)
        return ((M - M.T) / 2).T @ g
    H = torch.func.hessian(lambda v: single(E, v))(x)
    return torch.cat([x[n:], torch.linalg.solve(H[n:, n:], g[:n] - H[n:, :n] @ x[n:])])


def build(model, E, J): return dict(HNN=HNN, GNF=GNF, LNN=LNN)[model](E) if model != 'SNF' else ConservativeLinearSNF(E, J)


MODELS = ['HNN', 'GNF', 'SNF', 'LNN']


def draw(ctx, model, dtype=torch.float64):
    rng = ctx.rng
    d = rng.choice([2, 2, 4, 6]) if model in ('HNN', 'LNN') else rng.choice([1, 2, 3, 4, 5])
    if model == 'LNN': d = rng.choice([2, 2, 4, 4, 6])
    if rng.random() < .06: d = 2 * rng.randint(4, 8) if model != 'LNN' else 8
    kind = None if model in ('HNN', 'LNN') else rng.choice(['mlp', 'quad', 'poly', 'mixed'])
    return d, Energy(ctx, d, kind, dtype, model == 'LNN'), Skew(ctx, d, dtype)


@family(quick=360, thorough=9000)
def field(ctx):
    rng = ctx.rng
    model = MODELS[ctx.index % 4]
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    d, E, J = draw(ctx, model, dtype)
    B = many(rng, rng.choice([1, 2, 3, 6]))
    x = (torch.randn(B, d, generator=ctx.gen, dtype=torch.float64) * rng.choice([.3, 1, 1, 2])).to(dtype)
    layout = rng.choice(['plain', 'leaf', 'strided', 'slice', 'no_grad', 'nonleaf', 'transposed'])
    ctx.desc(model=model, energy=E.kind, column=E.col, d=d, B=B, dtype=dtype, layout=layout)
    f = build(model, E, J)
    xx = x.clone()
    leaf = xx.requires_grad_(True) if layout in ('leaf', 'nonleaf') else None
    if layout == 'nonleaf': xx = leaf * 1.
    if layout == 'strided': xx = torch.zeros(B, 2 * d, dtype=dtype)[:, ::2].copy_(x)
    if layout == 'slice': xx = torch.zeros(B + 2, d, dtype=dtype)[1:-1].copy_(x)
    if layout == 'transposed': xx = torch.zeros(d, B, dtype=dtype).T.copy_(x)
    if layout == 'no_grad':
        with torch.no_grad(): y = f(xx)
    else: y = f(xx)
    tol = 1e-9 if dtype == torch.float64 else 5e-4
    ctx.check(tuple(y.shape) == (B, d) and y.dtype == dtype, 'shape', f"{tuple(y.shape)} {y.dtype}", stop=True)
    ctx.check(torch.equal(xx.detach(), x), 'argument', 'the state was changed')
    xe = x.clone().requires_grad_(True)
    e = torch.stack([expected(model, E, J, r) for r in xe])
    sign = 1.
    # a skew matrix is one whichever way it is signed
    if model == 'SNF' and float((y.detach() + e.detach()).abs().max()) < float((y.detach() - e.detach()).abs().max()): sign = -1.
    ctx.close(y, sign * e, tol, f"field_{model}", 'field')
    g = torch.stack([torch.func.grad(lambda v: single(E, v))(r) for r in x])
    y_ = y.detach()
    dE = (y_ * g).sum(1)
    sc = float((y_.abs() * g.abs()).sum(1).max())
    if model in ('HNN', 'SNF'): ctx.close(dE, torch.zeros(B), tol, f"conservation_{model}", 'rate of change of the energy along the field', scale=sc)
    if model == 'GNF': ctx.check(bool((dE <= 0).all()), 'decrease', 'the energy increases along the gradient flow')
    # training: derivatives with respect to parameters (and the state)
    if layout in ('plain', 'leaf', 'nonleaf'):
        w = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64).to(dtype)
        ps = list(E.parameters()) + (list(J.parameters()) if model == 'SNF' else [])
        if model == 'LNN' and dtype == torch.float32: return ctx.key(model, E.kind, E.col, d, B, str(dtype), layout)
        ga = grads((w * y).sum(), ps + ([leaf] if leaf is not None else []))
        gb = grads((w * sign * e).sum(), ps + ([xe] if leaf is not None else []))
        s = max(float(v.abs().max()) for v in gb)
        for a, b in zip(ga, gb): ctx.close(a, b, 1e-8 if dtype == torch.float64 else 3e-3, f"derivative_{model}", 'derivative of the field', scale=s)
        ctx.ev('derivatives', len(ga))
    ctx.key(model, E.kind, E.col, d, B, str(dtype), layout)


@family(quick=120, thorough=2500)
def flow(ctx):
    "trajectories: the law of each model and the independent field"
    rng = ctx.rng
    model = MODELS[ctx.index % 4] if ctx.index % 8 else 'SNF'
    d, E, J = draw(ctx, model)
    B = many(rng, rng.choice([1, 2, 3]))
    if model == 'LNN': B = min(B, 9)
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64) * .7
    ts, kind, rev = grid(ctx, T=rng.uniform(.4, 1.5) * min(1., 12 / (d * B)), n=rng.randint(3, 7), kind=rng.choice(['even', 'uneven', 'offset', 'cross', 'clustered']))
    if model == 'GNF' and E.kind in ('quad', 'poly') and rev: ts, rev = ts.flip(0), False
    name = rng.choice(['dopri5', 'tsit5'])
    tol = 1e-8
    f = build(model, E, J)
    how = rng.choice(['forward', 'trajectory', 'no_grad', 'odeint', 'adjoint'])
    ctx.desc(model=model, energy=E.kind, d=d, B=B, solver=name, how=how, grid=kind, reverse=rev)
    node = NeuralODE(f, str_to_solver(name, torch.float64), sensitivity='adjoint' if how == 'adjoint' else 'autograd', atol=tol, rtol=tol)
    if how == 'no_grad':
        with torch.no_grad(): out = node(x.clone(), ts)[1]
    elif how == 'trajectory': out = node.trajectory(x.clone(), ts)
    elif how == 'odeint': out = odeint(lambda t, y: f(y), x.clone(), ts, str_to_solver(name, torch.float64), atol=tol, rtol=tol)[1]
    else: out = node(x.clone(), ts)[1]
    out = out.detach()
    indep = lambda t, y: torch.stack([expected(model, E, J, r) for r in y]).detach()
    with torch.no_grad(): e = ref.truth(indep, x, ts, 1e-9, 1e-10)
    ctx.close(out, e, 3e-5, 'solution', 'rows differ from the independent field\'s')
    with torch.no_grad(): H = torch.stack([E(r).reshape(B) for r in out])
    s = float(H.abs().max())
    if model in ('HNN', 'SNF'): ctx.close(H, H[:1].expand_as(H), 3e-5, 'conserved', 'energy along the solution', scale=s)
    if model == 'GNF':
        step = (H[1:] - H[:-1]) * (-1 if rev else 1)
        ctx.check(bool((step <= 1e-6 * (1 + s)).all()), 'decreasing', f"energy grows by {float(step.max()):.2e} along the gradient flow")
    if model == 'LNN':
        n = d // 2
        def energy(v):
            p = torch.func.grad(lambda u: single(E, torch.cat([v[:n], u])))(v[n:])
            return (p * v[n:]).sum() - single(E, v)
        K = torch.stack([torch.stack([energy(v) for v in r]) for r in out]).detach()
        ctx.close(K, K[:1].expand_as(K), 3e-5, 'conserved', 'energy function of the Lagrangian along the solution', scale=float(K.abs().max()))
    ctx.ev('rows', len(ts))
    ctx.key(model, E.kind, d, B, name, how, kind, rev)


@family(quick=72, thorough=1500)
def training(ctx):
    "gradients of solves with respect to the energy's parameters and the initial state"
    rng = ctx.rng
    model = ['HNN', 'GNF', 'SNF', 'HNN', 'GNF', 'LNN'][ctx.index % 6]
    d, E, J = draw(ctx, model)
    B = many(rng, rng.choice([1, 2, 3]))
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64) * .7
    ts, kind, rev = grid(ctx, T=rng.uniform(.3, .7), n=rng.randint(2, 4), kind=rng.choice(['even', 'uneven', 'two', 'offset']), reverse=False)
    sens = rng.choice(['autograd', 'adjoint', 'autograd'])
    if model == 'LNN': sens = 'autograd'
    fixed = sens == 'autograd' and (model == 'LNN' or rng.random() < .5)
    lname, loss = loss_of(ctx, len(ts), x.shape)
    ctx.desc(model=model, energy=E.kind, d=d, B=B, sensitivity=sens, fixed=fixed, grid=kind, loss=lname)
    f = build(model, E, J)
    tol = 1e-8
    node = NeuralODE(f, str_to_solver('rk4' if fixed else 'dopri5', torch.float64), sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
    ps = list(E.parameters()) + (list(J.parameters()) if model == 'SNF' else [])
    leafy = rng.random() < .6
    xa, xe = x.clone().requires_grad_(leafy), x.clone().requires_grad_(True)
    out = node(xa, ts)[1]
    step = lambda t, y: torch.stack([expected(model, E, J, r) for r in y])
    e = ref.compose(ref.rk4, step, xe, ts) if fixed else ref.fine(step, xe, ts, max(3, int(float((ts[1:] - ts[:-1]).abs().max()) / .012)))
    ctx.close(out, e, 1e-9 if fixed else 3e-5, 'solve', 'rows')
    ga = grads(loss(out), ps + ([xa] if leafy else []))
    gb = grads(loss(e), ps + ([xe] if leafy else []))
    s = max(float(v.abs().max()) for v in gb)
    for a, b in zip(ga, gb): ctx.close(a, b, 1e-8 if fixed else 5e-5, 'gradient', 'gradient of a solve', scale=s)
    ctx.ev('gradients', len(ga))
    ctx.key(model, E.kind, d, B, sens, fixed, kind, lname)
