"""C24: samples of a batch are solved independently."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import KINDS, grid, make_field, many, wide
from lib import ref
from lib.grads import make_net
from torchdyn.numerics import odeint, odeint_symplectic, odeint_mshooting, sdeint
from torchdyn.numerics.solvers.ode import str_to_solver, AsynchronousLeapfrog
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.core import NeuralODE, ODEProblem, NeuralSDE
from torchdyn.core.defunc import SDEFunc
from torchdyn.nn import DepthCat, DataControl, Augmenter, GalLinear
from torchdyn.nn.galerkin import Fourier
from torchdyn.models import CNF, HNN, GNF

PROPERTY = 'C24'
RULE = ("random (path, solver, field, batch, grid, direction): the solution of the batch against those of single samples, permuted, repeated, split and re-grouped batches, extra leading dimensions and "
        "non-contiguous layouts; key = path, solver, field, batch, width, grid, direction, regrouping")
ASSUMPTIONS = ['fields acting sample by sample', 'fixed steps: rounding of differently grouped matrix products (1e-11); adaptive: a sensitivity-scaled multiple of the tolerance']
FIXED = ['euler', 'midpoint', 'rk4']
# large states leave the domain of the logistic field
FIELDS = [k for k in KINDS if k != 'logistic']


def regroup(ctx, B):
    "index lists to solve instead of the whole batch"
    rng = ctx.rng
    how = rng.choice(['single', 'single', 'perm', 'subset', 'repeat', 'split'])
    if how == 'single': return how, [[i] for i in range(B)]
    if how == 'perm':
        p = list(range(B))
        rng.shuffle(p)
        return how, [p]
    if how == 'subset': return how, [sorted(rng.sample(range(B), rng.randint(1, B)))]
    if how == 'repeat': return how, [[rng.randrange(B) for _ in range(2 * B + 1)]]
    k = rng.randint(0, B)
    return how, [list(range(k)), list(range(k, B))] if 0 < k < B else [list(range(B))]


def network(ctx, d, kinds):
    "-> (name, module, per-sample width)"
    kind = ctx.rng.choice(kinds)
    mlp = lambda i, o: nn.Sequential(nn.Linear(i, 7), nn.Tanh(), nn.Linear(7, o))
    torch.manual_seed(ctx.rng.randrange(10 ** 6))
    if kind == 'mlp': m = mlp(d, d)
    elif kind == 'depth': m = nn.Sequential(DepthCat(1), mlp(d + 1, d))
    elif kind == 'control': m = nn.Sequential(DataControl(), mlp(2 * d, d))
    elif kind == 'both': m = nn.Sequential(DataControl(), DepthCat(1), mlp(2 * d + 1, d))
    elif kind == 'galerkin':
        g = GalLinear(d, d, expfunc=Fourier(3))
        with torch.no_grad(): g.coeffs.normal_(0, .3)
        m = nn.Sequential(DepthCat(1), g, nn.Tanh())
    elif kind == 'cnf': m = CNF(mlp(d, d))
    elif kind == 'hnn': m = HNN(mlp(2 * d, 1))
    elif kind == 'gnf': m = GNF(mlp(d, 1))
    return kind, m.double(), dict(cnf=d + 1, hnn=2 * d).get(kind, d)


def compare(ctx, solve, x, dim, tol, name):
    "solve(x) -> [T, ...]; batch along `dim` of x"
    full = solve(x)
    how, groups = regroup(ctx, x.shape[dim])
    for g in groups:
        part = solve(x.index_select(dim, torch.tensor(g)))
        ctx.close(part, full.index_select(dim + 1, torch.tensor(g)), tol, name, f"{how} {g}: samples depend on their batch")
        ctx.ev('regrouped', len(g))
    return how, full


@family(quick=300, thorough=8000)
def fixed(ctx):
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([2, 3, 5, 8]))
    ts, kind, rev = grid(ctx)
    f = make_field(ctx, d, ctx.rng.choice(FIELDS))
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64) * rng.choice([1., 1., 3.])
    if rng.random() < .3: x[rng.randrange(B)] *= 50   # one sample much larger than the others
    path = rng.choice(['odeint', 'odeint', 'hyper', 'alf', 'lead', 'layout'])
    s = rng.choice(FIXED)
    ctx.desc(path=path, solver=s, field=f.kind, d=d, B=B, grid=kind, reverse=rev)
    # large samples make the field's own rounding larger: all measured against the largest row
    if path == 'hyper':
        g = make_field(ctx, d, ctx.rng.choice(FIELDS))
        H = dict(euler=HyperEuler, midpoint=HyperMidpoint, rk4=HyperRungeKutta4)[s]
        solve = lambda z: odeint(f, z, ts, H(g, torch.float64))[1]
    elif path == 'alf' or (path in ('lead', 'layout') and rng.random() < .3):
        def F(t, z): return f(t, z)
        F.order = 1
        x = torch.randn(B, 2 * d, generator=ctx.gen, dtype=torch.float64)
        solve = lambda z: odeint_symplectic(F, z, ts, AsynchronousLeapfrog(dtype=torch.float64))[1]
    else: solve = lambda z: odeint(f, z, ts, str_to_solver(s, torch.float64))[1]
    how, full = compare(ctx, solve, x, 0, 1e-11, f"fixed_{path}")
    if path == 'lead':
        sh = rng.choice([(1, B), (B, 1), (2, B), (B, 2, 1), (1, 1, B)])
        n = 1
        for v in sh: n *= v
        z = torch.cat([x] * (n // B))[:n]
        out = solve(z.reshape(*sh, x.shape[-1]))
        ctx.close(out.reshape(len(ts), n, -1), solve(z), 1e-11, 'leading', f"leading dimensions {sh} change the result")
        one = solve(x[0])
        ctx.close(one, full[:, 0], 1e-11, 'vector', 'a state without batch dimension differs')
    if path == 'layout':
        d = x.shape[-1]
        for lay in ('transposed', 'strided', 'expanded', 'reversed'):
            if lay == 'transposed': z = torch.zeros(d, B, dtype=torch.float64).T.copy_(x)
            elif lay == 'strided': z = torch.zeros(2 * B, 3 * d, dtype=torch.float64)[::2, ::3].copy_(x)
            elif lay == 'reversed': z = x.flip(0).clone().flip(0)
            else:
                z = x[:1].expand(B, d)
                ctx.close(solve(z), full[:, :1].expand(-1, B, -1), 1e-11, 'layout', 'expanded state')
                continue
            ctx.close(solve(z), full, 1e-11, 'layout', f"{lay} state")
    ctx.key(path, s, f.kind, d, B, kind, rev, how)


@family(quick=240, thorough=6000)
def neural(ctx):
    "Neural ODEs: depth, control, higher order, flows, energies, all with fixed steps"
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([2, 3, 5]))
    ts, kind, rev = grid(ctx, n=rng.randint(2, 8))
    order = rng.choice([1, 1, 2, 3])
    kinds = ['mlp', 'depth', 'control', 'both', 'galerkin', 'cnf', 'hnn', 'gnf'] if order == 1 else ['plain']
    if order == 1: name, m, w = network(ctx, d, kinds)
    else:
        torch.manual_seed(rng.randrange(10 ** 6))
        name, m, w = f"order{order}", nn.Sequential(nn.Linear(order * d, 6), nn.Tanh(), nn.Linear(6, d)).double(), order * d
    sens = rng.choice(['autograd', 'autograd', 'adjoint', 'interpolated_adjoint'])
    s = rng.choice(FIXED)
    iface = rng.choice(['forward', 'trajectory'])
    ctx.desc(net=name, order=order, solver=s, sensitivity=sens, iface=iface, d=d, B=B, grid=kind, reverse=rev)
    node = NeuralODE(m, str_to_solver(s, torch.float64), order=order, sensitivity=sens)
    x = torch.randn(B, w, generator=ctx.gen, dtype=torch.float64)
    solve = lambda z: (node(z.clone(), ts)[1] if iface == 'forward' else node.trajectory(z.clone(), ts)).detach()
    how, full = compare(ctx, solve, x, 0, 1e-10, f"neural_{name}")
    z = torch.zeros(w, B, dtype=torch.float64).T.copy_(x)
    ctx.close(node(z, ts)[1].detach(), full, 1e-10, 'layout', 'transposed state')
    if rng.random() < .3:
        aug = nn.Sequential(Augmenter(1, 2), NeuralODE(nn.Linear(w + 2, w + 2).double(), str_to_solver(s, torch.float64), return_t_eval=False))
        compare(ctx, lambda v: aug(v.clone()).detach(), x, 0, 1e-10, 'augmented')
    ctx.key(name, order, s, sens, iface, d, B, kind, rev, how)


@family(quick=160, thorough=4000)
def gradients(ctx):
    "gradients of a sum of losses are those of the samples"
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([2, 3, 5]))
    ts, kind, rev = grid(ctx, n=rng.randint(2, 6), T=rng.uniform(.3, 1.2))
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    name, m, w = network(ctx, d, ['mlp', 'depth', 'control', 'cnf', 'gnf'])
    s = 'rk4' if sens == 'autograd' else 'dopri5'
    tol = 1e-8
    node = NeuralODE(m, str_to_solver(s, torch.float64), sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
    if sens == 'interpolated_adjoint': ts = torch.linspace(float(ts[0]), float(ts[-1]), int(abs(float(ts[-1] - ts[0])) / .03) + 6, dtype=torch.float64)
    x = torch.randn(B, w, generator=ctx.gen, dtype=torch.float64)
    W = torch.randn(len(ts), B, w, generator=ctx.gen, dtype=torch.float64)
    ps = list(node.vf.parameters())
    ctx.desc(net=name, sensitivity=sens, d=d, B=B, grid=kind, reverse=rev)
    def run(idx):
        z = x[idx].clone().requires_grad_(True)
        out = node(z, ts)[1]
        l = (W[:, idx] * (out + .5 * out ** 2)).sum()
        g = torch.autograd.grad(l, [z] + ps, allow_unused=True)
        return [torch.zeros_like(p) if v is None else v for v, p in zip(g, [z] + ps)]
    full = run(list(range(B)))
    parts = [run([i]) for i in range(B)]
    sc = max(float(v.abs().max()) for v in full)
    tg = 1e-9 if s == 'rk4' else 2e-5 if sens == 'adjoint' else 3e-4
    ctx.close(torch.cat([p[0] for p in parts]), full[0], tg, f"grad_x_{sens}", 'gradient of x', scale=sc)
    for j in range(1, len(full)): ctx.close(sum(p[j] for p in parts), full[j], tg, f"grad_p_{sens}", 'gradient of parameters', scale=sc)
    ctx.key(name, sens, d, B, kind, rev)


@family(quick=160, thorough=4000)
def adaptive(ctx):
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([2, 3, 5]))
    ts, kind, rev = grid(ctx)
    f = make_field(ctx, d, ctx.rng.choice(FIELDS))
    s, tol = rng.choice(['dopri5', 'tsit5']), rng.choice([1e-5, 1e-7, 1e-9])
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    if rng.random() < .3: x[rng.randrange(B)] *= 5
    interp = '4th' if s == 'dopri5' and rng.random() < .3 else None
    ctx.desc(solver=s, tol=tol, field=f.kind, d=d, B=B, grid=kind, reverse=rev, interpolator=interp)
    with torch.no_grad(): amp = ref.amplification(f, x, ts, ctx)
    solve = lambda z: odeint(f, z, ts, str_to_solver(s, torch.float64), atol=tol, rtol=tol, interpolator=interp)[1]
    # a sample's error is controlled together with the others' by a root mean square over the batch
    how, full = compare(ctx, solve, x, 0, 100 * tol * amp * B ** .5 * (20 if interp else 1), 'adaptive')
    ctx.close(solve(x[:, None]).squeeze(2), full, 1e-10, 'adaptive_leading', 'extra dimension')
    ctx.key(s, tol, f.kind, d, B, kind, rev, how, interp)


class Path:
    "independent path per sample, selected by index"
    def __init__(self, ctx, B, d):
        self.a = torch.randn(5, B, d, generator=ctx.gen, dtype=torch.float64) / 2
        self.w = 1 + 15 * torch.rand(5, generator=ctx.gen, dtype=torch.float64)
    def take(self, idx):
        W = lambda t: torch.tensordot(torch.sin(self.w * float(t)), self.a[:, idx], 1)
        return lambda s, t: W(t) - W(s)


@family(quick=120, thorough=3000)
def sde(ctx):
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([2, 3, 5]))
    ts, kind, rev = grid(ctx, reverse=False, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter']))
    f, g0 = make_field(ctx, d, ctx.rng.choice(FIELDS)), make_field(ctx, d, ctx.rng.choice(FIELDS))
    g = lambda t, x: .3 + .4 * torch.tanh(g0(t, x))
    scheme, cal = rng.choice([('euler', 'ito'), ('eulerHeun', 'stratonovich'), ('milstein_ito', 'ito'), ('milstein_stratonovich', 'stratonovich')])
    P = Path(ctx, B, d)
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    iface = rng.choice(['sdeint', 'NeuralSDE', 'trajectory'])
    ff, gg = (lambda t, x: f(t, x)), (lambda t, x: g(t, x))
    ctx.desc(scheme=scheme, iface=iface, field=f.kind, d=d, B=B, grid=kind)
    def solve(idx):
        bm = P.take(idx)
        if iface == 'sdeint': return sdeint(SDEFunc(ff, gg, noise_type='diagonal', sde_type=cal), x[idx], ts, scheme, bm)[1]
        n = NeuralSDE(ff, gg, solver=scheme, noise_type='diagonal', sde_type=cal, bm=bm)
        return n(x[idx], ts)[1] if iface == 'NeuralSDE' else n.trajectory(x[idx], ts)
    full = solve(list(range(B)))
    how, groups = regroup(ctx, B)
    for gr in groups: ctx.close(solve(gr), full[:, gr], 1e-10, 'sde', f"{how} {gr}")
    ctx.key(scheme, iface, f.kind, d, B, kind, how)


@family(quick=80, thorough=2000)
def shooting(ctx):
    "multiple shooting layers"
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2])), many(rng, rng.choice([2, 3, 5]))
    n = rng.randint(4, 8)
    ts = torch.linspace(0, rng.uniform(.5, 1.2), n, dtype=torch.float64)
    f = make_field(ctx, d, ctx.rng.choice(FIELDS))
    solver = rng.choice(['zero', 'zero', 'backward'])
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    it = rng.randint(1, n)
    ctx.desc(solver=solver, field=f.kind, d=d, B=B, n=n, maxiter=it)
    how, full = compare(ctx, lambda z: odeint_mshooting(f, z, ts, solver, fine_steps=3, maxiter=it)[1].detach(), x, 0, 1e-9, f"shooting_{solver}")
    ctx.key(solver, f.kind, d, B, n, it, how)
