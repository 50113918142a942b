"""A zoo of small problems, one per kind of solve or model: (label, module, state, grid). The module is called as module(x, ts)."""
import torch
import torch.nn as nn
from lib.fields import grid, many, wide
from lib.grads import make_net
from torchdyn.numerics import odeint, sdeint, odeint_symplectic, odeint_mshooting, odeint_hybrid
from torchdyn.numerics.solvers.ode import str_to_solver, AsynchronousLeapfrog
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.numerics.solvers.root import root_find
from torchdyn.numerics.utils import EventCallback
from torchdyn.core import NeuralODE, NeuralSDE, ODEProblem, MultipleShootingLayer, MultipleShootingProblem
from torchdyn.core.defunc import SDEFunc
from torchdyn.models import CNF, HNN, LNN, GNF
from torchdyn.nn import DepthCat, DataControl, GalLinear, GalConv2d, Fourier, Polynomial, Augmenter

F64 = torch.float64
GK = ['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter']
FIXED = ['euler', 'midpoint', 'rk4']


class XNet(nn.Module):
    def __init__(self, net): super().__init__(); self.net = net
    def forward(self, x): return self.net(x)


class Hyp(nn.Module):
    def __init__(self, ctx, d):
        super().__init__()
        self.W, self.b = nn.Parameter(torch.randn(d, d, generator=ctx.gen, dtype=F64)), nn.Parameter(torch.randn(d, generator=ctx.gen, dtype=F64))
    def forward(self, t, x): return torch.tanh(x @ self.W + self.b * torch.as_tensor(t).to(x.dtype))


class Call(nn.Module):
    "a module and the way it is solved"
    def __init__(self, mods, fn):
        super().__init__()
        self.mods, self.fn = nn.ModuleList(mods), fn
    def forward(self, x, ts): return self.fn(self.mods, x, ts)


def lin(ctx, *sizes):
    "linear layers with tanh in between, initialised in double precision"
    ls = []
    for a, b in zip(sizes[:-1], sizes[1:]):
        l = nn.Linear(a, b).double()
        with torch.no_grad():
            l.weight.copy_(torch.randn(b, a, generator=ctx.gen, dtype=F64) / a ** .5)
            l.bias.copy_(torch.randn(b, generator=ctx.gen, dtype=F64) * .5)
        ls += [l, nn.Tanh()]
    return ls[:-1]


def wrapped(ctx, f, solver=None, sens=None, **kw):
    rng = ctx.rng
    solver = solver or rng.choice(FIXED)
    sens = sens or rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    if rng.random() < .3: solver = str_to_solver(solver, F64)
    cls = NeuralODE if kw else rng.choice([NeuralODE, ODEProblem])
    return cls(f, solver, sensitivity=sens, solver_adjoint=rng.choice([None, 'rk4']), **kw), f"{cls.__name__}/{sens}"


def out(y): return y[1] if isinstance(y, tuple) else y
def through(ms, x, ts): return out(ms[0](x, ts))


ZOO = ['odeint', 'wrapped', 'problem', 'shooting', 'depth', 'control', 'galerkin', 'cnf', 'hnn', 'lnn', 'gnf', 'order2', 'augmented', 'hyper', 'alf', 'sde', 'nsde', 'root', 'args']


MORE = ['adaptive', 'dense', 'adaptive_wrapped', 'trajectory', 'hybrid', 'conv']


class Reset(EventCallback):
    "fires while the first coordinate of the first sample is above its level; brings it down"
    def __init__(self, c, a):
        super().__init__()
        self.c, self.a = c, a
    def check_event(self, t, x): return x[0, 0] > self.c
    def jump_map(self, t, x): return torch.cat([torch.cat([x[:1, :1] - self.a - x[:1, :1].relu(), x[:1, 1:] * .5], 1), x[1:]], 0)
    __hash__ = nn.Module.__hash__


def zoo(ctx, kind, n=None):
    "-> (label, Call in double precision, state, grid)"
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([1, 2, 4]))
    if kind in ('hnn', 'lnn', 'order2'): d = rng.choice([2, 4])
    x = torch.randn(B, d, generator=ctx.gen, dtype=F64)
    ts, gk, rev = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 1.2), n=n or rng.randint(3, 6), reverse=False if kind in ('sde', 'nsde', 'args') else None)
    label = kind
    if kind == 'odeint':
        s = rng.choice(FIXED)
        if rng.random() < .4: s = str_to_solver(s, F64)
        m = Call([make_net(ctx, d)] + ([] if isinstance(s, str) else [s]), lambda ms, x, ts: odeint(ms[0], x, ts, s if isinstance(s, str) else ms[1])[1])
    elif kind in ('wrapped', 'problem'):
        w, label = wrapped(ctx, make_net(ctx, d))
        m = Call([w], through)
    elif kind == 'shooting':
        ts = ts[0] + (ts[-1] - ts[0]) * torch.arange(len(ts), dtype=F64) / (len(ts) - 1)
        name, fs, k = rng.choice(['zero', 'backward']), rng.randint(2, 5), rng.randint(1, 5)
        f = make_net(ctx, d, kind='auto')
        if rng.random() < .5:
            w = rng.choice([MultipleShootingLayer, MultipleShootingProblem])(f, name, sensitivity=rng.choice(['autograd', 'adjoint']), maxiter=k, fine_steps=fs, solver_adjoint=rng.choice(['rk4', 'euler']))
            m = Call([w], through)
        else: m = Call([f], lambda ms, x, ts: odeint_mshooting(ms[0], x, ts, name, fine_steps=fs, maxiter=k)[1])
        label = f"{kind}/{name}"
    elif kind in ('depth', 'control', 'galerkin', 'augmented'):
        if kind == 'depth': net = nn.Sequential(DepthCat(1), *lin(ctx, d + 1, d + 3), nn.Tanh(), DepthCat(1), *lin(ctx, d + 4, d))
        elif kind == 'control': net = nn.Sequential(DataControl(), *lin(ctx, 2 * d, d + 2, d))
        elif kind == 'augmented': net = nn.Sequential(*lin(ctx, d + 2, d + 3, d + 2))
        else:
            g = GalLinear(d, d, expfunc=rng.choice([Fourier, Polynomial])(rng.choice([2, 3]))).double()
            with torch.no_grad(): g.coeffs.copy_(torch.randn(g.coeffs.shape, generator=ctx.gen, dtype=F64) * .5)
            net = nn.Sequential(DepthCat(1), g, nn.Tanh())
        w = NeuralODE(XNet(net) if kind != 'augmented' else net, rng.choice(FIXED), sensitivity=rng.choice(['autograd', 'adjoint']))
        m = Call([Augmenter(augment_dims=2), w] if kind == 'augmented' else [w], lambda ms, x, ts: out(ms[-1](ms[0](x) if len(ms) > 1 else x, ts)))
    elif kind == 'cnf':
        x = torch.cat([torch.zeros(B, 1, dtype=F64), x], 1)
        w = NeuralODE(CNF(nn.Sequential(*lin(ctx, d, d + 2, d))), rng.choice(FIXED), sensitivity='autograd')
        m = Call([w], through)
    elif kind in ('hnn', 'lnn', 'gnf'):
        E = nn.Sequential(*lin(ctx, d, d + 3, 1))
        if kind == 'lnn':
            class Reg(nn.Module):
                def __init__(s): super().__init__(); s.E = E
                def forward(s, x): return .1 * s.E(x) + (x[..., d // 2:] ** 2).sum(-1, keepdim=True)
            E2 = Reg()
        else: E2 = E
        m = Call([NeuralODE(dict(hnn=HNN, lnn=LNN, gnf=GNF)[kind](E2), rng.choice(FIXED), sensitivity='autograd')], through)
    elif kind == 'order2':
        m = Call([NeuralODE(nn.Sequential(*lin(ctx, d, d + 2, d // 2)), rng.choice(FIXED), order=2, sensitivity=rng.choice(['autograd', 'adjoint']))], through)
    elif kind == 'hyper':
        s = rng.choice([HyperEuler, HyperMidpoint, HyperRungeKutta4])(Hyp(ctx, d), F64)
        m = Call([make_net(ctx, d), s], lambda ms, x, ts: odeint(ms[0], x, ts, ms[1])[1])
    elif kind == 'alf':
        class V(nn.Module):
            order = 1
            def __init__(s): super().__init__(); s.net = make_net(ctx, d, kind='mlp')
            def forward(s, t, x): return s.net(t, x)
        s = AsynchronousLeapfrog(stepping_class='fixed', dtype=F64)
        m = Call([V(), s], lambda ms, x, ts: odeint_symplectic(ms[0], torch.cat([x, .5 * x], -1), ts, ms[1])[1])
    elif kind in ('sde', 'nsde'):
        name = rng.choice(['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich'])
        st = 'stratonovich' if name in ('eulerHeun', 'milstein_stratonovich') else 'ito'
        w = torch.randn(B, d, generator=ctx.gen, dtype=F64)
        bm = lambda a, b: ((b - a) + torch.sin(5 * b) - torch.sin(5 * a)) * w.to(torch.as_tensor(a))
        f, g = make_net(ctx, d), make_net(ctx, d, kind='mlp')
        if kind == 'sde': m = Call([f, g], lambda ms, x, ts: sdeint(SDEFunc(lambda t, y: ms[0](t, y), lambda t, y: .3 * ms[1](t, y), noise_type='diagonal', sde_type=st), x, ts, name, bm)[1])
        else: m = Call([NeuralSDE(f, g, solver=name, sde_type=st, bm=bm)], through)
        label = f"{kind}/{name}"
    elif kind == 'root':
        name, k = rng.choice(['broyden', 'broyden_fast']), rng.randint(1, 6)
        f = make_net(ctx, d, kind=rng.choice(['auto', 'mlp']))
        m = Call([f], lambda ms, x, ts: root_find(lambda z: z * 3 + torch.tanh(ms[0](ts[0], z)), x, alpha=.7, f_tol=-1., maxiters=k, method=name, search_method='none')[0][None].detach() if True else None)
    elif kind in ('adaptive', 'dense'):
        s, tol = rng.choice(['dopri5', 'tsit5']) if kind == 'adaptive' else 'dopri5', 10. ** -rng.randint(3, 8)
        kw = dict(interpolator='4th') if kind == 'dense' else dict(return_all_eval=rng.random() < .3)
        m = Call([make_net(ctx, d)], lambda ms, x, ts: odeint(ms[0], x, ts, s, atol=tol, rtol=tol, **kw)[1])
    elif kind == 'adaptive_wrapped':
        tol = 10. ** -rng.randint(3, 6)
        w, label = wrapped(ctx, make_net(ctx, d), solver=rng.choice(['dopri5', 'tsit5']), atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
        m = Call([w], through)
    elif kind == 'trajectory':
        w = NeuralODE(make_net(ctx, d), rng.choice(FIXED + ['dopri5', 'tsit5']))
        m = Call([w], lambda ms, x, ts: ms[0].trajectory(x, ts))
    elif kind == 'hybrid':
        ts = torch.linspace(0, rng.uniform(1, 2), n or rng.randint(3, 6), dtype=F64)
        f = make_net(ctx, d)
        drift = torch.zeros(d, dtype=F64)
        drift[0] = 2.
        cb, x = Reset(rng.uniform(.2, .6), rng.uniform(.5, 1.)), torch.cat([torch.full((B, 1), -.3, dtype=F64), x[:, 1:]], 1)
        m = Call([f], lambda ms, x, ts: odeint_hybrid(lambda t, y: .3 * ms[0](t, y) + drift, x, ts, 50, 'tsit5', [cb], atol=1e-6, rtol=1e-6, event_tol=1e-5)[1])
        gk, rev = 'even', False
    elif kind == 'conv':
        c = rng.choice([1, 2])
        x = torch.randn(B, c, 4, 4, generator=ctx.gen, dtype=F64)
        g = GalConv2d(c, c, 3, padding=1).double() if rng.random() < .5 else nn.Conv2d(c, c, 3, padding=1).double()
        with torch.no_grad():
            for p in g.parameters(): p.copy_(torch.randn(p.shape, generator=ctx.gen, dtype=F64) * .3)
        net = nn.Sequential(DepthCat(1), g, nn.Tanh()) if isinstance(g, GalConv2d) else nn.Sequential(g, nn.Tanh())
        m = Call([NeuralODE(net, rng.choice(FIXED), sensitivity=rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']))], through)
    else:
        w, label = wrapped(ctx, make_net(ctx, d), sens='autograd')
        m = Call([w], lambda ms, x, ts: out(ms[0](x, ts, args={})))
    return label, m, x, ts, (gk, rev, d, B)


def differentiable(kind): return kind not in ('root',)
