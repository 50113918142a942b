"""C37: benchmark systems."""
import copy
import math
import numpy as np
import torch
from lib import ref
from lib.core import family
from torch.distributions import Uniform
from torchdyn.numerics import odeint
from torchdyn.numerics.systems import (Lorenz, VanDerPol, ODEProblem2, ODEProblem3, ODEProblem4, SineSystem, LTISystem, FourierSystem, StiffFourierSystem, CoupledFourierSystem,
                                       MatMulSystem, MatMulBoundedSystem)

PROPERTY = 'C37'
RULE = ("every benchmark system at random times and states of several batch shapes: values against the equations written out element by element, with scalar and vector times, before and after re-randomisation; "
        "solutions against closed forms and invariants (equilibria, energy balance, symmetry, contraction of volume); key = system, dimension, batch shape, number of times")
ASSUMPTIONS = ['random systems in single precision, as they are created']
AUTO = ['Lorenz', 'VanDerPol', 'P2', 'P3', 'P4', 'Sine']


def values(name, t, v, alpha=10.):
    "the right-hand side for one state, in plain python"
    if name == 'Lorenz':
        a, b, c = v
        return [10 * (b - a), a * (28 - c) - b, a * b - 8 * c / 3]
    if name == 'VanDerPol': return [v[1], alpha * (1 - v[0] ** 2) * v[1] - v[0]]
    if name == 'P2': return [.5 * u for u in v]
    if name == 'P3': return [-.1 * u for u in v]
    if name == 'P4':
        a, b, c = v
        return [b * (c - 1 + a * a) + .87 * a, a * (3 * c + 1 - a * a) + .87 * b, -2 * c * (1.1 + a * b)]
    return [math.sin(t)] * len(v)


@family(quick=200, thorough=4000)
def equations(ctx):
    rng = ctx.rng
    name = rng.choice(AUTO)
    alpha = rng.choice([10, .5, rng.uniform(0, 30)])
    s = dict(Lorenz=Lorenz, VanDerPol=lambda: VanDerPol(alpha), P2=ODEProblem2, P3=ODEProblem3, P4=ODEProblem4, Sine=SineSystem)[name]()
    d = dict(Lorenz=3, VanDerPol=2, P4=3).get(name, rng.randint(1, 5))
    shape = rng.choice([(), (1,), (4,), (3, 2), (2, 1, 3)])
    x = torch.randn(*shape, d, generator=ctx.gen, dtype=torch.float64) * rng.choice([.1, 1., 20.])
    t = torch.tensor(rng.uniform(-5, 5), dtype=torch.float64)
    keep = x.clone()
    y = s(t, x)
    ctx.desc(system=name, shape=shape, d=d, alpha=alpha)
    ctx.check(y.shape == x.shape and y.dtype == x.dtype, 'shape', f"{tuple(y.shape)} {y.dtype} for {tuple(x.shape)}", stop=True)
    ctx.check(torch.equal(x, keep), 'argument', 'the state was modified')
    e = torch.tensor([values(name, float(t), v, alpha) for v in x.reshape(-1, d).tolist()], dtype=torch.float64).reshape(x.shape)
    ctx.close(y, e, 1e-12, 'equation', f"right-hand side of {name}")
    if name == 'VanDerPol':
        n = s.nfe
        s(t, x), s(t, x)
        ctx.check(n == 1 and s.nfe == 3, 'nfe', f"{s.nfe} evaluations counted of 3")
    ctx.ev('evaluations')
    ctx.key(name, shape, d)


@family(quick=120, thorough=2500)
def solutions(ctx):
    "what solving them must give"
    rng = ctx.rng
    name = rng.choice(AUTO)
    ts = torch.linspace(0, rng.uniform(.2, 1.), rng.randint(2, 8)).double() + (rng.uniform(-2, 2) if rng.random() < .5 else 0)
    if rng.random() < .3 and name not in ('Lorenz', 'P4', 'VanDerPol'): ts = ts.flip(0)
    solver = rng.choice(['dopri5', 'tsit5'])
    kw = dict(atol=1e-9, rtol=1e-9)
    B = rng.randint(1, 4)
    ctx.desc(system=name, solver=solver, n=len(ts), B=B)
    R = lambda d, s=1.: s * torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    if name in ('P2', 'P3'):
        x = R(rng.randint(1, 4))
        y = odeint((ODEProblem2 if name == 'P2' else ODEProblem3)(), x, ts, solver, **kw)[1]
        ctx.close(y, torch.exp((.5 if name == 'P2' else -.1) * (ts - ts[0]))[:, None, None] * x, 1e-6, 'closed_form', name)
    elif name == 'Sine':
        x = R(rng.randint(1, 4))
        y = odeint(SineSystem(), x, ts, solver, **kw)[1]
        ctx.close(y, x + (torch.cos(ts[0]) - torch.cos(ts))[:, None, None], 1e-6, 'closed_form', name)
    elif name == 'Lorenz':
        s = Lorenz()
        c = math.sqrt(8 / 3 * 27)
        eq = torch.tensor([[0., 0., 0.], [c, c, 27.], [-c, -c, 27.]], dtype=torch.float64)
        ctx.close(s(ts[0], eq), torch.zeros_like(eq), 1e-12, 'equilibrium', 'fixed points', scale=100.)
        x = R(3, 5.)
        flip = torch.tensor([-1., -1., 1.], dtype=torch.float64)
        ctx.close(s(ts[0], x * flip), s(ts[0], x) * flip, 1e-12, 'symmetry', 'rotation by pi about the third axis')
        J = torch.autograd.functional.jacobian(lambda v: s(ts[0], v), x[0])
        ctx.close(torch.trace(J), torch.tensor(-(10 + 1 + 8 / 3), dtype=torch.float64), 1e-10, 'divergence', 'volume contraction')
        y = odeint(s, x, ts, solver, **kw)[1]
        g = lambda t, v: torch.stack([10 * (v[..., 1] - v[..., 0]), v[..., 0] * (28 - v[..., 2]) - v[..., 1], v[..., 0] * v[..., 1] - 8 / 3 * v[..., 2]], -1)
        ctx.close(y, ref.truth(g, x, ts), 1e-3, 'solution', name)
    elif name == 'VanDerPol':
        a = rng.uniform(0, 3)
        s = VanDerPol(a)
        x = R(2)
        g = lambda t, v: torch.stack([v[..., 1], a * (1 - v[..., 0] ** 2) * v[..., 1] - v[..., 0]], -1)
        ctx.close(odeint(s, x, ts, solver, **kw)[1], ref.truth(g, x, ts), 1e-5, 'solution', name)
    else:
        x = R(3, .3)
        g = lambda t, v: torch.stack([v[..., 1] * (v[..., 2] - 1 + v[..., 0] ** 2) + .87 * v[..., 0], v[..., 0] * (3 * v[..., 2] + 1 - v[..., 0] ** 2) + .87 * v[..., 1],
                                      -2 * v[..., 2] * (1.1 + v[..., 0] * v[..., 1])], -1)
        ctx.close(odeint(ODEProblem4(), x, ts, solver, **kw)[1], ref.truth(g, x, ts), 1e-4, 'solution', name)
    ctx.ev('solves')
    ctx.key(name, solver, len(ts), B)


def written(s, t):
    "the forcing written out, in double precision"
    A, w, p = (v.double().numpy() for v in (s.A, s.w, s.phi))
    out = np.zeros(A.shape[0])
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            for k in range(2): out[i] += A[i, j, k] * math.cos(w[i, j, k] * t + p[i, j, k])
    if hasattr(s, 'mixing_l'): out = s.mixing_l.weight.detach().double().numpy() @ out + s.mixing_l.bias.detach().double().numpy()
    return torch.tensor(out)


@family(quick=120, thorough=2500)
def fourier(ctx):
    "sums of harmonics: values, scalar against vector times, random parameters within their distributions, re-randomisation"
    rng = ctx.rng
    C, lo, hi = rng.choice([(FourierSystem, 2, 20), (StiffFourierSystem, 20, 100), (CoupledFourierSystem, 2, 20)])
    d = rng.randint(1, 4)
    la, lp, lw = rng.uniform(.5, 10), rng.uniform(.1, 3), rng.uniform(.5, 20)
    torch.manual_seed(rng.randrange(2 ** 30))
    default = rng.random() < .3
    if default: la, lp, lw = 10, 1, 20
    s = C(dim=d) if default else C(d, Uniform(-la, la), Uniform(-lp, lp), Uniform(-lw, lw))
    ctx.desc(system=C.__name__, d=d, harmonics=int(s.n_harmonics))
    ctx.check(lo <= int(s.n_harmonics) < hi, 'harmonics', f"{int(s.n_harmonics)} harmonics")
    B = rng.randint(1, 4)
    x = torch.randn(B, d, generator=ctx.gen)
    for rnd in range(2):
        for n, v, l in (('A', s.A, la), ('phi', s.phi, lp), ('w', s.w, lw)):
            ctx.check(tuple(v.shape) == (d, int(s.n_harmonics), 2) and bool((v.abs() <= l).all()), 'parameters', f"{n} of shape {tuple(v.shape)}, up to {float(v.abs().max())} of {l}")
            ctx.check(d * int(s.n_harmonics) * 2 < 8 or float(v.std()) > .1 * l, 'parameters', f"{n} hardly varies")
        t = torch.tensor([rng.uniform(-2, 2) for _ in range(rng.randint(1, 5))])
        scale = float(s.A.abs().sum()) + 1
        rows = torch.stack([written(s, float(u)) for u in t])
        one = torch.cat([s(u, x) for u in t])
        ctx.close(one.double(), rows, 1e-5, 'equation', 'scalar times', scale=scale)
        many = s(t, x)
        ctx.check(tuple(many.shape) == (len(t), d), 'shape', f"{tuple(many.shape)} for {len(t)} times", stop=True)
        ctx.close(many.double(), rows, 1e-5, 'equation', 'vector of times', scale=scale)
        ctx.check(torch.equal(s(t[0], x), s(t[0], -3 * x)), 'state', 'the forcing depends on the state')
        if rnd == 0:
            old = [v.clone() for v in (s.A, s.phi, s.w)] + ([s.mixing_l.weight.detach().clone()] if hasattr(s, 'mixing_l') else [])
            s.randomize_parameters()
            new = [s.A, s.phi, s.w] + ([s.mixing_l.weight] if hasattr(s, 'mixing_l') else [])
            for a, b, n in zip(old, new, ('A', 'phi', 'w', 'mixing')): ctx.check(a.shape == b.shape and not torch.equal(a, b), 'randomise', f"{n} after randomize_parameters")
    if not hasattr(s, 'mixing_l') and C is FourierSystem:
        ts = torch.linspace(0, .5, rng.randint(2, 5))
        y = odeint(s, x, ts, 'rk4')[1]
        f = lambda t, v: written(s, float(t)) + 0 * v
        ctx.close(y.double(), ref.compose(ref.rk4, f, x.double(), ts.double()), 1e-4, 'solution', 'rk4', scale=scale)
    ctx.ev('evaluations', 2)
    ctx.key(C.__name__, d, int(s.n_harmonics), B)


@family(quick=80, thorough=1500)
def linear(ctx):
    "linear and neural systems: time-invariant, per sample, bounded where they say so, fresh parameters on request"
    rng = ctx.rng
    C = rng.choice([LTISystem, MatMulSystem, MatMulBoundedSystem])
    d = rng.randint(1, 5)
    torch.manual_seed(rng.randrange(2 ** 30))
    s = C(dim=d) if C is LTISystem or rng.random() < .5 else C(dim=d, hdim=rng.randint(2, 16))
    x = torch.randn(rng.randint(1, 5), d, generator=ctx.gen) * rng.choice([1., 10.])
    ctx.desc(system=C.__name__, d=d)
    for rnd in range(2):
        y = s(torch.tensor(0.3), x)
        ctx.check(tuple(y.shape) == tuple(x.shape), 'shape', f"{tuple(y.shape)}", stop=True)
        ctx.check(torch.equal(y, s(torch.tensor(-2.), x)), 'time', 'the system depends on time')
        ctx.close(torch.cat([s(0., v[None]) for v in x]), y, 1e-4, 'samples', 'one sample at a time', scale=float(y.abs().max()) + 1)
        if C is LTISystem:
            ctx.close(y, x @ s.l.weight.T + s.l.bias, 1e-5, 'equation', 'affine map')
            ts = torch.linspace(0, .5, 4)
            M = torch.zeros(d + 1, d + 1, dtype=torch.float64)
            M[:d, :d], M[:d, d] = s.l.weight.double(), s.l.bias.double()
            z = torch.cat([x.double(), torch.ones(len(x), 1, dtype=torch.float64)], 1)
            sol = torch.stack([z @ torch.matrix_exp(M * float(t)).T for t in ts])[..., :d]
            ctx.close(odeint(s, x, ts, 'dopri5', atol=1e-6, rtol=1e-6)[1].double(), sol, 1e-4, 'solution', 'matrix exponential', scale=float(sol.abs().max()) + 1)
        if C is MatMulBoundedSystem: ctx.check(bool((y.abs() <= 1).all()), 'bounded', f"values up to {float(y.abs().max())}")
        if rnd == 0:
            old = [p.detach().clone() for p in s.parameters()]
            s.randomize_parameters()
            new = list(s.parameters())
            ctx.check(len(old) == len(new) and all(a.shape == b.shape for a, b in zip(old, new)) and not all(torch.equal(a, b) for a, b in zip(old, new)), 'randomise', 'parameters after randomize_parameters')
    ctx.ev('evaluations', 2)
    ctx.key(C.__name__, d, len(x))
