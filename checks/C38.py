"""C38: invariance of solves under changes of units, sign, layout and time origin."""
import copy
import torch
import torch.nn as nn
from lib import ref
from lib.core import family
from lib.fields import make_field, grid, KINDS, many, wide
from lib.grads import make_net, loss_of, grads, trainable
from lib.trace import StepLog
from torchdyn.numerics import odeint, sdeint, odeint_symplectic, odeint_mshooting
from torchdyn.numerics.odeint import odeint_hybrid
from torchdyn.numerics.solvers.ode import str_to_solver, AsynchronousLeapfrog
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingProblem
from torchdyn.core.defunc import SDEFunc

PROPERTY = 'C38'
RULE = ("pairs of solves of one problem written in two ways: state (and absolute tolerance) multiplied by a positive or negative power of two between 2^-40 and 2^40, time multiplied by a power of two, time origin "
        "moved (autonomous fields), state laid out in another shape or with its entries permuted, loss multiplied; every kind of solve; the rows, times and gradients of one must be those of the other, transformed; "
        "key = kind of solve, transformation, field, magnitude")
ASSUMPTIONS = ['finite double precision values without under- or overflow', 'adaptive solves: absolute tolerance in the units of the state, time units unchanged (the first trial step has absolute thresholds)']
FIXED, ADAPT = ['euler', 'midpoint', 'rk4'], ['dopri5', 'tsit5']
GK = ['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter', 'clustered', 'geometric']

TAME = [k for k in KINDS if k != 'logistic']  # backwards in time it may explode


class Map:
    "linear change of state variables y = to(x), with the field and everything else carried over"
    def __init__(self, name, to, back, mag=1.): self.name, self.to, self.back, self.mag = name, to, back, mag
    def field(self, f): return lambda t, y, *a: self.to(f(t, self.back(y)))


def units(ctx, lo=-40, hi=40):
    k = ctx.rng.randint(lo, hi)
    c = ctx.rng.choice([1., 1., -1.]) * 2. ** k
    return Map(f"{'-' if c < 0 else ''}2^{k}", lambda x: x * c, lambda y: y / c, abs(c))


def layout(ctx, shape):
    "another shape with the same entries in the same order"
    n, dims = torch.Size(shape).numel(), []
    r = n
    for _ in range(ctx.rng.randint(1, 4)):
        d = ctx.rng.choice([k for k in range(1, r + 1) if r % k == 0])
        dims.append(d)
        r //= d
    dims.append(r)
    return Map(f"{tuple(shape)}->{tuple(dims)}", lambda x: x.reshape(*x.shape[:x.dim() - len(shape)], *dims), lambda y: y.reshape(*y.shape[:y.dim() - len(dims)], *shape))


def permuted(ctx, shape):
    axes = [a for a in range(-len(shape), 0)]
    perms = {a: torch.tensor(ctx.rng.sample(range(shape[a]), shape[a])) for a in axes}
    def ap(x, inv):
        for a, p in perms.items(): x = x.index_select(x.dim() + a, torch.argsort(p) if inv else p)
        return x
    return Map('permuted', lambda x: ap(x, False), lambda y: ap(y, True))


def change(ctx, shape):
    k = ctx.rng.choice(['units', 'units', 'units', 'layout', 'permuted'])
    return k, units(ctx) if k == 'units' else layout(ctx, shape) if k == 'layout' else permuted(ctx, shape)


def same(ctx, kind, a, b, m, tol, what):
    "a: result in the original variables; b: in the new ones"
    ctx.close(m.back(b), a, tol, kind, f"{what} under {m.name}")


SHAPES = [(1, 1), (2,), (3, 2), (2, 3, 2), (1, 4), (5, 1), (4, 2), (40, 2), (2, 18)]


@family(quick=500, thorough=9000)
def solves(ctx):
    rng = ctx.rng
    shape = rng.choice(SHAPES)
    d = shape[-1]
    kind, m = change(ctx, shape)
    name = rng.choice(FIXED + ADAPT * 3 + ['hyper', 'alf', 'alf', 'alf', 'dense'])
    f = make_field(ctx, d, kind=rng.choice(TAME))
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    ts, gk, rev = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 2))
    tol = 10 ** rng.uniform(-9, -2)
    ctx.desc(solve=name, change=m.name, field=f.kind, shape=shape, grid=gk, reverse=rev, tol=tol)
    steps = []
    def run(f, x, mag):
        if name == 'alf':
            class F(nn.Module):
                order = 1
                def forward(s, t, x): return f(t, x)
            return odeint_symplectic(F(), torch.cat([x, f(ts[0], x)], -1), ts, AsynchronousLeapfrog(dtype=torch.float64))[1][..., :x.shape[-1]]
        if name == 'hyper':
            s = rng.choice([HyperEuler, HyperMidpoint, HyperRungeKutta4]) if not steps else steps[0]
            steps.append(s)
            return odeint(f, x, ts, s(lambda t, x: f(t + .1, x), torch.float64))[1]
        s = str_to_solver('dopri5' if name == 'dense' else name, torch.float64)
        log = StepLog(s)
        kw = dict(atol=tol * mag, rtol=tol) if name not in FIXED else {}
        y = odeint(f, x, ts, s, interpolator='4th' if name == 'dense' else None, **kw)[1]
        steps.append(len(log.ev))
        return y
    a, b = run(f, x, 1.), run(m.field(f), m.to(x), m.mag)
    if not torch.isfinite(a).all() or a.abs().max() > 1e3: return
    # the only rounding that differs is that of sums in another order
    eps = 1e-9
    if name in ADAPT + ['dense'] and steps[0] != steps[1]:
        if kind == 'units': return ctx.fail('units', f"{steps[0]} steps become {steps[1]} in units of {m.name}")
        eps = 1e-9 + 100 * tol
    same(ctx, kind, a, b, m, eps, f"rows of {name}")
    ctx.ev('rows', len(ts))
    ctx.key(name, m.name, f.kind, gk, rev)


@family(quick=120, thorough=3000)
def time(ctx):
    "units of time (fixed-step solves) and its origin (autonomous fields, any solve)"
    rng = ctx.rng
    shape = rng.choice(SHAPES)
    mode = rng.choice(['unit', 'origin', 'origin'])
    name = rng.choice(FIXED + ['alf', 'mszero'] if mode == 'unit' else FIXED + ADAPT * 3 + ['dense'])
    kinds = ['linauto', 'tanhauto'] if mode == 'origin' or name == 'mszero' else None
    f = make_field(ctx, shape[-1], kind=rng.choice(kinds or TAME))
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    ts, gk, rev = grid(ctx, kind='even' if name == 'mszero' else rng.choice(['even', 'uneven', 'two', 'jitter', 'clustered', 'geometric']), T=rng.uniform(.3, 2), reverse=False if name == 'mszero' else None)
    tol = 10 ** rng.uniform(-9, -3)
    s, off = 2. ** rng.randint(-30, 30), rng.choice([1, -1]) * 2. ** rng.randint(-3, 12)
    if mode == 'unit': g, tb = (lambda t, x: f(t / s, x) / s), ts * s
    else: g, tb = f, ts + off
    steps = []
    def run(f, ts):
        if name == 'alf':
            class F(nn.Module):
                order = 1
                def forward(s, t, x): return f(t, x)
            return odeint_symplectic(F(), torch.cat([x, f(ts[0], x)], -1), ts, AsynchronousLeapfrog(dtype=torch.float64))[1][..., :x.shape[-1]]
        if name == 'mszero': return odeint_mshooting(f, x, ts, 'mszero', fine_steps=3, maxiter=2)[1]
        sol = str_to_solver('dopri5' if name == 'dense' else name, torch.float64)
        log = StepLog(sol)
        y = odeint(f, x, ts, sol, interpolator='4th' if name == 'dense' else None, **(dict(atol=tol, rtol=tol) if name not in FIXED else {}))[1]
        steps.append(len(log.ev))
        return y
    ctx.desc(solve=name, mode=mode, s=s, off=off, field=f.kind, shape=shape, grid=gk, reverse=rev, tol=tol)
    a, b = run(f, ts), run(g, tb)
    if not torch.isfinite(a).all() or a.abs().max() > 1e3: return
    eps = 1e-9 if mode == 'unit' else 1e-9 + 1e-13 * abs(off) * 100
    if len(steps) == 2 and steps[0] != steps[1]: eps += 100 * tol
    ctx.close(b, a, eps, 'time_' + mode, f"rows of {name}: time {'units x ' + str(s) if mode == 'unit' else 'origin ' + str(off)}")
    ctx.ev('rows', len(ts))
    ctx.key(name, mode, f.kind, gk, rev, s if mode == 'unit' else off)


@family(quick=80, thorough=2000)
def others(ctx):
    "stochastic, hybrid and multiple-shooting solves"
    rng = ctx.rng
    how = rng.choice(['sde', 'sde', 'hybrid', 'mszero', 'msbackward'])
    d, B = wide(rng, rng.randint(1, 3)), many(rng, rng.randint(1, 4))
    m = units(ctx) if how == 'hybrid' or rng.random() < .7 else permuted(ctx, (B, d))
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    ts, gk, _ = grid(ctx, kind=rng.choice(GK) if how in ('sde', 'hybrid') else 'even', T=rng.uniform(.3, 1.5), reverse=False)
    f = make_field(ctx, d, kind=rng.choice(['linauto', 'tanhauto'] if how[:2] == 'ms' else TAME))
    ctx.desc(solve=how, change=m.name, field=f.kind, grid=gk, batch=B, dim=d)
    if how == 'sde':
        name = rng.choice(['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich'])
        st = 'stratonovich' if name in ('eulerHeun', 'milstein_stratonovich') else 'ito'
        w = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
        bm = lambda s, t: w * (t - s) + torch.sin(w * 7 * t) - torch.sin(w * 7 * s)
        g = lambda t, x: .5 * torch.sin(x + t) + .2 * x
        perm = m.name == 'permuted'
        bm2 = (lambda s, t: m.to(bm(s, t))) if perm else bm
        mk = lambda f, g: SDEFunc(f, g, noise_type='diagonal', sde_type=st)
        a = sdeint(mk(f, g), x, ts, name, bm)[1]
        b = sdeint(mk(m.field(f), m.field(g)), m.to(x), ts, name, bm2)[1]
        how += name
    elif how == 'hybrid':
        th, i = rng.uniform(.1, .5), rng.randrange(d)
        log = []
        class Cb:
            def __init__(s, m): s.m = m
            def check_event(s, t, y): return bool(s.m.back(y)[..., i].max() > th)
            def jump_map(s, t, y):
                log.append(float(t))
                z = s.m.back(y).clone()
                z[..., i] = -1
                return s.m.to(z)
        one = Map('id', lambda x: x, lambda x: x)
        def g(t, x):
            y = f(t, x)
            return torch.cat([y[..., :i], 1 + .5 * torch.tanh(y[..., i:i + 1]), y[..., i + 1:]], -1)
        x[:, i] = -x[:, i].abs()
        s, tol, et = rng.choice(ADAPT), 10 ** -rng.uniform(3, 7), 10 ** -rng.uniform(2, 6)
        ta, a = odeint_hybrid(g, x, ts, 100, str_to_solver(s, torch.float64), [Cb(one)], atol=tol, rtol=tol, event_tol=et)
        tb, b = odeint_hybrid(m.field(g), m.to(x), ts, 100, str_to_solver(s, torch.float64), [Cb(m)], atol=tol * m.mag, rtol=tol, event_tol=et)
        ctx.close(tb, ta, 1e-9, 'hybrid_times', f"times under {m.name}")
        ctx.ev('events', len(log))
    else:
        it = rng.randint(1, 4)
        a = odeint_mshooting(f, x, ts, how, fine_steps=3, maxiter=it)[1]
        b = odeint_mshooting(m.field(f), m.to(x), ts, how, fine_steps=3, maxiter=it)[1]
    if not torch.isfinite(a).all() or a.abs().max() > 1e3: return
    same(ctx, how[:3], a, b, m, 1e-9, f"rows of {how}")
    ctx.ev('rows', len(a))
    ctx.key(how, m.name, f.kind, gk, B, d)


class Scaled(nn.Module):
    "c * net(t, x / c) with the parameters of net"
    def __init__(self, net, c): super().__init__(); self.net, self.c = net, c
    def forward(self, t, x, args={}): return self.c * self.net(t, x / self.c)


@family(quick=80, thorough=2000)
def gradients(ctx):
    "back-propagated solves (autograd: exactly; adjoints with both tolerances in the new units: to their accuracy), loss in other units"
    rng = ctx.rng
    d, B = wide(rng, rng.randint(1, 3)), many(rng, rng.randint(1, 4))
    sens = rng.choice(['autograd', 'autograd', 'adjoint', 'interpolated_adjoint'])
    name = rng.choice(FIXED + ADAPT if sens == 'autograd' else ADAPT)
    net = make_net(ctx, d, kind=rng.choice(['mlp', 'auto', 'bilinear']))
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    if sens == 'interpolated_adjoint': ts, gk, rev = grid(ctx, kind='even', n=40, T=rng.uniform(.3, .8))
    else: ts, gk, rev = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 1.5), n=rng.randint(2, 6))
    tol = 10 ** rng.uniform(-8, -4) if sens == 'autograd' else 1e-9
    k = rng.randint(-20, 20)
    c = 2. ** k
    lk = rng.randint(-30, 30) if sens == 'autograd' else k
    lc = 2. ** lk
    lname, loss = loss_of(ctx, len(ts), x.shape)
    cls = rng.choice([NeuralODE, ODEProblem])
    def run(f, x, c, lc):
        x = x.clone().requires_grad_(True)
        P = trainable(net)
        m = cls(f, str_to_solver(name, torch.float64), sensitivity=sens, atol=tol * c, rtol=tol, atol_adjoint=1e-9 * c, rtol_adjoint=1e-9)
        y = m(x, ts)[1]
        # loss in the original units of the state, multiplied by lc
        g = grads(lc * loss(y / c), [x] + P)
        return y / c, [g[0] * c / lc] + [v / lc for v in g[1:]]
    ctx.desc(model=cls.__name__, sensitivity=sens, solver=name, field=net.kind, state_units=c, loss_units=lc, grid=gk, reverse=rev, loss=lname)
    ya, ga = run(net, x, 1., 1.)
    # adjoint state (loss / state) in units matching those of the state: loss in squared units
    yb, gb = run(Scaled(net, c), x * c, c, lc if sens == 'autograd' else c * c)
    ctx.close(yb, ya, 1e-9, 'grad_rows', f"rows with the state in units of {c}")
    s = max(float(v.abs().max()) for v in ga)
    if s > 1e6: return
    eps = {'autograd': 1e-8, 'adjoint': 1e-4, 'interpolated_adjoint': 1e-3}[sens]
    for p, q in zip(gb, ga): ctx.close(p, q, eps, 'grad_' + sens, f"gradient with state in units of {c}, loss of {lc}", scale=s)
    ctx.ev('gradients', len(ga))
    if s > 1e-9: ctx.key(cls.__name__, sens, name, net.kind, k, lk, gk, rev)
