"""C39: solves compose (stop and go on) and solve linear equations linearly."""
import torch
import torch.nn as nn
from lib import ref
from lib.core import family
from lib.fields import make_field, grid, KINDS, many, wide
from lib.grads import make_net, loss_of, grads, trainable
from torchdyn.numerics import odeint, sdeint, odeint_symplectic, odeint_mshooting
from torchdyn.numerics.odeint import odeint_hybrid
from torchdyn.numerics.solvers.ode import str_to_solver, AsynchronousLeapfrog, MSZero, MSBackward
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingProblem, NeuralSDE
from torchdyn.core.defunc import SDEFunc
from torchdyn.models import CNF

PROPERTY = 'C39'
RULE = ("a solve on a random grid against the chain of solves obtained by cutting the grid at random requested times, each started from the last row of the one before (hybrid: cut at jumps by j_span, and at times), for every kind of "
        "solve and interface, rows and gradients; and for fields linear in the state, a combination of initial conditions against the combination of solutions, and gradients against those at another initial condition; "
        "key = kind of solve, field, grid, cuts")
ASSUMPTIONS = ['adaptive solves: to tolerance times the sensitivity of the problem', 'hybrid: conditions false after their jump', 'no data control (its input is the start of a solve by definition)']
FIXED, ADAPT = ['euler', 'midpoint', 'rk4'], ['dopri5', 'tsit5']
TAME = [k for k in KINDS if k != 'logistic']
SMOOTH = [k for k in TAME if k != 'riccati']   # step size control presumes smooth fields
GK = ['even', 'uneven', 'offset', 'negative', 'cross', 'jitter', 'clustered', 'geometric', 'tight']
SHAPES = [(1, 1), (2,), (3, 2), (2, 3, 2), (1, 4), (5, 1), (4, 2), (40, 2), (2, 18)]


def cuts(rng, n):
    "positions of a random non-empty set of cuts of a grid of n points"
    return sorted(rng.sample(range(1, n - 1), rng.randint(1, min(n - 2, rng.choice([1, 2, n])))))


def chain(solve, x, ts, cs):
    "rows of the chained solves; `solve(x, ts)` -> rows"
    rows, c0 = None, 0
    for c in cs + [len(ts) - 1]:
        y = solve(x, ts[c0:c + 1])
        rows = y if rows is None else torch.cat([rows, y[1:]])
        x, c0 = y[-1], c
    return rows


def maker(ctx, name, f):
    "-> solve(x, ts) for a kind of solve with a fresh or a reused solver"
    rng = ctx.rng
    if name == 'alf':
        class F(nn.Module):
            order = 1
            def forward(s, t, x): return f(t, x)
        s = AsynchronousLeapfrog(dtype=torch.float64)
        return lambda x, ts: odeint_symplectic(F(), x, ts, s)[1]
    if name == 'hyper':
        s = rng.choice([HyperEuler, HyperMidpoint, HyperRungeKutta4])(lambda t, x: f(t + .1, x), torch.float64)
        return lambda x, ts: odeint(f, x, ts, s)[1]
    if rng.random() < .5:
        s = str_to_solver(name, torch.float64)
        return lambda x, ts: odeint(f, x, ts, s)[1]
    return lambda x, ts: odeint(f, x, ts, name)[1]


@family(quick=300, thorough=8000)
def fixed(ctx):
    rng = ctx.rng
    shape = rng.choice(SHAPES)
    d = shape[-1]
    name = rng.choice(FIXED + ['hyper', 'alf', 'ieuler'])
    wrap = rng.choice(['odeint', 'odeint', 'NeuralODE', 'ODEProblem', 'trajectory']) if name in FIXED else 'odeint'
    f = make_field(ctx, d, kind=rng.choice(TAME))
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    ts, gk, rev = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 2), n=rng.randint(3, 14) if name != 'ieuler' else 4)
    if len(ts) < 3: return
    if name == 'alf': x = torch.cat([x, f(ts[0], x)], -1)
    if wrap == 'odeint': solve = maker(ctx, name, f)
    else:
        class M(nn.Module):
            def forward(s, t, x): return f(t, x)
        m = (ODEProblem if wrap == 'ODEProblem' else NeuralODE)(M(), str_to_solver(name, torch.float64), sensitivity=rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']))
        solve = (lambda x, ts: m.trajectory(x, ts)) if wrap == 'trajectory' else (lambda x, ts: m(x, ts)[1])
    cs = cuts(rng, len(ts))
    ctx.desc(solve=name, wrap=wrap, field=f.kind, shape=shape, grid=gk, reverse=rev, n=len(ts), cuts=cs)
    a, b = solve(x, ts).detach(), chain(solve, x, ts, cs).detach()
    if not torch.isfinite(a).all() or a.abs().max() > 1e4: return
    # times accumulate roundings along a grid: a few 1e-16 of the largest time
    ctx.close(b, a, 2e-5 if name == 'ieuler' else 1e-11 * (1 + float(ts.abs().max())), 'fixed_' + name, f"rows of {wrap} {name} solved in {len(cs) + 1} pieces")
    ctx.ev('rows', len(ts))
    ctx.key(name, wrap, f.kind, gk, rev, len(ts), tuple(cs))


@family(quick=150, thorough=4000)
def adaptive(ctx):
    rng = ctx.rng
    shape = rng.choice(SHAPES)
    name = rng.choice(ADAPT + ['dense'])
    f = make_field(ctx, shape[-1], kind=rng.choice(SMOOTH))
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    ts, gk, rev = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 3), n=rng.randint(3, 10))
    if len(ts) < 3: return
    tol = 10 ** rng.uniform(-10, -3)
    kw = dict(atol=tol, rtol=tol, interpolator='4th' if name == 'dense' else None)
    s = str_to_solver('tsit5' if name == 'tsit5' else 'dopri5', torch.float64)
    solve = lambda x, ts: odeint(f, x, ts, s, **kw)[1]
    cs = cuts(rng, len(ts))
    ctx.desc(solve=name, field=f.kind, shape=shape, grid=gk, reverse=rev, n=len(ts), cuts=cs, tol=tol)
    a, b = solve(x, ts), chain(solve, x, ts, cs)
    if not torch.isfinite(a).all() or a.abs().max() > 1e3: return
    g = lambda t, x: f(t, x)
    amp = ref.amplification(g, x, ts, ctx)
    if amp > 1e3: return
    ctx.close(b, a, 60 * tol * amp + 1e-11, 'adaptive', f"rows of {name} solved in {len(cs) + 1} pieces", scale=1 + float(a.abs().max()))
    ctx.ev('rows', len(ts))
    ctx.key(name, f.kind, gk, rev, len(ts), tuple(cs))


@family(quick=120, thorough=3000)
def stochastic(ctx):
    rng = ctx.rng
    d, B = wide(rng, rng.randint(1, 3)), many(rng, rng.randint(1, 4))
    name = rng.choice(['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich'])
    st = 'stratonovich' if name in ('eulerHeun', 'milstein_stratonovich') else 'ito'
    f = make_field(ctx, d, kind=rng.choice(TAME))
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    ts, gk, _ = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 2), n=rng.randint(3, 10), reverse=False)
    if len(ts) < 3: return
    w = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    path = lambda t: w * t + torch.sin(w * 7 * t)
    bm = lambda a, b: path(b) - path(a)
    g = lambda t, x: .5 * torch.sin(x + t) + .2 * x
    if rng.random() < .5: solve = lambda x, ts: sdeint(SDEFunc(f, g, noise_type='diagonal', sde_type=st), x, ts, name, bm)[1]
    else:
        m = NeuralSDE(lambda t, x: f(t, x), g, solver=name, sde_type=st, bm=bm)
        solve = lambda x, ts: m(x, ts)[1]
    cs = cuts(rng, len(ts))
    ctx.desc(solve=name, field=f.kind, grid=gk, batch=B, dim=d, cuts=cs)
    a, b = solve(x, ts), chain(solve, x, ts, cs)
    if not torch.isfinite(a).all() or a.abs().max() > 1e4: return
    # increments over tiny intervals are differences of the path
    ctx.close(b, a, 1e-9, 'stochastic', f"rows of {name} solved in {len(cs) + 1} pieces")
    ctx.ev('rows', len(ts))
    ctx.key(name, f.kind, gk, len(ts), tuple(cs))


@family(quick=60, thorough=1500)
def hybrid(ctx):
    "bouncing oscillators: cut after a number of jumps (j_span), or at a requested time"
    rng = ctx.rng
    B = 1
    k, c, e = rng.uniform(.5, 4), rng.uniform(0, .3), rng.uniform(.5, 1.)
    wall = rng.uniform(-.5, 0.) # below the equilibrium: bounces do not accumulate
    f = lambda t, x: torch.stack([x[..., 1], -k * x[..., 0] - c * x[..., 1]], -1)
    class Cb:
        def check_event(s, t, x): return bool((x[..., 0] < wall).all() and (x[..., 1] < 0).all())
        def jump_map(s, t, x): return x * torch.tensor([1., -e], dtype=x.dtype)
    x = torch.tensor([[1. + rng.random(), rng.uniform(-1, 1)]], dtype=torch.float64)
    ts, gk, _ = grid(ctx, kind=rng.choice(['even', 'uneven', 'jitter']), T=rng.uniform(3, 8), n=rng.randint(2, 8), reverse=False)
    name = rng.choice(ADAPT)
    run = lambda x, ts, j: odeint_hybrid(f, x, ts, j, str_to_solver(name, torch.float64), [Cb()], atol=1e-9, rtol=1e-9, event_tol=1e-9)
    jumps = lambda te: [i for i in range(len(te) - 1) if te[i] == te[i + 1]]
    ta, a = run(x, ts, 100)
    J = jumps(ta)
    # grazing contacts and near misses may fall on either side
    if len(J) > 60 or any(abs(float(a[i, 0, 1])) < .02 for i in J): return
    how = rng.choice(['jumps', 'time'])
    ctx.desc(how=how, jumps=len(J), grid=gk, solver=name, wall=wall)
    if how == 'jumps':
        if not J: return
        j = rng.randint(1, len(J))
        t1, y1 = run(x, ts, j)
        ctx.check(len(jumps(t1)) == j, 'hybrid_jspan', f"{len(jumps(t1))} jumps with j_span={j}")
        if not len(jumps(t1)) == j: return
        rest = torch.cat([t1[-1:], ts[ts > t1[-1]]])
        if len(rest) < 2: return
    else:
        m = rng.randint(1, len(ts) - 1)
        # a cut too near an event may fall on either of its sides
        if J and min(abs(float(ta[i] - ts[m])) for i in J) < 1e-5: return
        t1, y1 = run(x, ts[:m + 1], 100)
        rest = ts[m:]
        if len(rest) < 2: return
    t2, y2 = run(y1[-1], rest, 100)
    tb = torch.cat([t1, t2[1:]]); b = torch.cat([y1, y2[1:]])
    Jb = jumps(tb)
    ctx.check(len(J) == len(Jb), 'hybrid_count', f"{len(J)} jumps in one go, {len(Jb)} in two")
    if len(J) != len(Jb): return
    for i, q in zip(J, Jb):
        ctx.close(tb[q], ta[i], 1e-6, 'hybrid_time', 'event time')
        ctx.close(b[q + 1], a[i + 1], 1e-5, 'hybrid_state', 'state after the jump')
    ctx.close(b[-1], a[-1], 1e-5, 'hybrid_end', 'final state', scale=1.)
    ctx.ev('jumps', len(J))
    ctx.key(how, len(J), gk, name)


@family(quick=60, thorough=1500)
def shooting(ctx):
    "converged multiple shooting; each piece on its own even grid"
    rng = ctx.rng
    shape = rng.choice([(1, 1), (3, 2), (2, 3, 2), (4,)])
    f = make_field(ctx, shape[-1], kind=rng.choice(['linauto', 'tanhauto']))
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    n = rng.randint(4, 8)
    ts = rng.choice([0., 1.5, -2.]) + torch.linspace(0, rng.uniform(.3, 1.5), n, dtype=torch.float64)
    fine = rng.choice(['rk4', 'midpoint'])
    cls, fs = rng.choice([MSZero, MSBackward]), rng.randint(2, 5)
    s = cls('euler', fine)
    solve = lambda x, ts: odeint_mshooting(f, x, ts, s, fine_steps=fs, maxiter=n + 1)[1]
    cs = cuts(rng, n)
    ctx.desc(solver=cls.__name__, field=f.kind, shape=shape, n=n, cuts=cs, fine=fine, fine_steps=fs)
    a, b = solve(x, ts), chain(solve, x, ts, cs)
    ctx.close(b, a, 1e-9, 'shooting', f"rows solved in {len(cs) + 1} pieces")
    ctx.ev('rows', n)
    ctx.key(cls.__name__, f.kind, shape, n, tuple(cs), fine, fs)


@family(quick=120, thorough=3000)
def gradients(ctx):
    "gradients of a loss of all rows, in one go and through chained solves"
    rng = ctx.rng
    d, B = wide(rng, rng.randint(1, 3)), many(rng, rng.randint(1, 4))
    sens = rng.choice(['autograd', 'autograd', 'adjoint', 'adjoint', 'interpolated_adjoint'])
    name = rng.choice(FIXED + ADAPT if sens == 'autograd' else ADAPT)
    net = make_net(ctx, d)
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    if sens == 'interpolated_adjoint': ts, gk, rev = grid(ctx, kind='even', n=60, T=rng.uniform(.3, .8))
    else: ts, gk, rev = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 1.5), n=rng.randint(3, 8))
    if len(ts) < 3: return
    cls = rng.choice([NeuralODE, ODEProblem])
    tol = 1e-9
    m = cls(net, str_to_solver(name, torch.float64), sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
    cs = cuts(rng, len(ts)) if sens != 'interpolated_adjoint' else [rng.randint(15, 45)]
    lname, loss = loss_of(ctx, len(ts), x.shape)
    P = trainable(net)
    def run(go):
        z = x.clone().requires_grad_(True)
        y = go(z)
        return y.detach(), grads(loss(y), [z] + P)
    ctx.desc(model=cls.__name__, sensitivity=sens, solver=name, field=net.kind, grid=gk, reverse=rev, n=len(ts), cuts=cs, loss=lname)
    ya, ga = run(lambda z: m(z, ts)[1])
    yb, gb = run(lambda z: chain(lambda x, ts: m(x, ts)[1], z, ts, cs))
    sc = max(float(v.abs().max()) for v in ga)
    if sc > 1e6: return
    eps = 1e-10 if name in FIXED else {'autograd': 1e-5, 'adjoint': 1e-5, 'interpolated_adjoint': 2e-3}[sens]
    if sens == 'autograd' and name in ADAPT and net.kind.startswith('xfree'): eps = 1e-4
    for p, q in zip(gb, ga): ctx.close(p, q, eps, 'gradient_' + sens, f"gradient through {len(cs) + 1} pieces", scale=max(sc, 1e-6))
    ctx.ev('gradients', len(ga))
    ctx.key(cls.__name__, sens, name, net.kind, gk, rev, tuple(cs))


@family(quick=40, thorough=1000)
def flows(ctx):
    "normalizing flows and higher-order equations carry their whole state: they may be stopped and continued"
    rng = ctx.rng
    how = rng.choice(['cnf', 'order'])
    B, d = many(rng, rng.randint(1, 4)), wide(rng, rng.randint(1, 3))
    ts, gk, rev = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 1.5), n=rng.randint(3, 7))
    if len(ts) < 3: return
    if how == 'cnf':
        net = nn.Sequential(nn.Linear(d, 6), nn.Tanh(), nn.Linear(6, d)).double()
        for p in net.parameters(): p.data = torch.randn(p.shape, generator=ctx.gen, dtype=torch.float64) * .7
        m = NeuralODE(CNF(net), str_to_solver('rk4', torch.float64))
        x = torch.randn(B, d + 1, generator=ctx.gen, dtype=torch.float64)
    else:
        o = rng.randint(2, 4)
        W = torch.randn(o * d, d, generator=ctx.gen, dtype=torch.float64) * .5
        class F(nn.Module):
            def forward(s, t, x): return torch.sin(x @ W + t)
        m = NeuralODE(F(), str_to_solver('rk4', torch.float64), order=o)
        x = torch.randn(B, o * d, generator=ctx.gen, dtype=torch.float64)
    cs = cuts(rng, len(ts))
    ctx.desc(how=how, grid=gk, reverse=rev, batch=B, dim=d, cuts=cs)
    solve = lambda x, ts: m(x, ts)[1].detach()
    ctx.close(chain(solve, x, ts, cs), solve(x, ts), 1e-10, how, 'rows')
    ctx.ev('rows', len(ts))
    ctx.key(how, gk, rev, B, d, tuple(cs))


def linear(ctx, d):
    "x -> A(t) x for states of any shape [..., d]"
    A, C = [torch.randn(d, d, generator=ctx.gen, dtype=torch.float64) / d ** .5 for _ in range(2)]
    w = ctx.rng.uniform(.5, 3)
    return lambda t, x: x @ (A + torch.sin(w * t) * C)


@family(quick=250, thorough=6000)
def superposition(ctx):
    rng = ctx.rng
    name = rng.choice(FIXED + ADAPT * 2 + ['hyper', 'alf', 'dense', 'mszero', 'msbackward', 'sde', 'sde'])
    shape = rng.choice(SHAPES if name != 'sde' else [s for s in SHAPES if len(s) == 2])
    d = shape[-1]
    f, g = linear(ctx, d), linear(ctx, d)
    ts, gk, rev = grid(ctx, kind='even' if name[:2] == 'ms' else rng.choice(GK + ['two']), T=rng.uniform(.3, 2), reverse=False if name in ('sde', 'mszero', 'msbackward') else None)
    a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
    x, y = [torch.randn(*shape, generator=ctx.gen, dtype=torch.float64) * 10 ** rng.uniform(-2, 1) for _ in range(2)]
    tol = 10 ** rng.uniform(-10, -4)
    eps = 1e-10
    if name in ADAPT + ['dense']:
        s = str_to_solver('dopri5' if name == 'dense' else name, torch.float64)
        solve = lambda x: odeint(f, x, ts, s, atol=tol, rtol=tol, interpolator='4th' if name == 'dense' else None)[1]
        eps = 100 * tol
    elif name[:2] == 'ms':
        A = torch.randn(d, d, generator=ctx.gen, dtype=torch.float64) / d ** .5
        it = rng.randint(1, 4)
        solve = lambda x: odeint_mshooting(lambda t, x: x @ A, x, ts, name, fine_steps=3, maxiter=it)[1]
    elif name == 'sde':
        sn = rng.choice(['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich'])
        st = 'stratonovich' if sn in ('eulerHeun', 'milstein_stratonovich') else 'ito'
        w = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
        bm = lambda a, b: w * (b - a) + torch.sin(5 * w * b) - torch.sin(5 * w * a)
        solve = lambda x: sdeint(SDEFunc(f, g, noise_type='diagonal', sde_type=st), x, ts, sn, bm)[1]
    elif name == 'alf':
        x, y = torch.cat([x, g(ts[0], x)], -1), torch.cat([y, g(ts[0], y)], -1)
        solve0 = maker(ctx, name, f)
        solve = lambda x: solve0(x, ts)
    else:
        solve0 = maker(ctx, name, f)
        solve = lambda x: solve0(x, ts)
    ctx.desc(solve=name, shape=shape, grid=gk, reverse=rev, a=a, b=b, tol=tol)
    sx, sy, sc = solve(x), solve(y), solve(a * x + b * y)
    if not torch.isfinite(sx).all() or sx.abs().max() > 1e5: return
    amp = 1.
    if name in ADAPT + ['dense']: amp = max(1., max(float(v.abs().max() / (u.abs().max() + 1e-30)) for u, v in ((x, sx), (y, sy)))) ** 2
    if amp > 1e4: return
    scale = 1 + float(max((a * sx).abs().max(), (b * sy).abs().max()))
    ctx.close(sc, a * sx + b * sy, eps * amp, 'superposition', f"solution of a combination of initial conditions ({name})", scale=scale)
    ctx.ev('rows', len(ts))
    ctx.key(name, shape, gk, rev)


@family(quick=80, thorough=2000)
def transpose(ctx):
    "linear fields: gradients with respect to the initial condition do not depend on it and pair with the solution map"
    rng = ctx.rng
    d, B = wide(rng, rng.randint(1, 4)), many(rng, rng.randint(1, 4))
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    name = rng.choice(FIXED + ADAPT if sens == 'autograd' else ADAPT)
    A0 = torch.randn(d, d, generator=ctx.gen, dtype=torch.float64) / d ** .5
    w = rng.uniform(.5, 3)
    class F(nn.Module):
        def __init__(s): super().__init__(); s.A = nn.Parameter(A0.clone())
        def forward(s, t, x): return x @ s.A * (1 + .5 * torch.sin(w * t))
    ts, gk, rev = grid(ctx, kind='even' if sens == 'interpolated_adjoint' else rng.choice(GK), n=40 if sens == 'interpolated_adjoint' else rng.randint(2, 8), T=rng.uniform(.3, 1.2))
    m = rng.choice([NeuralODE, ODEProblem])(F(), str_to_solver(name, torch.float64), sensitivity=sens, atol=1e-9, rtol=1e-9, atol_adjoint=1e-9, rtol_adjoint=1e-9)
    x, v = [torch.randn(B, d, generator=ctx.gen, dtype=torch.float64) for _ in range(2)]
    u = torch.randn(len(ts), B, d, generator=ctx.gen, dtype=torch.float64)
    if rng.random() < .5: u[[i for i in range(len(ts)) if rng.random() < .6]] = 0
    z = x.clone().requires_grad_(True)
    g = grads((m(z, ts)[1] * u).sum(), [z])[0]
    with torch.no_grad(): Sv = m(v, ts)[1]
    ctx.desc(sensitivity=sens, solver=name, grid=gk, reverse=rev, n=len(ts), batch=B, dim=d)
    a, b = (g * v).sum(), (u * Sv).sum()
    sc = float((u.abs() * Sv.abs()).sum()) + float((g.abs() * v.abs()).sum()) + 1e-9
    ctx.close(a, b, 1e-11 if name in FIXED else 1e-3 if sens == 'interpolated_adjoint' else 1e-6, 'transpose_' + sens, '<v, gradient> against <loss, solution from v>', scale=sc)
    ctx.ev('pairings')
    ctx.key(sens, name, gk, rev, len(ts), B, d)
