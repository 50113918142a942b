"""C40: results carry the precision of the state."""
import copy
import torch
import torch.nn as nn
from lib import ref
from lib.core import family
from lib.fields import grid, many, wide
from lib.grads import make_net, loss_of, grads, trainable, reference
from lib.zoo import ZOO, FIXED, GK, zoo, out, differentiable
from torchdyn.numerics import odeint, odeint_mshooting
from torchdyn.numerics.interpolators import str_to_interp
from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
from torchdyn.core import NeuralODE, ODEProblem

PROPERTY = 'C40'
RULE = ("a zoo of solves and models (functional, wrapped with each sensitivity, multiple shooting, layers, energies, normalizing flows, hypersolvers, leapfrog, stochastic, root finding), solvers and interpolators by name "
        "and as objects: double-precision results and gradients against double-precision references and for smoothness in states, times and parameters (sixth differences with steps of 1e-4 show any value rounded to single "
        "precision on the way), single-precision ones for dtype and agreement with the double ones; the same bits whatever the default dtype is and whatever precision the objects were used in before; "
        "key = kind of solve, what varies, dtype, shape")
ASSUMPTIONS = ['state, time grid and parameters of one precision', 'smooth fields, fixed-step methods (for smoothness)', 'solver objects passed by the user were built in double precision']
F64, F32 = torch.float64, torch.float32


def sweep(ctx, m, x, ts, kind):
    "a direction in which the problem varies smoothly -> (what, e -> (module, x, ts))"
    rng = ctx.rng
    what = rng.choice(['state', 'state', 'origin', 'span', 'parameter'])
    v = torch.randn(x.shape, generator=ctx.gen, dtype=F64)
    if what == 'state': return what, lambda e: (m, x + e * v, ts)
    if what == 'origin': return what, lambda e: (m, x, ts + e)
    if what == 'span': return what, lambda e: (m, x, ts[0] + (ts - ts[0]) * (1 + e))
    vs = [torch.randn(p.shape, generator=ctx.gen, dtype=F64) * .5 for p in m.parameters()]

    def move(e):
        q = copy.deepcopy(m)
        with torch.no_grad():
            for p, w in zip(q.parameters(), vs): p += e * w
        return q, x, ts
    return what, move


def run(m, x, ts, w=None):
    "rows, and gradients of a loss with respect to the state and all parameters"
    if w is None: return out(m(x, ts)).detach(), []
    x = x.clone().requires_grad_(True)
    y = out(m(x, ts))
    ps = [p for p in m.parameters() if p.requires_grad]
    if not y.requires_grad: return y.detach(), []
    return y.detach(), grads((w.to(y.dtype) * (y + .5 * y ** 2)).sum(), [x] + ps)


def weights(ctx, m, x, ts): return torch.randn(out(m(x, ts)).shape, generator=ctx.gen, dtype=F64)


@family(quick=len(ZOO) * 12, thorough=len(ZOO) * 200)
def smooth(ctx):
    "nothing between input and output is rounded to single precision"
    rng = ctx.rng
    kind = ZOO[ctx.index % len(ZOO)]
    label, m, x, ts, conf = zoo(ctx, kind)
    what, at = sweep(ctx, m, x, ts, kind)
    ctx.desc(kind=label, varies=what, shape=tuple(x.shape), grid=conf[0], reverse=conf[1], n=len(ts))
    w = weights(ctx, m, x, ts) if differentiable(kind) and rng.random() < .6 else None
    h = 1e-4
    ys = [run(*at(k * h), w) for k in (-3, -2, -1, 0, 1, 2, 3)]
    ctx.check(all(y.dtype == F64 for y, _ in ys) and all(g.dtype == F64 for _, gs in ys for g in gs), 'dtype', f"{ys[0][0].dtype}")
    if not all(torch.isfinite(y).all() and y.abs().max() < 1e4 for y, _ in ys): return
    six = (1, -6, 15, -20, 15, -6, 1)   # sixth difference: h^6 times the sixth derivative, plus 64 roundings

    def rough(vals): return sum(c * v for c, v in zip(six, vals)).abs().max().item() if vals[0].numel() else 0.
    s = max(float(y.abs().max()) for y, _ in ys)
    r = rough([y for y, _ in ys])
    ctx.worst('roughness', r / (2e-10 * (1 + s)))
    ctx.check(r <= 2e-10 * (1 + s), 'rounded', f"rows vary by {r:.2e} (of {s:.2e}) beyond a smooth dependence on the {what}")
    for i in range(len(ys[0][1])):
        vals = [gs[i] for _, gs in ys]
        s = max(float(g.abs().max()) for _, gs in ys for g in gs if g.numel())
        r = rough(vals)
        ctx.worst('roughness_gradient', r / (5e-10 * (1 + s)))
        ctx.check(r <= 5e-10 * (1 + s), 'rounded_gradient', f"gradient {i} varies by {r:.2e} (of {s:.2e}) beyond a smooth dependence on the {what}")
    ctx.ev('solves', 7)
    ctx.key(label, what, conf, w is not None)


@family(quick=len(ZOO) * 8, thorough=len(ZOO) * 150)
def contexts(ctx):
    "the default dtype and earlier use in another precision leave no trace; single precision gives single-precision approximations"
    rng = ctx.rng
    kind = ZOO[ctx.index % len(ZOO)]
    label, m, x, ts, conf = zoo(ctx, kind)
    w = weights(ctx, m, x, ts) if differentiable(kind) else None
    ctx.desc(kind=label, shape=tuple(x.shape), grid=conf[0], reverse=conf[1], n=len(ts))
    lo = lambda v: v.to(F32)
    y, gs = run(copy.deepcopy(m), x, ts, w)
    q = copy.deepcopy(m).float()
    y32, gs32 = run(q, lo(x), lo(ts), w)
    ctx.check(y.dtype == F64 and y32.dtype == F32, 'dtype', f"{y.dtype} for double, {y32.dtype} for single precision")
    ctx.check(all(g.dtype == F64 for g in gs) and all(g.dtype == F32 for g in gs32), 'gradient_dtype')
    # a default dtype other than single
    same = lambda a, b: a.shape == b.shape and bool(((a == b) | (a.isnan() & b.isnan())).all())
    torch.set_default_dtype(F64)
    try:
        z, hs = run(copy.deepcopy(m), x, ts, w)
        z32, hs32 = run(copy.deepcopy(m).float(), lo(x), lo(ts), w)
    finally: torch.set_default_dtype(F32)
    ctx.check(same(y, z) and len(gs) == len(hs) and all(same(a, b) for a, b in zip(gs, hs)), 'default_dtype', 'double precision results depend on the default dtype')
    ctx.check(z32.dtype == F32 and all(g.dtype == F32 for g in hs32), 'default_dtype_single', f"{z32.dtype}")
    ctx.check(same(y32, z32), 'default_dtype_single_values', 'single precision results depend on the default dtype')
    # the object used in single precision, brought back
    q.double()
    with torch.no_grad():
        for a, b in zip(q.parameters(), m.parameters()): a.copy_(b)
        for a, b in zip(q.buffers(), m.buffers()): a.copy_(b)
    for p in q.parameters(): p.grad = None
    z, hs = run(q, x, ts, w)
    ctx.check(same(y, z) and all(same(a, b) for a, b in zip(gs, hs)), 'history', lambda: f"after use in single precision, double-precision results differ by {float((y - z).abs().max()):.2e}")
    # closeness of the single-precision results, relative to the effect of a perturbation of the input
    if torch.isfinite(y).all() and y.abs().max() < 1e3:
        v = torch.randn(x.shape, generator=ctx.gen, dtype=F64)
        p, ps = run(m, x + 1e-4 * v, ts * (1 + 1e-4), w)
        amp = max(1., float((p - y).abs().max()) / 1e-4)
        if amp < 100: ctx.close(y32.double(), y, 2e-5 * amp, 'single', 'single-precision rows', scale=1 + float(y.abs().max()))
        s = max([float(g.abs().max()) for g in gs if g.numel()] + [0.])
        amp = max([amp] + [float((a - b).abs().max()) / 1e-4 / (1 + s) for a, b in zip(gs, ps) if a.numel()])
        if amp < 100:
            for a, b in zip(gs32, gs): ctx.close(a.double(), b, 5e-5 * amp, 'single_gradient', 'single-precision gradient', scale=1 + s)
    ctx.ev('solves', 6)
    ctx.key(label, conf)


@family(quick=160, thorough=3000)
def exact(ctx):
    "double-precision solves reach double-precision accuracy, whichever way the solver is given"
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([1, 2, 4]))
    x = torch.randn(B, d, generator=ctx.gen, dtype=F64)
    name = rng.choice(FIXED + ['dopri5', 'tsit5'])
    fixed = name in FIXED
    net = make_net(ctx, d, kind=rng.choice(['mlp', 'auto', 'bilinear', 'noparam']))
    ts, gk, rev = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 1.2), n=rng.randint(2, 6))
    iface = rng.choice(['odeint', 'NeuralODE', 'ODEProblem', 'NeuralODE', 'ODEProblem', 'trajectory'])
    sens = rng.choice(['autograd', 'adjoint', 'adjoint', 'interpolated_adjoint'])
    before = rng.random() < .5
    given = rng.choice(['name', 'name', 'object'])
    ctx.desc(solver=name, given=given, iface=iface, sensitivity=sens, field=net.kind, shape=tuple(x.shape), grid=gk, reverse=rev, n=len(ts), used_in_single_before=before)
    tol = 1e-13
    kw = dict(atol=tol, rtol=tol)
    s = name if given == 'name' else str_to_solver(name, F64)
    low = copy.deepcopy(net).float()
    if iface == 'odeint':
        if before: odeint(low, x.float(), ts.float(), s, atol=1e-4, rtol=1e-4)
        solve = lambda x: odeint(net, x, ts, s, **kw)[1]
        sens = 'autograd'
    else:
        node = (ODEProblem if iface == 'ODEProblem' else NeuralODE)(net, s, sensitivity=sens, atol_adjoint=tol, rtol_adjoint=tol, solver_adjoint=rng.choice([None, None, 'dopri5', 'tsit5']) if not fixed else 'tsit5', **kw)
        if before:
            node.float()
            node.atol = node.rtol = node.atol_adjoint = node.rtol_adjoint = 1e-4
            z = x.float().requires_grad_(True)
            y = out(node(z, ts.float()))
            if sens != 'interpolated_adjoint': y.sum().backward()
            node.double()
            node.atol = node.rtol = node.atol_adjoint = node.rtol_adjoint = tol
            for p in net.parameters(): p.grad = None
        solve = lambda x: (node.trajectory(x, ts) if iface == 'trajectory' else node(x, ts)[1])
    lname, loss = loss_of(ctx, len(ts), x.shape)
    xa = x.clone().requires_grad_(True)
    y = solve(xa)
    if fixed:
        xe = x.clone().requires_grad_(True)
        e = ref.compose(ref.STEPS[name], net, xe, ts)
        ctx.close(y, e, 1e-13, 'fixed', f"rows of {name}", scale=1 + float(e.abs().max()))
    sub = 60 if len(ts) < 4 else 30
    if not fixed or sens == 'adjoint':
        sol, gx, gp = reference(net, x, ts, loss, sub=sub, step=ref.tsit5)
    if not fixed: ctx.close(y, sol, 1e-10, 'adaptive', f"rows of {name} at tolerances of {tol}", scale=1 + float(sol.abs().max()))
    if sens == 'interpolated_adjoint' or not y.requires_grad or iface == 'trajectory': return ctx.key(name, given, iface, sens, net.kind, gk, rev, before)
    got = grads(loss(y), [xa] + trainable(net))
    if sens == 'autograd' and fixed: exp = grads(loss(e), [xe] + trainable(net))
    elif sens == 'autograd': exp = [gx] + gp
    elif not fixed: exp = [gx] + gp
    else: return ctx.key(name, given, iface, sens, net.kind, gk, rev, before)
    sc = max([float(v.abs().max()) for v in exp if v.numel()] + [1e-3])
    for a, b in zip(got, exp): ctx.close(a, b, 1e-12 if fixed else 3e-9, 'gradient_fixed' if fixed else f"gradient_{sens}", 'gradient', scale=1 + sc)
    ctx.ev('gradients', len(got))
    ctx.key(name, given, iface, sens, net.kind, gk, rev, before, lname)


@family(quick=120, thorough=2500)
def objects(ctx):
    "solver and interpolator objects that were used in other precisions give the bits of fresh ones"
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([1, 2, 4]))
    kind = rng.choice(FIXED + ['dopri5', 'tsit5', 'dense', 'dense', 'mszero', 'msbackward', 'complex', 'hybrid'])
    seq = [rng.choice([F32, F64, torch.complex64, torch.complex128] if kind in FIXED + ['dopri5', 'tsit5', 'complex'] else [F32, F64]) for _ in range(rng.randint(2, 5))]
    ctx.desc(kind=kind, dtypes=','.join(str(v)[6:] for v in seq), d=d, B=B)
    name = kind if kind in FIXED + ['dopri5', 'tsit5'] else 'dopri5'
    new = lambda: (str_to_solver(name, F64) if kind[:2] != 'ms' else str_to_ms_solver('zero' if kind == 'mszero' else 'backward'), str_to_interp('4th', F64) if kind == 'dense' else None)
    shared = new()
    A = torch.randn(d, d, generator=ctx.gen, dtype=F64) / d ** .5

    class Wall:
        fired = False
        def check_event(self, t, x): return bool(x.real.reshape(-1)[0] > 1.) and not self.fired
        def jump_map(self, t, x):
            self.fired = True
            return x * .5
    for k, dt in enumerate(seq):
        re = torch.float64 if dt in (F64, torch.complex128) else F32
        x = (torch.randn(B, d, generator=ctx.gen, dtype=torch.complex128) if dt.is_complex else torch.randn(B, d, generator=ctx.gen, dtype=F64)).to(dt)
        a = A.to(re)
        f = lambda t, x: torch.tanh(x.real) @ a * (1 if not dt.is_complex else 1j) + torch.cos(t) * .3 if kind[:2] != 'ms' else torch.tanh(x) @ a
        ts, _, rev = grid(ctx, kind=rng.choice(['even', 'two', 'offset']) if kind[:2] == 'ms' else rng.choice(GK), T=rng.uniform(.3, 1.5), n=rng.randint(2, 7), dtype=re, reverse=False if kind == 'hybrid' else None)

        def solve(s, ip):
            if kind[:2] == 'ms': return odeint_mshooting(f, x, ts, s, fine_steps=3, maxiter=2)[1]
            if kind == 'hybrid':
                from torchdyn.numerics.odeint import odeint_hybrid
                te, y = odeint_hybrid(f, x, ts, 3, s, [Wall()], atol=1e-6, rtol=1e-6, event_tol=1e-6)
                return torch.cat([te.reshape(-1), y.reshape(-1)])
            return odeint(f, x, ts, s, atol=1e-6, rtol=1e-6, interpolator=ip)[1]
        got, exp = solve(*shared), solve(*new())
        ctx.check(got.dtype == exp.dtype and (kind == 'hybrid' or got.dtype == dt), 'dtype', f"{got.dtype} for {dt}")
        ctx.check(got.shape == exp.shape and torch.equal(got, exp), 'history', lambda: f"{kind} in {dt} after {seq[:k]}: differs from a fresh object's result" + (f" by {float((got - exp).abs().max()):.2e}" if got.shape == exp.shape else ''))
        ctx.ev('solves')
    ctx.key(kind, tuple(str(s) for s in seq), d, B)


@family(quick=60, thorough=1200)
def dense(ctx):
    "dense output of solutions the interpolant represents exactly (quartics in time) is exact to double precision"
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([1, 2, 4]))
    c = torch.randn(4, B, d, generator=ctx.gen, dtype=F64)
    p = lambda t: c[0] + t * (c[1] + t * (c[2] + t * c[3]))
    P = lambda t: t * (c[0] + t * (c[1] / 2 + t * (c[2] / 3 + t * c[3] / 4)))
    ts, gk, rev = grid(ctx, kind=rng.choice(GK), T=rng.uniform(.3, 2), n=rng.randint(2, 30))
    x = torch.randn(B, d, generator=ctx.gen, dtype=F64)
    s = rng.choice(['dopri5', 'tsit5'])
    how = rng.choice(['name', 'object', 'NeuralODE'])
    ctx.desc(solver=s, how=how, shape=(B, d), grid=gk, reverse=rev, n=len(ts))
    tol = 10. ** -rng.randint(3, 12)
    F = lambda t, x: p(t) + 0 * x
    ip = '4th' if how != 'object' else str_to_interp('4th', F64)
    if how == 'NeuralODE': y = NeuralODE(F, s, atol=tol, rtol=tol, interpolator=ip)(x, ts)[1]
    else: y = odeint(F, x, ts, s, atol=tol, rtol=tol, interpolator=ip)[1]
    e = torch.stack([x + P(t) - P(ts[0]) for t in ts])
    ctx.close(y, e, 1e-12, 'dense', 'dense output of a quartic', scale=1 + float(e.abs().max()))
    ctx.key(s, how, B, d, gk, rev, tol)
