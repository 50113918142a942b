"""C12: back-propagation through solvers."""
import torch
from lib.core import family
from lib.fields import grid, state
from lib import ref
from lib.grads import make_net, loss_of, reference, grads, trainable
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem

PROPERTY = 'C12'
RULE = ("random (field, shape, grid, direction, loss on a random subset of rows, solver, interface) differentiated by autograd; fixed-step explicit solvers against the exact derivatives of an "
        "independently composed discrete solution (first, second order, and w.r.t. the time grid), adaptive ones against a fine reference; non-trivial = a non-zero gradient; "
        "key = solver, interface, field, extras, shape, grid, direction, loss")
ASSUMPTIONS = ['adaptive: allowance 2e-5 relative at tolerances of 1e-8']
FIXED = ['euler', 'midpoint', 'rk4']


def compare(ctx, got, exp, names, tol, mech='gradient'):
    scale = max([float(e.abs().max()) for e in exp if e.numel()] + [0.])
    for g, e, n in zip(got, exp, names):
        ctx.close(g, e, tol, mech, f"gradient of {n}", scale=max(scale, float(e.abs().max()) if e.numel() else 0.))
    ctx.ev('gradients', len(exp))
    return scale


def names(net): return ['x'] + [n for n, p in net.named_parameters() if p.requires_grad]


def solve(ctx, iface, net, x, ts, solver, **kw):
    kw.setdefault('atol', 1e-3), kw.setdefault('rtol', 1e-3)
    if iface == 'odeint': return odeint(net, x, ts, solver, **kw)[1]
    if iface == 'trajectory':
        kw.pop('interpolator', None)
        return NeuralODE(net, solver, **kw).trajectory(x, ts)
    return dict(NeuralODE=NeuralODE, ODEProblem=ODEProblem)[iface](net, solver, **kw)(x, ts)[1]


@family(quick=420, thorough=8000)
def fixed(ctx):
    rng = ctx.rng
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx)
    net = make_net(ctx, x.shape[-1])
    lname, loss = loss_of(ctx, len(ts), x.shape)
    s = rng.choice(FIXED)
    iface = rng.choice(['odeint', 'NeuralODE', 'ODEProblem', 'trajectory'])
    wrt_t = rng.random() < .5
    ctx.desc(solver=s, iface=iface, field=net.kind, extras=net.extras, shape=tuple(x.shape), grid=kind, reverse=rev, n=len(ts), loss=lname, wrt_t=wrt_t)
    solver = str_to_solver(s, torch.float64)

    def both(run):
        xx = x.clone().requires_grad_(True)
        tt = ts.clone().requires_grad_(wrt_t)
        return xx, tt, run(xx, tt)
    xa, ta, sa = both(lambda a, b: solve(ctx, iface, net, a, b, solver))
    xb, tb, sb = both(lambda a, b: ref.compose(ref.STEPS[s], net, a, b))
    ctx.close(sa, sb, 1e-10, 'values', 'rows')
    tail = [ta] if wrt_t else [], [tb] if wrt_t else []
    nm = names(net) + (['t_span'] if wrt_t else [])
    la, lb = loss(sa), loss(sb)
    ga = torch.autograd.grad(la, [xa] + trainable(net) + tail[0], allow_unused=True, create_graph=True)
    gb = torch.autograd.grad(lb, [xb] + trainable(net) + tail[1], allow_unused=True, create_graph=True)
    z = lambda gs, ws: [torch.zeros_like(w) if g is None else g for g, w in zip(gs, ws)]
    ga, gb = z(ga, [xa] + trainable(net) + tail[0]), z(gb, [xb] + trainable(net) + tail[1])
    s_ = compare(ctx, ga, gb, nm, 1e-9)
    # second derivatives: gradient of a random contraction of the first ones
    vs = [torch.randn(g.shape, generator=ctx.gen, dtype=torch.float64) for g in gb]
    ca, cb = sum((v * g).sum() for v, g in zip(vs, ga)), sum((v * g).sum() for v, g in zip(vs, gb))
    if cb.requires_grad:
        if ctx.check(ca.requires_grad, 'second', 'gradients are not differentiable'):
            ha = z(torch.autograd.grad(ca, [xa] + trainable(net) + tail[0], allow_unused=True), [xa] + trainable(net) + tail[0])
            hb = z(torch.autograd.grad(cb, [xb] + trainable(net) + tail[1], allow_unused=True), [xb] + trainable(net) + tail[1])
            compare(ctx, ha, hb, nm, 1e-8, 'second')
            ctx.ev('second_order', len(ha))
    # graph-free call
    with torch.no_grad():
        plain = solve(ctx, iface, net, x, ts, solver)
    ctx.check(torch.equal(plain, sa.detach()), 'no_grad', lambda: f"values differ under no_grad by {(plain - sa).abs().max():.2e}")
    ctx.check(not plain.requires_grad, 'no_grad', 'graph recorded under no_grad')
    if s_ > 1e-9: ctx.key(s, iface, net.kind, net.extras, tuple(x.shape), kind, rev, lname, wrt_t)


@family(quick=160, thorough=3000)
def adaptive(ctx):
    rng = ctx.rng
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'clustered', 'geometric']), n=rng.randint(2, 7), T=rng.uniform(.4, 2.))
    net = make_net(ctx, x.shape[-1])
    # at an equilibrium of the field the step size control sees no error at all, hence cannot bound that of the derivatives
    if net.kind == 'noparam' and mode not in ('normal', 'pos'): x, mode = torch.randn(x.shape, generator=ctx.gen, dtype=torch.float64), 'normal'
    lname, loss = loss_of(ctx, len(ts), x.shape)
    s = rng.choice(['dopri5', 'tsit5'])
    interp = '4th' if s == 'dopri5' and rng.random() < .35 else None
    iface = rng.choice(['odeint', 'NeuralODE', 'ODEProblem'])
    ctx.desc(solver=s, iface=iface, interpolator=interp, field=net.kind, extras=net.extras, shape=tuple(x.shape), grid=kind, reverse=rev, n=len(ts), loss=lname)
    tol = 1e-8
    solver = str_to_solver(s, torch.float64)
    x0 = x.clone().requires_grad_(True)
    out = solve(ctx, iface, net, x0, ts, solver, atol=tol, rtol=tol, interpolator=interp)
    sol, gx, gp = reference(net, x, ts, loss)
    ctx.close(out, sol, 2e-4 if interp else 1e-5, 'values', 'rows')
    got = grads(loss(out), [x0] + trainable(net))
    s_ = compare(ctx, got, [gx] + gp, names(net), 1e-3 if interp else 2e-5 * max(1., x.shape[-1] / 3), 'interpolated' if interp else 'adaptive')
    with torch.no_grad():
        plain = solve(ctx, iface, net, x, ts, solver, atol=tol, rtol=tol, interpolator=interp)
    ctx.check(torch.equal(plain, out.detach()), 'no_grad', lambda: f"values differ under no_grad by {(plain - out).abs().max():.2e}")
    if s_ > 1e-6: ctx.key(s, iface, interp, net.kind, net.extras, tuple(x.shape), kind, rev, lname)


@family(quick=80, thorough=1200)
def second(ctx):
    "second derivatives through adaptive solves, every row connected"
    rng = ctx.rng
    shape = rng.choice([(2, 2), (2,), (1, 3), (3, 1)] * 3 + [(30, 2), (2, 14)])
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'cross', 'tight']), n=rng.randint(2, 5), T=rng.uniform(.4, 1.2))
    net = make_net(ctx, shape[-1], kind=rng.choice(['mlp', 'bilinear', 'auto']))
    s, iface = rng.choice(['dopri5', 'tsit5']), rng.choice(['odeint', 'NeuralODE', 'ODEProblem'])
    ctx.desc(solver=s, iface=iface, field=net.kind, shape=shape, grid=kind, reverse=rev)
    lname, loss = loss_of(ctx, len(ts), shape)
    tol = 1e-8
    ps = trainable(net)

    def hess(run):
        xx = x.clone().requires_grad_(True)
        sol = run(xx)
        ws = [xx] + ps
        g = torch.autograd.grad(loss(sol), ws, create_graph=True, allow_unused=True)
        g = [torch.zeros_like(w) if a is None else a for a, w in zip(g, ws)]
        return xx, sol, g
    xa, sa, ga = hess(lambda a: solve(ctx, iface, net, a, ts, str_to_solver(s, torch.float64), atol=tol, rtol=tol))
    xb, sb, gb = hess(lambda a: ref.fine(net, a, ts, 25))
    for i, row in enumerate(sa):
        if not ctx.check(row.requires_grad, 'connected', f"row {i} is detached"): break
        g, = torch.autograd.grad(row.sum(), [xa], retain_graph=True)
        ctx.check(bool(g.abs().max() > 0), 'connected', f"row {i} does not depend on the initial condition")
        ctx.ev('rows')
    vs = [torch.randn(g.shape, generator=ctx.gen, dtype=torch.float64) for g in gb]
    ca, cb = sum((v * g).sum() for v, g in zip(vs, ga)), sum((v * g).sum() for v, g in zip(vs, gb))
    compare(ctx, grads(ca, [xa] + ps), grads(cb, [xb] + ps), names(net), 2e-4, 'second_adaptive')
    ctx.key(s, iface, net.kind, shape, kind, rev, lname)


@family(quick=60, thorough=800)
def selected(ctx):
    "rows selected by save_at and interpolated rows carry their own gradients, leaf and non-leaf inputs, float32"
    rng = ctx.rng
    shape = rng.choice([(2, 2), (4, 1), (1, 3)])
    dtype = rng.choice([torch.float32, torch.float64])
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64).to(dtype)
    net = make_net(ctx, shape[-1], kind=rng.choice(['mlp', 'bilinear', 'auto']), dtype=dtype)
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'offset', 'cross']), n=rng.randint(4, 9), dtype=dtype)
    s = rng.choice(FIXED)
    iface = rng.choice(['odeint', 'NeuralODE', 'ODEProblem'])
    idx = [rng.randrange(len(ts)) for _ in range(rng.randint(1, 4))]
    idx = sorted(set(idx)) if rng.random() < .5 else list(dict.fromkeys(idx))
    ctx.desc(solver=s, iface=iface, field=net.kind, shape=shape, grid=kind, reverse=rev, rows=idx, dtype=dtype)
    solver = str_to_solver(s, dtype)
    xa, xb = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    ia = xa * 1. if rng.random() < .5 else xa
    if iface == 'odeint': out = odeint(net, ia, ts, solver, save_at=ts[idx])[1]
    else: out = dict(NeuralODE=NeuralODE, ODEProblem=ODEProblem)[iface](net, solver)(ia, ts, save_at=ts[idx])[1]
    lname, loss = loss_of(ctx, len(idx), shape, dtype)
    exp = ref.compose(ref.STEPS[s], net, xb, ts)[idx]
    compare(ctx, grads(loss(out), [xa] + trainable(net)), grads(loss(exp), [xb] + trainable(net)), names(net), 1e-9 if dtype == torch.float64 else 5e-4,
            'selected64' if dtype == torch.float64 else 'selected32')
    ctx.key(s, iface, net.kind, shape, kind, rev, idx, str(dtype), lname)
