"""C28: asynchronous leapfrog."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid, make_field
from lib import ref
from lib.grads import loss_of, grads, make_net, trainable
from torchdyn.numerics import odeint_symplectic
from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, str_to_solver

PROPERTY = 'C28'
RULE = ("random (field, shape, precision, grid, direction, solver by name or instance, output selection): every row against drift - reflection - drift of the previous one, field times and states seen by a "
        "probe, recovery of the initial pair over the reversed grid, second-order convergence against DOP853, gradients against the composed rule, grid contract; "
        "key = field, shape, precision, grid, direction, how")
ASSUMPTIONS = ['pairs (position, velocity) concatenated in the last dimension', 'fixed steps; the velocity starts at the field for convergence']
SHAPES = [(1,), (2,), (1, 1), (3, 1), (2, 2), (4, 3), (2, 3, 2), (1, 4), (40, 2), (2, 18)]


class Rec:
    order = 1
    def __init__(self, f): self.f, self.log = f, []
    def __call__(self, t, x):
        self.log.append((float(t), x.detach().clone()))
        return self.f(t, x)


def leap(f, t, h, xv):
    n = xv.shape[-1] // 2
    x, v = xv[..., :n], xv[..., n:]
    m = x + h / 2 * v
    w = 2 * f(t + h / 2, m) - v
    return torch.cat([m + h / 2 * w, w], -1)


def solver_of(ctx, dtype):
    how = ctx.rng.choice(['name', 'instance', 'instance'])
    return how, 'alf' if how == 'name' else AsynchronousLeapfrog(dtype=dtype)


def pair(ctx, f, ts, dtype):
    shape = ctx.rng.choice(SHAPES)
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64).to(dtype)
    return shape, x


@family(quick=400, thorough=10000)
def steps(ctx):
    rng = ctx.rng
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    shape = rng.choice(SHAPES)
    # states of any magnitude, with fields that grow at most linearly
    big = rng.random() < .4
    mag = 10. ** rng.uniform(-6, 6) if big else 1.
    f = make_field(ctx, shape[-1], dtype=dtype, kind=rng.choice(['lin', 'linauto', 'osc', 'tanh', 'sin', 'mix']) if big else None)
    ts, kind, rev = grid(ctx, dtype=dtype)
    xv = (mag * torch.randn(*shape[:-1], 2 * shape[-1], generator=ctx.gen, dtype=torch.float64)).to(dtype)
    if rng.random() < .4: xv = torch.cat([xv[..., :shape[-1]], f(ts[0], xv[..., :shape[-1]])], -1)
    how, solver = solver_of(ctx, dtype)
    ctx.desc(field=f.kind, shape=shape, dtype=dtype, grid=kind, reverse=rev, n=len(ts), how=how, magnitude=mag)
    F = Rec(f)
    keep, tk = xv.clone(), ts.clone()
    te, out = odeint_symplectic(F, xv, ts, solver)
    ctx.check(torch.equal(xv, keep) and torch.equal(ts, tk), 'arguments', 'arguments changed')
    ctx.check(torch.equal(te, ts), 'times', 'times')
    ctx.check(tuple(out.shape) == (len(ts),) + tuple(xv.shape) and out.dtype == dtype, 'shape', f"{tuple(out.shape)} {out.dtype}", stop=True)
    ctx.check(torch.equal(out[0], xv), 'initial', 'first row')
    tol = 1e-10 if dtype == torch.float64 else 3e-5
    for i in range(len(ts) - 1):
        if not ctx.close(out[i + 1], leap(f, ts[i], ts[i + 1] - ts[i], out[i]), tol, f"row{str(dtype)[-2:]}", f"row {i + 1}"): break
    ctx.ev('rows', len(ts) - 1)
    # the field is consulted inside the span, at positions only
    lo, hi = float(ts.min()), float(ts.max())
    e = (1e-9 if dtype == torch.float64 else 1e-5) * (1 + abs(lo) + abs(hi))
    for t, x in F.log:
        if not ctx.check(lo - e <= t <= hi + e, 'outside', f"field evaluated at {t} outside [{lo}, {hi}]"): break
        if not ctx.check(tuple(x.shape) == tuple(shape), 'position', f"field evaluated at a state of shape {tuple(x.shape)}"): break
    ctx.ev('field_calls', len(F.log))
    ctx.key(f.kind, shape, str(dtype), kind, rev, how)


@family(quick=200, thorough=4000)
def reversible(ctx):
    "back over the reversed grid"
    rng = ctx.rng
    shape = rng.choice(SHAPES)
    f = make_field(ctx, shape[-1])
    F = Rec(f)
    ts, kind, rev = grid(ctx, n=rng.choice([None, 20, 60]))
    xv = torch.randn(*shape[:-1], 2 * shape[-1], generator=ctx.gen, dtype=torch.float64)
    how, solver = solver_of(ctx, torch.float64)
    ctx.desc(field=f.kind, shape=shape, grid=kind, reverse=rev, n=len(ts), how=how)
    _, out = odeint_symplectic(F, xv, ts, solver)
    if not torch.isfinite(out).all() or out.abs().max() > 1e4: return
    _, back = odeint_symplectic(F, out[-1], ts.flip(0), solver)
    # rounding grows with the derivative of the maps: measured
    d = 1e-7 * torch.randn(xv.shape, generator=ctx.gen, dtype=torch.float64)
    amp = max(1., float((odeint_symplectic(f_order(f), out[-1] + d, ts.flip(0), AsynchronousLeapfrog(dtype=torch.float64))[1] - back).abs().max() / d.abs().max()))
    ctx.close(back.flip(0), out, 1e-11 * amp * len(ts), 'reversible', 'rows on the way back')
    ctx.ev('rows', len(ts))
    ctx.key(f.kind, shape, kind, rev, how, len(ts))


def f_order(f):
    F = Rec(f)
    return F


@family(quick=60, thorough=1200)
def order(ctx):
    rng = ctx.rng
    shape = rng.choice(SHAPES)
    f = make_field(ctx, shape[-1], kind=rng.choice(['lin', 'linauto', 'osc', 'tanh', 'tanhauto', 'sin', 'tonly', 'mix']))
    T, t0 = rng.uniform(.4, 1.), rng.choice([0., rng.uniform(-2, 2)])
    if rng.random() < .3: T = -T
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64)
    F = Rec(f)
    exact = ref.truth(f, x, torch.tensor([t0, t0 + T], dtype=torch.float64))[-1]
    ctx.desc(field=f.kind, shape=shape, T=T, t0=t0)
    err = []
    for n in (40, 80, 160):
        ts = torch.linspace(t0, t0 + T, n + 1, dtype=torch.float64)
        _, s = odeint_symplectic(F, torch.cat([x, f(ts[0], x)], -1), ts, AsynchronousLeapfrog(dtype=torch.float64))
        err.append(float((s[-1][..., :shape[-1]] - exact).abs().max()))
    if err[0] < 1e-7: return ctx.check(err[2] < 1e-7, 'order', f"errors {err}")
    o = torch.log2(torch.tensor(err[0] / max(err[2], 1e-14))).item() / 2
    ctx.check(o > 1.5 or err[2] < 1e-6, 'order', f"observed order {o:.2f}, errors {err}")
    ctx.ev('slopes')
    ctx.key(f.kind, shape, ctx.index)


@family(quick=120, thorough=2500)
def selection(ctx):
    "output selection, repeated calls with one solver object, refused fields"
    rng = ctx.rng
    shape = rng.choice(SHAPES)
    f = make_field(ctx, shape[-1])
    F = Rec(f)
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'offset', 'negative', 'cross', 'jitter', 'geometric']), n=rng.randint(4, 10))
    xv = torch.randn(*shape[:-1], 2 * shape[-1], generator=ctx.gen, dtype=torch.float64)
    how, solver = solver_of(ctx, torch.float64)
    ctx.desc(field=f.kind, shape=shape, grid=kind, reverse=rev, how=how)
    _, full = odeint_symplectic(F, xv, ts, solver)
    for _ in range(3):
        idx = rng.sample(range(len(ts)), rng.randint(1, len(ts)))
        sel = ts[idx] if rng.random() < .7 else [float(ts[i]) for i in idx]
        te, s = odeint_symplectic(F, xv, ts, solver, save_at=sel)
        ctx.close(te, ts[idx], 1e-12, 'selected_times', f"times of rows {idx}")
        ctx.check(torch.equal(s, full[idx]), 'selected', f"rows {idx}")
        other = torch.randn(2, 6, generator=ctx.gen, dtype=torch.float64)
        g = make_field(ctx, 3)
        odeint_symplectic(Rec(g), other, torch.linspace(0, 1, 4, dtype=torch.float64), solver)
    mid = .5 * (ts[0] + ts[1])
    try: odeint_symplectic(F, xv, ts, solver, save_at=[float(mid)]); ok = False
    except Exception: ok = True
    ctx.check(ok, 'foreign', 'a time outside the grid was accepted')
    for bad in ('no_order', 'second'):
        g = (lambda t, x: f(t, x)) if bad == 'no_order' else Rec(f)
        if bad == 'second': g.order = 2
        try: odeint_symplectic(g, xv, ts, solver); ok = False
        except Exception: ok = True
        ctx.check(ok, 'refused', f"field accepted: {bad}")
    ctx.key(f.kind, shape, kind, rev, how)


@family(quick=120, thorough=2500)
def gradients(ctx):
    rng = ctx.rng
    shape = rng.choice(SHAPES)
    net = make_net(ctx, shape[-1])
    net.order = 1
    ts, kind, rev = grid(ctx)
    xv = torch.randn(*shape[:-1], 2 * shape[-1], generator=ctx.gen, dtype=torch.float64)
    lname, loss = loss_of(ctx, len(ts), xv.shape)
    wrt_t = rng.random() < .4
    ctx.desc(field=net.kind, shape=shape, grid=kind, reverse=rev, loss=lname, wrt_t=wrt_t)
    xa, ta, xb, tb = xv.clone().requires_grad_(True), ts.clone().requires_grad_(wrt_t), xv.clone().requires_grad_(True), ts.clone().requires_grad_(wrt_t)
    _, out = odeint_symplectic(net, xa, ta, AsynchronousLeapfrog(dtype=torch.float64))
    e = ref.compose(leap, net, xb, tb)
    ctx.close(out, e, 1e-10, 'values', 'rows')
    ga = grads(loss(out), [xa] + trainable(net) + ([ta] if wrt_t else []))
    gb = grads(loss(e), [xb] + trainable(net) + ([tb] if wrt_t else []))
    s = max(float(v.abs().max()) for v in gb)
    for a, b in zip(ga, gb): ctx.close(a, b, 1e-9, 'gradient', 'gradient', scale=s)
    ctx.ev('gradients', len(ga))
    if s > 1e-9: ctx.key(net.kind, shape, kind, rev, lname, wrt_t)
