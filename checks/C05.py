"""C05: one solver step: order, error estimate, first-same-as-last derivative."""
import math
import torch
from lib.core import family
from lib.fields import Probe, make_field, state
from lib import ref
from torchdyn.numerics import Euler, RungeKutta4, DormandPrince45, Tsitouras45
from torchdyn.numerics.solvers.ode import str_to_solver, Midpoint

PROPERTY = 'C05'
RULE = ("random (solver, field, state, time, step length of either sign); a single call of the public step method is compared with the textbook step, its error "
        "estimate with the embedded pair, and families of halved steps with the true flow; non-trivial = every case; key = solver, field, shape, rounded step")
ASSUMPTIONS = ['tableaux as typed in lib/ref.py; dopri5 may use either published lower-order row (Dormand-Prince or Shampine)']
CLS = dict(euler=Euler, midpoint=Midpoint, rk4=RungeKutta4, dopri5=DormandPrince45, tsit5=Tsitouras45)
BHAT = dict(dopri5=[[5179 / 57600, 0, 7571 / 16695, 393 / 640, -92097 / 339200, 187 / 2100, 1 / 40],
                    [1951 / 21600, 0, 22642 / 50085, 451 / 720, -12231 / 42400, 649 / 6300, 1 / 60]],
            tsit5=[[0.09646076681806523 - 0.001780011052226, 0.01 - 0.000816434459657, 0.4798896504144996 + 0.007880878010262,
                    1.379008574103742 - 0.144711007173263, -3.290069515436081 + 0.582357165452555, 2.324710524099774 - 0.458082105929187,
                    1 / 66]])
TAB = dict(dopri5=ref.DOPRI5, tsit5=ref.TSIT5)


def solver_of(ctx, name):
    if ctx.rng.random() < .5: return CLS[name](torch.float64)
    return str_to_solver(name, torch.float64)


@family(quick=700, thorough=15000)
def textbook(ctx):
    rng = ctx.rng
    name = rng.choice(list(CLS))
    x, mode = state(ctx)
    x = x * 10 ** rng.uniform(-2, 1)
    f = make_field(ctx, x.shape[-1])
    dt = rng.choice([-1, 1]) * 10 ** rng.uniform(-4, .3)
    t = rng.uniform(-3, 3)
    shp = rng.choice([(), (1,)])
    t, dt = torch.full(shp, t, dtype=torch.float64), torch.full(shp, dt, dtype=torch.float64)
    s = solver_of(ctx, name)
    ctx.desc(solver=name, field=f.kind, shape=tuple(x.shape), t=float(t), dt=float(dt))
    x_, ts_ = s.sync_device_dtype(x, torch.stack([t.reshape(()), (t + dt).reshape(())]))
    keep = x.clone()
    pr = Probe(f)
    out = s.step(pr, x, t, dt)
    exp = ref.STEPS[name](f, t, dt, x)
    ctx.close(out[1], exp, 1e-12, 'step', f"{name} step")
    nwith = pr.n
    out2 = s.step(pr, x, t, dt, k1=f(t, x))
    ctx.close(out2[1], out[1], 1e-14, 'k1', f"{name} step with the first stage supplied")
    ctx.check(torch.equal(x, keep), 'input', 'step modified its state argument')
    if name in TAB:
        ks, tab = [], TAB[name]
        for c, a in zip(tab['c'], tab['a']):
            ks.append(f(t + c * dt, x + dt * sum((w * k for w, k in zip(a, ks)), torch.zeros_like(x))))
        errs = [dt * sum((b - bh) * k for b, bh, k in zip(tab['b'], hat, ks)) for hat in BHAT[name]]
        scale = abs(float(dt)) * max(k.abs().max().item() for k in ks)
        dev = min(min((out[2] - e).abs().max().item(), (out[2] + e).abs().max().item()) for e in errs)
        ctx.worst('estimate', dev / (1e-11 * scale + 1e-300))
        ctx.check(out[2].shape == x.shape, 'estimate_shape', f"error estimate has shape {tuple(out[2].shape)}")
        ctx.check(dev <= 1e-11 * scale, 'estimate', f"error estimate is not the difference to the embedded lower-order solution: off by {dev:.3e}, steps of size {scale:.3e}")
        ctx.close(out2[2], out[2], 1e-13, 'k1', 'error estimate with the first stage supplied')
        ctx.close(out[0], f(t + dt, out[1]), 1e-12, 'fsal', 'derivative handed on is not the field at the end of the step')
        ctx.close(out2[0], out[0], 1e-13, 'k1', 'handed on derivative with the first stage supplied')
    ctx.ev('steps', 2)
    ctx.ev('field_calls', pr.n)
    ctx.key(name, f.kind, tuple(x.shape), round(math.log10(abs(float(dt))), 2), float(dt) > 0)


@family(quick=200, thorough=3000)
def order(ctx):
    "local error and error estimate against the true flow under halving"
    rng = ctx.rng
    name = rng.choice(list(CLS))
    p = ref.ORDERS[name]
    f = make_field(ctx, 2, kind=rng.choice(['lin', 'osc', 'tanh', 'mix', 'linauto', 'tanhauto']))
    x = torch.randn(12, 2, generator=ctx.gen, dtype=torch.float64)
    t = torch.tensor(rng.uniform(-2, 2), dtype=torch.float64)
    s = solver_of(ctx, name)
    sgn = rng.choice([-1, 1])
    h0 = dict(euler=.05, midpoint=.1, rk4=.2, dopri5=.4, tsit5=.4)[name]
    ctx.desc(solver=name, field=f.kind, t=float(t), h0=h0 * sgn)
    s.sync_device_dtype(x, torch.stack([t, t + 1]))
    errs, ests = [], []
    for i in range(5):
        h = torch.tensor(sgn * h0 / 2 ** i, dtype=torch.float64)
        out = s.step(f, x, t, h)
        exact = ref.fine(f, x, torch.stack([t, t + h]), 8, ref.dopri5)[-1]
        errs.append(ref.rms(out[1] - exact).item())
        if name in TAB: ests.append(ref.rms(out[2]).item())
        ctx.ev('steps')
    def steepest(e):  # not asymptotic yet at the first halving, rounding at the last ones: a lower order shows in all of them
        return max(math.log2(u / max(v, 1e-17)) for u, v in zip(e, e[1:]))
    slope = steepest(errs)
    floor = errs[-1] < 1e-13
    ctx.check(slope > p + 1 - .5 or floor, 'order', f"local errors {errs} shrink with slope {slope:.2f} at best, order {p} requires {p + 1}")
    if ests:
        slope = steepest(ests)
        ctx.check(slope > 4.5 or ests[-1] < 1e-13, 'estimate_order', f"estimates {ests} have slope {slope:.2f}")
        # the difference to a lower order solution does not fall below the error of the higher order one
        ctx.check(ests[-1] > .3 * errs[-1] or ests[-1] < 1e-14, 'estimate_small', f"estimate {ests[-1]:.2e} below the local error {errs[-1]:.2e}")
    ctx.key(name, f.kind, round(float(t), 3), sgn)
