"""C09: dense output of dopri5."""
import torch
from lib.core import family
from lib.fields import Probe, make_field, state, grid
from lib import ref
from lib.trace import StepLog
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import ODEProblem, NeuralODE
import torch.nn as nn

PROPERTY = 'C09'
RULE = ("random dopri5 solves with the '4th' interpolator whose steps are logged; interior rows are compared with the quartic through the ends, end slopes and the fourth-order "
        "midpoint of the enclosing logged step (stages recomputed by the oracle), with DOP853, and with the uninterpolated solve; the steps of solves of the same problem on "
        "denser grids must coincide; non-trivial = at least one row strictly inside a step; key = field, tolerance, grid, shape, rows inside steps")
ASSUMPTIONS = ["the midpoint weights of dopri5's fourth-order interpolant are those of Hairer & Wanner / Shampine", 'allowances as in C03, times 4']
BMID = [0.10013431883002395, 0, 0.3918321794184259, -0.02982460176594817, 0.05893268337240795, -0.04497888809104361, 0.023904308236133973]


def stages(f, t, dt, x):
    ks = []
    for c, a in zip(ref.DOPRI5['c'], ref.DOPRI5['a']):
        ks.append(f(t + c * dt, x + dt * sum((w * k for w, k in zip(a, ks)), torch.zeros_like(x))))
    return ks


def quartic(f, t, dt, x, th):
    ks = stages(f, t, dt, x)
    x1 = x + dt * sum(w * k for w, k in zip(ref.DOPRI5['b'], ks))
    xm = x + dt * sum(w * k for w, k in zip(BMID, ks))
    f0, f1 = dt * ks[0], dt * ks[6]
    # Hermite-like quartic with p(0)=x, p(1)=x1, p'(0)=f0, p'(1)=f1, p(1/2)=xm, solved from its conditions
    A = torch.tensor([[1, 1, 1], [2, 3, 4], [.25, .125, .0625]], dtype=torch.float64)
    rhs = torch.stack([x1 - x - f0, f1 - f0, xm - x - .5 * f0]).reshape(3, -1)
    c = torch.linalg.solve(A, rhs).reshape(3, *x.shape)
    return x + th * f0 + th ** 2 * c[0] + th ** 3 * c[1] + th ** 4 * c[2]


def accepted(log, T, t0):
    "accepted steps in order, by the chain of start times"
    out = []
    for i, e in enumerate(log.ev):
        nxt = log.ev[i + 1] if i + 1 < len(log.ev) else None
        if nxt is None or abs(float(nxt['t']) - float(e['t'])) > 1e-14 * (1 + abs(float(e['t']))): out.append(e)
    return out


@family(quick=500, thorough=8000)
def dense(ctx):
    rng = ctx.rng
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx, n=rng.choice([3, 8, 20, 40]), T=rng.uniform(.5, 4))
    f = make_field(ctx, x.shape[-1], kind=rng.choice(['lin', 'linauto', 'osc', 'tanh', 'tanhauto', 'sin', 'mix', 'tonly']))
    rtol = 10 ** rng.uniform(-8, -2)
    atol = rtol * 10 ** rng.uniform(-1, 1)
    solver = str_to_solver('dopri5', torch.float64)
    log, pr = StepLog(solver), Probe(f)
    ctx.desc(field=f.kind, rtol=rtol, atol=atol, grid=kind, reverse=rev, shape=tuple(x.shape), n=len(ts))
    with torch.no_grad():
        te, sol = odeint(pr, x.clone(), ts.clone(), solver, atol=atol, rtol=rtol, interpolator='4th')
    ctx.check(torch.equal(te, ts) and len(sol) == len(ts), 'contract', f"times {te.tolist()} for {ts.tolist()}", stop=True)
    sgn = -1. if rev else 1.
    g = (lambda t, y: -f(-t, y)) if rev else f
    if log.ev and abs(float(log.ev[0]['t']) - float(ts[0])) < 1e-12 and rev and float(log.ev[0]['dt']) < 0: sgn, g = 1., f
    acc = accepted(log, sgn * float(ts[-1]), sgn * float(ts[0]))
    inside = 0
    with torch.no_grad():
        for j, t in enumerate(ts.tolist()):
            t = sgn * t
            best = None
            for e in acc:
                a, h = float(e['t']), float(e['dt'])
                th = (t - a) / h
                if -1e-9 <= th <= 1 + 1e-9:
                    best = e
                    if 1e-6 < th < 1 - 1e-6: inside += 1
                    q = quartic(g, e['t'].reshape(()), e['dt'].reshape(()), e['x'].reshape(x.shape), th)
                    ctx.close(sol[j], q, 1e-8, 'interpolant', f"row {j} inside the step [{a}, {a + h}]")
                    break
            ctx.check(best is not None, 'uncovered', f"no accepted step covers t={t}")
        # more or fewer output points: the same steps, the same evaluations
        if rng.random() < .6:
            m = rng.choice(['two', 'denser'])
            ts2 = ts[[0, -1]] if m == 'two' else torch.linspace(float(ts[0]), float(ts[-1]), 3 * len(ts) + 1, dtype=torch.float64)
            solver2 = str_to_solver('dopri5', torch.float64)
            log2, pr2 = StepLog(solver2), Probe(f)
            sol2 = odeint(pr2, x.clone(), ts2, solver2, atol=atol, rtol=rtol, interpolator='4th')[1]
            ctx.check(pr2.n == pr.n, 'extra_steps', f"{pr.n} field calls for {len(ts)} output points, {pr2.n} for {len(ts2)}")
            ctx.check(len(log2.ev) == len(log.ev), 'extra_steps', f"{len(log.ev)} steps for {len(ts)} output points, {len(log2.ev)} for {len(ts2)}")
            ctx.close(sol2[-1], sol[-1], 1e-11, 'ends', 'last row depends on the output grid')
            ctx.ev('regridded')
        exp = ref.truth(f, x, ts)
        amp = ref.amplification(f, x, ts, ctx)
        allow = 800 * (atol + rtol * exp.abs().max().item()) * amp * x.numel() ** .5 + 1e-10 * amp
        err = (sol - exp).abs().max().item()
        ctx.worst('accuracy', err / allow)
        ctx.check(err <= allow, 'accuracy', f"error {err:.3e} > {allow:.3e}")
        plain = odeint(f, x.clone(), ts.clone(), 'dopri5', atol=atol, rtol=rtol)[1]
        d = (plain - sol).abs().max().item()
        ctx.check(d <= 2 * allow, 'agreement', f"deviates from the uninterpolated solve by {d:.3e}")
    ctx.ev('steps', len(log.ev))
    ctx.ev('rows_inside_steps', inside)
    if inside: ctx.key(f.kind, f"{rtol:.1e}", kind, rev, tuple(x.shape), inside)


class Mod(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f, self.s = f, nn.Parameter(torch.ones(1, dtype=torch.float64))

    def forward(self, t, x, args={}): return self.s * self.f(t, x)


@family(quick=150, thorough=2000)
def wrapped(ctx):
    "the option reaches the solver through problems and Neural ODEs; tsit5 ignores it; fixed-step solvers are unaffected"
    rng = ctx.rng
    x, mode = state(ctx, shape=rng.choice([(2, 3), (3, 1), (1, 2)] * 3 + [(30, 2), (2, 14)]))
    ts, kind, rev = grid(ctx, n=rng.choice([6, 20]), T=rng.uniform(.5, 3))
    f = make_field(ctx, x.shape[-1])
    tol = 10 ** rng.uniform(-6, -2)
    name = rng.choice(['dopri5', 'dopri5', 'tsit5', 'rk4'])
    cls = rng.choice([NeuralODE, ODEProblem])
    sens = rng.choice(['autograd', 'adjoint'])
    ctx.desc(cls=cls.__name__, sens=sens, solver=name, field=f.kind, tol=tol, grid=kind, reverse=rev)
    pr, pr2 = Probe(f), Probe(f)
    node = cls(Mod(pr), str_to_solver(name, torch.float64), sensitivity=sens, atol=tol, rtol=tol, interpolator='4th')
    te, sol = node(x.clone(), ts.clone())
    kw = {} if name == 'rk4' else dict(atol=tol, rtol=tol)
    te2, sol2 = odeint(pr2, x.clone(), ts.clone(), name, interpolator='4th', **kw)
    ctx.close(sol, sol2, 1e-12, 'wrapped', f"{cls.__name__} against odeint with the same interpolator")
    ctx.check(torch.equal(te, ts), 'contract', 'times')
    ctx.check(pr.n == pr2.n, 'wrapped', f"{pr.n} field calls instead of {pr2.n}")
    if name != 'dopri5':
        te3, sol3 = odeint(f, x.clone(), ts.clone(), name, **kw)
        ctx.close(sol, sol3, 1e-12, 'ignored', f"{name} with an interpolator")
    ctx.key(cls.__name__, sens, name, f.kind, kind, rev)
