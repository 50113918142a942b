"""C42: every solve ends, and never makes up a solution."""
import math
import torch
import torch.nn as nn
from lib import ref
from lib.core import Budget, family
from lib.fields import grid
from torchdyn.numerics import odeint, odeint_hybrid, odeint_mshooting
from torchdyn.numerics.utils import EventCallback
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingLayer

PROPERTY = 'C42'
RULE = ("problems without a solution on the span (finite-time blow-up, fields that are or become NaN or infinite, or are left by the solution, NaN states, a single bad sample) through every interface, direction, tolerance and precision: "
        "the solve must end within an evaluation budget, with an error or with rows that are not finite wherever no solution exists; solvable ones whose trial steps leave the domain of the field, against closed forms; "
        "adjoint backward passes with NaN or infinite gradients or backward blow-up; event cascades (always true, Zeno), implicit steps and multiple shooting on such fields; key = interface, solver, problem, outcome")
ASSUMPTIONS = ['an adaptive solve of these small problems that has not ended after 60000 evaluations (25 times the largest number observed) does not end']
F64, F32 = torch.float64, torch.float32
LIMIT = 60000


class Counted(nn.Module):
    def __init__(self, fn):
        super().__init__()
        self.fn, self.n, self.a = fn, 0, nn.Parameter(torch.ones(1, dtype=F64))

    def forward(self, t, x, args={}):
        self.n += 1
        if self.n > LIMIT: raise Budget(f"more than {LIMIT} evaluations")
        return self.fn(t, x, self.a.to(x.dtype))


class Event(EventCallback):
    def __init__(self, cond, jump):
        super().__init__()
        self.cond, self.jump, self.n = cond, jump, 0
    def check_event(self, t, x): return self.cond(t, x)
    def jump_map(self, t, x):
        self.n += 1
        return self.jump(x)
    __hash__ = nn.Module.__hash__


def unsolvable(ctx, B, d, dtype):
    "-> kind, field on forward time from 0, state, time from which there is no solution (None: blow-up at about that time, checked for ending only)"
    rng = ctx.rng
    kind = rng.choice(['square', 'cube', 'exp', 'tan', 'nan', 'inf', 'late_nan', 'late_inf', 'pole', 'left', 'log', 'nan_state', 'inf_state', 'one_sample', 'one_coordinate', 'late_one'])
    x = (1 + torch.rand(B, d, generator=ctx.gen, dtype=F64)).to(dtype)
    tb = rng.uniform(.2, .9)
    nan, i, j = float('nan'), rng.randrange(B), rng.randrange(d)
    mask = torch.zeros(B, d, dtype=torch.bool)
    if kind in ('square', 'cube', 'exp', 'tan'):
        k = 1 / tb
        fn = dict(square=lambda t, x, a: a * k * x ** 2, cube=lambda t, x, a: a * k * x ** 3, exp=lambda t, x, a: a * k * x.exp(), tan=lambda t, x, a: a * k * (1 + x ** 2))[kind]
        return kind, fn, x, None, mask
    bad = 0.
    if kind in ('nan', 'inf'): fn, mask = lambda t, x, a: a * x * (nan if kind == 'nan' else math.inf), ~mask
    elif kind in ('late_nan', 'late_inf'): fn, bad, mask = lambda t, x, a: torch.where(torch.as_tensor(t) > tb, a * x * (nan if kind == 'late_nan' else math.inf), -a * x), tb, ~mask
    elif kind == 'pole': fn, bad = lambda t, x, a: a * x / (tb - t), None
    elif kind == 'left': fn, bad, mask = lambda t, x, a: -a * x.sqrt() - 3, 1.99 / 3, ~mask
    elif kind == 'log': fn, bad, mask = lambda t, x, a: -4 + 0 * a * x.log(), 1.99 / 4, ~mask
    elif kind in ('nan_state', 'inf_state'):
        x[i, j] = nan if kind == 'nan_state' else math.inf
        mask[i, j] = True
        fn = lambda t, x, a: -a * x
    else:
        if kind == 'one_sample': mask[i] = True
        else: mask[i, j] = True
        bad = tb if kind == 'late_one' else 0.
        fn = lambda t, x, a: torch.where(mask & (torch.as_tensor(t) >= bad), nan * x, -a * x)
    if kind in ('left', 'log') : x = x.clamp(max=1.99)
    return kind, fn, x, bad, mask


HOW = ['odeint', 'odeint', 'interp', 'reversed', 'reversed', 'NeuralODE', 'all_eval', 'ODEProblem', 'trajectory', 'hybrid', 'gradient', 'seminorm', 'save_at', 'layer']


@family(quick=240, thorough=6000)
def endless(ctx):
    "there is no solution: an error, or rows that say so"
    rng = ctx.rng
    B, d, dtype = rng.choice([1, 2, 5]), rng.choice([1, 2, 3]), rng.choice([F64, F64, F32])
    kind, fn, x, bad, mask = unsolvable(ctx, B, d, dtype)
    n = rng.choice([2, 3, 6, 11])
    ts = (torch.linspace(0, 1, n, dtype=F64) if rng.random() < .5 else torch.cat([torch.zeros(1), torch.rand(n - 2, generator=ctx.gen).sort()[0] * .98 + .01, torch.ones(1)])).to(dtype)
    if not (ts[1:] > ts[:-1]).all(): ts = torch.linspace(0, 1, n, dtype=dtype)
    tol = 10 ** rng.uniform(-7, -2) if dtype == F64 else 10 ** rng.uniform(-5, -2)
    name, how = rng.choice(['dopri5', 'tsit5']), HOW[ctx.index % len(HOW)]
    sign = -1 if how == 'reversed' else 1
    f = Counted(fn if sign > 0 else lambda t, x, a: -fn(-t, x, a))
    ctx.desc(kind=kind, how=how, solver=name, tol=tol, dtype=str(dtype), B=B, d=d, n=n, bad=bad)
    kw = dict(atol=tol, rtol=tol)
    try:
        if how in ('odeint', 'reversed'): t, y = odeint(f, x, sign * ts, name, **kw)
        elif how == 'interp': t, y = odeint(f, x, ts, name, interpolator='4th', **kw)
        elif how == 'all_eval': t, y = odeint(f, x, ts, name, return_all_eval=True, **kw)
        elif how == 'save_at': t, y = odeint(f, x, ts, name, save_at=ts[1:], **kw)
        elif how == 'seminorm': t, y = odeint(f, x, ts, name, seminorm=(True, B), **kw)
        elif how == 'NeuralODE': t, y = NeuralODE(f, name, sensitivity=rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']), **kw)(x, ts)
        elif how == 'layer': t, y = ts[-1:], NeuralODE(f, name, return_t_eval=False, **kw)(x, ts)[-1:]
        elif how == 'ODEProblem': t, y = ODEProblem(f, name, sensitivity=rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']), **kw)(x, ts)
        elif how == 'trajectory': t, y = ts, NeuralODE(f, name, **kw).trajectory(x, ts)
        elif how == 'hybrid': t, y = odeint_hybrid(f, x, ts, rng.choice([1, 5]), name, [Event(lambda t, x: torch.zeros(1, dtype=torch.bool), lambda x: x)], **kw)
        else:
            sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
            z = x.clone().requires_grad_(True)
            t, y = ODEProblem(f, name, sensitivity=sens, solver_adjoint=name, atol_adjoint=tol, rtol_adjoint=tol, **kw)(z, ts)
            y[-1].sum().backward()
        outcome = 'rows'
    except Exception as e:
        outcome = 'error'
        ctx.check(str(e) or type(e) is not Exception, 'message', f"the error says nothing: {e!r}")
    ctx.ev('evaluations', f.n); ctx.ev(f'outcome_{outcome}')
    ctx.key(how, name, kind, outcome, str(dtype), n, ts, tol)
    if outcome == 'error': return
    if bad is None: return
    y, t = y.detach(), t.abs()
    for k in range(len(t)):
        if t[k] > bad + 1e-6:
            ctx.check(not y[k][mask].isfinite().any(), 'made_up', f"{how} returns the finite state {y[k][mask].flatten()[:3].tolist()} at {float(t[k]):.6g}, there is no solution after {bad:.6g} ({kind})")


@family(quick=160, thorough=4000)
def domain(ctx):
    "trial steps leave the domain of the field, the solution does not"
    rng = ctx.rng
    B, d = rng.choice([1, 3]), rng.choice([1, 2])
    kind = rng.choice(['decay', 'log', 'sqrt', 'reciprocal', 'until', 'acos', 'overflow'])
    tol = 10 ** rng.uniform(-9, -4)
    x = 1 + torch.rand(B, d, generator=ctx.gen, dtype=F64)
    ts, gk, _ = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'tight', 'jitter']), T=rng.uniform(1.5, 4), reverse=False)
    ts = ts - ts[0]
    sw, lam, mild = float(ts[-1]) * rng.uniform(.3, .7), rng.uniform(30, 300), rng.uniform(.001, .05)
    w = .02
    nan = float('nan')
    # rate: mild, then large; int(t) its integral
    rate = lambda t: mild + (lam - mild) * torch.sigmoid((t - sw) / w)
    integral = lambda t: mild * t + (lam - mild) * w * (torch.nn.functional.softplus((t - sw) / w) - torch.nn.functional.softplus(torch.tensor(-sw / w, dtype=F64)))
    I = integral(ts).reshape(-1, 1, 1)
    if kind == 'decay': fn, y = lambda t, x, a: torch.where(x > .2, -rate(t) * (x - .5), nan * x), .5 + (x - .5) * (-I).exp()
    elif kind == 'log': fn, y = lambda t, x, a: -rate(t) * x * x.log(), (x.log() * (-I).exp()).exp()
    elif kind == 'sqrt': fn, y = lambda t, x, a: -rate(t) * (x - 1) + 0 * (x - .7).sqrt(), 1 + (x - 1) * (-I).exp()
    elif kind == 'reciprocal': fn, y = lambda t, x, a: torch.where(x > .5, rate(t) * (1 / x - x) / 2, math.inf * x), (1 + (x ** 2 - 1) * (-I).exp()).sqrt()
    elif kind == 'acos': fn, y = lambda t, x, a: -rate(t) * (x - 1) + 0 * torch.acos((x - 1.7).clamp(max=1.)), 1 + (x - 1) * (-I).exp()
    elif kind == 'overflow':
        # evaluated where a trial step lands, the field overflows
        fn, y = lambda t, x, a: -rate(t) * torch.sinh(x * 2), torch.atanh(torch.tanh(x) * (-2 * I).exp())
    else:
        # the field only exists on the span
        end = float(ts[-1]) * (1 + 1e-9)
        fn, y = lambda t, x, a: torch.where((torch.as_tensor(t) <= end) & (torch.as_tensor(t) >= -1e-9), -x, nan * x), x * (-ts).exp().reshape(-1, 1, 1)
    f = Counted(fn)
    name, how = rng.choice(['dopri5', 'tsit5']), rng.choice(['odeint', 'interp', 'NeuralODE', 'hybrid', 'reversed', 'gradient'])
    kw = dict(atol=tol, rtol=tol)
    ctx.desc(kind=kind, how=how, solver=name, tol=tol, grid=gk, n=len(ts), switch=sw, rate=lam)
    if how == 'odeint': t, s = odeint(f, x, ts, name, **kw)
    elif how == 'interp': t, s = odeint(f, x, ts, name, interpolator='4th', **kw)
    elif how == 'NeuralODE': t, s = NeuralODE(f, name, **kw)(x, ts)
    elif how == 'reversed':
        g = Counted(lambda t, x, a: -fn(-t, x, a))
        t, s = odeint(g, x, -ts, name, **kw)
        f.n = g.n
    elif how == 'gradient':
        z = x.clone().requires_grad_(True)
        t, s = odeint(f, z, ts, name, **kw)
        g, = torch.autograd.grad(s[-1].sum(), z)

        s = s.detach()
    else: t, s = odeint_hybrid(f, x, ts, 3, name, [Event(lambda t, x: torch.zeros(1, dtype=torch.bool), lambda x: x)], **kw)
    ctx.ev('evaluations', f.n)
    if how != 'hybrid':
        ctx.check(len(s) == len(ts), 'rows', f"{len(s)} rows for {len(ts)} times", stop=True)
        ctx.close(s, y, 300 * tol + 1e-9, 'solution', f"{how} {name} tol {tol:.1e}: {kind} with trial steps outside the domain")
    else: ctx.close(s[-1], y[-1], 300 * tol + 1e-9, 'solution', f"hybrid {name} tol {tol:.1e}: {kind} with trial steps outside the domain")
    ctx.key(kind, how, name, gk, tol, sw)


@family(quick=80, thorough=2000)
def backward(ctx):
    "backward passes end"
    rng = ctx.rng
    kind = rng.choice(['nan_gradient', 'inf_gradient', 'one_gradient', 'explodes', 'nan_field', 'contracting', 'nan_loss'])
    B, d, tol = rng.choice([1, 3]), rng.choice([1, 2]), 10 ** rng.uniform(-8, -3)
    x = (1 + torch.rand(B, d, generator=ctx.gen, dtype=F64)).requires_grad_(True)
    ts = torch.linspace(0, rng.uniform(.5, 1.5), rng.choice([2, 3, 6]), dtype=F64)
    fn = lambda t, x, a: -a * x
    if kind == 'explodes': fn = lambda t, x, a: -a * 20 * x ** 3
    if kind == 'contracting': fn = lambda t, x, a: -a * 25 * (x - torch.sin(t))
    flag = [False]
    if kind == 'nan_field': fn = lambda t, x, a: -a * x * (float('nan') if flag[0] and t < float(ts[-1]) / 2 else 1.)
    f = Counted(fn)
    sens, name = rng.choice(['adjoint', 'interpolated_adjoint']), rng.choice(['dopri5', 'tsit5'])
    loss = (lambda t, x: float('nan') * x.sum(-1)) if kind == 'nan_loss' else None
    p = (NeuralODE if loss else rng.choice([NeuralODE, ODEProblem]))(f, name, sensitivity=sens, solver_adjoint=name, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol, **(dict(integral_loss=loss) if loss else {}))
    ctx.desc(kind=kind, sensitivity=sens, solver=name, tol=tol, interface=type(p).__name__, n=len(ts))
    y = p(x, ts)[1]
    f.n, flag[0] = 0, True
    w = torch.ones_like(y)
    if kind == 'nan_gradient': w[rng.randrange(len(ts))] = float('nan')
    if kind == 'inf_gradient': w[-1] = math.inf
    if kind == 'one_gradient': w[-1, 0, 0] = float('nan')
    try:
        y.backward(w)
        outcome = 'gradient'
    except Exception as e: outcome = 'error'
    ctx.ev('evaluations', f.n); ctx.ev(f'outcome_{outcome}')
    if outcome == 'gradient' and kind in ('nan_gradient', 'inf_gradient', 'one_gradient', 'nan_field', 'nan_loss'):
        ctx.check(not x.grad.isfinite().all() or not f.a.grad.isfinite().all(), 'made_up', f"the gradient is finite although {kind}")
    ctx.check(outcome == 'gradient' or kind not in ('contracting',), 'solvable', f"the backward pass of a solvable problem failed ({kind})")
    ctx.key(kind, sens, name, tol, len(ts), outcome)


@family(quick=80, thorough=2000)
def events(ctx):
    "hybrid solves end whatever the events do"
    rng = ctx.rng
    B, tol, J = rng.choice([1, 1, 3]), 10 ** rng.uniform(-7, -3), rng.choice([0, 1, 4, 25])
    kind = rng.choice(['always', 'zeno', 'frozen', 'explode', 'nan_jump', 'time'])
    ts = torch.linspace(0, rng.uniform(1, 4), rng.choice([2, 5]), dtype=F64)
    x = torch.cat([.3 + torch.rand(B, 1, generator=ctx.gen, dtype=F64) * .01, torch.zeros(B, 1, dtype=F64)], 1)
    fn = lambda t, x, a: torch.cat([x[:, 1:], -9.81 + 0 * x[:, :1]], 1)
    if kind == 'always': ev = Event(lambda t, x: torch.ones(1, dtype=torch.bool), lambda x: x)
    elif kind == 'zeno':
        c = rng.uniform(.2, .6)
        ev = Event(lambda t, x: (x[0, :1] < 0) & (x[0, 1:] < 0), lambda x: torch.cat([x[:, :1].relu(), -c * x[:, 1:]], 1))
    elif kind == 'frozen': ev = Event(lambda t, x: x[0, :1] < .1, lambda x: x)
    elif kind == 'explode': ev = Event(lambda t, x: (x[0, :1] < 0) & (x[0, 1:] < 0), lambda x: torch.cat([x[:, :1].relu(), -1.5 * x[:, 1:]], 1))
    elif kind == 'nan_jump': ev = Event(lambda t, x: x[0, :1] < .1, lambda x: x * float('nan'))
    else: ev = Event(lambda t, x: (torch.as_tensor(t) > float(ts[-1]) / 2).reshape(1), lambda x: x + 1)
    f = Counted(fn)
    ctx.desc(kind=kind, tol=tol, jumps=J, B=B, T=float(ts[-1]))
    try:
        t, y = odeint_hybrid(f, x, ts, J, rng.choice(['dopri5', 'tsit5']), [ev], atol=tol, rtol=tol, **({} if rng.random() < .5 else dict(event_tol=10 ** rng.uniform(-6, -3))))
        outcome = 'rows'
        ctx.check(bool((t[1:] >= t[:-1]).all()) and t[-1] <= ts[-1] + 1e-9, 'times', f"times {t.tolist()[-4:]} of a solve until {float(ts[-1])}")
    except Exception as e:
        if not kind == 'nan_jump': raise
        outcome = 'error'
    ctx.check(ev.n <= J + 1, 'jumps', f"{ev.n} jumps, {J} allowed")
    ctx.ev('evaluations', f.n); ctx.ev('jumps', ev.n); ctx.ev(f'outcome_{outcome}')
    ctx.key(kind, J, tol, B, outcome, ts)


@family(quick=60, thorough=1500)
def fixed(ctx):
    "fixed-step, implicit and multiple-shooting solves of such problems"
    rng = ctx.rng
    B, d, dtype = rng.choice([1, 3]), rng.choice([1, 2]), rng.choice([F64, F32])
    kind, fn, x, bad, mask = unsolvable(ctx, B, d, dtype)
    how = rng.choice(['euler', 'midpoint', 'rk4', 'implicit', 'implicit', 'zero', 'backward', 'layer'])
    n = rng.choice([2, 5, 9])
    ts = torch.linspace(0, 1, n, dtype=dtype)
    f = Counted(fn)
    ctx.desc(kind=kind, how=how, n=n, B=B, d=d, dtype=str(dtype), bad=bad)
    try:
        if how in ('zero', 'backward'): y = odeint_mshooting(f, x, ts, how, fine_steps=3, maxiter=4)[1]
        elif how == 'layer': y = MultipleShootingLayer(f, 'zero', maxiter=3, fine_steps=2)(x, ts)[1]
        elif how == 'implicit': y = odeint(f, x, ts, 'ieuler')[1]
        else: y = odeint(f, x, ts, how)[1]
        outcome = 'rows'
        ctx.check(len(y) == n, 'rows', f"{len(y)} rows for {n} times")
    except Exception as e:
        outcome = 'error'
        ctx.check(how not in ('euler', 'midpoint', 'rk4'), 'raised', f"{how} raised {e!r}")
    ctx.ev('evaluations', f.n); ctx.ev(f'outcome_{outcome}')
    ctx.key(kind, how, n, str(dtype), outcome)
    # an explicit step that starts where the field is undefined cannot give a number
    if outcome == 'rows' and bad is not None and how in ('euler', 'midpoint', 'rk4') and kind not in ('left', 'log'):
        for k in range(1, n):
            if ts[k - 1] > bad + 1e-6: ctx.check(not y[k][mask].detach().isfinite().any(), 'made_up', f"{how} returns a finite state at {float(ts[k]):.4g}, the field is undefined since {bad:.4g}")
