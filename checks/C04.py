"""C04: offline check of the recorded trace of adaptive steps."""
import torch
from lib.core import family
from lib.fields import Probe, make_field, state, grid
from lib.trace import StepLog, ratio
from torchdyn.numerics import odeint, odeint_hybrid
from torchdyn.numerics.utils import EventCallback
from torchdyn.numerics.solvers.ode import str_to_solver

PROPERTY = 'C04'
RULE = ("random adaptive solves whose solver object is wrapped so that every step call is logged; the trace specification is checked offline; "
        "non-trivial = a trace with at least two accepted steps; key = solver, field, tolerance, grid, seminorm, numbers of accepted and rejected steps")
ASSUMPTIONS = ['the error estimate is the one returned by the solver step (its quality is C05)']


class Bump:
    "field with sudden changes in time, which force the controller to reject steps"
    def __init__(self, f, centers, sharp, amp):
        self.f, self.c, self.s, self.a, self.kind = f, centers, sharp, amp, 'bump-' + f.kind

    def __call__(self, t, x):
        y = self.f(t, x)
        for c in self.c: y = y + self.a * torch.exp(-(self.s * (t - c)) ** 2)
        return y


class Rescaled:
    "the same field on a time axis stretched by 1/s: time scales from microseconds to days"
    def __init__(self, f, s): self.f, self.s, self.kind = f, s, f.kind

    def __call__(self, t, x): return self.s * self.f(self.s * t, x)


def check_trace(ctx, log, ts, sol, x0, atol, rtol, semi, interp):
    E = log.ev
    ctx.check(len(E) > 0, 'no_steps', 'no step was taken', stop=True)
    sgn = 1.
    if ts[0] != ts[-1] and abs(float(E[0]['t']) + float(ts[0])) < 1e-12 and abs(float(E[0]['t']) - float(ts[0])) > 1e-12: sgn = -1.
    t0, T = sgn * float(ts[0]), sgn * float(ts[-1])
    d = 1. if T > t0 else -1.
    tol_t = 1e-12 * (1 + abs(t0) + abs(T))
    t, x = t0, x0
    nacc = nrej = 0
    accepted = [(t0, x0)]
    for i, e in enumerate(E):
        et, edt = float(e['t']), float(e['dt'])
        ctx.check(abs(et - t) <= tol_t, 'gap', f"step {i} starts at {et}, the solution is at {t}", stop=True)
        ctx.check(torch.equal(e['x'].reshape(x.shape), x), 'wrong_state', f"step {i} does not start from the current state", stop=True)
        ctx.check(d * edt > 0, 'direction', f"step {i} has length {edt}", stop=True)
        ctx.check(d * (et + edt) <= d * T + tol_t, 'overshoot', f"step {i} ends at {et + edt} beyond {T}")
        if e['k1'] is not None:
            k = e['f'](e['t'], e['x'])
            ctx.close(e['k1'].reshape(k.shape), k, 1e-10, 'stale_k1', f"first stage of step {i} is not the field at ({et}, x)")
        r = ratio(e, atol, rtol, semi)
        last = i == len(E) - 1
        if r <= 1 - 1e-9: adv = True
        elif r >= 1 + 1e-9 or r != r: adv = False
        else: adv = last or not torch.equal(E[i + 1]['x'], e['x'])
        if not last:
            moved = not torch.equal(E[i + 1]['x'].reshape(x.shape), x) or abs(float(E[i + 1]['t']) - et) > tol_t
            ctx.check(moved == adv or (adv and torch.equal(e['x_new'], e['x'])), 'accepted_failing' if moved else 'rejected_passing',
                      f"step {i} at t={et}, dt={edt} has error ratio {r:.6f} and was {'accepted' if moved else 'rejected'}", stop=True)
            if not adv:
                ctx.check(abs(float(E[i + 1]['dt'])) <= abs(edt) * (1 + 1e-9), 'retry_larger',
                          f"step {i} of {edt} failed and was retried with {float(E[i + 1]['dt'])}")
        else:
            ctx.check(adv, 'accepted_failing', f"last step {i} at t={et} has error ratio {r:.6f}", stop=True)
        if adv:
            nacc += 1
            t, x = et + edt, e['x_new'].reshape(x.shape)
            accepted.append((t, x))
        else: nrej += 1
    ctx.check(abs(t - T) <= tol_t, 'end', f"accepted steps end at {t}, requested {T}")
    if interp is None:
        for j, tt in enumerate(ts.tolist()):
            ok = any(abs(sgn * tt - a) <= tol_t and torch.equal(y, sol[j]) for a, y in accepted)
            ctx.check(ok, 'row_not_a_step', f"row {j} (t={tt}) is not the state of an accepted step at that time")
    elif interp != 'all':
        ctx.check(torch.equal(sol[-1], accepted[-1][1]), 'row_not_a_step', 'last row is not the last accepted state')
    ctx.ev('accepted', nacc)
    ctx.ev('rejected', nrej)
    return nacc, nrej


def inside(ctx, times, ts):
    lo, hi = min(ts.tolist()), max(ts.tolist())
    e = 1e-12 * (1 + abs(lo) + abs(hi))
    out = [i for i, t in enumerate(times) if not lo - e <= t <= hi + e]
    ctx.check(not [i for i in out if i > 2] and len(out) <= 1, 'outside', f"field evaluated outside [{lo}, {hi}] at {[times[i] for i in out][:4]}")
    ctx.ev('field_calls', len(times))


@family(quick=1200, thorough=20000)
def traces(ctx):
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx, T=rng.uniform(.5, 4))
    f = make_field(ctx, x.shape[-1], stiff=rng.choice([1., 2., 4.]), kind=rng.choice(['lin', 'osc', 'tanh', 'sin', 'riccati', 'mix', 'tanhauto']))
    lo, hi = min(ts.tolist()), max(ts.tolist())
    if rng.random() < .6:
        f = Bump(f, [rng.uniform(lo, hi) for _ in range(rng.randint(1, 3))], 10 ** rng.uniform(.5, 2), 10 ** rng.uniform(0, 2))
    rtol = 10 ** rng.uniform(-7, -1)
    atol = rtol * 10 ** rng.uniform(-2, 1)
    semi = rng.randint(1, x.shape[0]) if rng.random() < .3 else None
    interp = '4th' if rng.random() < .25 else None
    solver = str_to_solver(name, torch.float64)
    scale = 10 ** rng.uniform(-4, 5) if rng.random() < .4 else 1.
    if scale != 1.: f, ts = Rescaled(f, scale), ts / scale
    log, pr = StepLog(solver), Probe(f)
    kw = {} if semi is None else dict(seminorm=(True, semi))
    ctx.desc(solver=name, field=f.kind, rtol=rtol, atol=atol, grid=kind, reverse=rev, n=len(ts), shape=tuple(x.shape), semi=semi, interp=interp, scale=scale)
    te, sol = odeint(pr, x.clone(), ts.clone(), solver, atol=atol, rtol=rtol, interpolator=interp, **kw)
    times = list(pr.t)
    ctx.check(sol.shape[0] == len(ts), 'rows', f"{sol.shape[0]} rows for {len(ts)} times", stop=True)
    na, nr = check_trace(ctx, log, ts, sol, x, atol, rtol, semi, interp)
    inside(ctx, times, ts)
    if na >= 2: ctx.key(name, f.kind, f"{rtol:.2e}", kind, rev, semi, interp, na, nr)


class Never(EventCallback):
    def __init__(self, level):
        super().__init__()
        self.level = level
    def check_event(self, t, x): return x.abs().max() > self.level
    def jump_map(self, t, x): raise RuntimeError('no event')
    __hash__ = torch.nn.Module.__hash__


@family(quick=300, thorough=6000)
def hybrid(ctx):
    "hybrid solves without an event on the way: the rows are the accepted steps"
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx, T=rng.uniform(.5, 4), reverse=False)
    f = make_field(ctx, x.shape[-1], stiff=rng.choice([1., 2., 4.]), kind=rng.choice(['lin', 'osc', 'tanh', 'sin', 'mix', 'tanhauto']))
    lo, hi = min(ts.tolist()), max(ts.tolist())
    if rng.random() < .6:
        f = Bump(f, [rng.uniform(lo, hi) for _ in range(rng.randint(1, 3))], 10 ** rng.uniform(.5, 2), 10 ** rng.uniform(0, 2))
    rtol = 10 ** rng.uniform(-7, -1)
    atol = rtol * 10 ** rng.uniform(-2, 1)
    semi = rng.randint(1, x.shape[0]) if rng.random() < .4 else None
    solver = str_to_solver(name, torch.float64)
    log, pr = StepLog(solver), Probe(f)
    kw = {} if semi is None else dict(seminorm=(True, semi))
    ctx.desc(solver=name, field=f.kind, rtol=rtol, atol=atol, grid=kind, n=len(ts), shape=tuple(x.shape), semi=semi)
    te, sol = odeint_hybrid(pr, x.clone(), ts.clone(), rng.choice([1, 10]), solver, [Never(1e12)] * rng.randint(0, 2), atol=atol, rtol=rtol, **kw)
    times = list(pr.t)
    na, nr = check_trace(ctx, log, ts, sol, x, atol, rtol, semi, 'all')
    inside(ctx, times, ts)
    ctx.check(len(te) == len(sol) == na + 1, 'rows', f"{len(sol)} rows, {len(te)} times for {na} accepted steps", stop=True)
    acc = [e for i, e in enumerate(log.ev) if i + 1 == len(log.ev) or not torch.equal(log.ev[i + 1]['x'], e['x'])]
    if len(acc) == na:
        for j, e in enumerate(acc): ctx.check(torch.equal(sol[j + 1], e['x_new'].reshape(x.shape)), 'row_not_a_step', f"row {j + 1} is not the state of accepted step {j}")
    tt = te.tolist()
    e = 1e-12 * (1 + abs(lo) + abs(hi))
    for v in ts.tolist(): ctx.check(min(abs(v - w) for w in tt) <= e, 'missing_time', f"requested time {v} is not among the rows")
    if na >= 2: ctx.key('hybrid', name, f.kind, f"{rtol:.2e}", kind, semi, na, nr)
