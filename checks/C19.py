"""C19: hybrid solves."""
import numpy as np
import torch
import torch.nn as nn
from scipy.integrate import solve_ivp
from lib.core import family, Budget
from lib.fields import make_field, grid, wide
from torchdyn.numerics import odeint_hybrid
from torchdyn.numerics.solvers.ode import str_to_solver

PROPERTY = 'C19'
RULE = ("random (field, state shape, one to three callbacks with transversal conditions, jump maps, solver, tolerances, event_tol, grid, j_span) observed through the rows returned and a log of the callbacks; "
        "an offline checker follows the exact flow from every recorded post-jump state (DOP853 with event location); key = callbacks, shape, solver, tolerances, grid, j_span, number of events; non-trivial = at least one event")
ASSUMPTIONS = ['conditions are crossed transversally (rate >= 0.4) and stay true until the jump', 'integration error allowance 100 * (atol + rtol * |x|)']


class Driven:
    "the first m coordinates of the last axis rise at rates between 0.5 and 1.5 (state- and time-dependent); the rest follows a zoo field"
    def __init__(self, field, m, budget=60000):
        self.field, self.m, self.n, self.budget = field, m, 0, budget
        self.calls = []
    def raw(self, t, x):
        y = self.field(t, x)
        return torch.cat([1 + .5 * torch.tanh(y[..., :self.m]), y[..., self.m:]], -1)
    def __call__(self, t, x):
        self.n += 1
        if self.n > self.budget: raise Budget(f"{self.n} evaluations")
        self.calls.append(float(t))
        return self.raw(t, x)


class Cross:
    "condition: some sample's coordinate i exceeds theta; jump: lowers that coordinate for all samples and transforms the rest"
    def __init__(self, k, i, m, theta, drop, log, kind):
        self.k, self.i, self.m, self.theta, self.drop, self.log, self.kind = k, i, m, theta, drop, log, kind
    def g(self, x): return x[..., self.i].max() - self.theta
    def check_event(self, t, x): return bool(self.g(x) > 0)
    def fn(self, x):
        x = x.clone()
        x[..., self.i] -= self.drop
        if self.kind == 'scale': x[..., self.m:] *= -.8
        if self.kind == 'shift': x[..., self.m:] += .3
        if self.kind == 'reset': x[..., self.i] = x[..., self.i] * 0 - self.drop
        return x
    def jump_map(self, t, x):
        y = self.fn(x)
        self.log.append((self.k, float(t), x.detach().clone(), y.detach().clone()))
        return y


def flow(f, t0, t1, x, cbs, tt):
    "exact flow from (t0, x): states at tt, first time each condition becomes true"
    shape = x.shape
    rhs = lambda t, y: f.raw(torch.tensor(t, dtype=torch.float64), torch.as_tensor(y).reshape(shape)).reshape(-1).numpy()
    evs = []
    for cb in cbs:
        e = lambda t, y, cb=cb: float(cb.g(torch.as_tensor(y).reshape(shape)))
        e.direction = 1
        evs.append(e)
    if t1 <= t0: return x[None].repeat(len(tt), *[1] * x.dim()), [np.inf] * len(cbs)
    s = solve_ivp(rhs, (t0, t1), x.reshape(-1).numpy(), method='DOP853', rtol=1e-11, atol=1e-12, events=evs, dense_output=True)
    assert s.success
    ys = torch.as_tensor(np.stack([s.sol(min(max(t, t0), t1)) for t in tt])).reshape(len(tt), *shape) if len(tt) else torch.zeros(0, *shape)
    return ys, [e[0] if len(e) else np.inf for e in s.t_events]


def judge(ctx, f, cbs, log, x0, ts, j_span, te, sol, atol, rtol, etol, first=None):
    tt = [float(v) for v in te]
    T = float(ts[-1])
    ctx.check(len(tt) == len(sol), 'rows', f"{len(tt)} times, {len(sol)} rows", stop=True)
    ctx.check(tt[0] == float(ts[0]) and torch.equal(sol[0], x0 if first is None else first), 'start', 'first row', stop=True)
    ctx.check(all(b >= a for a, b in zip(tt, tt[1:])), 'monotone', 'times decrease', stop=True)
    ctx.check(tt[-1] <= T, 'end', f"last time {tt[-1]} past the end {T}")
    amp = 100 * (atol + rtol * (1 + float(sol.abs().max())))
    # pair rows with jumps
    i, jumps, segs, start = 1, 0, [], 0
    nj = len(log)
    pairs = []
    r = 0
    for k, t, a, b in log:
        while r + 1 < len(tt) and not (tt[r] == t and torch.equal(sol[r], a) and tt[r + 1] == t and torch.equal(sol[r + 1], b)): r += 1
        if not ctx.check(r + 1 < len(tt), 'pair', f"the jump at t = {t} is not recorded as two rows", stop=True): return
        pairs.append(r)
        r += 1
    dup = [q for q in range(len(tt) - 1) if tt[q] == tt[q + 1] and not torch.equal(sol[q], sol[q + 1])]  # an event right after a row repeats it
    ctx.check(len(dup) == len(pairs), 'pairs', f"{len(dup)} doubled times, {len(pairs)} jumps")
    ctx.check(nj <= j_span, 'j_span', f"{nj} jumps, {j_span} allowed")
    if tt[-1] < T: ctx.check(nj == j_span, 'stopped', f"stopped at {tt[-1]} < {T} after {nj} of {j_span} jumps")
    miss = [float(v) for v in ts if float(v) <= tt[-1] and float(v) not in set(tt)]
    # a grid point is replaced by an event only if it is within the event's own resolution
    ctx.check(not miss, 'grid', f"grid points {miss[:3]} missing among the rows")
    # follow the flow from every start
    begins = [0] + [p + 1 for p in pairs]
    ends = pairs + [len(tt) - 1]
    for s, (b, e) in enumerate(zip(begins, ends)):
        seg = tt[b:e + 1]
        horizon = min(T, tt[e] + 4 * etol + .05)
        ys, hits = flow(f, tt[b], horizon, sol[b], cbs, seg)
        ctx.close(sol[b:e + 1], ys, amp / (1 + float(ys.abs().max())), 'flow', f"rows {b}..{e} leave the flow")
        ctx.ev('rows', len(seg))
        first = min(hits, default=np.inf)
        slack = 4 * amp + 1e-9
        if s < len(pairs):
            k, t, a, bb = log[s]
            if not ctx.check(hits[k] < np.inf, 'event', f"jump {k} at {t} though its condition does not become true by {horizon}"): continue
            # located before, and within event_tol of, the crossing of its own condition; no earlier condition overlooked
            ctx.check(-slack <= hits[k] - t <= etol + slack, 'located', f"event {k} located at {t}, its condition becomes true at {hits[k]} (event_tol {etol})")
            ctx.check(t <= first + slack, 'order', f"jump {k} at {t}, but condition {int(np.argmin(hits))} became true at {first}")
            ctx.worst('located', abs(hits[k] - t) / (etol + slack))
            ctx.ev('events')
        else:
            ctx.check(first >= tt[e] - slack, 'missed', f"condition true at {first} but no jump before {tt[e]}")


@family(quick=260, thorough=5000)
def crossings(ctx):
    rng = ctx.rng
    m = rng.choice([1, 1, 2, 3])
    d = m + rng.randint(0, 2)
    shape = rng.choice([(d,), (1, d), (3, d), (2, 2, d)] * 2 + [(30, d)])
    f = Driven(make_field(ctx, d, kind=rng.choice(['lin', 'tanh', 'sin', 'osc', 'tonly', 'mix', 'tanhauto'])), m)
    log = []
    x0 = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64) * .5
    x0[..., :m] = -x0[..., :m].abs()
    cbs = [Cross(k, k, m, rng.uniform(.05, 1.), rng.uniform(.6, 1.5), log, rng.choice(['plain', 'scale', 'shift', 'reset'])) for k in range(m)]
    T = rng.uniform(1., 5.)
    ts, kind, _ = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'clustered', 'jitter']), n=rng.choice([2, 3, 6, 15]), T=T, reverse=False)
    j_span = rng.choice([1, 2, 3, 100, 100])
    s = rng.choice(['dopri5', 'tsit5'])
    atol, rtol = 10. ** -rng.uniform(4, 9), 10. ** -rng.uniform(4, 9)
    etol = 10. ** -rng.uniform(1.5, 8)
    prio = rng.choice(['jump', 'flow'])
    ctx.desc(callbacks=[c.kind for c in cbs], shape=shape, field=f.field.kind, grid=kind, n=len(ts), j_span=j_span, solver=s, atol=atol, rtol=rtol, event_tol=etol, priority=prio)
    te, sol = odeint_hybrid(f, x0.clone(), ts.clone(), j_span, str_to_solver(s, torch.float64) if rng.random() < .5 else s, cbs, atol=atol, rtol=rtol, event_tol=etol, priority=prio)
    judge(ctx, f, cbs, log, x0, ts, j_span, te.detach(), sol.detach(), atol, rtol, etol)
    if log: ctx.key(m, d, shape, f.field.kind, kind, len(ts), j_span, s, round(np.log10(etol)), len(log))


@family(quick=60, thorough=800)
def bounce(ctx):
    "bouncing ball: closed-form impact times and states"
    rng = ctx.rng
    g, h, v0, c = rng.uniform(2, 10), rng.uniform(.5, 3), rng.uniform(-1, 2), rng.uniform(.5, .95)
    f = lambda t, x: torch.stack([x[..., 1], -g * torch.ones_like(x[..., 0])], -1)
    log = []
    class Ball:
        def check_event(self, t, x): return bool(x[..., 0] < 0)
        def jump_map(self, t, x):
            y = torch.stack([x[..., 0], -c * x[..., 1]], -1)
            log.append(float(t))
            return y
    n = rng.randint(1, 4)
    # impacts
    t, y, v, hits = 0., h, v0, []
    for _ in range(n + 1):
        dt = (v + np.sqrt(v * v + 2 * g * y)) / g
        t, v, y = t + dt, c * (g * dt - v), 0.
        hits.append(t)
    j_lim = rng.random() < .5
    T = hits[n - 1] + rng.uniform(.2, .8) * (hits[n] - hits[n - 1])
    etol = 10. ** -rng.uniform(4, 8)
    ts = torch.linspace(0, T, rng.choice([2, 4, 11]), dtype=torch.float64)
    j = n if j_lim else 100
    x0 = torch.tensor([[h, v0]] if rng.random() < .5 else [h, v0], dtype=torch.float64)
    ctx.desc(g=g, h=h, v0=v0, c=c, impacts=n, event_tol=etol, points=len(ts), j_span=j)
    te, sol = odeint_hybrid(f, x0, ts, j, rng.choice(['dopri5', 'tsit5']), [Ball()], atol=1e-8, rtol=1e-8, event_tol=etol)
    ctx.check(len(log) == n, 'bounces', f"{len(log)} impacts, expected {n}", stop=True)
    for i, (a, b) in enumerate(zip(log, hits)):
        ctx.check(abs(a - b) <= (i + 1) * 40 * etol + 1e-6, 'impact', f"impact {i} at {a}, exact {b} (event_tol {etol})")
        ctx.ev('events')
    if not j_lim: ctx.check(abs(float(te[-1]) - T) < 1e-12, 'end', 'last time')
    else: ctx.check(float(te[-1]) == log[-1] , 'end', f"solve went on to {float(te[-1])} after the last allowed jump at {log[-1]}")
    ctx.key(n, len(ts), j_lim, round(np.log10(etol)), x0.dim())


@family(quick=60, thorough=800)
def initial(ctx):
    "conditions true at the start, no callbacks at all, no event in the span"
    rng = ctx.rng
    d = wide(rng, rng.randint(2, 3))
    f = Driven(make_field(ctx, d, kind=rng.choice(['lin', 'tanh', 'sin', 'osc'])), 1)
    x0 = torch.randn(rng.randint(1, 3), d, generator=ctx.gen, dtype=torch.float64) * .5
    mode = rng.choice(['true', 'none', 'never'])
    log = []
    if mode == 'true':
        cbs = [Cross(0, 0, 1, rng.uniform(-4, -3), 0., log, 'plain')]
        cbs[0].drop = float(x0[:, 0].max() - cbs[0].theta + rng.uniform(.5, 1.2))
    elif mode == 'none': cbs = []
    else: cbs = [Cross(0, 0, 1, 1e6, 1., log, 'plain')]
    ts, kind, _ = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset']), n=rng.choice([2, 5, 9]), T=rng.uniform(.8, 2.5), reverse=False)
    s, etol = rng.choice(['dopri5', 'tsit5']), 10. ** -rng.uniform(3, 7)
    ctx.desc(mode=mode, grid=kind, n=len(ts), solver=s, event_tol=etol)
    j_span = rng.choice([1, 2, 2, 100])
    te, sol = odeint_hybrid(f, x0.clone(), ts, j_span, s, cbs, atol=1e-7, rtol=1e-7, event_tol=etol)
    te, sol = te.detach(), sol.detach()
    if mode == 'true':
        # the jump precedes the first row, which is the jumped state, and counts as one
        k, t, a, b = log[0]
        ctx.check(t == float(ts[0]) and torch.equal(a, x0), 'initial_jump', 'first jump is not applied to the initial condition')
        judge(ctx, f, cbs, log[1:], x0, ts, j_span - 1, te, sol, 1e-7, 1e-7, etol, first=b)
    else:
        ctx.check(not log, 'no_event', 'a jump without event')
        judge(ctx, f, cbs, log, x0, ts, j_span, te, sol, 1e-7, 1e-7, etol)
    ctx.key(mode, d, len(x0), kind, len(ts), s, j_span, len(log))


@family(quick=40, thorough=600)
def together(ctx):
    "several conditions that become true together: the one listed first jumps"
    rng = ctx.rng
    m = rng.choice([1, 2])
    d = m + rng.randint(0, 2)
    shape = rng.choice([(d,), (1, d), (3, d)])
    f = Driven(make_field(ctx, d, kind=rng.choice(['lin', 'tanh', 'sin', 'osc', 'tonly', 'mix'])), m)
    log = []
    x0 = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64) * .5
    x0[..., :m] = -x0[..., :m].abs()
    theta, i, n = rng.uniform(.05, .6), rng.randrange(m), rng.randint(2, 4)
    cbs = [Cross(k, i, m, theta, rng.uniform(.6, 1.5), log, rng.choice(['plain', 'scale', 'shift', 'reset'])) for k in range(n)]
    ts, kind, _ = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative']), n=rng.choice([2, 3, 6]), T=rng.uniform(1.5, 4), reverse=False)
    s, etol, j_span = rng.choice(['dopri5', 'tsit5']), 10. ** -rng.uniform(2, 7), rng.choice([1, 2, 100])
    ctx.desc(callbacks=n, shape=shape, field=f.field.kind, grid=kind, solver=s, event_tol=etol, j_span=j_span)
    te, sol = odeint_hybrid(f, x0.clone(), ts.clone(), j_span, s, cbs, atol=1e-7, rtol=1e-7, event_tol=etol)
    ctx.check(all(k == 0 for k, *_ in log), 'first_listed', f"jumps applied: {[k for k, *_ in log]}")
    judge(ctx, f, cbs, log, x0, ts, j_span, te.detach(), sol.detach(), 1e-7, 1e-7, etol)
    if log: ctx.key(n, shape, f.field.kind, kind, s, j_span, len(log))
