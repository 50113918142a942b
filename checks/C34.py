"""C34: every step returned on request; spline output of stored solutions."""
import torch
from lib.core import family
from lib import ref
from lib.fields import Probe, make_field, state, grid
from lib.trace import StepLog, ratio
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.numerics.utils import dense_output

PROPERTY = 'C34'
RULE = ("random adaptive solves with return_all_eval next to the same solve without it, the step calls of both logged: returned times against the accepted steps and the requested times, rows against the states of the log "
        "and against an independent solution; spline evaluation of stored trajectories at random times; key = solver, field, tolerance, grid, interpolator, accepted steps")
ASSUMPTIONS = ['double precision']


@family(quick=300, thorough=8000)
def every_step(ctx):
    rng = ctx.rng
    name = rng.choice(['dopri5', 'tsit5'])
    x, mode = state(ctx)
    ts, kind, rev = grid(ctx, T=rng.uniform(.4, 4))
    f = make_field(ctx, x.shape[-1], stiff=rng.choice([1., 2.]), kind=rng.choice(['lin', 'osc', 'tanh', 'sin', 'mix', 'tanhauto', 'riccati', 'tonly']))
    tol = 10 ** rng.uniform(-8, -2)
    interp = '4th' if name == 'dopri5' and rng.random() < .5 else None
    how = rng.choice([name, 'object'])
    def solve(all_):
        solver = str_to_solver(name, torch.float64)
        log = StepLog(solver)
        out = odeint(f, x.clone(), ts.clone(), solver, atol=tol, rtol=tol, interpolator=interp, return_all_eval=all_)
        return out, log.ev
    (te, y), E = solve(True)
    (tp, p), Ep = solve(False)
    ctx.desc(solver=name, field=f.kind, tol=tol, grid=kind, n=len(ts), reverse=rev, interp=interp, steps=len(E), shape=tuple(x.shape), rows=len(te))
    ctx.check(te.shape[0] == y.shape[0] and y.shape[1:] == x.shape, 'shape', f"times {tuple(te.shape)}, rows {tuple(y.shape)}", stop=True)
    sgn = -1. if rev else 1.
    d = (te[1:] - te[:-1]) * sgn
    ctx.check(bool((d > 0).all()), 'order', f"returned times are not strictly monotone: {te.tolist()}"[:300], stop=True)
    ctx.check(te[0] == ts[0] and te[-1] == ts[-1], 'ends', f"returned times go from {te[0]} to {te[-1]}, requested {ts[0]} to {ts[-1]}")
    # requested times, with the rows of the plain call
    where = {float(t): i for i, t in enumerate(te)}
    for j, t in enumerate(ts.tolist()):
        if not ctx.check(t in where, 'missing', f"requested time {t} is not among the returned ones"): continue
        ctx.close(y[where[t]], p[j], 1e-12, 'row', f"row at the requested time {t} differs from that of the plain call")
    ctx.check(len(E) == len(Ep), 'steps', f"{len(E)} attempted steps, {len(Ep)} without return_all_eval")
    # accepted steps
    acc = []
    for i, e in enumerate(E):
        if ratio(e, tol, tol) <= 1: acc.append((sgn * float(e['t'] + e['dt']), e['x_new'].reshape(x.shape)))
    ctx.ev('accepted', len(acc)), ctx.ev('returned_rows', len(te))
    tt = te.tolist()
    used = set()
    for t, v in acc:
        i = min(range(len(tt)), key=lambda i: abs(tt[i] - t))
        if not ctx.check(abs(tt[i] - t) <= 1e-12 * (1 + abs(t)), 'missing_step', f"the accepted step to {t} is not returned"): continue
        ctx.close(y[i], v, 1e-12, 'step_row', f"row {i} (t={tt[i]}) is not the state the accepted step arrived at")
        used.add(i)
    used.add(0)
    extra = [i for i in range(len(tt)) if i not in used and tt[i] not in set(ts.tolist())]
    ctx.check(not extra, 'extra', f"rows {extra[:5]} are neither steps nor requested times")
    ctx.check(torch.equal(y[0], x), 'initial', 'first row')
    if rng.random() < .3:
        sol = ref.truth(f, x, te)
        amp = ref.amplification(f, x, ts, ctx) if hasattr(ref, 'amplification') else 1.
        bound = 60 * tol * (1 + float(sol.abs().max())) * max(1., amp) * (len(acc) + 1)
        if interp is None: ctx.check(float((y - sol).abs().max()) <= bound, 'accuracy', f"returned rows are off by {float((y - sol).abs().max()):.2e} (allowed {bound:.2e})")
        ctx.ev('truth')
    if len(acc) >= 2: ctx.key(name, f.kind, f"{tol:.1e}", kind, rev, interp, len(acc))


@family(quick=120, thorough=3000)
def spline(ctx):
    "dense_output: through the knots, exact for linear data, close to smooth data, only local data matters"
    rng = ctx.rng
    n, B, d = rng.randint(3, 40), rng.randint(1, 4), rng.randint(1, 4)
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'jitter', 'offset', 'negative', 'cross']), n=n, reverse=False)
    n = len(ts)
    what = rng.choice(['random', 'linear', 'smooth'])
    a, b, w = (torch.randn(B, d, generator=ctx.gen, dtype=torch.float64) for _ in range(3))
    F = dict(linear=lambda t: a + b * t, smooth=lambda t: a + torch.sin(w * t + b))
    r = torch.randn(n, B, d, generator=ctx.gen, dtype=torch.float64)
    sol = r if what == 'random' else torch.stack([F[what](t) for t in ts])
    q = torch.tensor(sorted(rng.uniform(float(ts[0]), float(ts[-1])) for _ in range(rng.randint(1, 12))), dtype=torch.float64)
    if rng.random() < .5: q = q[torch.randperm(len(q), generator=ctx.gen)]
    ctx.desc(data=what, n=n, grid=kind, queries=len(q))
    keep = sol.clone()
    out = dense_output(sol, ts, q)
    ctx.check(torch.equal(sol, keep), 'argument', 'the stored solution was modified')
    ctx.check(tuple(out.shape) == (len(q), B, d), 'shape', f"{tuple(out.shape)}", stop=True)
    ctx.close(dense_output(sol, ts, ts), sol, 1e-9, 'knots', 'values at the stored times', scale=float(sol.abs().max()) + 1)
    if what == 'linear': ctx.close(out, torch.stack([F[what](t) for t in q]), 1e-8, 'linear', 'linear data between stored times')
    if what == 'smooth':
        h = float((ts[1:] - ts[:-1]).max())
        e = float((out - torch.stack([F[what](t) for t in q])).abs().max())
        M = float(w.abs().max()) ** 2
        ctx.check(e <= 2 * M * h ** 2 + 1e-9, 'smooth', f"error {e:.2e} between points {h:.2e} apart")
    out2, sp = dense_output(sol, ts, q, return_spline=True)
    ctx.close(out2, out, 1e-14, 'spline', 'values with return_spline')
    ctx.close(torch.stack([sp.evaluate(t) for t in q]), out, 1e-12, 'spline', 'evaluation of the returned spline')
    # batch entries are interpolated separately
    i = rng.randrange(B)
    ctx.close(dense_output(sol[:, i:i + 1], ts, q), out[:, i:i + 1], 1e-12, 'batch', 'one sample alone')
    ctx.ev('queries', len(q))
    ctx.key(what, n, B, d, kind, len(q))
