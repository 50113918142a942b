"""C30: user solvers, complex and dictionary states."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid, state, make_field, Probe
from lib import ref
from lib.trace import StepLog, ratio
from torchdyn.core import NeuralODE, ODEProblem
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver, Euler
from torchdyn.numerics.solvers.templates import DiffEqSolver

PROPERTY = 'C30'
RULE = ("random recording solvers (fixed and adaptive, both templates, arbitrary update rules, own parameters) driven through odeint, ODEProblem and NeuralODE with random args, grids, directions and output selections; dictionary "
        "states of random layouts, dtypes and orders; complex fields against the same computation on real and imaginary parts, all solvers; "
        "key = family, route, template, grid, direction, selection, layout or field, precision")
ASSUMPTIONS = ['functional odeint passes args to the step only', 'modulus or parts may scale the error of complex states (a factor sqrt 2)']


def close_times(ctx, a, b, ulps, scale, msg, mech):
    e = abs(float(a) - float(b))
    ctx.check(e <= ulps * scale, mech, f'{msg}: {float(a)!r}, expected {float(b)!r}')


def eps(ts): return torch.finfo(ts.dtype).eps * max(1e-3, float(ts.abs().max()))


def make_solver(ctx, base, rule, out):
    class User(base):
        def __init__(self):
            if base is Euler: super().__init__()
            else: super().__init__(order=1)
            self.calls, self.rule, self.w = [], rule, nn.Parameter(torch.tensor(.3, dtype=torch.float64))

        def step(self, f, x, t, dt, k1=None, args=None):
            self.calls.append(dict(t=t, dt=dt, x=x, args=args, f=f, k1=k1))
            y = rule(self, f, x, t, dt, args)
            self.calls[-1]['y'] = y
            other = None if out == 'none' else x
            return other, y, other
    return User()


RULES = dict(
    euler=lambda s, f, x, t, dt, a: x + dt * f(t, x),
    hyper=lambda s, f, x, t, dt, a: x + dt * f(t, x) + dt ** 2 * s.w * torch.sin(x),
    wild=lambda s, f, x, t, dt, a: torch.sin(3 * x + t) + dt * len(s.calls),
    theta=lambda s, f, x, t, dt, a: x + dt * f(t + .3 * dt, x) * (a or {}).get('gain', 1.),
    still=lambda s, f, x, t, dt, a: x)


def select(ctx, ts):
    if ctx.rng.random() < .5: return None, list(range(len(ts)))
    idx = sorted(ctx.rng.sample(range(len(ts)), ctx.rng.randint(1, len(ts))))
    return ts[idx], idx


@family(quick=300, thorough=4000)
def driven(ctx):
    rng = ctx.rng
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    ts, kind, rev = grid(ctx, dtype=dtype, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'geometric', 'jitter', 'clustered']))
    x, _ = state(ctx, dtype=dtype)
    fld = make_field(ctx, x.shape[-1], dtype=dtype, kind=rng.choice(['lin', 'tanh', 'sin', 'osc']))
    route = rng.choice(['odeint', 'odeint', 'ODEProblem', 'NeuralODE'])
    rule, base, out = rng.choice(list(RULES)), rng.choice([Euler, DiffEqSolver]), rng.choice(['none', 'k'])
    s = make_solver(ctx, base, RULES[rule], out)
    s.w.data = s.w.data.to(dtype)
    args = rng.choice([None, {'gain': 2.}, {'gain': .5, 'tag': object(), 'z': [1, 2]}])
    save, idx = select(ctx, ts)
    ctx.desc(route=route, rule=rule, base=base.__name__, grid=kind, reverse=rev, n=len(ts), args=None if args is None else sorted(args), idx=idx, dtype=str(dtype))
    kw = {}
    if args is not None: kw['args'] = args
    if save is not None: kw['save_at'] = save
    seen = []

    def f(t, x, args={}):
        seen.append((float(t), args))
        return fld(t, x)
    x0 = x.clone().requires_grad_(True)
    if route == 'odeint': te, y = odeint(f, x0, ts, s, **kw)
    elif route == 'ODEProblem': te, y = ODEProblem(f, s)(x0, ts, **kw)
    else: te, y = NeuralODE(f, s)(x0, ts, **kw)
    n = len(ts)
    ctx.check(len(s.calls) == n - 1, 'calls', f'{len(s.calls)} steps on {n - 1} intervals', stop=True)
    e = eps(ts)
    cur = x
    for i, c in enumerate(s.calls):
        close_times(ctx, c['t'], ts[i], 8, e, f'time of step {i}', 'step_time')
        close_times(ctx, c['dt'], ts[i + 1] - ts[i], 16, e, f'length of step {i}', 'step_length')
        ctx.check(c['x'].shape == cur.shape and bool((c['x'] == cur).all()), 'step_state', f'state passed to step {i} is not the current one')
        ctx.check((c['args'] is args or c['args'] == args) if args is not None else not c['args'], 'step_args', f"args passed to step {i}: {c['args']}, given {args}")
        if c['k1'] is not None: ctx.close(c['k1'], fld(ts[i], cur), 1e-5, 'step_k1', f'k1 passed to step {i}')
        with torch.no_grad(): ctx.close(c['f'](ts[i], cur), fld(ts[i], cur), 1e-6 if dtype == torch.float32 else 1e-13, 'step_field', f'field passed to step {i}')
        cur = c['y'].detach()
        ctx.ev('steps')
    rows = [x] + [c['y'] for c in s.calls]
    ctx.check(y.shape == (len(idx),) + x.shape, 'rows', f'shape {tuple(y.shape)}', stop=True)
    for k, i in enumerate(idx):
        ctx.check(bool((y[k] == rows[i]).all()), 'rows', f'row {k} is not the state produced for time {i}')
        ctx.check(abs(float(te[k]) - float(ts[i])) <= 8 * e, 'times', f'time {k}')
    # gradients flow through the user's rule
    if rule != 'still':
        w = torch.randn(y.shape, generator=ctx.gen, dtype=torch.float64).to(dtype)
        g = torch.autograd.grad((w * y).sum(), [x0, s.w], allow_unused=True)
        z0 = x.clone().requires_grad_(True)
        s2 = make_solver(ctx, base, RULES[rule], out)
        s2.w.data = s.w.data.clone()
        zs = [z0]
        for i in range(n - 1): zs.append(s2.step(fld, zs[-1], ts[i], ts[i + 1] - ts[i], None, args)[1])
        h = torch.autograd.grad((w * torch.stack(zs)[idx]).sum(), [z0, s2.w], allow_unused=True)
        for a, b, name in zip(g, h, ('initial state', 'solver parameter')):
            a, b = (torch.zeros(()) if v is None else v for v in (a, b))
            ctx.check(float((a - b).abs().max()) <= (1e-3 if dtype == torch.float32 else 1e-9) * (1 + float(b.abs().max())), 'gradient', f'gradient of the {name} through a user solver')
    ctx.key('driven', route, rule, base.__name__, kind, rev, save is None, args is None, str(dtype), n)


class Embedded(DiffEqSolver):
    "user-defined adaptive pair (Heun with embedded Euler, or Bogacki-Shampine)"
    def __init__(self, pair):
        super().__init__(order=2 if pair == 'heun' else 3, stepping_class='adaptive')
        self.pair, self.calls = pair, []

    def step(self, f, x, t, dt, k1=None, args=None):
        c = dict(t=t.clone(), dt=dt.clone(), x=x, args=args, k1=k1)
        self.calls.append(c)
        if k1 is None: k1 = f(t, x)
        if self.pair == 'heun':
            k2 = f(t + dt, x + dt * k1)
            y, err = x + dt / 2 * (k1 + k2), dt / 2 * (k2 - k1)
            k = f(t + dt, y)
            st = (k1, k2)
        else:
            k2 = f(t + dt / 2, x + dt / 2 * k1)
            k3 = f(t + 3 / 4 * dt, x + 3 / 4 * dt * k2)
            y = x + dt * (2 / 9 * k1 + 1 / 3 * k2 + 4 / 9 * k3)
            k = f(t + dt, y)
            err = dt * (-5 / 72 * k1 + 1 / 12 * k2 + 1 / 9 * k3 - 1 / 8 * k)
            st = (k1, k2, k3, k)
        c['x_new'], c['err'] = y, err
        return k, y, err, st


@family(quick=120, thorough=1500)
def adaptive(ctx):
    rng = ctx.rng
    ts, kind, rev = grid(ctx, reverse=False, T=rng.uniform(.3, 1.5))
    x, _ = state(ctx)
    fld = make_field(ctx, x.shape[-1], kind=rng.choice(['lin', 'tanh', 'sin', 'osc', 'mix']))
    pair = rng.choice(['heun', 'bs'])
    tol = 10 ** rng.uniform(-5, -2)
    route = rng.choice(['odeint', 'odeint', 'ODEProblem', 'NeuralODE'])
    args = rng.choice([None, {'gain': 2.}])
    s = Embedded(pair)
    pr = Probe(fld, budget=60000)
    ctx.desc(route=route, pair=pair, tol=tol, grid=kind, n=len(ts), shape=tuple(x.shape))
    kw = {} if args is None else dict(args=args)
    f = lambda t, x, args={}: pr(t, x)
    with torch.no_grad():
        if route == 'odeint': te, y = odeint(f, x, ts, s, atol=tol, rtol=tol, **kw)
        else: te, y = dict(ODEProblem=ODEProblem, NeuralODE=NeuralODE)[route](f, s, atol=tol, rtol=tol)(x, ts, **kw)
    ctx.check(y.shape == (len(ts),) + x.shape, 'rows', f'shape {tuple(y.shape)}', stop=True)
    ctx.check(bool((te == ts).all()) or float((te - ts).abs().max()) < 1e-12, 'times', 'times returned')
    cur, t, e, states, rej = x, float(ts[0]), 64 * eps(ts), [], 0
    for i, c in enumerate(s.calls):
        ctx.check(bool((c['x'] == cur).all()), 'step_state', f'call {i}: state is not the last accepted one')
        ctx.check(abs(float(c['t']) - t) <= e, 'step_time', f"call {i}: time {float(c['t'])}, accepted up to {t}")
        ctx.check(float(c['dt']) > 0 and float(c['t'] + c['dt']) <= float(ts[-1]) + e, 'step_length', f"call {i}: length {float(c['dt'])} at {t}")
        ctx.check(c['args'] == args if args is not None else not c['args'], 'step_args', f"call {i}: args {c['args']}")
        if c['k1'] is not None: ctx.close(c['k1'], fld(c['t'], cur), 1e-9, 'step_k1', f'call {i}: k1 is not the field at the current state')
        r = ratio(c, tol, tol)
        nxt = s.calls[i + 1]['x'] if i + 1 < len(s.calls) else None
        acc = r <= 1 if abs(r - 1) > 1e-9 else (nxt is None or bool((nxt == c['x_new']).all()))
        if acc: cur, t = c['x_new'], float(c['t'] + c['dt']); states.append((t, cur))
        else: rej += 1
    ctx.ev('steps', len(s.calls))
    ctx.ev('rejected', rej)
    ctx.check(abs(t - float(ts[-1])) <= e, 'incomplete', f'accepted steps end at {t}, span at {float(ts[-1])}')
    ctx.check(bool((y[0] == x).all()), 'rows', 'first row is not the initial state')
    for i in range(1, len(ts)):
        near = [v for u, v in states if abs(u - float(ts[i])) <= e]
        ctx.check(any(bool((v == y[i]).all()) for v in near), 'rows', f'row {i} is not the accepted state at its time')
    ctx.key('adaptive', route, pair, kind, f'{tol:.2g}', tuple(x.shape), args is None)


def layout(ctx, dtype):
    "dictionary state"
    rng = ctx.rng
    names = rng.sample(['i1', 'i2', 'pos', 'vel', 'a', 'z', 'memory'], rng.randint(1, 4))
    n = rng.choice([1, 2, 5])
    shapes = {k: rng.choice([(n, 1), (n, 3), (n, 2, 2), (n,), (4,), ()]) for k in names}
    d = {k: (rng.choice([dtype, dtype, torch.float32]) if rng.random() < .4 else dtype) for k in names}
    return {k: torch.randn(shapes[k], generator=ctx.gen, dtype=torch.float64).to(d[k]) for k in names}


@family(quick=200, thorough=3000)
def dicts(ctx):
    rng = ctx.rng
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'geometric', 'jitter', 'clustered']))
    x0 = layout(ctx, torch.float64)
    names = list(x0)
    c = {k: rng.uniform(-1, 1) for k in names}
    base = rng.choice([Euler, DiffEqSolver])
    route = rng.choice(['odeint', 'odeint', 'ODEProblem', 'NeuralODE'])
    mid, fresh_order = rng.random() < .5, rng.random() < .5
    args = rng.choice([None, {'gain': 1.5}])

    def f(t, x, args={}):
        tot = sum(v.double().sum() for v in x.values())
        g = (args or {}).get('gain', 1.)
        ks = reversed(list(x)) if fresh_order else list(x)
        return {k: g * (torch.sin(x[k] * c[k] + float(t)) + (.1 * torch.tanh(tot)).to(x[k].dtype)) for k in ks}

    def move(x, dx, dt): return {k: x[k] + (dt * dx[k]).to(x[k].dtype) for k in dx}

    class User(base):
        def __init__(self):
            if base is Euler: super().__init__()
            else: super().__init__(order=2)

        def step(self, f, x, t, dt, k1=None, args=None):
            k = f(t, x, args)
            if mid: k = f(t + dt / 2, move(x, k, dt / 2), args)
            return None, move(x, k, dt), None
    save, idx = select(ctx, ts)
    ctx.desc(layout={k: [tuple(v.shape), str(v.dtype)] for k, v in x0.items()}, grid=kind, reverse=rev, route=route, base=base.__name__, idx=idx, n=len(ts))
    kw = {}
    if args is not None: kw['args'] = args
    if save is not None: kw['save_at'] = save
    keep = {k: v.clone() for k, v in x0.items()}
    s = User()
    if route == 'odeint': te, y = odeint(f, x0, ts, s, **kw)
    else: te, y = dict(ODEProblem=ODEProblem, NeuralODE=NeuralODE)[route](f, s)(x0, ts, **kw)
    ctx.check(isinstance(y, dict) and set(y) == set(names), 'dict_keys', f'returned {type(y).__name__} with {sorted(y) if isinstance(y, dict) else None}', stop=True)
    ctx.check(list(x0) == names and all(bool((x0[k] == keep[k]).all()) for k in names), 'input_changed', 'initial dictionary was modified')
    rows, r = [x0], User()
    for a, b in zip(ts[:-1], ts[1:]): rows.append(r.step(f, rows[-1], a, b - a, None, args)[1])
    for k in names:
        want = torch.stack([rows[i][k] for i in idx])
        ctx.check(y[k].shape == want.shape, 'dict_rows', f'{k}: shape {tuple(y[k].shape)}, expected {tuple(want.shape)}', stop=True)
        ctx.check(y[k].dtype == x0[k].dtype, 'dict_dtype', f'{k}: {y[k].dtype}, given {x0[k].dtype}')
        ctx.close(y[k], want, 1e-5 if any(v.dtype == torch.float32 for v in x0.values()) else 1e-11, 'dict_rows', f'{k}: rows of the dictionary state')
        ctx.ev('rows', len(idx))
    ctx.check(len(te) == len(idx) and float((te - ts[idx]).abs().max()) < 1e-9, 'times', 'times returned')
    ctx.key('dicts', route, base.__name__, kind, rev, save is None, len(names), mid, len(ts))


class Complex(nn.Module):
    "field on complex states; `pair` is the same field on stacked real and imaginary parts"
    def __init__(self, ctx, d, kind, cdtype):
        super().__init__()
        r = lambda *s: torch.randn(*s, generator=ctx.gen, dtype=torch.complex128).to(cdtype)
        A = r(d, d) / d ** .5
        self.kind, self.H, self.b, self.w = kind, (A + A.conj().T) / 2, r(d), torch.rand(d, generator=ctx.gen, dtype=torch.float64).to(r(1).real.dtype) * 2 + .5
        self.g = nn.Parameter(torch.tensor(.8, dtype=self.w.dtype))
        self.bad = []

    def forward(self, t, z):
        if isinstance(t, torch.Tensor) and t.is_complex(): self.bad.append(t)
        t = t.real if torch.is_tensor(t) and t.is_complex() else t
        t = torch.as_tensor(t).to(self.w.dtype)
        k = self.kind
        if k == 'schroedinger': return -1j * self.g * (z @ self.H.T) * (1 + .3 * torch.sin(t))
        if k == 'damped': return (-.3 + 2j * self.w) * z * self.g + self.b * torch.cos(t)
        if k == 'landau': return self.g * z - (1 + .7j) * z * (z.real ** 2 + z.imag ** 2) / (1 + z.real ** 2 + z.imag ** 2) + .2j * torch.sin(t)
        if k == 'conj': return 1j * self.w * z.conj() * .5 + torch.complex(torch.sin(z.real), torch.cos(z.imag)) * .2 * self.g + torch.where(t > .5, .1, 0.) * 0
        if k == 'real': return torch.complex(torch.sin(z.real + t), torch.zeros_like(z.real)) * self.g
        if k == 'phase': return 1j * (self.w + .2 * z.real) * z * self.g

    def pair(self, t, u): return torch.view_as_real(self(t, torch.view_as_complex(u.contiguous())))


CK = ['schroedinger', 'damped', 'landau', 'conj', 'real', 'phase']


def cstate(ctx, cdtype):
    shape = ctx.rng.choice([(1,), (3,), (2, 2), (1, 3), (4, 2), (2, 3, 2)] * 2 + [(40,), (2, 14)])
    z = torch.randn(*shape, generator=ctx.gen, dtype=torch.complex128)
    mode = ctx.rng.choice(['normal', 'normal', 'real', 'imag', 'mixed', 'small'])
    if mode == 'real': z = z.real + 0j
    if mode == 'imag': z = 1j * z.imag
    if mode == 'mixed': z = z * torch.where(torch.rand(shape, generator=ctx.gen) < .4, 0., 1.)
    if mode == 'small': z = z * 1e-3
    return z.to(cdtype), mode


@family(quick=200, thorough=3000)
def complex_fixed(ctx):
    rng = ctx.rng
    cd = rng.choice([torch.complex128, torch.complex128, torch.complex64])
    z, mode = cstate(ctx, cd)
    f = Complex(ctx, z.shape[-1], rng.choice(CK), cd)
    name = rng.choice(['euler', 'midpoint', 'rk4', 'rk4', 'ieuler'])
    ts, kind, rev = grid(ctx, dtype=z.real.dtype, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'geometric', 'jitter']), T=rng.uniform(.3, 1.), n=rng.randint(3, 7))
    route = rng.choice(['odeint', 'odeint', 'ODEProblem', 'NeuralODE']) if cd == torch.complex64 else 'odeint'
    save, idx = select(ctx, ts)
    ctx.desc(solver=name, field=f.kind, mode=mode, dtype=str(cd), grid=kind, reverse=rev, route=route, shape=tuple(z.shape), idx=idx)
    kw = {} if save is None else dict(save_at=save)

    def solve(g, x):
        if route == 'odeint': return odeint(g, x, ts, name, **kw)
        return dict(ODEProblem=ODEProblem, NeuralODE=NeuralODE)[route](g, name)(x, ts, **kw)
    tol = 3e-4 if cd == torch.complex64 else 1e-10
    if name == 'ieuler': tol = 2e-3 if cd == torch.complex64 else 1e-5
    a = z.clone().requires_grad_(name != 'ieuler')
    te, y = solve(f, a)
    u = torch.view_as_real(z).clone().requires_grad_(name != 'ieuler')
    _, v = solve(lambda t, x: f.pair(t, x), u)
    ctx.check(not f.bad, 'complex_time', f'field called at complex times, e.g. {f.bad[:1]}')
    ctx.check(not te.is_complex() and float((te - ts[idx]).abs().max()) < 1e-5, 'times', 'times returned')
    ctx.check(y.dtype == cd and y.shape == (len(idx),) + z.shape, 'shape', f'{y.dtype} {tuple(y.shape)}', stop=True)
    ctx.close(torch.view_as_real(y.resolve_conj().detach().clone()), v, tol, 'complex_rows', 'complex trajectory against the pair of real ones')
    if name != 'ieuler':
        ref_rows = ref.compose(ref.STEPS[name], f, z, ts)
        ctx.close(torch.view_as_real(y.detach().clone()), torch.view_as_real(ref_rows[idx].detach().clone()), tol, 'complex_rows', 'complex trajectory against the serial rule')
        w = torch.randn(v.shape, generator=ctx.gen, dtype=torch.float64).to(v.dtype)
        if idx != [0]:
            ga = torch.autograd.grad((torch.view_as_real(y) * w).sum(), [a, f.g], allow_unused=True)
            gu = torch.autograd.grad((v * w).sum(), [u, f.g], allow_unused=True)
            ctx.close(torch.view_as_real(ga[0].resolve_conj()), gu[0], tol * 30, 'complex_gradient', 'gradient of the initial state')
            ctx.check((ga[1] is None) == (gu[1] is None), 'complex_gradient', 'parameter gradient missing')
            if ga[1] is not None: ctx.close(ga[1], gu[1], tol * 30, 'complex_gradient', 'gradient of a real parameter')
    ctx.ev('rows', len(idx))
    ctx.key('complex', name, f.kind, mode, str(cd), kind, rev, route, save is None)


@family(quick=200, thorough=3000)
def complex_adaptive(ctx):
    rng = ctx.rng
    z, mode = cstate(ctx, torch.complex128)
    f = Complex(ctx, z.shape[-1], rng.choice(CK), torch.complex128)
    name, interp = rng.choice(['dopri5', 'tsit5']), None
    if name == 'dopri5' and rng.random() < .3: interp = '4th'
    ts, kind, rev = grid(ctx, T=rng.uniform(.3, 3.))
    rtol = 10 ** rng.uniform(-9, -2)
    atol = rtol * 10 ** rng.uniform(-1, 1)
    ctx.desc(solver=name, interp=interp, field=f.kind, mode=mode, grid=kind, reverse=rev, shape=tuple(z.shape), rtol=rtol, atol=atol)
    s = str_to_solver(name, torch.float64)
    log = StepLog(s, 40000)
    with torch.no_grad():
        pz = Probe(f, 400000)
        te, y = odeint(pz, z, ts, s, atol=atol, rtol=rtol, interpolator=interp)
        pr = Probe(f.pair, 400000)
        _, v = odeint(pr, torch.view_as_real(z).clone(), ts, str_to_solver(name, torch.float64), atol=atol, rtol=rtol, interpolator=interp)
        ctx.check(not f.bad, 'complex_time', f'field called at complex times, e.g. {f.bad[:1]}')
        ctx.check(y.dtype == z.dtype and y.shape == (len(ts),) + z.shape and not te.is_complex(), 'shape', f'{y.dtype} {tuple(y.shape)}', stop=True)
        exp = ref.truth(f, z, ts)
        amp = max(1., ref.amplification(f.pair, torch.view_as_real(z).clone(), ts, ctx))
        err = float((y - exp).abs().max())
        allow = 200 * (atol + rtol * float(exp.abs().max())) * amp * (2 * z.numel()) ** .5 * (4 if interp else 1) + 1e-10 * amp
        ctx.worst('complex_accuracy', err / allow)
        ctx.check(err <= allow, 'complex_accuracy', f'error {err:.3e}, allowed {allow:.3e} (amplification {amp:.2f})')
        both = float((torch.view_as_real(y.resolve_conj().clone()) - v).abs().max())
        ctx.check(both <= 2 * allow, 'complex_rows', f'complex and real executions differ by {both:.3e}, allowed {2 * allow:.3e}')
    ctx.ev('steps', len(log.ev))
    # same accuracy control: accepted steps satisfy the tolerance, rejected ones do not
    acc = 0
    for e, n in zip(log.ev[:-1], log.ev[1:]):
        r = ratio(e, atol, rtol)
        moved = bool((n['x'] == e['x_new']).all()) and not bool((n['x'] == e['x']).all())
        stayed = bool((n['x'] == e['x']).all()) and not bool((n['x'] == e['x_new']).all())
        if moved: ctx.check(r <= 1.5, 'complex_control', f'a step with scaled error {r:.3g} was accepted')
        if stayed: ctx.check(r >= .6, 'complex_control', f'a step with scaled error {r:.3g} was rejected')
        acc += moved
    ctx.ev('accepted', acc)
    # effort comparable with that of the pair of real equations (parts may be scaled more strictly than moduli, never less)
    ctx.check(pz.n <= 2 * pr.n + 60, 'complex_control', f'{pz.n} field evaluations, {pr.n} for the real pair')
    ctx.key('complex', name, interp, f.kind, mode, kind, rev, f'{rtol:.2g}')
