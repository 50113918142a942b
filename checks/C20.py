"""C20: SDE solvers."""
import os
import random as _random
import subprocess
import sys
import torch
import torch.nn as nn
import torchsde
from lib.core import family
from lib.fields import make_field, grid, wide
from torchdyn.numerics import sdeint
from torchdyn.core import NeuralSDE
from torchdyn.core.defunc import SDEFunc
from torchdyn.nn import DataControl

PROPERTY = 'C20'
RULE = ("random (drift, diffusion, signatures, scheme, calculus, state shape, dtype, grid, interface) along a recorded path; every row against the named scheme applied with the recorded increments, the "
        "queries of the path against the grid; data-control layers and calling options over sequences of calls; strong convergence on linear equations with known solutions; refused combinations; import orders in fresh processes; "
        "key = scheme, path, signatures, shape, dtype, grid, interface")
ASSUMPTIONS = ['diagonal noise, forward grids', 'Milstein: the derivative-free form of Kloeden and Platen']
SCHEMES = {'euler': 'ito', 'eulerHeun': 'stratonovich', 'milstein_ito': 'ito', 'milstein_stratonovich': 'stratonovich'}


def step(scheme, f, g, t, dt, x, dW):
    a, b = f(t, x), g(t, x)
    if scheme == 'euler': return x + a * dt + b * dW
    if scheme == 'eulerHeun': return x + a * dt + .5 * (b + g(t + dt, x + b * dW)) * dW
    s = dt ** .5
    if scheme == 'milstein_ito': return x + a * dt + b * dW + (g(t, x + a * dt + b * s) - b) / (2 * s) * (dW ** 2 - dt)
    return x + a * dt + b * dW + (g(t, x + b * s) - b) / (2 * s) * dW ** 2


class Path:
    "a fixed continuous path (a random Fourier series), recording queries"
    def __init__(self, ctx, shape, dtype):
        K = 6
        self.a = torch.randn(K, *shape, generator=ctx.gen, dtype=torch.float64) / 3
        self.w = 1 + 20 * torch.rand(K, generator=ctx.gen, dtype=torch.float64)
        self.dtype, self.q = dtype, []
    def W(self, t): return torch.tensordot(torch.sin(self.w * float(t)), self.a, 1)
    def inc(self, s, t): return (self.W(t) - self.W(s)).to(self.dtype)
    def __call__(self, s, t):
        self.q.append((float(s), float(t)))
        return self.inc(s, t)


def coefficients(ctx, d, dtype):
    F = make_field(ctx, d, dtype=dtype, kind=ctx.rng.choice(['lin', 'tanh', 'sin', 'osc', 'mix', 'tanhauto']))
    u = .3 + torch.rand(d, generator=ctx.gen, dtype=torch.float64).to(dtype)
    kind = ctx.rng.choice(['mult', 'add', 'time', 'sin'])
    G = dict(mult=lambda t, x: u * x, add=lambda t, x: u * torch.ones_like(x), time=lambda t, x: u * torch.cos(3 * t) * x + .2,
             sin=lambda t, x: u * torch.sin(x + t) + .1)[kind]
    return F.kind, kind, F, G


def signature(ctx, fn, n_log):
    "a drift or diffusion given as function or module, with or without time -> (object, plain reference)"
    sig = ctx.rng.choice(['lambda_tx', 'module_tx', 'lambda_x', 'module_x'])
    if sig.endswith('_x'):
        ref = lambda t, x: fn(torch.zeros((), dtype=x.dtype), x)
    else: ref = fn
    if sig == 'lambda_tx': return sig, (lambda t, x: fn(t, x)), ref
    if sig == 'lambda_x': return sig, (lambda x: ref(None, x)), ref
    class M(nn.Module):
        def __init__(self): super().__init__(); self.one = nn.Parameter(torch.ones(1))
        def forward(self, t, x): return fn(t, x)
    class N(nn.Module):
        def __init__(self): super().__init__(); self.one = nn.Parameter(torch.ones(1))
        def forward(self, x): return ref(None, x)
    return sig, (M() if sig == 'module_tx' else N()), ref


GK = ['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter', 'clustered', 'geometric']


@family(quick=420, thorough=9000)
def schemes(ctx):
    rng = ctx.rng
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    shape = rng.choice([(1, 1), (3, 2), (2, 3), (5, 1), (1, 4), (2, 2, 3)] * 3 + [(30, 2), (2, 14)])
    fk, gk, F, G = coefficients(ctx, shape[-1], dtype)
    sf, f, fr = signature(ctx, F, None)
    sg, g, gr = signature(ctx, G, None)
    scheme = rng.choice(list(SCHEMES))
    ts, kind, _ = grid(ctx, kind=rng.choice(GK), dtype=dtype, reverse=False, T=rng.uniform(.3, 1.5))
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64).to(dtype)
    path = rng.choice(['recorded', 'recorded', 'torchsde'])
    if len(ts) > 25: path = 'recorded'   # the third-party path is very slow on grids with tiny steps
    if path == 'recorded': bm = Path(ctx, shape, dtype)
    else: bm = torchsde.BrownianInterval(t0=float(ts[0]), t1=float(ts[-1]), size=shape, dtype=dtype, entropy=rng.randrange(10 ** 6))
    iface = rng.choice(['sdeint', 'sdefunc', 'NeuralSDE', 'trajectory'])
    noise = rng.choice(['diagonal', 'diagonal', 'additive' if gk == 'add' else 'diagonal'])
    ctx.desc(scheme=scheme, iface=iface, path=path, drift=fk, diffusion=gk, sig=(sf, sg), shape=shape, dtype=dtype, grid=kind, n=len(ts))
    n_f = 0
    if iface == 'sdeint':
        class S:
            noise_type, sde_type = noise, SCHEMES[scheme]
        s = S()
        s.f, s.g = f, g
        te, out = sdeint(s, x, ts, scheme, bm)
    elif iface == 'sdefunc':
        te, out = sdeint(SDEFunc(f, g, noise_type=noise, sde_type=SCHEMES[scheme]), x, ts, scheme, bm)
    else:
        ns = NeuralSDE(f, g, solver=scheme, noise_type=noise, sde_type=SCHEMES[scheme], bm=bm)
        if iface == 'trajectory': te, out = ts, ns.trajectory(x, ts)
        else: te, out = ns(x, ts)
    ctx.check(torch.equal(te, ts), 'times', 'times')
    ctx.check(tuple(out.shape) == (len(ts),) + shape and out.dtype == dtype, 'shape', f"{tuple(out.shape)} {out.dtype}", stop=True)
    ctx.check(torch.equal(out[0], x), 'initial', 'first row')
    inc = bm.inc if path == 'recorded' else bm
    eps = 1e-9 if dtype == torch.float64 else 3e-4
    for i in range(len(ts) - 1):
        t, dt = ts[i], ts[i + 1] - ts[i]
        e = step(scheme, fr, gr, t, dt, out[i].detach(), inc(ts[i], ts[i + 1]))
        # sqrt(dt) divides the Milstein correction: its rounding is amplified on tight grids
        tol = eps * (1 + 1e-2 / float(dt) ** .5)
        # torchsde rounds the ends of a query
        if path == 'torchsde': tol = max(tol, 1e-6 * (1 + 1e-3 / float(dt) ** .5))
        ctx.close(out[i + 1], e, tol, f"row_{scheme}{str(dtype)[-2:]}", f"row {i + 1} is not the previous one advanced by the scheme")
    ctx.ev('rows', len(ts) - 1)
    if path == 'recorded':
        tt = [float(v) for v in ts]
        near = lambda v: min(range(len(tt)), key=lambda i: abs(tt[i] - v))
        tol = 1e-9 if dtype == torch.float64 else 1e-5
        for s, t in bm.q:
            i = near(s)
            ok = abs(tt[i] - s) <= tol and i + 1 < len(tt) and abs(tt[i + 1] - t) <= tol
            if not ctx.check(ok or kind in ('geometric', 'clustered'), 'query', f"path queried over [{s}, {t}], not an interval of the grid"): break
        ctx.ev('queries', len(bm.q))
    ctx.key(scheme, iface, path, fk, gk, sf, sg, shape, str(dtype), kind)


@family(quick=90, thorough=1500)
def control(ctx):
    "Neural SDEs with data-control layers over several calls, with the calling options: default spans, save_at, lists of times, states only"
    rng = ctx.rng
    d = wide(rng, rng.randint(1, 3))
    scheme = rng.choice(list(SCHEMES))
    r = lambda *s: torch.randn(*s, generator=ctx.gen, dtype=torch.float64)
    where = rng.choice(['drift', 'diffusion', 'both', 'none'])
    def net(ctrl):
        l = nn.Linear(2 * d if ctrl else d, d).double()
        for p in l.parameters(): p.data = r(*p.shape) * .4
        return (nn.Sequential(DataControl(), l, nn.Tanh()) if ctrl else nn.Sequential(l, nn.Tanh())), (lambda u: lambda t, x: torch.tanh(l(torch.cat([x, u], 1) if ctrl else x)))
    f, fe = net(where in ('drift', 'both'))
    g, ge = net(where in ('diffusion', 'both'))
    T = rng.uniform(.3, 1.5)
    own = rng.random() < .5
    span = (rng.choice([0., .5, -1.]) + torch.cumsum(.05 + torch.rand(rng.randint(2, 6), generator=ctx.gen, dtype=torch.float64), 0)) if own else None
    bm = Path(ctx, (1, d), torch.float64)
    states_only = rng.random() < .5
    ns = NeuralSDE(f, g, solver=scheme, sde_type=SCHEMES[scheme], bm=bm, t_span=span, return_t_eval=not states_only)
    ctx.desc(scheme=scheme, control=where, width=d, own_span=own, states_only=states_only)
    modes, seen = [], []
    for m in list(f.modules()) + list(g.modules()):
        if isinstance(m, DataControl): m.register_forward_hook(lambda m, i, o: seen.append(o[:, -d:].detach().clone()))
    for call in range(rng.randint(1, 3)):
        b = rng.randint(1, 4)
        x = r(b, d)
        mode = rng.choice(['default', 'given', 'list', 'save_at', 'trajectory'])
        modes.append(mode)
        ts, kind, _ = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter']), reverse=False, T=T)
        rows, te = None, None
        if mode == 'default':
            out = ns(x)
            ts = span if own else torch.linspace(0, 1, 2, dtype=torch.float64)
        elif mode == 'list':
            F, G = fe(x), ge(x)
            _, out = sdeint(SDEFunc(lambda t, x: F(t, x), lambda t, x: G(t, x), noise_type='diagonal', sde_type=SCHEMES[scheme]), x, [v[None] for v in ts], scheme, bm)
        elif mode == 'trajectory': out = ns.trajectory(x, ts)
        elif mode == 'save_at':
            rows = sorted(rng.sample(range(len(ts)), rng.randint(1, len(ts))))
            out = ns(x, ts, ts[rows])
        else: out = ns(x, ts)
        if mode in ('default', 'given', 'save_at'):
            if states_only: ctx.check(isinstance(out, torch.Tensor), 'states_only', 'more than the states returned', stop=True)
            else:
                te, out = out
                ctx.close(te, ts if rows is None else ts[rows], 1e-9, 'control_times', 'times')
        F, G = fe(x), ge(x)
        y, exp = x, [x]
        with torch.no_grad():
            for i in range(len(ts) - 1):
                y = step(scheme, F, G, ts[i], ts[i + 1] - ts[i], y, bm.inc(ts[i], ts[i + 1]))
                exp.append(y)
        exp = torch.stack(exp)
        ctx.close(out, exp if rows is None else exp[rows], 1e-6 if mode == 'default' and not own else 1e-9, 'control_rows', f"call {call} ({mode}): rows differ from the scheme with the state of this call as control")
        ctx.check(all(torch.equal(u, x) for u in seen), 'control', 'control appended is not the state of this call')
        if where != 'none' and mode != 'list': ctx.check(len(seen) > 0, 'control', 'the layers were not evaluated')
        ctx.ev('control_seen', len(seen))
        seen.clear()
        ctx.ev('control_rows', len(ts) - 1)
    ctx.key(scheme, where, d, own, states_only, *modes)


@family(quick=24, thorough=200)
def strong(ctx):
    "linear equations with closed-form solutions: refining the grid converges to the solution of the stated calculus"
    rng = ctx.rng
    scheme = list(SCHEMES)[ctx.index % 4]
    a, b, T = rng.uniform(-1, 1), rng.uniform(.3, .9), rng.uniform(.6, 1.2)
    B = 400
    x = torch.ones(B, 1, dtype=torch.float64) * rng.uniform(.5, 2)
    N = 2 ** 9
    dW = torch.randn(N, B, 1, generator=ctx.gen, dtype=torch.float64) * (T / N) ** .5
    W = torch.cat([torch.zeros(1, B, 1, dtype=torch.float64), torch.cumsum(dW, 0)])
    bm = lambda s, t: W[round(float(t) / T * N)] - W[round(float(s) / T * N)]
    tdep = rng.random() < .5
    # time-dependent coefficients a(t) = a cos 2t, b(t) = b constant keep the closed form
    f = (lambda t, x: a * torch.cos(2 * t) * x) if tdep else (lambda t, x: a * x)
    I = a * torch.sin(torch.tensor(2 * T)).item() / 2 if tdep else a * T
    g = lambda t, x: b * x
    exact = x * torch.exp(I - (b * b * T / 2 if SCHEMES[scheme] == 'ito' else 0) + b * W[-1])
    errs = []
    ctx.desc(scheme=scheme, a=a, b=b, T=T, time_dependent=tdep)
    for k in (5, 9):
        ns = NeuralSDE(f, g, solver=scheme, noise_type='diagonal', sde_type=SCHEMES[scheme], bm=bm)
        _, s = ns(x, torch.linspace(0, T, 2 ** k + 1, dtype=torch.float64))
        errs.append(float((s[-1] - exact).abs().mean()))
    order = 4 / 4 * torch.log2(torch.tensor(errs[0] / errs[1])).item() / 4
    want = .5 if scheme == 'euler' else 1.
    ctx.check(order > want - .3, 'order', f"observed strong order {order:.2f} (errors {errs}), expected {want}")
    ctx.check(errs[1] < (.06 if scheme == 'euler' else .02) * float(exact.abs().mean() + 1), 'limit', f"error {errs[1]} on the finest grid: not the stated calculus")
    ctx.ev('paths', B)
    ctx.key(scheme, tdep, ctx.index)


@family(quick=60, thorough=400)
def refused(ctx):
    rng = ctx.rng
    scheme = rng.choice(list(SCHEMES))
    right = SCHEMES[scheme]
    mode = rng.choice(['calculus', 'calculus', 'noise', 'missing'])
    sde_type, noise = right, 'diagonal'
    if mode == 'calculus': sde_type = dict(ito='stratonovich', stratonovich='ito')[right]
    if mode == 'noise': noise = 'wiener'
    d = wide(rng, rng.randint(1, 3))
    _, _, f, g = coefficients(ctx, d, torch.float32)
    f_, g_ = (lambda t, x: f(t, x)), (lambda t, x: g(t, x))
    x, ts = torch.randn(2, d, generator=ctx.gen), torch.linspace(0, 1, rng.randint(2, 6))
    bm = torchsde.BrownianInterval(t0=0., t1=1., size=(2, d), entropy=1)
    iface = rng.choice(['sdeint', 'object', 'NeuralSDE', 'trajectory'])
    ctx.desc(scheme=scheme, mode=mode, iface=iface)
    def call(st, nt):
        if iface == 'sdeint': return sdeint(SDEFunc(f_, g_, noise_type=nt, sde_type=st), x, ts, scheme, bm)[1]
        if iface == 'object':
            class S: pass
            s = S()
            s.f, s.g = f_, g_
            if st is not None: s.sde_type, s.noise_type = st, nt
            return sdeint(s, x, ts, scheme, bm)[1]
        ns = NeuralSDE(f_, g_, solver=scheme, noise_type=nt, sde_type=st, bm=bm)
        return ns(x, ts)[1] if iface == 'NeuralSDE' else ns.trajectory(x, ts)
    if mode == 'missing': sde_type, noise = None, None
    try: out = call(sde_type, noise)
    except Exception as e: out, err = None, type(e).__name__
    ctx.check(out is None, 'refused', f"{scheme} solved a {sde_type} equation with {noise} noise")
    ctx.check(torch.isfinite(call(right, 'diagonal')).all(), 'accepted', 'the right combination is refused')
    ctx.key(scheme, mode, iface, d)


@family(quick=60, thorough=600)
def neural(ctx):
    "NeuralSDE with and without path: defaults, statistics of the own path, gradients"
    rng = ctx.rng
    scheme = rng.choice(list(SCHEMES))
    B, d = 300, 1
    b = rng.uniform(.4, 1.2)
    T, n = rng.uniform(.5, 2), rng.randint(3, 9)
    ts = rng.choice([0., 1.]) + torch.linspace(0, T, n)
    w = nn.Parameter(torch.tensor(b))
    class G(nn.Module):
        def __init__(self): super().__init__(); self.w = w
        def forward(self, t, x): return self.w * torch.ones_like(x)
    class F(nn.Module):
        def __init__(self): super().__init__(); self.a = nn.Parameter(torch.tensor(.7))
        def forward(self, t, x): return self.a * torch.ones_like(x)
    ns = NeuralSDE(F(), G(), solver=scheme, sde_type=SCHEMES[scheme])
    ctx.desc(scheme=scheme, n=n, b=b, T=T)
    x = torch.zeros(B, d)
    te, s = ns(x, ts)
    z = (s[1:] - s[:-1] - .7 * (ts[1:] - ts[:-1]).reshape(-1, 1, 1)) / (b * (ts[1:] - ts[:-1]).sqrt().reshape(-1, 1, 1))
    m, v = float(z.mean()), float(z.var())
    k = z.numel()
    ctx.check(abs(m) < 6 / k ** .5 and abs(v - 1) < 6 * (2 / k) ** .5, 'statistics', f"normalised increments: mean {m:.3f}, variance {v:.3f} over {k}")
    c = float((z[1:] * z[:-1]).mean())
    ctx.check(abs(c) < 6 / (k - B) ** .5, 'independence', f"correlation of successive increments {c:.3f}")
    te2, s2 = ns(x, ts)
    ctx.check(not torch.equal(s, s2), 'fresh', 'two calls without a path share it')
    g = torch.autograd.grad(s[-1].sum(), list(ns.defunc.parameters()))
    ctx.close(torch.stack(g), torch.stack([torch.tensor(float(B * T)) if p is not w else ((s[-1] - .7 * T).sum() / b).detach() for p in ns.defunc.parameters()]), 2e-3, 'gradient', 'gradient', scale=B * T)
    bare = NeuralSDE(F(), G(), solver=scheme, sde_type=SCHEMES[scheme], return_t_eval=False)
    r = bare(x)
    ctx.check(isinstance(r, torch.Tensor) and r.shape == (2, B, d), 'default_span', 'states only on the default span')
    ctx.ev('increments', k)
    ctx.key(scheme, n, ctx.index)


ORDER = """
import sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, {root!r})
{imports}
import torch, torchsde
from torchdyn.core import NeuralODE, NeuralSDE
from torchdyn.numerics import odeint, sdeint, odeint_hybrid, odeint_mshooting, odeint_symplectic
import torchdyn.core, torchdyn.numerics
f, g = (lambda t, x: -x * torch.cos(t)), (lambda t, x: .3 * x)
x, ts = torch.ones(2, 2), torch.linspace(0, 1, 5)
bm = torchsde.BrownianInterval(t0=0., t1=1., size=(2, 2), entropy=3)
a = NeuralSDE(f, g, bm=bm)(x, ts)[1]
b = NeuralSDE(f, g, bm=bm).trajectory(x, ts)
class S: noise_type, sde_type = 'diagonal', 'ito'
S.f, S.g = staticmethod(f), staticmethod(g)
c = sdeint(S(), x, ts, 'euler', bm)[1]
assert torch.equal(a, b) and torch.equal(a, c)
y = x
for i in range(4):
    y = y + f(ts[i], y) * (ts[i + 1] - ts[i]) + g(ts[i], y) * bm(ts[i], ts[i + 1])
assert (a[-1] - y).abs().max() < 1e-5
assert (NeuralODE(f, 'rk4')(x, ts)[1] - odeint(f, x, ts, 'rk4')[1]).abs().max() < 1e-6
print('fine')
"""
MODULES = ['torchdyn', 'torchdyn.numerics', 'torchdyn.core', 'torchdyn.numerics.sdeint', 'torchdyn.numerics.solvers.sde', 'torchdyn.core.neuralde', 'torchdyn.core.problems', 'torchdyn.core.defunc',
           'torchdyn.numerics.solvers.ode', 'torchdyn.nn', 'torchdyn.models', 'torchdyn.numerics.sensitivity', 'torchdyn.numerics.odeint']


@family(quick=8, thorough=40)
def imports(ctx):
    "the same functions whichever module is imported first"
    rng = ctx.rng
    mods = [MODULES[ctx.index % len(MODULES)]] + rng.sample(MODULES, 2)
    ctx.desc(order=mods)
    root = os.environ['TORCHDYN_REPO']
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', ORDER.format(root=root, imports='\n'.join(f"import {m}" for m in mods))],
                       capture_output=True, text=True, timeout=110, cwd='/', env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1'))
    ctx.check(p.returncode == 0 and 'fine' in p.stdout, 'imports', f"importing {mods} first: {p.stderr[-600:]}")
    ctx.ev('processes')
    ctx.key(*mods)
