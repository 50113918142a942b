"""C15: NeuralODE / ODEProblem as wrappers of odeint."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid, state, make_field, KINDS, many, wide
from lib.grads import grads
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem

PROPERTY = 'C15'
RULE = ("random (field signature, class, solver, tolerances, interpolator, sensitivity, shape, grid, direction) through NeuralODE / ODEProblem forward and trajectory against functional odeint with the "
        "same field and settings; the field logs every evaluation (time, state), compared call by call and with the reported counter; key = signature, class, solver, sensitivity, interpolator, shape, grid, direction")
ASSUMPTIONS = ['trajectory() with an interpolator: agreement to tolerance only']
SIGS = ['module_x', 'module_tx', 'module_txargs', 'module_kw', 'lambda_x', 'lambda_tx', 'lambda_txargs', 'def_kw', 'sequential']


class Log:
    def __init__(self): self.t, self.x = [], []
    def add(self, t, x):
        self.t.append(None if t is None else float(t)), self.x.append(x.detach().clone())
    @property
    def n(self): return len(self.x)


def wrap(sig, g, log, d, gen, dtype):
    "-> (field with that signature, plain reference field (t, x)); g(t, x) is the dynamics, frozen at t = 0 when the signature has no time"
    g0 = lambda x: g(torch.zeros((), dtype=x.dtype), x)
    if sig == 'module_x':
        class M(nn.Module):
            def __init__(self): super().__init__(); self.w = nn.Parameter(torch.ones(1, dtype=dtype))
            def forward(self, x): log.add(None, x); return g0(x) * self.w
        m = M(); return m, lambda t, x: g0(x)
    if sig in ('module_tx', 'module_txargs', 'module_kw'):
        class B(nn.Module):
            def __init__(self): super().__init__(); self.w = nn.Parameter(torch.ones(1, dtype=dtype))
            def ev(self, t, x): log.add(t, x); return g(t, x) * self.w
        class M1(B):
            def forward(self, t, x): return self.ev(t, x)
        class M2(B):
            def forward(self, t, x, args={}):
                assert isinstance(args, dict)
                return self.ev(t, x)
        class M3(B):
            def forward(self, t, x, **kwargs): return self.ev(t, x)
        return dict(module_tx=M1, module_txargs=M2, module_kw=M3)[sig](), lambda t, x: g(t, x)
    if sig == 'lambda_x': return (lambda x: (log.add(None, x), g0(x))[1]), lambda t, x: g0(x)
    if sig == 'lambda_tx': return (lambda t, x: (log.add(t, x), g(t, x))[1]), lambda t, x: g(t, x)
    if sig == 'lambda_txargs': return (lambda t, x, args={}: (log.add(t, x), g(t, x))[1]), lambda t, x: g(t, x)
    if sig == 'def_kw':
        def f(t, x, **kw):
            log.add(t, x)
            return g(t, x)
        return f, lambda t, x: g(t, x)
    if sig == 'sequential':
        class Id(nn.Module):
            def forward(self, x): log.add(None, x); return x
        net = nn.Sequential(Id(), nn.Linear(d, d + 1), nn.Tanh(), nn.Linear(d + 1, d)).to(dtype)
        for p in net.parameters(): p.data = torch.randn(p.shape, generator=gen, dtype=torch.float64).to(dtype) * .6
        return net, lambda t, x: net[1:](x)
    raise KeyError(sig)


@family(quick=420, thorough=9000)
def wrappers(ctx):
    rng = ctx.rng
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    x, mode = state(ctx, dtype=dtype)
    d = x.shape[-1]
    ts, kind, rev = grid(ctx, dtype=dtype, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter', 'clustered']))
    sig = rng.choice(SIGS)
    g = make_field(ctx, d, kind=rng.choice([k for k in KINDS if k != 'logistic']), dtype=dtype)
    log = Log()
    f, plain = wrap(sig, g, log, d, ctx.gen, dtype)
    s = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5'])
    adaptive = s in ('dopri5', 'tsit5')
    name = rng.random() < .5
    mk = lambda: s if name else str_to_solver(s, dtype)
    atol, rtol = (10. ** -rng.uniform(2, 6), 10. ** -rng.uniform(2, 6)) if dtype == torch.float64 else (1e-4, 1e-4)
    interp = '4th' if s == 'dopri5' and rng.random() < .4 else None
    cls = rng.choice([NeuralODE, ODEProblem])
    sens = rng.choice(['autograd', 'autograd', 'adjoint', 'interpolated_adjoint'])
    ctx.desc(sig=sig, cls=cls.__name__, solver=s, by_name=name, sensitivity=sens, interpolator=interp, atol=atol, rtol=rtol, dtype=dtype, shape=tuple(x.shape), grid=kind, reverse=rev, n=len(ts))
    node = cls(f, mk(), atol=atol, rtol=rtol, interpolator=interp, sensitivity=sens)
    eps = 1e-11 if dtype == torch.float64 else 2e-4
    times, states = [], []
    def probe(t, y):
        times.append(float(t)), states.append(y.detach().clone())
        return plain(t, y)
    te, ref = odeint(probe, x, ts, mk(), atol=atol, rtol=rtol, interpolator=interp)
    n0 = node.vf.nfe if hasattr(node.vf, 'nfe') else None
    te2, out = node(x, ts)
    ctx.check(torch.equal(te2, te), 'times', 'returned times')
    ctx.close(out, ref, eps, f'values{str(dtype)[-2:]}', 'forward differs from odeint')
    # evaluations: same number, at the same times and states
    extra = 0
    ctx.check(log.n == len(times), 'evaluations', f"{log.n} evaluations through the wrapper, {len(times)} through odeint")
    if log.n == len(times) and dtype == torch.float64:
        if log.t[0] is not None:
            ctx.check(max(abs(a - b) for a, b in zip(log.t, times)) <= 1e-9, 'true_time', 'times seen by the field differ')
        ctx.close(torch.stack(log.x), torch.stack(states), 1e-9, 'true_state', 'states seen by the field differ')
        ctx.ev('field_calls', log.n)
    if n0 is not None:
        ctx.check(node.vf.nfe - n0 == log.n, 'nfe', f"counter grew by {node.vf.nfe - n0}, {log.n} evaluations were made")
    # repeated and save-free calls keep counting
    if cls is NeuralODE:
        k, n1 = log.n, node.vf.nfe
        tr = node.trajectory(x, ts)
        ctx.close(tr, ref, eps if interp is None else 200 * (atol + rtol), 'trajectory' if interp is None else 'trajectory_interp', 'trajectory differs from odeint')
        ctx.check(node.vf.nfe - n1 == log.n - k, 'nfe', 'counter in trajectory')
        ctx.check(str(node.vf.nfe) in repr(node), 'repr', 'NFE in repr')
    ctx.check(out.dtype == dtype and te2.dtype == dtype, 'dtype', f"{out.dtype}, {te2.dtype}")
    ctx.key(sig, cls.__name__, s, name, sens, interp, str(dtype), tuple(x.shape), kind, rev)


@family(quick=80, thorough=1000)
def defaults(ctx):
    "default span and settings, return_t_eval, chains in nn.Sequential"
    rng = ctx.rng
    d, b = wide(rng, rng.randint(1, 4)), many(rng, rng.randint(1, 5))
    x = torch.randn(b, d, generator=ctx.gen)
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    s = rng.choice([None, 'tsit5', 'dopri5', 'rk4', 'euler', 'midpoint'])
    kw = {} if s is None else dict(solver=s)
    gs = [make_field(ctx, d, dtype=torch.float32, kind=rng.choice(['lin', 'tanh', 'sin', 'osc', 'tonly'])) for _ in range(2)]
    ctx.desc(solver=s, sensitivity=sens, shape=(b, d), fields=[g.kind for g in gs])
    nodes = [NeuralODE(lambda t, x, g=g: g(t, x), sensitivity=sens, **kw) for g in gs]
    te, sol = nodes[0](x)
    unit = torch.linspace(0, 1, 2)
    ctx.check(torch.equal(te, unit), 'default_span', f"default span {te.tolist()}")
    exp = odeint(gs[0], x, unit, s or 'tsit5', atol=1e-3, rtol=1e-3)[1]
    ctx.close(sol, exp, 2e-4, 'defaults', 'default settings')
    a = nodes[0](x)
    ctx.check(isinstance(a, tuple) and len(a) == 2, 'return_t_eval', 'pair expected')
    bare = NeuralODE(lambda t, x: gs[0](t, x), sensitivity=sens, return_t_eval=False, **kw)
    r = bare(x)
    ctx.check(isinstance(r, torch.Tensor), 'return_t_eval', f"return_t_eval=False returned {type(r)}", stop=True)
    ctx.close(r, exp, 2e-4, 'bare', 'states only')
    ts = torch.linspace(0, 2, 5)
    ctx.close(bare(x, ts), nodes[0](x, ts)[1], 1e-6, 'bare', 'states only on a given span')
    # stored span
    bare.t_span = ts
    ctx.close(bare(x), nodes[0](x, ts)[1], 1e-6, 'stored_span', 'span stored on the object')
    bare.t_span = None

    class Last(nn.Module):
        def forward(self, s): return s[-1]
    second = NeuralODE(lambda t, x: gs[1](t, x), sensitivity=sens, return_t_eval=False, **kw)
    chain = nn.Sequential(bare, Last(), second, Last())
    want = odeint(gs[1], exp[-1], unit, s or 'tsit5', atol=1e-3, rtol=1e-3)[1][-1]
    ctx.close(chain(x), want, 2e-3 if s in (None, 'tsit5', 'dopri5') else 2e-4, 'chain', 'chained Neural ODEs')
    ctx.key(s, sens, b, d, [g.kind for g in gs])


@family(quick=60, thorough=800)
def sensitivities(ctx):
    "the sensitivity method does not change forward values; optimisable parameters of plain functions"
    rng = ctx.rng
    x, mode = state(ctx)
    d = x.shape[-1]
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'cross', 'clustered']))
    g = make_field(ctx, d)
    w = nn.Parameter(torch.tensor(.8, dtype=torch.float64))
    us = [nn.Parameter(torch.randn(d, generator=ctx.gen, dtype=torch.float64)) for _ in range(rng.choice([1, 1, 2, 3, 4, 11]))]
    f = lambda t, x: w * g(t, x) + .3 * sum(us) / len(us)
    s, cls = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5']), rng.choice([NeuralODE, ODEProblem])
    tol = 10. ** -rng.uniform(4, 9)
    ctx.desc(cls=cls.__name__, solver=s, shape=tuple(x.shape), grid=kind, reverse=rev, tol=tol)
    outs = []
    for sens in ('autograd', 'adjoint', 'interpolated_adjoint'):
        node = cls(f, str_to_solver(s, torch.float64), sensitivity=sens, atol=tol, rtol=tol, optimizable_params=[w] + us)
        ps = list(node.parameters())
        ctx.check(all(sum(p is q for p in ps) == 1 for q in [w] + us), 'optimizable', f'of {len(us) + 1} optimizable_params, some are not among the parameters, or twice')
        te, sol = node(x, ts)
        ctx.check(torch.equal(te, ts), 'times', sens)
        outs.append(sol)
    for o in outs[1:]: ctx.close(o, outs[0], 1e-11, 'same_forward', 'forward values depend on the sensitivity method')
    ctx.close(outs[0], odeint(f, x, ts, str_to_solver(s, torch.float64), atol=tol, rtol=tol)[1], 1e-11, 'optimizable_values', 'values')
    ctx.key(cls.__name__, s, tuple(x.shape), kind, rev, g.kind)
