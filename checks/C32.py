"""C32: memory held by solves."""
import gc
import weakref
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid
from lib.grads import make_net
from lib.trace import StepLog
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingProblem
from torchdyn.models import CNF, HNN
from torchdyn.nn import DepthCat, DataControl, GalLinear

PROPERTY = 'C32'
RULE = ("saved-tensor hooks register every tensor that autograd keeps for a backward pass and weak references follow when it is freed; random adjoint and interpolated-adjoint solves with tolerances that make them take "
        "from a few to hundreds of steps: bytes retained after the forward pass, and the peak during the backward pass, against the size of the returned rows and of one field evaluation; repeated training steps on every "
        "kind of model: live tensors after each; key = model, sensitivity, solver, tolerance, rows, steps")
ASSUMPTIONS = ['memory is counted as bytes saved for backward passes and as live torch tensors of the process']


class Held:
    __slots__ = ('t', '__weakref__')
    def __init__(self, t): self.t = t


class Saved:
    "live tensors kept by autograd graphs built inside the context"
    def __init__(self): self.live, self.count, self.now, self.peak = set(), 0, 0, 0

    def pack(self, t):
        h = Held(t)
        n = t.numel() * t.element_size()
        self.count += 1
        self.now += n
        self.peak = max(self.peak, self.now)
        weakref.finalize(h, self.free, n)
        return h

    def free(self, n): self.now -= n

    def __enter__(self):
        self.ctx = torch.autograd.graph.saved_tensors_hooks(self.pack, lambda h: h.t)
        self.ctx.__enter__()
        return self

    def __exit__(self, *a): return self.ctx.__exit__(*a)


def bytes_of(f):
    "bytes kept for the backward pass of one call"
    with Saved() as s:
        y = f()
        n = s.now
    del y
    return n


def size(*ts): return sum(t.numel() * t.element_size() for t in ts)


@family(quick=150, thorough=3000)
def retained(ctx):
    "the adjoint method keeps the returned rows and nothing of the steps between them"
    rng = ctx.rng
    d = rng.randint(1, 6)
    net = make_net(ctx, d, kind=rng.choice(['mlp', 'auto', 'bilinear']))
    x = torch.randn(rng.randint(1, 12), d, generator=ctx.gen, dtype=torch.float64).requires_grad_(True)
    name, sens = rng.choice(['dopri5', 'tsit5']), rng.choice(['adjoint', 'adjoint', 'interpolated_adjoint'])
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'jitter', 'two', 'offset']), n=rng.randint(2, 6), T=rng.uniform(1, 4))
    tol = 10 ** rng.uniform(-11, -3)
    solver = str_to_solver(name, torch.float64)
    log = StepLog(solver)
    interp = '4th' if name == 'dopri5' and rng.random() < .3 else None
    cls = rng.choice([NeuralODE, ODEProblem])
    m = cls(net, solver, sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=max(tol, 1e-8), rtol_adjoint=max(tol, 1e-8), solver_adjoint=str_to_solver('dopri5', torch.float64), interpolator=interp)
    one = bytes_of(lambda: net(ts[0], x))
    P = size(*net.parameters())
    gc.collect()
    with Saved() as s:
        te, y = m(x, ts)
        gc.collect()
        kept, steps = s.now, len(log.ev)
        rows = size(te, y)
        bound = 3 * rows + 4 * P + 2048
        if sens == 'interpolated_adjoint': bound += 3 * steps * (x[:1].numel() * x.shape[0] + 1) * 8
        ctx.ev('bytes_kept', kept), ctx.ev('forward_steps', steps)
        ctx.worst('retained', kept / bound)
        ctx.check(kept <= bound, 'retained', f"{kept} bytes are kept for the backward pass after {steps} steps; rows {rows}, parameters {P}, one evaluation {one}")
        s.peak = s.now
        y[-1].pow(2).sum().backward()
        extra = s.peak - kept
        bsteps = len(log.ev) - steps
        bound = 8 * (one + rows + P + size(x)) + 8192
        if sens == 'interpolated_adjoint': bound += 12 * (steps + 2) * (x.numel() + 1) * 8
        ctx.worst('backward_peak', extra / bound)
        ctx.check(extra <= bound, 'backward_peak', f"the backward pass holds up to {extra} bytes of graph at once; one evaluation needs {one}, rows {rows}, parameters {P}")
    ctx.desc(model=cls.__name__, sensitivity=sens, solver=name, tol=tol, n=len(ts), reverse=rev, steps=steps, kept=kept, backward_extra=extra, interp=interp)
    if steps >= 2 * (len(ts) - 1): ctx.key(cls.__name__, sens, name, f"{tol:.1e}", len(ts), rev, steps)


@family(quick=40, thorough=800)
def nograd(ctx):
    "solves without gradients keep nothing"
    rng = ctx.rng
    d = rng.randint(1, 4)
    net = make_net(ctx, d, kind=rng.choice(['mlp', 'auto']))
    x = torch.randn(4, d, generator=ctx.gen, dtype=torch.float64)
    name = rng.choice(['dopri5', 'tsit5', 'rk4', 'euler', 'midpoint'])
    ts, kind, rev = grid(ctx, kind='even', n=rng.randint(2, 20))
    refs = []

    def f(t, x, args={}):
        y = net(t, x)
        refs.append(weakref.ref(y))
        return y
    how = rng.choice(['odeint', 'neural'])
    with torch.no_grad(), Saved() as s:
        sol = odeint(f, x, ts, str_to_solver(name, torch.float64), atol=1e-5, rtol=1e-5)[1] if how == 'odeint' else NeuralODE(f, str_to_solver(name, torch.float64), atol=1e-5, rtol=1e-5)(x, ts)[1]
        gc.collect()
        alive = sum(r() is not None for r in refs)
        ctx.check(s.count == 0, 'graph', f"{s.count} tensors were saved for a backward pass under no_grad")
        ctx.check(alive <= 2, 'retained', f"{alive} of {len(refs)} field evaluations are still alive after the solve")
    ctx.desc(solver=name, how=how, n=len(ts), evaluations=len(refs))
    ctx.ev('field_calls', len(refs))
    ctx.key(name, how, len(ts), rev)


def live():
    gc.collect()
    n = b = 0
    for o in gc.get_objects():
        try:
            if type(o) is torch.Tensor or type(o) is nn.Parameter:
                b += o.numel() * o.element_size()
                n += 1
        except (ReferenceError, RuntimeError): pass
    return n, b


def stores():
    "bytes of the distinct storages that live tensors refer to"
    gc.collect()
    seen = {}
    for o in gc.get_objects():
        try:
            if type(o) is torch.Tensor or type(o) is nn.Parameter:
                u = o.untyped_storage()
                seen[u.data_ptr()] = u.nbytes()
        except (ReferenceError, RuntimeError, NotImplementedError): pass
    return sum(seen.values())


@family(quick=60, thorough=1200)
def storages(ctx):
    "as `retained`, for what is held outside of the graph's saved tensors (attributes, views into larger storages)"
    rng = ctx.rng
    d = rng.randint(1, 6)
    net = make_net(ctx, d, kind=rng.choice(['mlp', 'auto', 'bilinear']))
    x = torch.randn(rng.randint(20, 200), d, generator=ctx.gen, dtype=torch.float64).requires_grad_(rng.random() < .8)
    how = rng.choice(['adjoint', 'adjoint', 'adjoint', 'interpolated_adjoint', 'nograd'])
    name = rng.choice(['dopri5', 'tsit5', 'rk4', 'euler'] if how == 'nograd' else ['dopri5', 'tsit5'])
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'jitter', 'two', 'offset']), n=rng.randint(2, 5), T=rng.uniform(2, 4))
    if how == 'nograd' and name in ('rk4', 'euler'): ts, rev = torch.linspace(0, 1, rng.randint(5, 60)).double(), False
    tol = 10 ** rng.uniform(-11, -5)
    solver = str_to_solver(name, torch.float64)
    log = StepLog(solver)
    interp = '4th' if name == 'dopri5' and rng.random() < .3 else None
    m = rng.choice([NeuralODE, ODEProblem])(net, solver, sensitivity=how if how != 'nograd' else rng.choice(['autograd', 'adjoint']), atol=tol, rtol=tol, interpolator=interp)
    before = stores()
    with torch.set_grad_enabled(how != 'nograd'): te, y = m(x, ts)
    steps = len(log.ev)
    log.ev.clear()
    n = stores() - before
    rows = size(te, y)
    bound = 2.5 * rows + 4096
    if how == 'interpolated_adjoint': bound += 1.5 * steps * (x.numel() + 1) * 8 + (2 * rows if interp else 0)
    ctx.desc(how=how, solver=name, tol=tol, n=len(ts), rows=rows, steps=steps, held=n, interp=interp)
    ctx.ev('bytes_held', max(n, 0)), ctx.ev('forward_steps', steps)
    ctx.worst('storages_' + how, n / bound)
    ctx.check(n <= bound, 'held', f"{n} bytes are held after {steps} steps; the rows have {rows}")
    del y, te
    left = stores() - before
    ctx.check(left <= 8192, 'left', f"{left} bytes are held after the result is dropped")
    if steps >= 2 * (len(ts) - 1) or how == 'nograd': ctx.key(how, name, f"{tol:.1e}", len(ts), rev, steps)


MODELS = ['net', 'depth', 'control', 'galerkin', 'cnf', 'hnn', 'order2', 'intloss', 'mshooting', 'functional']


@family(quick=50, thorough=1000)
def steady(ctx):
    "repeated training steps and calls leave the number and the bytes of live tensors where they were"
    rng = ctx.rng
    kind, d = rng.choice(MODELS), rng.choice([2, 4])
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']) if kind not in ('cnf',) else 'autograd'
    name = rng.choice(['rk4', 'dopri5', 'tsit5', 'euler'])
    L = lambda i, o: nn.Linear(i, o).double()
    kw = dict(sensitivity=sens, atol=1e-4, rtol=1e-4, atol_adjoint=1e-4, rtol_adjoint=1e-4)
    sol = str_to_solver(name, torch.float64)
    if kind == 'net': m = NeuralODE(make_net(ctx, d, kind='mlp'), sol, **kw)
    elif kind == 'depth': m = NeuralODE(nn.Sequential(DepthCat(1), L(d + 1, 5), nn.Tanh(), DepthCat(1), L(6, d)), sol, **kw)
    elif kind == 'control': m = NeuralODE(nn.Sequential(DataControl(), L(2 * d, 5), nn.Tanh(), L(5, d)), sol, **kw)
    elif kind == 'galerkin': m = NeuralODE(nn.Sequential(DepthCat(1), GalLinear(d, d).double(), nn.Tanh()), sol, **kw)
    elif kind == 'cnf': m = NeuralODE(CNF(nn.Sequential(L(d, 5), nn.Tanh(), L(5, d))), sol, **kw)
    elif kind == 'hnn': m = NeuralODE(HNN(nn.Sequential(L(d, 5), nn.Tanh(), L(5, 1))), sol, **kw)
    elif kind == 'order2': m = NeuralODE(nn.Sequential(L(d, 5), nn.Tanh(), L(5, d // 2)), sol, order=2, **kw)
    elif kind == 'intloss': m = NeuralODE(nn.Sequential(L(d, 5), nn.Tanh(), L(5, d)), sol, integral_loss=lambda t, x: (x ** 2).sum(1), **kw)
    elif kind == 'mshooting':
        sens = rng.choice(['autograd', 'adjoint'])
        m = MultipleShootingProblem(make_net(ctx, d, kind='auto'), rng.choice(['zero', 'backward']), sensitivity=sens, maxiter=3, fine_steps=3)
    else:
        net = make_net(ctx, d, kind='mlp')
        m = lambda x, ts: odeint(net, x, ts, sol, atol=1e-4, rtol=1e-4)
    params = list(m.parameters()) if isinstance(m, nn.Module) else list(net.parameters())
    params = [p for p in params if p.requires_grad]
    opt = torch.optim.Adam(params, lr=1e-3)
    ts = torch.linspace(0, 1, 4).double()
    w = d + (kind == 'cnf' or (kind == 'intloss' and sens == 'autograd'))

    def step(train=True):
        x = torch.randn(3, w, dtype=torch.float64, requires_grad=True)
        y = m(x, ts)[1]
        if train:
            opt.zero_grad()
            y[-1].pow(2).mean().backward()
            opt.step()
        elif isinstance(m, NeuralODE) and rng.random() < .5: m.trajectory(x, ts)
    ctx.desc(model=kind, sensitivity=sens, solver=name)
    seen = []
    plan = [True] * 3 + [rng.random() < .7 for _ in range(6)] + [True] * 2
    for train in plan:
        step(train)
        n, b = live()
        seen.append((train, n, b))
    base = [v for v in seen[1:3]]
    last = [v for v in seen if v[0]][-1]
    n0, b0 = max(v[1] for v in base), max(v[2] for v in base)
    ctx.ev('training_steps', len(plan)), ctx.ev('live_tensors', last[1])
    ctx.check(last[1] <= n0 + 4, 'leak', f"live tensors grow from {n0} to {last[1]} over {len(plan)} steps: {[v[1] for v in seen]}")
    ctx.check(last[2] <= b0 + 4096, 'leak', f"bytes of live tensors grow from {b0} to {last[2]}: {[v[2] for v in seen]}")
    ctx.key(kind, sens, name)
