"""C07: purity of solves."""
import copy
import random
import numpy as np
import torch
import torch.nn as nn
from lib.core import family, Interrupt
from lib.fields import Probe, make_field, state, grid, Field
from torchdyn.numerics import odeint, odeint_hybrid, odeint_mshooting, odeint_symplectic, Euler, RungeKutta4, DormandPrince45, Tsitouras45, AsynchronousLeapfrog, HyperEuler
from torchdyn.numerics.solvers.ode import str_to_solver, Midpoint, MSZero
from torchdyn.core import NeuralODE, ODEProblem, NeuralSDE, MultipleShootingProblem
from torchdyn.models import CNF, HNN
from torchdyn.nn import DepthCat, DataControl, GalLinear, Augmenter
from lib.grads import make_net

PROPERTY = 'C07'
RULE = ("histories: 4-7 random solves (functional, hybrid, multiple shooting, symplectic, hyper, Neural ODE forward/backward) over shared solver objects are run once, then again several "
        "times in random order, interleaved with solves interrupted by an exception from the field; every repetition is compared bit for bit and all inputs and global state are checked "
        "around every call; non-trivial = a history with at least three repetitions compared; key = kinds of solves in the order run")
ASSUMPTIONS = ['all solves of one history use double precision; single-threaded torch kernels are deterministic']


class Bomb:
    "field raising in the middle of a solve"
    def __init__(self, f, at): self.f, self.n, self.order = f, at, 1

    def __call__(self, t, x):
        self.n -= 1
        if self.n <= 0: raise Interrupt('injected')
        return self.f(t, x)


class Ordered:
    order = 1
    def __init__(self, f): self.f = f
    def __call__(self, t, x): return self.f(t, x)


class Ball:
    def __init__(self, c): self.c = c
    def check_event(self, t, x): return bool(x.reshape(-1)[0] > self.c)
    def jump_map(self, t, x): return x - 1.


class Mod(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.hold, self.s = [f], nn.Parameter(torch.ones(1, dtype=torch.float64))

    def forward(self, t, x, args={}): return self.s * self.hold[0](t, x)


class Spy:
    "snapshot of inputs and global state, to be compared after the call"
    def __init__(self, ctx, inputs):
        self.ctx, self.inputs = ctx, inputs
        self.snap = {k: self.copy(v) for k, v in inputs.items()}
        self.glob = self.state()

    @staticmethod
    def copy(v):
        if isinstance(v, torch.Tensor): return (v.detach().clone(), v.requires_grad, v.grad is None, v._version, v.shape, v.stride())
        if isinstance(v, nn.Module): return [(n, Spy.copy(p)) for n, p in v.named_parameters()] + [v.training]
        if isinstance(v, (list, tuple)): return [Spy.copy(u) for u in v]
        if isinstance(v, dict): return {k: Spy.copy(u) for k, u in v.items()}
        return copy.deepcopy(v)

    @staticmethod
    def same(a, b):
        if isinstance(a, torch.Tensor): return torch.equal(a, b)
        if isinstance(a, (list, tuple)): return len(a) == len(b) and all(Spy.same(u, v) for u, v in zip(a, b))
        if isinstance(a, dict): return a.keys() == b.keys() and all(Spy.same(a[k], b[k]) for k in a)
        return a == b

    @staticmethod
    def state():
        ns = np.random.get_state()
        return dict(torch_rng=torch.random.get_rng_state().clone(), numpy_rng=[int(v) for v in ns[1]] + [ns[2]], python_rng=hash(random.getstate()),
                    grad_mode=torch.is_grad_enabled(), default_dtype=str(torch.get_default_dtype()), threads=torch.get_num_threads(),
                    anomaly=torch.is_anomaly_enabled(), inference=torch.is_inference_mode_enabled(), deterministic=torch.are_deterministic_algorithms_enabled())

    def verify(self, what):
        for k, v in self.inputs.items():
            self.ctx.check(self.same(self.copy(v), self.snap[k]), 'input_modified', f"{what} modified its argument `{k}`")
        now = self.state()
        for k in now: self.ctx.check(self.same(now[k], self.glob[k]), 'global_state', f"{what} changed the global {k}")


def shared_solvers():
    d = torch.float64
    return dict(euler=Euler(d), midpoint=Midpoint(d), rk4=RungeKutta4(d), dopri5=DormandPrince45(d), tsit5=Tsitouras45(d), alf=AsynchronousLeapfrog(dtype=d))


def make_op(ctx, pool):
    "-> (label, call(f) -> tuple of tensors, inputs, field)"
    rng = ctx.rng
    x, mode = state(ctx, shape=rng.choice([(2, 2), (1, 2), (3, 2), (4, 2)] * 2 + [(30, 2)]))
    x = x.clamp(-2, 2)
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'jitter', 'offset', 'cross', 'two']), n=rng.randint(3, 8), T=rng.uniform(.4, 1.5))
    f = make_field(ctx, 2, kind=rng.choice(['lin', 'osc', 'tanh', 'sin', 'mix', 'tonly', 'linauto']))
    tol = 10 ** rng.uniform(-6, -2)
    kind = rng.choice(['fixed', 'fixed', 'adaptive', 'adaptive', 'adaptive', 'neural', 'neural', 'hybrid', 'ms', 'alf', 'hyper', 'hidden'])
    if rng.random() < .2: x = x.t().contiguous().t() if rng.random() < .5 else x[:1].expand(x.shape[0], 2)
    inputs = dict(x=x, t_span=ts, field=f)

    def solver(name):
        m = rng.choice(['str', 'shared', 'shared', 'fresh'])
        if m == 'str': return lambda: name
        if m == 'fresh': return lambda: str_to_solver(name, torch.float64)
        return lambda: pool[name]
    if kind == 'fixed':
        name = rng.choice(['euler', 'midpoint', 'rk4'])
        s, args = solver(name), {'a': 1, 'w': torch.ones(2)}
        sa = [float(ts[0]), float(ts[-1])] if rng.random() < .3 and rev is False else ()
        inputs.update(args=args, save_at=sa)
        return kind + name, lambda g: odeint(g, x, ts, s(), args=args, save_at=sa), inputs, f
    if kind == 'adaptive':
        name = rng.choice(['dopri5', 'tsit5'])
        s, interp = solver(name), ('4th' if rng.random() < .4 else None)
        semi = (True, 1) if rng.random() < .2 else (False, None)
        return kind + name, lambda g: odeint(g, x, ts, s(), atol=tol, rtol=tol, interpolator=interp, seminorm=semi), inputs, f
    if kind == 'hidden':
        # the time grid as a list, initial condition requiring gradients, solved with gradients on
        tl = [t.reshape(1).clone() for t in ts]
        y = x.detach().clone().requires_grad_(True)
        s = solver(rng.choice(['rk4', 'dopri5']))
        inputs.update(x=y, t_span=tl)
        return kind, lambda g: odeint(g, y, tl, s()), inputs, f
    if kind == 'neural':
        sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
        name = rng.choice(['rk4', 'dopri5', 'tsit5'])
        shared = pool[name] if rng.random() < .6 else str_to_solver(name, torch.float64)
        cls = rng.choice([NeuralODE, ODEProblem])
        t_long = torch.linspace(0, 1, 6, dtype=torch.float64)
        mod = Mod(f)
        node = cls(mod, shared, sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
        inputs.update(t_span=t_long, module=mod)
        x = x.clone()
        inputs['x'] = x

        def call(g):
            mod.hold[0] = g
            try:
                y = x.detach().clone().requires_grad_(True)
                te, sol = node(y, t_long)
                gx, gp = torch.autograd.grad((sol ** 2).sum(), (y, mod.s))
                return te, sol.detach(), gx, gp
            finally: mod.hold[0] = f
        return f"{cls.__name__}-{sens}-{name}", call, inputs, f
    if kind == 'hybrid':
        ts = ts.sort()[0]
        s = solver(rng.choice(['dopri5', 'tsit5']))
        cbs = [Ball(rng.uniform(.3, 2)), Ball(3.)]
        inputs.update(t_span=ts)
        return kind, lambda g: odeint_hybrid(g, x, ts, 5, s(), cbs, atol=1e-4, rtol=1e-4), inputs, f
    if kind == 'ms':
        t_ms = torch.linspace(0, rng.uniform(.3, 1), rng.randint(3, 6), dtype=torch.float64)
        which = rng.choice(['zero', 'backward', 'shared'])
        ms = pool.setdefault('_ms', MSZero())
        B0 = torch.randn(len(t_ms), *x.shape, generator=ctx.gen, dtype=torch.float64) if rng.random() < .5 else None
        inputs.update(t_span=t_ms, **({} if B0 is None else dict(B0=B0)))
        return kind + which, lambda g: odeint_mshooting(g, x, t_ms, ms if which == 'shared' else which, B0=B0, maxiter=2, fine_steps=3), inputs, f
    if kind == 'alf':
        xv = torch.cat([x, f(ts[0], x)], -1)
        inputs.update(x=xv)
        s = solver('alf')
        return kind, lambda g: odeint_symplectic(Ordered(g), xv, ts, s()), inputs, f
    net = Field('tanh', 2, ctx.gen)
    hyper = HyperEuler(net, torch.float64)
    inputs.update(net=net)
    return kind, lambda g: odeint(g, x, ts, hyper), inputs, f


def bits(a, b):
    return len(a) == len(b) and all(u.shape == v.shape and u.dtype == v.dtype and torch.equal(u, v) for u, v in zip(a, b))


@family(quick=300, thorough=5000)
def histories(ctx):
    rng = ctx.rng
    pool = shared_solvers()
    ops = [make_op(ctx, pool) for _ in range(rng.randint(4, 7))]
    ctx.desc(ops=','.join(o[0] for o in ops))
    first = []

    def run(op, what, field=None):
        mode = rng.random() < .25 and 'neural' not in op[0] and not op[0].startswith(('NeuralODE', 'ODEProblem', 'msback'))
        if mode: torch.set_grad_enabled(False)
        try:
            spy = Spy(ctx, op[2])
            out = tuple(t.detach() for t in op[1](field or op[3]))
            spy.verify(f"{what} {op[0]}")
        finally: torch.set_grad_enabled(True)
        ctx.ev('solves')
        return out
    for op in ops: first.append(run(op, 'first'))
    order, compared = [], 0
    for _ in range(rng.randint(6, 14)):
        i = rng.randrange(len(ops))
        op = ops[i]
        if rng.random() < .3:
            spy = Spy(ctx, op[2])
            try:
                op[1](Bomb(op[3], rng.randint(1, 12)))
            except Interrupt:
                ctx.ev('interrupted')
            except RuntimeError as e:
                if 'injected' not in str(e): raise
                ctx.ev('interrupted')
            spy.verify(f"interrupted {op[0]}")
            order.append(-i)
            continue
        out = run(op, 'repeated')
        ctx.check(bits(out, first[i]), 'not_repeatable',
                  lambda: f"repetition of solve {i} ({op[0]}) after {order} differs: {[float((a - b).abs().max()) if a.shape == b.shape else (a.shape, b.shape) for a, b in zip(out, first[i])]}")
        compared += 1
        order.append(i)
    ctx.ev('repetitions', compared)
    if compared >= 3: ctx.key(','.join(ops[abs(i)][0] + ('!' if i < 0 else '') for i in order))


class Bistable:
    kind = 'bistable'
    def __init__(self, k): self.k = k
    def __call__(self, t, x): return self.k * (x - x ** 3)


@family(quick=200, thorough=3000)
def fresh_vs_reused(ctx):
    "one solver object over many problems of the same precision gives what a fresh one gives"
    rng = ctx.rng
    name = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5', 'ieuler'])
    reused = str_to_solver(name, torch.float64)
    ctx.desc(solver=name)
    seq = []
    for k in range(rng.randint(3, 8)):
        x, mode = state(ctx)
        ts, kind, rev = grid(ctx, T=rng.uniform(.3, 1.5))
        f = make_field(ctx, x.shape[-1])
        if name == 'ieuler':
            ts = ts[:4]
            if rng.random() < .5: f = Bistable(rng.uniform(1, 9)) # implicit steps have several solutions
        tol = 10 ** rng.uniform(-7, -2)
        kw = dict(atol=tol, rtol=tol) if name in ('dopri5', 'tsit5') else {}
        if name == 'dopri5' and rng.random() < .4: kw['interpolator'] = '4th'
        if rng.random() < .3:
            try: odeint(Bomb(f, rng.randint(1, 10)), x, ts, reused, **kw)
            except Interrupt: ctx.ev('interrupted')
        a = odeint(f, x.clone(), ts.clone(), reused, **kw)
        b = odeint(f, x.clone(), ts.clone(), str_to_solver(name, torch.float64), **kw)
        c = odeint(f, x.clone(), ts.clone(), name, **kw)
        ctx.check(bits(a, b), 'reused_differs', f"problem {k} ({f.kind}, {kind}, shape {tuple(x.shape)}): reused {name} differs from a fresh one")
        ctx.check(bits(b, c), 'string_differs', f"problem {k}: fresh {name} object differs from the string")
        ctx.ev('solves', 3)
        seq.append((f.kind, kind, tuple(x.shape)))
    ctx.key(name, seq)


def build_model(ctx):
    "-> (label, model, width of the state)"
    rng = ctx.rng
    kind, d = rng.choice(['mlp', 'depth', 'control', 'galerkin', 'cnf', 'hnn', 'order2', 'intloss', 'aug', 'ms', 'problem', 'sde']), rng.choice([2, 4])
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']) if kind != 'cnf' else rng.choice(['autograd', 'adjoint'])
    name = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5'])
    L = lambda i, o: nn.Linear(i, o).double()
    sol = lambda: str_to_solver(name, torch.float64)
    tol = 10 ** rng.uniform(-5, -2)
    kw = dict(sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol, return_t_eval=rng.random() < .7)
    w = d
    if kind == 'mlp': net = nn.Sequential(L(d, 4), nn.Tanh(), L(4, d))
    elif kind == 'problem': net = make_net(ctx, d)
    elif kind == 'depth': net = nn.Sequential(DepthCat(1), L(d + 1, 4), nn.Tanh(), L(4, d))
    elif kind == 'control': net = nn.Sequential(DataControl(), L(2 * d, 4), nn.Tanh(), L(4, d))
    elif kind == 'galerkin': net = nn.Sequential(DepthCat(1), GalLinear(d, d).double(), nn.Tanh())
    elif kind == 'cnf': net, w = CNF(nn.Sequential(L(d, 4), nn.Tanh(), L(4, d))), d + 1
    elif kind == 'hnn': net = HNN(nn.Sequential(L(d, 4), nn.Tanh(), L(4, 1)))
    elif kind == 'order2': net, kw['order'] = nn.Sequential(L(d, 4), nn.Tanh(), L(4, d // 2)), 2
    elif kind == 'intloss':
        net, kw['integral_loss'] = nn.Sequential(L(d, 4), nn.Tanh(), L(4, d)), quad
        w = d + (sens == 'autograd')
    elif kind == 'aug': net, w = nn.Sequential(L(d + 1, 4), nn.Tanh(), L(4, d + 1)), d
    elif kind == 'ms':
        return kind, MultipleShootingProblem(make_net(ctx, d, kind='auto'), rng.choice(['zero', 'backward']), sensitivity='autograd', maxiter=2, fine_steps=3), d
    elif kind == 'sde':
        return kind, NeuralSDE(nn.Sequential(L(d, 4), nn.Tanh(), L(4, d)), nn.Sequential(L(d, d), nn.Tanh()), solver=rng.choice(['euler', 'milstein_ito']), ds=.11), d
    if kind == 'problem':
        kw.pop('return_t_eval')
        return kind, ODEProblem(net, sol(), **kw), d
    m = NeuralODE(net, sol(), **kw)
    if kind == 'aug': m = nn.Sequential(Augmenter(augment_dims=1), m)
    return f"{kind}-{name}-{sens}", m, w


def quad(t, x): return (x ** 2).sum(1)


class RaiseAt:
    def __init__(self, module, at): self.n, self.h = at, module.register_forward_pre_hook(self.hook)

    def hook(self, *a):
        self.n -= 1
        if self.n <= 0: raise Interrupt('injected')


@family(quick=160, thorough=3000)
def models(ctx):
    "a model used for many different calls answers each of them as an untouched copy of it does"
    rng = ctx.rng
    label, used, w = build_model(ctx)
    pristine = copy.deepcopy(used)
    ctx.desc(model=label)
    seq = []
    for k in range(rng.randint(3, 8)):
        x = torch.randn(rng.choice([1, 2, 3, 5]), w, generator=ctx.gen, dtype=torch.float64)
        ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'offset', 'two']), n=rng.randint(2, 6), T=rng.uniform(.3, 1.5))
        if label in ('ms', 'sde'): ts = ts[0].abs() + torch.linspace(0, rng.uniform(.3, 1), len(ts)).double()
        can_omit = label not in ('ms', 'problem') and not label.startswith('sde')
        how = rng.choice(['call', 'call', 'grad', 'grad', 'omit', 'nograd', 'trajectory', 'interrupted', 'eval', 'save_at'])
        if how == 'omit' and not can_omit: how = 'call'
        if how in ('trajectory', 'save_at') and (label.startswith(('aug', 'cnf')) or label in ('ms', 'sde', 'problem')): how = 'call'
        if how == 'save_at' and label.split('-')[1] in ('dopri5', 'tsit5'): how = 'call'

        def run(m):
            xx = x.clone().requires_grad_(True)
            if how == 'trajectory': return (m.trajectory(xx, ts.clone()),)
            if how == 'omit': out = m(xx)
            elif how == 'save_at': out = m(xx, ts.clone(), save_at=[float(ts[0]), float(ts[-1])])
            elif isinstance(m, nn.Sequential): out = m[1](m[0](xx), ts.clone())
            else: out = m(xx, ts.clone())
            out = out if isinstance(out, tuple) else (out,)
            if how == 'grad' and label != 'ms':
                for p in m.parameters(): p.grad = None
                g = torch.autograd.grad(out[-1][-1].pow(2).sum(), [p for p in m.parameters() if p.requires_grad and p.numel()] + [xx], allow_unused=True)
                out += tuple(torch.zeros(1) if v is None else v for v in g)
            return out
        fresh = copy.deepcopy(pristine)
        if how == 'interrupted':
            inner = [v for v in used.modules() if isinstance(v, (nn.Linear, GalLinear))]
            if inner:
                bomb = RaiseAt(rng.choice(inner), rng.randint(1, 9))
                try: run(used)
                except Interrupt: ctx.ev('interrupted')
                except RuntimeError as e:
                    if 'injected' not in str(e): raise
                    ctx.ev('interrupted')
                bomb.h.remove()
            seq.append(how)
            continue
        if how == 'eval': used.eval(), fresh.eval()
        with torch.set_grad_enabled(how != 'nograd'):
            torch.manual_seed(k), np.random.seed(k)
            before = Spy(ctx, dict(model=used))
            a = run(used)
            if how != 'grad' and label != 'sde': before.verify(how)
            torch.manual_seed(k), np.random.seed(k)
            b = run(fresh)
        if how == 'eval': used.train()
        ctx.check(bits(a, b), 'model_history', lambda: f"call {k} ({how}) after {seq} differs from that of an untouched copy: {[float((u - v).abs().max()) if u.shape == v.shape else (tuple(u.shape), tuple(v.shape)) for u, v in zip(a, b)]}")
        ctx.ev('model_calls')
        seq.append(how)
    ctx.key(label, seq)


class Kept:
    "field returning tensors that are not its own to give away: a constant, a row of a table, its argument or views of these"
    order = 1

    def __init__(self, kind, x, gen, copies):
        self.kind, self.copies = kind, copies
        self.c = torch.randn(x.shape, generator=gen, dtype=x.dtype)
        if kind == 'expanded': self.c = self.c[:1].clone()
        if kind == 'strided': self.c = self.c.t().contiguous().t()
        self.table = torch.randn(5, *x.shape, generator=gen, dtype=x.dtype)
        self.out = lambda v: v.clone() if copies else v

    def __call__(self, t, x, args=None):
        if self.kind in ('const', 'strided'): return self.out(self.c)
        if self.kind == 'expanded': return self.out(self.c.expand(x.shape))
        if self.kind == 'table': return self.out(self.table[int(float(t) * 3) % 5])
        if self.kind == 'same': return self.out(x)
        if self.kind == 'view': return self.out(x.view(x.shape))
        return self.out(x.flip(0).detach() if self.kind == 'detached' else x[...])


class KeptMod(nn.Module):
    order = 1
    def __init__(self, k): super().__init__(); self.hold = [k]; self.s = nn.Parameter(torch.ones(1, dtype=torch.float64))
    def forward(self, t, x, args={}): return self.hold[0](t, x)


@family(quick=200, thorough=4000)
def kept(ctx):
    "what a field returns stays its own: solves neither change it nor depend on whether it is a copy"
    rng = ctx.rng
    x = torch.randn(rng.choice([1, 2, 3, 20]), rng.choice([1, 2, 4]), generator=ctx.gen, dtype=torch.float64)
    kind = rng.choice(['const', 'const', 'table', 'expanded', 'strided', 'same', 'view', 'detached', 'index'])
    route = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5', 'dense', 'hybrid', 'zero', 'backward', 'alf', 'hyper', 'sde', 'neural', 'problem', 'ieuler'])
    grad = rng.random() < .5 or route in ('backward', 'ieuler')
    ts, gk, rev = grid(ctx, kind='even' if route in ('zero', 'backward') else None, n=rng.randint(2, 6), T=rng.uniform(.3, 1.5), reverse=False if route in ('hybrid', 'zero', 'backward', 'sde') else None)
    if route == 'ieuler': ts = ts[:3]
    seed = rng.randrange(10 ** 6)
    noise = torch.randn(x.shape, generator=ctx.gen, dtype=torch.float64)
    need = rng.random() < .5
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    name = rng.choice(['euler', 'rk4', 'dopri5', 'tsit5'])
    ctx.desc(field=kind, route=route, grad=grad, grid=gk, reverse=rev, shape=tuple(x.shape), leaf=need)

    def solve(copies):
        gen = torch.Generator().manual_seed(seed)
        k = Kept(kind, x, gen, copies)
        z = x.clone().requires_grad_(need)
        spy = Spy(ctx, dict(x=z, constant=k.c, table=k.table, t_span=ts))
        with torch.set_grad_enabled(grad):
            if route in ('euler', 'midpoint', 'rk4', 'dopri5', 'tsit5', 'ieuler'): out = odeint(k, z, ts, route)[1]
            elif route == 'dense': out = odeint(k, z, ts, 'dopri5', interpolator='4th')[1]
            elif route == 'hybrid': out = odeint_hybrid(k, z, ts, 3, 'dopri5', [Ball(1.5)])[1]
            elif route in ('zero', 'backward'): out = odeint_mshooting(k, z, ts, route, fine_steps=3, maxiter=2)[1]
            elif route == 'alf': out = odeint_symplectic(k, torch.cat([z, noise], -1), ts, AsynchronousLeapfrog(dtype=torch.float64))[1]
            elif route == 'hyper': out = odeint(k, z, ts, HyperEuler(Kept(kind, x, gen, copies), torch.float64))[1]
            elif route == 'sde':
                out = NeuralSDE(KeptMod(k), KeptMod(Kept(rng.choice(['const', 'same']) if kind == 'table' else kind, x, gen, copies)), solver='euler', bm=lambda a, b: noise * (b - a))(z, ts)[1]
            else: out = (NeuralODE if route == 'neural' else ODEProblem)(KeptMod(k), str_to_solver(name, torch.float64), sensitivity=sens)(z, ts)[1]
            outs = [out.detach().clone()]
            if grad and need and out.requires_grad and sens != 'interpolated_adjoint':
                g = torch.autograd.grad((out ** 2).sum(), z, allow_unused=True)[0]
                if g is not None: outs.append(g)
        spy.verify(f"{route} with a field that returns {kind}")
        ctx.ev('solves')
        return outs
    state_ = rng.getstate()
    a = solve(False)
    rng.setstate(state_)
    b = solve(True)
    ctx.check(len(a) == len(b), 'kept_gradient', f"{len(a)} against {len(b)} results")
    for u, v in zip(a, b): ctx.close(u, v, 1e-12, 'kept', f"{route} with a field that returns {kind} itself against one that returns a copy")
    ctx.key(kind, route, grad, gk, rev, need)
