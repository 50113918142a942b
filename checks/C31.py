"""C31: solves running at the same time in several threads."""
import copy
import random
import sys
import threading
import time
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import make_field, state, grid, wide
from lib.grads import make_net
from torchdyn.numerics import odeint, odeint_mshooting, sdeint
from torchdyn.numerics.odeint import odeint_hybrid, odeint_symplectic
from torchdyn.numerics.solvers.ode import str_to_solver, AsynchronousLeapfrog
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.numerics.interpolators import str_to_interp
from torchdyn.numerics.solvers.root import root_find
from torchdyn.core import NeuralODE, ODEProblem
from torchdyn.core.defunc import SDEFunc
from torchdyn.models import CNF, HNN
from torchdyn.nn import DepthCat, DataControl, GalLinear
import torchsde

PROPERTY = 'C31'
RULE = ("2 to 6 threads, started together, run random lists of solves of every kind (functional, wrapped with each sensitivity and its backward pass, symplectic, hybrid, multiple shooting, stochastic, hypersolver, "
        "root finding, layers that keep per-solve state), some sharing solver objects, stateless fields and input tensors, with random delays injected into field evaluations and a thread switch interval of "
        "20 microseconds, or one kind of solve in all threads yielding at every evaluation, with forced switches between lines of the library's own code; every result is compared with that of the same job run alone; key = kinds of jobs, number of threads, sharing; the number of observed switches between threads is recorded")
ASSUMPTIONS = ['threads do not share models whose layers keep per-solve state', 'CPU tensors; results equal to 1e-9 (independent of kernel threading)']


class Trace:
    "which thread evaluated a field last, and how often that changed"
    def __init__(self): self.last, self.switches, self.calls = None, 0, 0

    def hit(self):
        i = threading.get_ident()
        self.calls += 1
        if self.last is not None and self.last != i: self.switches += 1
        self.last = i


class Slow(nn.Module):
    "field that yields its thread now and then"
    def __init__(self, f, tr, every):
        super().__init__()
        self.f, self.tr, self.every, self.n = f, [tr], every, 0

    def forward(self, t, x, args={}):
        self.tr[0].hit()
        self.n += 1
        if self.n % self.every == 0: time.sleep(1e-5)
        return self.f(t, x)


class Preempt:
    "switches threads between lines of torchdyn itself"
    def __init__(self, seed, rate): self.r, self.rate, self.n = random.Random(seed), rate, 0

    def __call__(self, frame, event, arg):
        return self.line if 'torchdyn' in frame.f_code.co_filename else None

    def line(self, frame, event, arg):
        if event == 'line' and self.r.random() < self.rate:
            self.n += 1
            time.sleep(1e-6)
        return self.line


class XField(nn.Module):
    "layers with per-solve state"
    def __init__(self, net, tr): super().__init__(); self.net, self.tr = net, [tr]
    def forward(self, x):
        self.tr[0].hit()
        y = self.net(x)
        time.sleep(5e-6)
        return y


class Cb:
    def __init__(self, thr): self.thr = thr
    def check_event(self, t, x): return bool(x.reshape(-1)[0] < self.thr)
    def jump_map(self, t, x): return x + 1.5


def job_odeint(ctx, tr, shared, kind=None, every=None):
    rng = ctx.rng
    name = kind or rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5'])
    x, _ = state(ctx)
    ts, kind, rev = grid(ctx, T=rng.uniform(.5, 3))
    f = Slow(make_field(ctx, x.shape[-1]), tr, every or rng.randint(3, 20))
    s = rng.choice([name, shared[name]])
    interp = rng.choice(['4th', shared['4th'], shared['4th']]) if name == 'dopri5' and rng.random() < .5 else None
    if interp is shared['4th']: s = shared[name]
    return f'odeint-{name}', lambda: odeint(lambda t, x: f(t, x), x, ts, s if isinstance(s, str) and x.dtype == torch.float64 else shared[name], atol=1e-5, rtol=1e-5, interpolator=interp)[1]


def job_train(ctx, tr, shared, kind=None, every=None):
    rng = ctx.rng
    d = wide(rng, rng.randint(1, 4))
    net = Slow(make_net(ctx, d, kind=rng.choice(['mlp', 'auto', 'bilinear'])), tr, every or rng.randint(5, 30))
    sens = kind or rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    name = rng.choice(['rk4', 'dopri5', 'tsit5'])
    m = rng.choice([NeuralODE, ODEProblem])(net, shared[name], sensitivity=sens, atol=1e-5, rtol=1e-5, atol_adjoint=1e-5, rtol_adjoint=1e-5, solver_adjoint=shared[rng.choice(['dopri5', 'tsit5'])])
    x = torch.randn(rng.randint(1, 4), d, generator=ctx.gen, dtype=torch.float64)
    ts, _, _ = grid(ctx, kind=rng.choice(['even', 'jitter']), n=4)
    P = [p for p in net.parameters() if p.requires_grad]

    def run():
        z = x.clone().requires_grad_(True)
        y = m(z, ts)[1]
        g = torch.autograd.grad((y[1:] ** 2).sum(), [z] + P, allow_unused=True)
        return torch.cat([y.detach().flatten()] + [v.flatten() for v in g if v is not None])
    return f'train-{sens}', run


def job_layers(ctx, tr, shared, kind=None, every=None):
    rng = ctx.rng
    kind = kind or rng.choice(['depth', 'control', 'galerkin', 'cnf', 'hnn', 'order2'])
    d = wide(rng, rng.choice([2, 4]))
    L = lambda i, o: nn.Linear(i, o).double()
    with torch.random.fork_rng():
        torch.manual_seed(rng.randrange(2 ** 30))
        net = dict(depth=lambda: nn.Sequential(DepthCat(1), L(d + 1, 5), nn.Tanh(), DepthCat(1), L(6, d)),
                   control=lambda: nn.Sequential(DataControl(), L(2 * d, 5), nn.Tanh(), L(5, d)),
                   galerkin=lambda: nn.Sequential(DepthCat(1), GalLinear(d, d).double(), nn.Tanh()),
                   cnf=lambda: CNF(nn.Sequential(L(d, 5), nn.Tanh(), L(5, d))),
                   hnn=lambda: HNN(nn.Sequential(L(d, 5), nn.Tanh(), L(5, 1))),
                   order2=lambda: nn.Sequential(L(d, 5), nn.Tanh(), L(5, d // 2)))[kind]()
    if kind == 'galerkin': net[1].coeffs.data = torch.randn(net[1].coeffs.shape, generator=ctx.gen, dtype=torch.float64)
    sens = rng.choice(['autograd', 'adjoint']) if kind != 'cnf' else 'autograd'
    m = NeuralODE(XField(net, tr), shared[rng.choice(['rk4', 'dopri5'])], sensitivity=sens, order=2 if kind == 'order2' else 1, atol=1e-5, rtol=1e-5)
    x = torch.randn(3, d + (kind == 'cnf'), generator=ctx.gen, dtype=torch.float64)
    ts = torch.linspace(0, 1, 4).double()

    def run():
        z = x.clone().requires_grad_(True)
        y = m(z, ts)[1]
        g = torch.autograd.grad((y[-1] ** 2).sum(), [z] + list(net.parameters()), allow_unused=True)
        return torch.cat([y.detach().flatten()] + [v.flatten() for v in g if v is not None])
    return f'layer-{kind}', run


def job_sde(ctx, tr, shared, kind=None, every=None):
    rng = ctx.rng
    name = kind or rng.choice(['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich'])
    kind = 'stratonovich' if name in ('eulerHeun', 'milstein_stratonovich') else 'ito'
    x = torch.randn(3, 2, generator=ctx.gen, dtype=torch.float64)
    f = Slow(make_field(ctx, 2), tr, every or rng.randint(2, 8))
    ent = rng.randrange(2 ** 30)
    ts = torch.linspace(0, 1, rng.randint(4, 20)).double()

    def run():
        bm = torchsde.BrownianInterval(0., 1., size=(3, 2), entropy=ent, dtype=torch.float64)
        sde = SDEFunc(f=lambda t, x: f(t, x), g=lambda t, x: .3 * torch.cos(x + t), noise_type='diagonal', sde_type=kind)
        return sdeint(sde, x, ts, name, bm)[1]
    return f'sde-{name}', run


OTHER = ['hybrid', 'mshooting', 'symplectic', 'hyper', 'root', 'ieuler']


def job_other(ctx, tr, shared, kind=None, every=None):
    rng = ctx.rng
    kind = kind or rng.choice(OTHER)
    d = wide(rng, rng.choice([2, 4]))
    x = torch.randn(3, d, generator=ctx.gen, dtype=torch.float64)
    field = make_field(ctx, d, kind=rng.choice(['tanhauto', 'linauto']))
    f = Slow(field, tr, every or rng.randint(3, 20))
    ts = torch.linspace(0, 1, rng.randint(3, 7)).double()
    if kind == 'hybrid':
        thr = float(x.reshape(-1)[0]) - rng.uniform(.05, .5)
        g = lambda t, x: f(t, x) * .3 - 1.
        def run():
            te, y = odeint_hybrid(g, x, ts, rng_j, shared['dopri5'], [Cb(thr)], atol=1e-6, rtol=1e-6, event_tol=1e-5)
            return torch.cat([te[:, None].expand(len(te), 1).flatten(), y.flatten()])
        rng_j = rng.randint(1, 4)
    elif kind == 'mshooting':
        name = rng.choice(['zero', 'backward'])
        k = rng.randint(1, 4)
        run = lambda: odeint_mshooting(f, x, ts, name, fine_steps=3, maxiter=k)[1]
    elif kind == 'symplectic':
        class F(nn.Module):
            order = 1
            def forward(s, t, x): return torch.tanh(x) * torch.cos(t) + 0 * f(t, torch.cat([x, x], -1)).sum()
        run = lambda: odeint_symplectic(F(), x, ts, shared['alf'])[1]
    elif kind == 'hyper':
        s = rng.choice([HyperEuler, HyperMidpoint, HyperRungeKutta4])(lambda t, x: torch.sin(x + t), torch.float64)
        run = lambda: odeint(f, x, ts, s)[1]
    elif kind == 'ieuler': run = lambda: odeint(f, x, ts[:3], 'ieuler')[1]
    else:
        m = rng.choice(['broyden', 'broyden_fast'])
        run = lambda: root_find(lambda z: torch.tanh(f(0 * ts[0], z)) + 3 * z, x, alpha=.5, method=m, search_method='none', maxiters=15)[0]
    return kind, run


KINDS = ([(job_odeint, k) for k in ('euler', 'midpoint', 'rk4', 'dopri5', 'tsit5')] + [(job_train, k) for k in ('autograd', 'adjoint', 'interpolated_adjoint')] +
         [(job_layers, k) for k in ('depth', 'control', 'galerkin', 'cnf', 'hnn', 'order2')] + [(job_sde, k) for k in ('euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich')] + [(job_other, k) for k in OTHER])
JOBS = [job_odeint, job_odeint, job_train, job_train, job_layers, job_layers, job_sde, job_other, job_other]


def objects():
    shared = {n: str_to_solver(n, torch.float64) for n in ('euler', 'midpoint', 'rk4', 'dopri5', 'tsit5')}
    shared['4th'] = str_to_interp('4th', torch.float64)
    shared['alf'] = AsynchronousLeapfrog(dtype=torch.float64)
    return shared


@family(quick=60, thorough=1500)
def parallel(ctx):
    rng = ctx.rng
    tr, shared, nthreads = Trace(), objects(), rng.randint(2, 6)
    together(ctx, tr, [[rng.choice(JOBS)(ctx, tr, shared) for _ in range(rng.randint(2, 4))] for _ in range(nthreads)])


@family(quick=len(KINDS) * 3, thorough=len(KINDS) * 60)
def alike(ctx):
    "all threads run solves of one kind, yielding at every evaluation: each part of the code against itself"
    rng = ctx.rng
    job, kind = KINDS[ctx.index % len(KINDS)]
    tr, shared, nthreads = Trace(), objects(), rng.randint(2, 5)
    together(ctx, tr, [[job(ctx, tr, shared, kind, 1) for _ in range(rng.randint(1, 3))] for _ in range(nthreads)])


def foreign(e):
    "whether an exception was raised within PyTorch's own Python code (its optimizers are not documented as safe for threads)"
    tb = e.__traceback__
    while tb.tb_next is not None: tb = tb.tb_next
    return '/torch/optim/' in tb.tb_frame.f_code.co_filename


def together(ctx, tr, lists, again=2):
    nthreads = len(lists)
    rate = ctx.rng.choice([0., .05, .3])
    pre = [Preempt(ctx.rng.random(), rate) for _ in lists]
    alone = [[run().detach().clone() for _, run in jobs] for jobs in lists]
    solo = tr.switches
    ctx.check(solo == 0, 'harness', 'switches before threads were started')
    tr.switches = tr.calls = 0
    out, err = [[None] * len(j) for j in lists], []
    start = threading.Barrier(nthreads)

    def work(i):
        try:
            start.wait(30)
            if rate: sys.settrace(pre[i])
            for k, (_, run) in enumerate(lists[i]): out[i][k] = run().detach().clone()
        except BaseException as e:
            err.append((i, e))
        finally: sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-5)
    try:
        th = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(nthreads)]
        [t.start() for t in th]
        [t.join(100) for t in th]
    finally: sys.setswitchinterval(old)
    names = sorted(n for jobs in lists for n, _ in jobs)
    ctx.desc(threads=nthreads, jobs=','.join(names), switches=tr.switches, field_calls=tr.calls, line_rate=rate)
    ctx.ev('forced_line_switches', sum(p.n for p in pre))
    if any(t.is_alive() for t in th): ctx.fail('no_progress', 'threads did not finish', stop=True)
    for i, e in err:
        if again and foreign(e):
            ctx.ev('repeated_after_exception_in_torch')
            ctx.desc(first=repr(e)[:300])
            tr.last = None
            return together(ctx, tr, lists, again - 1)
        raise e
    for i, jobs in enumerate(lists):
        for k, (n, _) in enumerate(jobs):
            ctx.close(out[i][k], alone[i][k], 1e-9, 'interference', f"{n} in thread {i} among {nthreads} against the same job alone")
            ctx.ev('jobs')
    ctx.check(torch.is_grad_enabled() and torch.get_default_dtype() == torch.float32, 'global_state', 'gradient mode or default dtype changed')
    ctx.ev('thread_switches', tr.switches), ctx.ev('field_calls', tr.calls)
    if tr.switches > 2: ctx.key(nthreads, *names)


@family(quick=25, thorough=600)
def one_model(ctx):
    "several threads train-step through one model with a stateless field"
    rng = ctx.rng
    tr = Trace()
    d = wide(rng, rng.randint(1, 4))
    net = Slow(make_net(ctx, d, kind=rng.choice(['mlp', 'auto', 'bilinear'])), tr, rng.randint(4, 12))
    sens, name = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']), rng.choice(['rk4', 'dopri5', 'tsit5', 'midpoint'])
    solver = str_to_solver(name, torch.float64)
    m = NeuralODE(net, solver, sensitivity=sens, atol=1e-5, rtol=1e-5, atol_adjoint=1e-5, rtol_adjoint=1e-5, interpolator='4th' if name == 'dopri5' and rng.random() < .5 else None)
    P = [p for p in net.parameters() if p.requires_grad]
    nthreads = rng.randint(2, 6)
    jobs = []
    for _ in range(nthreads):
        x = torch.randn(rng.randint(1, 5), d, generator=ctx.gen, dtype=torch.float64)
        ts, _, rev = grid(ctx, kind=rng.choice(['even', 'jitter', 'offset']), n=rng.randint(3, 6))
        row = rng.randrange(len(ts))

        def run(x=x, ts=ts, row=row):
            z = x.clone().requires_grad_(True)
            y = m(z, ts)[1]
            g = torch.autograd.grad((y[row] ** 2).sum() + y[-1].sum(), [z] + P, allow_unused=True)
            return torch.cat([y.detach().flatten()] + [v.flatten() for v in g if v is not None])
        jobs.append(run)
    alone = [run() for run in jobs]
    tr.switches = tr.calls = 0
    tr.last = None
    rate = rng.choice([0., .05, .3])
    pre = [Preempt(rng.random(), rate) for _ in jobs]
    out, err, start, reps = [None] * nthreads, [], threading.Barrier(nthreads), rng.randint(1, 3)

    def work(i):
        try:
            start.wait(30)
            if rate: sys.settrace(pre[i])
            out[i] = [jobs[i]() for _ in range(reps)]
        except BaseException as e: err.append(e)
        finally: sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-5)
    try:
        th = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(nthreads)]
        [t.start() for t in th]
        [t.join(100) for t in th]
    finally: sys.setswitchinterval(old)
    ctx.desc(threads=nthreads, sensitivity=sens, solver=name, interp=m.interpolator is not None, switches=tr.switches, field_calls=tr.calls)
    if any(t.is_alive() for t in th): ctx.fail('no_progress', 'threads did not finish', stop=True)
    for e in err: raise e
    for i in range(nthreads):
        for o in out[i]: ctx.close(o, alone[i], 1e-9, 'interference', f"thread {i} of {nthreads} through one model against the same call alone")
    ctx.ev('thread_switches', tr.switches), ctx.ev('field_calls', tr.calls), ctx.ev('jobs', nthreads * reps)
    if tr.switches > 2: ctx.key(nthreads, sens, name, tr.switches // 20)
