"""C29: copies, saving and training."""
import copy
import io
import pickle
import warnings
import torch
import torch.nn as nn
from lib.core import family
from lib import ref
from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingLayer
from torchdyn.core.problems import MultipleShootingProblem
from torchdyn.core.neuralde import NeuralSDE
from torchdyn.nn import DepthCat, DataControl, GalLinear
from torchdyn.nn.galerkin import Fourier, Polynomial, GaussianRBF
from torchdyn.models import CNF
from torchdyn.models.cnf import autograd_trace
from torchdyn.models.energy import HNN, LNN, GNF
from torchdyn.numerics.solvers.ode import str_to_solver
import torchsde

PROPERTY = 'C29'
RULE = ("random model (class, field, sensitivity, solver) driven through random histories of forward, backward, optimiser step, in-place edit, parameter loading, deepcopy, pickle, torch.save and state-dict transfer; "
        "after every operation the outputs and all gradients equal those of a model freshly built with the same parameter values, copies share no storage with the original and neither reacts to edits of the other, and the "
        "parameter list equals that of the field; key = class, field, sensitivity, solver, operations")
ASSUMPTIONS = ['picklable fields (module-level classes and functions)', 'a field without parameters carries one dummy parameter']


# ---- fields (module level: picklable)
class Mlp(nn.Module):
    def __init__(self, d, extras=()):
        super().__init__()
        self.extras = extras
        if 'unused' in extras: self.a = nn.Parameter(torch.randn(3))
        self.l1 = nn.Linear(d, 5)
        self.l2 = nn.Linear(5, d)
        self.s = nn.Parameter(torch.tensor(.7))
        if 'frozen' in extras: self.l1.bias.requires_grad_(False)
        if 'tied' in extras: self.again = self.l1
        if 'buffer' in extras: self.register_buffer('shift', torch.randn(d))

    def forward(self, t, x, args={}):
        y = self.l2(torch.tanh(self.l1(x) + torch.sin(t)))
        if 'buffer' in self.extras: y = y + self.shift
        if 'tied' in self.extras: y = y * torch.tanh(self.again(x)).sum(-1, keepdim=True)
        return .5 * self.s * y


class Wave(nn.Module):
    "field without parameters"
    def forward(self, t, x, args={}): return torch.cos(t) * x.roll(1, -1) - .3 * x


class Force(nn.Module):
    def __init__(self, d):
        super().__init__()
        self.l = nn.Linear(2 * d, d)
    def forward(self, t, x, args={}): return torch.tanh(self.l(x)) - t * .1


class Holder(nn.Module):
    "field of a free parameter that it does not own"
    def forward(self, t, x, args={}): return torch.sin(x + t)


def plain(t, x, args={}): return torch.sin(x) - t * x


def quad(t, x): return .1 * (x ** 2).sum(1) + .05 * torch.sin(t)


def normal(d): return torch.distributions.MultivariateNormal(torch.zeros(d), torch.eye(d))


FIELDS = ['mlp', 'mlp', 'seq', 'depthcat', 'galerkin', 'control', 'wave', 'function', 'cnf', 'hnn', 'second']


def field(ctx, name, d, sig):
    seq = nn.Sequential
    if name == 'mlp': return Mlp(d, sig)
    if name == 'seq': return seq(nn.Linear(d, 6), nn.Tanh(), nn.Linear(6, d))
    if name == 'depthcat': return seq(DepthCat(1), nn.Linear(d + 1, 6), nn.Tanh(), DepthCat(1), nn.Linear(7, d))
    if name == 'galerkin': return seq(DepthCat(1), GalLinear(d, 6, expfunc=sig), nn.Tanh(), nn.Linear(6, d))
    if name == 'control': return seq(DataControl(), nn.Linear(2 * d, 6), nn.Tanh(), nn.Linear(6, d))
    if name == 'wave': return Wave()
    if name == 'function': return plain
    if name == 'cnf': return CNF(seq(nn.Linear(d, 6), nn.Tanh(), nn.Linear(6, d)), trace_estimator=autograd_trace, noise_dist=None)
    if name == 'hnn': return HNN(seq(nn.Linear(d, 6), nn.Tanh(), nn.Linear(6, 1)))
    if name == 'second': return Force(d // 2)


class Spec:
    "everything needed to build the same model again"
    def __init__(self, ctx):
        rng = ctx.rng
        self.cls = rng.choice(['NeuralODE', 'NeuralODE', 'ODEProblem', 'ODEProblem', 'MultipleShootingLayer', 'MultipleShootingProblem'])
        ms = self.cls.startswith('Mul')
        self.field = rng.choice(FIELDS)
        if ms: self.field = rng.choice(['mlp', 'seq', 'wave', 'function'])
        elif self.cls == 'ODEProblem': self.field = rng.choice(['mlp', 'mlp', 'seq', 'wave', 'function'])
        self.d = 4 if self.field in ('hnn', 'second') else rng.randint(2, 4)
        self.order = 2 if self.field == 'second' else 1
        self.sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
        self.intloss = self.cls == 'NeuralODE' and self.field in ('mlp', 'seq', 'depthcat') and rng.random() < .25
        self.solver = rng.choice(['zero', 'backward', 'parareal'] if ms else ['euler', 'rk4', 'midpoint', 'dopri5', 'tsit5', 'rk-4', 'module'])
        if self.sens == 'interpolated_adjoint': self.interp = '4th' if self.solver == 'dopri5' else None
        else: self.interp = None
        self.solver_adjoint = rng.choice([None, 'dopri5', 'rk4'])
        extras = rng.choice([(), ('unused',), ('frozen',), ('tied',), ('buffer',), ('buffer', 'frozen')])
        if self.field == 'galerkin':
            extras = rng.choice([Fourier, Polynomial, GaussianRBF])(rng.choice([2, 3]), **({}))
        self.sig = extras
        self.free = rng.choice([1, 2, 2, 3, 5, 12]) if self.field in ('wave', 'function') and not ms and rng.random() < .4 else 0
        self.conf = [self.cls, self.field, self.d, self.sens, self.solver, str(self.solver_adjoint), str(self.sig), self.intloss, self.free]

    def build(self):
        d = self.d
        f = field(None, self.field, d, copy.deepcopy(self.sig))
        kw = dict(sensitivity=self.sens)
        if self.cls.startswith('Mul'):
            cls = dict(MultipleShootingLayer=MultipleShootingLayer, MultipleShootingProblem=MultipleShootingProblem)[self.cls]
            return f, cls(f, self.solver, maxiter=2, fine_steps=2, **kw)
        kw.update(solver=str_to_solver('rk4') if self.solver == 'module' else self.solver, atol=1e-4, rtol=1e-4, atol_adjoint=1e-4, rtol_adjoint=1e-4,
                  solver_adjoint=self.solver_adjoint)
        if self.interp: kw['interpolator'] = self.interp
        if self.order != 1: kw['order'] = self.order
        if self.intloss: kw['integral_loss'] = quad
        if self.free: kw['optimizable_params'] = [nn.Parameter(torch.ones(2) if k % 2 == 0 else torch.zeros(())) for k in range(self.free)]
        return f, dict(NeuralODE=NeuralODE, ODEProblem=ODEProblem)[self.cls](f, **kw)

    def ins(self, ctx):
        d, n = self.d, ctx.rng.choice([1, 3])
        x = torch.randn(n, d, generator=ctx.gen)
        extra = (1 if self.field == 'cnf' else 0) + (1 if self.intloss and self.sens == 'autograd' else 0)
        if extra: x = torch.cat([torch.zeros(n, extra), x], 1)
        return x, torch.linspace(0, ctx.rng.choice([.5, 1.]), ctx.rng.choice([3, 5]))

    def sol(self, m, x, ts):
        y = m(x, ts)
        return y[1] if isinstance(y, tuple) else y


def run(spec, m, x, ts, tgrad=False):
    "outputs and gradients of everything"
    x = x.clone().requires_grad_(True)
    ts = ts.clone()
    if tgrad: ts.requires_grad_(True)
    y = spec.sol(m, x, ts)
    ps = [(n, p) for n, p in m.named_parameters() if p.requires_grad]
    if not y.requires_grad: return y.detach(), {}
    gs = torch.autograd.grad((y ** 2 * torch.arange(1., 1 + y.shape[-1])).sum(), [x] + ([ts] if tgrad else []) + [p for _, p in ps], allow_unused=True)
    names = ['x'] + (['t'] if tgrad else []) + [n for n, _ in ps]
    return y.detach().clone(), {n: (torch.zeros(()) if g is None else g.clone()) for n, g in zip(names, gs)}


def same(ctx, A, B, mech, what):
    "executions of two models with equal parameters"
    (a, ga), (b, gb) = A, B
    ctx.check(a.shape == b.shape and bool((a == b).all()), mech, f'{what}: outputs differ' + (f' by {float((a - b).abs().max()):.3g}' if a.shape == b.shape else ''))
    ctx.check(sorted(ga) == sorted(gb), mech, f'{what}: gradients of {sorted(ga)} and {sorted(gb)}')
    for n in ga:
        s = float(gb[n].abs().max()) if gb[n].numel() else 0.
        d = float((ga[n] - gb[n]).abs().max()) if ga[n].numel() else 0.
        ctx.check(d <= 1e-5 * s + 1e-12, mech, f'{what}: gradient of {n} differs by {d:.3g} of {s:.3g}')
    ctx.ev('models compared')


def storages(m): return {p.untyped_storage().data_ptr() for p in list(m.parameters()) + list(m.buffers())}


def values(m): return {n: p.detach().clone() for n, p in m.named_parameters()}


def fresh(spec, m):
    "newly built model with the parameters of m, moved one by one"
    f, q = spec.build()
    src = dict(m.named_parameters(remove_duplicate=False))
    with torch.no_grad():
        for n, p in q.named_parameters(): p.copy_(src[n])
        sb = dict(m.named_buffers())
        for n, b in q.named_buffers(): b.copy_(sb[n])
    return q


def edit(ctx, m):
    rng = ctx.rng
    ps = [p for p in m.parameters() if p.requires_grad]
    if not ps: return
    how = rng.choice(['add', 'data', 'copy', 'one'])
    with torch.no_grad():
        for p in ps if how != 'one' else [rng.choice(ps)]:
            z = .1 * torch.randn(p.shape, generator=ctx.gen)
            if how == 'data': p.data = p.data + z
            elif how == 'copy': p.copy_(p + z)
            else: p += z


def clone(how, spec, m):
    if how == 'deepcopy': return copy.deepcopy(m)
    if how == 'pickle': return pickle.loads(pickle.dumps(m))
    if how == 'save':
        b = io.BytesIO()
        torch.save(m, b)
        b.seek(0)
        return torch.load(b, weights_only=False)
    if how == 'state_dict':
        b = io.BytesIO()
        torch.save(m.state_dict(), b)
        b.seek(0)
        _, q = spec.build()
        q.load_state_dict(torch.load(b, weights_only=True))
        return q


CLONES = ['deepcopy', 'pickle', 'save', 'state_dict']


def params(ctx, spec, f, m):
    want = list(f.parameters()) if isinstance(f, nn.Module) else []
    got = list(m.parameters())
    ids = [id(p) for p in got]
    ctx.check(len(set(ids)) == len(ids), 'duplicate_parameter', 'a parameter is listed twice')
    if want and not spec.free:
        ctx.check(set(ids) == {id(p) for p in want}, 'parameter_list', f'field has {len(want)} parameters, model lists {[(n, tuple(p.shape)) for n, p in m.named_parameters()]}')
    elif spec.free and not want:
        ctx.check(len(got) == spec.free, 'parameter_list', f'{spec.free} free parameters given, model lists {len(got)}')
    elif not spec.free:
        ctx.check(sum(p.numel() for p in got) <= 1, 'parameter_list', 'parameters appear from nowhere')
    ctx.ev('models compared')


@family(quick=160, thorough=2500)
def history(ctx):
    rng = ctx.rng
    spec = Spec(ctx)
    torch.manual_seed(rng.randrange(2 ** 31))
    x, ts = spec.ins(ctx)
    tgrad = rng.random() < .4 and spec.sens in ('autograd', 'adjoint')
    ops = [rng.choice(['forward', 'backward', 'sgd', 'adam', 'edit', 'load'] + CLONES) for _ in range(rng.randint(2, 6))] + [rng.choice(CLONES + ['edit', 'sgd'])]
    ctx.desc(conf=spec.conf, ops=ops, tgrad=tgrad)
    f, m = spec.build()
    params(ctx, spec, f, m)
    opt = {}
    for op in ops:
        if op == 'forward': spec.sol(m, x, ts)
        elif op == 'backward': run(spec, m, x, ts, tgrad)
        elif op in ('sgd', 'adam'):
            ps = [p for p in m.parameters() if p.requires_grad]
            before = values(m)
            if op not in opt: opt[op] = (torch.optim.SGD(ps, lr=.01) if op == 'sgd' else torch.optim.Adam(ps, lr=.01))
            opt[op].zero_grad()
            y = spec.sol(m, x, ts)
            if y.requires_grad:
                y.pow(2).sum().backward()
                want = {n: p.grad is not None and bool((p.grad != 0).any()) for n, p in m.named_parameters()}
                opt[op].step()
                for n, p in m.named_parameters():
                    if want[n]: ctx.check(not bool((p == before[n]).all()), 'step_lost', f'{op} step left {n} unchanged')
        elif op == 'edit': edit(ctx, m)
        elif op == 'load':
            sd = {k: (v + .1 * torch.randn(v.shape, generator=ctx.gen) if v.is_floating_point() and 'tableau' not in k else v) for k, v in m.state_dict().items()}
            if 'tied' not in spec.sig if isinstance(spec.sig, tuple) else True: m.load_state_dict(sd)
        elif op in CLONES:
            c = clone(op, spec, m)
            A, B = run(spec, m, x, ts, tgrad), run(spec, c, x, ts, tgrad)
            same(ctx, B, A, 'copy_differs', op)
            ctx.check(not (storages(c) & storages(m)), 'shared', f'{op}: copy and original share parameters')
            ctx.check([n for n, _ in c.named_parameters()] == [n for n, _ in m.named_parameters()], 'parameter_list', f'{op}: parameter names changed')
            ctx.check([p.requires_grad for p in c.parameters()] == [p.requires_grad for p in m.parameters()] or op == 'state_dict', 'parameter_list', f'{op}: requires_grad changed')
            v = values(m)
            edit(ctx, c)
            same(ctx, run(spec, m, x, ts, tgrad), A, 'copy_writes_through', f'{op}: original after an edit of the copy')
            ctx.check(all(bool((p == v[n]).all()) for n, p in m.named_parameters()), 'copy_writes_through', f'{op}: parameters of the original changed')
            B = run(spec, c, x, ts, tgrad)
            edit(ctx, m)
            same(ctx, run(spec, c, x, ts, tgrad), B, 'copy_writes_through', f'{op}: copy after an edit of the original')
            same(ctx, B, run(spec, fresh(spec, c), x, ts, tgrad), 'edit_lost', f'{op}: edited copy against a fresh model')
            if rng.random() < .5: m, opt = c, {}
        same(ctx, run(spec, m, x, ts, tgrad), run(spec, fresh(spec, m), x, ts, tgrad), 'edit_lost', f'after {op}: against a fresh model with the same parameters')
    ctx.key(spec.cls, spec.field, spec.sens, spec.solver, spec.intloss, spec.free, tgrad, *sorted(set(ops)))


@family(quick=60, thorough=600)
def absolute(ctx):
    "after any history the solution is that of the current field"
    rng = ctx.rng
    torch.manual_seed(rng.randrange(2 ** 31))
    d, sens, cls = rng.randint(2, 4), rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']), rng.choice([NeuralODE, ODEProblem])
    f = Mlp(d, rng.choice([(), ('unused',), ('buffer',)])).double()
    m = cls(f, solver=rng.choice(['rk4', 'rk-4', 'dopri5', 'tsit5']), sensitivity=sens, atol=1e-8, rtol=1e-8, atol_adjoint=1e-8, rtol_adjoint=1e-8)
    ts = torch.linspace(0, 1, 41).double()
    hist = []
    opt = torch.optim.SGD([p for p in f.parameters()], lr=.05)
    ctx.desc(d=d, sens=sens, cls=cls.__name__)
    for i in range(rng.randint(1, 4)):
        h = rng.choice(['fields_edit', 'model_edit', 'sgd', 'swap', 'clone'])
        hist.append(h)
        if h == 'fields_edit':
            with torch.no_grad(): f.l1.weight += .3 * torch.randn_like(f.l1.weight)
        elif h == 'model_edit': edit(ctx, m)
        elif h == 'sgd':
            opt.zero_grad()
            m(torch.randn(2, d).double(), ts)[1].pow(2).mean().backward()
            opt.step()
        elif h == 'swap': f.s.data = torch.tensor(rng.uniform(.3, 1.2)).double()
        elif h == 'clone':
            m = copy.deepcopy(m)
            f = [q for q in m.modules() if isinstance(q, Mlp)][0]
            opt = torch.optim.SGD([p for p in f.parameters()], lr=.05)
        x = torch.randn(2, d, dtype=torch.float64, requires_grad=True)
        y = m(x, ts)[1]
        z = ref.fine(lambda t, u: f(t, u), x, ts, 4)
        ctx.close(y, z, 1e-5, 'stale', f'{hist}: solution of the current field')
        w = torch.randn(y.shape, dtype=torch.float64)
        ps = [x] + [p for n, p in f.named_parameters() if n != 'a']
        for n, a, b in zip(['x'] + [n for n, _ in f.named_parameters() if n != 'a'], torch.autograd.grad((w * y).sum(), ps), torch.autograd.grad((w * z).sum(), ps)):
            ctx.close(a, b, 1e-4, 'stale', f'{hist}: gradient of {n}')
    ctx.key(cls.__name__, sens, *hist)


@family(quick=50, thorough=500)
def chained(ctx):
    "Neural ODEs inside larger models: copied after training steps"
    rng = ctx.rng
    torch.manual_seed(rng.randrange(2 ** 31))
    d = rng.randint(2, 3)
    mk = lambda: rng.choice([lambda: nn.Sequential(DepthCat(1), nn.Linear(d + 1, d)), lambda: nn.Sequential(DataControl(), nn.Linear(2 * d, d)), lambda: nn.Sequential(nn.Linear(d, d), nn.Tanh())])()
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    solver = rng.choice(['rk4', 'dopri5', 'tsit5', 'euler'])
    M = nn.Sequential(nn.Linear(2, d), NeuralODE(mk(), solver=solver, sensitivity=sens, return_t_eval=False), )
    head = nn.Linear(d, 1)
    n2 = rng.random() < .5
    second = NeuralODE(mk(), solver=solver, sensitivity=sens, return_t_eval=False) if n2 else nn.Identity()
    class_all = nn.ModuleList([M, second, head])
    ctx.desc(d=d, sens=sens, solver=solver, two=n2)

    def run_all(L, x):
        z = L[0](x)[-1]
        z = L[1](z)
        if z.dim() == 3: z = z[-1]
        return L[2](z)
    opt = torch.optim.Adam(class_all.parameters(), lr=.01)
    for i in range(rng.randint(1, 3)):
        x = torch.randn(4, 2)
        opt.zero_grad()
        run_all(class_all, x).pow(2).mean().backward()
        ctx.check(all(p.grad is not None for p in class_all.parameters()), 'parameter_list', 'a parameter of the chain gets no gradient')
        opt.step()
        how = rng.choice(['deepcopy', 'pickle', 'save'])
        c = clone(how, None, class_all)
        x = torch.randn(3, 2)
        y = run_all(class_all, x).detach()
        ctx.check(bool((run_all(c, x) == y).all()), 'copy_differs', f'{how} of a chain after {i + 1} steps')
        ctx.check(not (storages(c) & storages(class_all)), 'shared', f'{how} shares parameters')
        with torch.no_grad():
            for p in c.parameters(): p += 1.
        ctx.check(bool((run_all(class_all, x) == y).all()), 'copy_writes_through', f'{how}: chain after an edit of its copy')
        ctx.ev('models compared')
    ctx.key(sens, solver, n2, d)


def drift(t, x): return -x


class Dr(nn.Module):
    def __init__(self, d):
        super().__init__()
        self.l = nn.Linear(d, d)
    def forward(self, t, x): return torch.tanh(self.l(x)) - t * x


@family(quick=40, thorough=300)
def sde(ctx):
    rng = ctx.rng
    torch.manual_seed(rng.randrange(2 ** 31))
    d = rng.randint(1, 3)
    f, g = Dr(d), Dr(d)
    ts = torch.linspace(0, 1, 5)
    x = torch.randn(2, d)
    bm = torchsde.BrownianInterval(t0=0., t1=1., size=(2, d), entropy=rng.randrange(1000))
    solver = rng.choice(['euler', 'milstein_ito'])
    m = NeuralSDE(f, g, solver=solver, return_t_eval=False)
    m.bm = bm
    ctx.desc(d=d, solver=solver)
    got, want = {id(p) for p in m.parameters()}, {id(p) for q in (f, g) for p in q.parameters()}
    ctx.check(got == want and len(list(m.parameters())) == len(want), 'parameter_list', 'parameters of drift and diffusion')
    for i in range(2):
        y = m(x, ts)
        y.pow(2).sum().backward()
        with torch.no_grad():
            for p in m.parameters(): p -= .01 * p.grad
        y = m(x, ts).detach()
        m.bm = None
        c = copy.deepcopy(m)
        m.bm = c.bm = bm
        ctx.check(bool((c(x, ts) == y).all()), 'copy_differs', 'copy of a Neural SDE on the same path')
        with torch.no_grad():
            for p in c.parameters(): p += .3
        ctx.check(bool((m(x, ts) == y).all()), 'copy_writes_through', 'Neural SDE after an edit of its copy')
        ctx.check(not bool((c(x, ts) == y).all()), 'edit_lost', 'edited copy of a Neural SDE')
        ctx.ev('models compared')
    ctx.key(d, solver)


class Law:
    "a function of parameters given apart"
    def __init__(self, d, n, seed):
        g = torch.Generator().manual_seed(seed)
        self.ps = [nn.Parameter(.4 * torch.randn([(d, d), (d,), ()][(k + seed) % 3], generator=g)) for k in range(n)]

    def __call__(self, t, x):
        for p in self.ps: x = torch.tanh(x @ p + .1 * t if p.dim() == 2 else x * p + .3)
        return x


@family(quick=50, thorough=800)
def free(ctx):
    "parameters given apart from the field: all listed once whatever container, shapes and frozen ones among them; trained, unfrozen, saved and reloaded"
    rng = ctx.rng
    d, n, seed = rng.randint(1, 4), rng.choice([1, 2, 3, 5, 12]), rng.randrange(10 ** 6)
    cls, sens = rng.choice([NeuralODE, ODEProblem]), rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    solver = rng.choice(['rk4', 'dopri5', 'tsit5', 'euler'])
    frozen = set(rng.sample(range(n), rng.choice([0, 0, 1, n // 2]) if n > 1 else 0))
    cont = rng.choice(['list', 'tuple', 'generator', 'values', 'ParameterList'])

    def build():
        f = Law(d, n, seed)
        for k in frozen: f.ps[k].requires_grad_(False)
        ps = dict(list=lambda: list(f.ps), tuple=lambda: tuple(f.ps), generator=lambda: (p for p in f.ps), values=lambda: {str(k): p for k, p in enumerate(f.ps)}.values(), ParameterList=lambda: nn.ParameterList(f.ps))[cont]()
        return f, cls(lambda t, x: f(t, x), solver, sensitivity=sens, atol=1e-6, rtol=1e-6, atol_adjoint=1e-6, rtol_adjoint=1e-6, optimizable_params=ps)
    f, m = build()
    ctx.desc(cls=cls.__name__, d=d, n=n, frozen=len(frozen), sensitivity=sens, solver=solver, container=cont)
    ids = [id(p) for p in m.parameters()]
    ctx.check(len(ids) == n and set(ids) == {id(p) for p in f.ps}, 'parameter_list', f'{n} parameters given, {len(ids)} listed')
    x, ts = torch.randn(2, d, generator=ctx.gen), torch.linspace(0, 1, 31 if sens == 'interpolated_adjoint' else 4)

    def grads():
        a = x.clone().requires_grad_(True)
        y = m(a, ts)[1]
        ps = [a] + [p for p in f.ps if p.requires_grad]
        return y, torch.autograd.grad((y ** 2).sum(), ps), ps

    def expected():
        a = x.clone().double().requires_grad_(True)
        q = [p.detach().double().requires_grad_(p.requires_grad) for p in f.ps]
        h = Law(d, n, seed)
        h.ps = q
        z = (ref.fine(h, a, ts.double(), 4) if solver in ('dopri5', 'tsit5') else ref.compose(ref.STEPS[solver], h, a, ts.double())) if sens == 'autograd' or solver in ('dopri5', 'tsit5') else None
        if z is None: return None, None
        return z, torch.autograd.grad((z ** 2).sum(), [a] + [p for p in q if p.requires_grad])
    for i in range(rng.randint(1, 3)):
        y, gs, ps = grads()
        z, hs = expected()
        if z is not None:
            ctx.close(y.double(), z, 1e-4, 'stale', 'solution of the current parameters')
            sc = max(float(h.abs().max()) for h in hs)
            for k, (a, b) in enumerate(zip(gs, hs)): ctx.close(a.double(), b, 3e-3, 'stale', f'gradient {k}', scale=sc)
        h = rng.choice(['step', 'unfreeze', 'edit', 'transfer'])
        with torch.no_grad():
            if h == 'step':
                for p, g in zip(ps[1:], gs[1:]): p -= .05 * g
            if h == 'unfreeze':
                for p in f.ps: p.requires_grad_(True)
                frozen.clear()
            if h == 'edit':
                for p in m.parameters(): p.add_(.1)
            if h == 'transfer':
                f2, m2 = build()
                for p in f2.ps: p.mul_(0)
                m2.load_state_dict(m.state_dict())
                ctx.check(all(torch.equal(p, q) for p, q in zip(f.ps, f2.ps)), 'copy_differs', 'parameters given apart after a state-dict transfer')
                ctx.check(torch.equal(m2(x, ts)[1], m(x, ts)[1]), 'copy_differs', 'outputs after a state-dict transfer')
        ctx.ev('models compared')
    ctx.key(cls.__name__, d, n, len(frozen), sens, solver, cont)
