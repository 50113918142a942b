"""C36: names of methods mean those methods, requests outside what is implemented are refused."""
import copy
import torch
import torch.nn as nn
from lib import ref
from lib.core import family
from lib.fields import make_field, state, grid, many, wide
from torchdyn.numerics import odeint, sdeint, odeint_symplectic, odeint_mshooting
from torchdyn.numerics.solvers.ode import (str_to_solver, str_to_ms_solver, AsynchronousLeapfrog, Euler, Midpoint, RungeKutta4, DormandPrince45, Tsitouras45, ImplicitEuler,
                                            MSZero, MSBackward, ParallelImplicitEuler, MSForward)
from torchdyn.numerics.solvers.sde import EulerMaruyama, EulerHeun, MilesteinIto, MilesteinStratonovich
from torchdyn.numerics.solvers.templates import DiffEqSolver, MultipleShootingDiffeqSolver
from torchdyn.numerics.solvers.root import root_find
from torchdyn.core import NeuralODE, ODEProblem, NeuralSDE, MultipleShootingProblem, MultipleShootingLayer
from torchdyn.core.defunc import SDEFunc
from torchdyn.models import CNF, hutch_trace

PROPERTY = 'C36'
RULE = ("random requests, each made unsupported in one respect (unknown or misspelt name of a solver, interpolator, sensitivity, root method; calculus or noise not matching the scheme; time grids per sample; save_at off the "
        "grid; missing order, noise or stepping rule) while everything else is random and valid: the call must raise, leave its arguments alone and the next valid call unchanged; every accepted name against the method "
        "it denotes, observed through its results; key = kind of request, its details")
ASSUMPTIONS = ['any exception counts as a refusal']


def misspell(rng, names):
    "a name close to a valid one that is none"
    while True:
        s = rng.choice(names)
        k = rng.choice(['case', 'drop', 'add', 'swap', 'empty', 'other'])
        if k == 'case': s = s.swapcase()
        elif k == 'drop':
            i = rng.randrange(len(s))
            s = s[:i] + s[i + 1:]
        elif k == 'add': s += rng.choice(['_', '2', ' ', 's'])
        elif k == 'swap' and len(s) > 1: s = s[1] + s[0] + s[2:]
        elif k == 'empty': s = ''
        else: s = rng.choice(['bdf', 'lsoda', 'heun', 'adams', 'radau', 'foo'])
        if s not in names: return s


ODE = ['euler', 'midpoint', 'rk4', 'rk-4', 'RungeKutta4', 'dopri5', 'DormandPrince45', 'DormandPrince5', 'tsit5', 'Tsitouras45', 'Tsitouras5', 'ieuler', 'implicit_euler', 'alf', 'AsynchronousLeapfrog']
MS = ['mszero', 'zero', 'parareal', 'msbackward', 'backward', 'discrete-adjoint', 'ieuler', 'parallel-implicit-euler']
SDE = ['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich']
SENS = ['autograd', 'adjoint', 'interpolated_adjoint']
ROOTS = ['newton', 'chord', 'broyden', 'broyden_fast']
SEARCH = ['none', 'naive', 'armijo']


class Field(nn.Module):
    def __init__(self, f): super().__init__(); self.f, self.p = f, nn.Parameter(torch.zeros(1, dtype=torch.float64))
    def forward(self, t, x): return self.f(t, x) + 0 * self.p.to(x.dtype)


class Order(Field):
    def __init__(self, f, order): super().__init__(f); self.order = order


def request(ctx):
    "-> (label, call that must be refused)"
    rng = ctx.rng
    B, d = many(rng, rng.randint(1, 4)), wide(rng, rng.choice([2, 4]))
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    ts, kind, rev = grid(ctx, n=rng.randint(2, 8))
    up = ts if not rev else ts.flip(0)
    f = make_field(ctx, d, kind=rng.choice(['lin', 'tanh', 'sin']))
    net = lambda i=d, o=d: nn.Linear(i, o).double()
    bm = lambda a, b: torch.zeros_like(x)
    sde = lambda n, s: SDEFunc(Field(f), lambda t, x: .1 * x, noise_type=n, sde_type=s)
    args = dict(x=x, ts=ts)
    other = lambda s: 'ito' if s in ('eulerHeun', 'milstein_stratonovich') else 'stratonovich'
    right = lambda s: 'stratonovich' if s in ('eulerHeun', 'milstein_stratonovich') else 'ito'
    off = float(ts[0]) + rng.choice([.31, .5, .77]) * float(ts[1] - ts[0])
    k = rng.choice(['ode_name', 'ode_name', 'per_sample', 'interp', 'ms_name', 'sensitivity', 'sensitivity', 'wrapper_solver', 'adjoint_solver', 'nsde_order', 'nsde_name', 'nsde_sens', 'nsde_backward', 'calculus', 'calculus', 'noise',
                    'sde_name', 'sde_per_sample', 'sde_untyped', 'save_at', 'save_at', 'root', 'search', 'sdefunc', 'template', 'ms_template', 'sym_order', 'alf_order', 'sym_per_sample', 'hutch', 'ms_sens', 'step'])
    detail, call = '', None
    two = torch.stack([ts] * B)
    if k == 'ode_name':
        detail = misspell(rng, ODE)
        call = rng.choice([lambda: odeint(f, x, ts, detail), lambda: str_to_solver(detail), lambda: odeint_symplectic(Order(f, 1), x, ts, detail)])
    elif k == 'per_sample':
        detail = rng.choice(['euler', 'rk4', 'dopri5', 'tsit5'])
        call = lambda: odeint(f, x, two, detail)
    elif k == 'interp':
        detail = misspell(rng, ['4th'])
        call = lambda: odeint(f, x, ts, 'dopri5', interpolator=detail)
    elif k == 'ms_name':
        detail = misspell(rng, MS)
        call = rng.choice([lambda: odeint_mshooting(f, x, up, detail), lambda: str_to_ms_solver(detail), lambda: MultipleShootingLayer(Field(f), detail)(x, up)])
    elif k == 'sensitivity':
        detail = misspell(rng, SENS)
        cls, s = rng.choice([NeuralODE, ODEProblem]), rng.choice(['rk4', 'dopri5', 'euler'])
        call = lambda: cls(Field(f), s, sensitivity=detail)(x.clone().requires_grad_(True), ts)
    elif k == 'ms_sens':
        detail = misspell(rng, SENS)
        call = lambda: MultipleShootingProblem(Field(f), 'zero', sensitivity=detail)(x.clone().requires_grad_(True), up)
    elif k in ('wrapper_solver', 'adjoint_solver'):
        detail = misspell(rng, ODE)
        kw = dict(solver='rk4', solver_adjoint=detail) if k == 'adjoint_solver' else dict(solver=detail)
        cls = rng.choice([NeuralODE, ODEProblem])
        call = lambda: cls(Field(f), sensitivity='adjoint', **kw)(x, ts)
    elif k == 'nsde_order':
        detail = rng.choice([0, 2, 3])
        call = lambda: NeuralSDE(net(), net(), order=detail)
    elif k == 'nsde_name':
        detail = misspell(rng, SDE)
        call = lambda: NeuralSDE(net(), net(), solver=detail)(x, up)
    elif k == 'nsde_sens':
        detail = rng.choice(['adjoint', 'interpolated_adjoint', misspell(rng, SENS)])
        call = lambda: NeuralSDE(net(), net(), sensitivity=detail)(x, up)
    elif k == 'nsde_backward': call = lambda: NeuralSDE(net(), net()).backward_trajectory(x, up)
    elif k == 'calculus':
        detail = rng.choice(SDE)
        how = rng.choice(['func', 'neural', 'class'])
        if how == 'neural': call = lambda: NeuralSDE(net(), net(), solver=detail, sde_type=other(detail))(x, up)
        elif how == 'func': call = lambda: sdeint(sde('diagonal', other(detail)), x, up, detail, bm)
        else:
            C = dict(zip(SDE, [EulerMaruyama, EulerHeun, MilesteinIto, MilesteinStratonovich]))[detail]
            call = lambda: C(sde('diagonal', other(detail)), bm)
    elif k == 'noise':
        s = rng.choice(SDE)
        detail = misspell(rng, ['general', 'diagonal', 'scalar', 'additive'])
        call = lambda: sdeint(sde(detail, right(s)), x, up, s, bm)
    elif k == 'sde_name':
        detail = misspell(rng, SDE)
        call = lambda: sdeint(sde('diagonal', 'ito'), x, up, detail, bm)
    elif k == 'sde_per_sample': call = lambda: sdeint(sde('diagonal', 'ito'), x, torch.stack([up] * B), 'euler', bm)
    elif k == 'sde_untyped':
        class S: pass
        s = S()
        s.f, s.g = (lambda t, x: -x), (lambda t, x: .1 * x)
        if rng.random() < .5: s.noise_type = 'diagonal'
        call = lambda: sdeint(s, x, up, 'euler', bm)
    elif k == 'save_at':
        good = [float(v) for v in ts if rng.random() < .5]
        sa = good + [off]
        rng.shuffle(sa)
        form = rng.choice([list, torch.tensor])
        how = rng.choice(['odeint', 'NeuralODE', 'adjoint', 'sde', 'symplectic'])
        detail = how
        s = rng.choice(['euler', 'midpoint', 'rk4'])
        sa = sa if form is list else torch.tensor(sa, dtype=torch.float64)
        if how == 'odeint': call = lambda: odeint(f, x, ts, s, save_at=sa)
        elif how == 'sde': call = (lambda: sdeint(sde('diagonal', 'ito'), x, up, 'euler', bm, save_at=sa))
        elif how == 'symplectic': call = lambda: odeint_symplectic(Order(lambda t, p: -p, 1), x, ts, AsynchronousLeapfrog(dtype=torch.float64), save_at=sa)
        else: call = lambda: NeuralODE(Field(f), s, sensitivity='autograd' if how == 'NeuralODE' else 'adjoint')(x, ts, save_at=sa)
    elif k in ('root', 'search'):
        m, s = rng.choice(['broyden', 'broyden_fast']), rng.choice(SEARCH)
        detail = misspell(rng, ROOTS if k == 'root' else SEARCH)
        call = lambda: root_find(lambda z: torch.tanh(z), x, alpha=1., method=detail if k == 'root' else m, search_method=detail if k == 'search' else s)
    elif k == 'step': call = lambda: DiffEqSolver(order=1).step(f, x, ts[0], ts[1])
    elif k == 'sdefunc': call = lambda: sde('diagonal', 'ito')(ts[0], x)
    elif k == 'template': call = lambda: odeint(f, x, ts, DiffEqSolver(order=1))
    elif k == 'ms_template': call = lambda: odeint_mshooting(f, x, up, MultipleShootingDiffeqSolver('rk4', 'rk4'))
    elif k == 'sym_order': call = lambda: odeint_symplectic(Field(f), x, ts, rng.choice(['alf', AsynchronousLeapfrog(dtype=torch.float64)]))
    elif k == 'alf_order': call = lambda: odeint_symplectic(Order(f, 2), x, ts, AsynchronousLeapfrog(dtype=torch.float64))
    elif k == 'sym_per_sample': call = lambda: odeint_symplectic(Order(f, 1), x, two, AsynchronousLeapfrog(dtype=torch.float64))
    elif k == 'hutch': call = lambda: NeuralODE(CNF(net(), trace_estimator=hutch_trace), 'rk4')(torch.cat([x[:, :1], x], 1), ts)
    return k, detail, call, args, f


@family(quick=700, thorough=20000)
def refused(ctx):
    k, detail, call, args, f = request(ctx)
    ctx.desc(request=k, detail=detail)
    keep = {n: v.clone() for n, v in args.items()}
    g = torch.is_grad_enabled()
    before = odeint(f, args['x'], args['ts'], 'rk4')[1]
    out = None
    try: out = call()
    except Exception as e: err = type(e).__name__
    else: ctx.fail('accepted', f"{k} {detail!r} was accepted and returned {str(out)[:80]!r}", stop=True)
    for n in args: ctx.check(torch.equal(args[n], keep[n]), 'argument', f"{n} was modified by the refused request")
    ctx.check(torch.is_grad_enabled() == g, 'state', 'gradient mode left changed')
    ctx.check(torch.equal(odeint(f, args['x'], args['ts'], 'rk4')[1], before), 'state', 'a valid solve after the refusal differs')
    ctx.ev('refused')
    ctx.key(k, detail, err)


NAMES = {n: m for m, ns in dict(euler=['euler'], midpoint=['midpoint'], rk4=['rk4', 'rk-4', 'RungeKutta4'], dopri5=['dopri5', 'DormandPrince45', 'DormandPrince5'], tsit5=['tsit5', 'Tsitouras45', 'Tsitouras5'],
                                ieuler=['ieuler', 'implicit_euler'], alf=['alf', 'AsynchronousLeapfrog']).items() for n in ns}
CLS = dict(euler=Euler, midpoint=Midpoint, rk4=RungeKutta4, dopri5=DormandPrince45, tsit5=Tsitouras45, ieuler=ImplicitEuler, alf=AsynchronousLeapfrog)


@family(quick=150, thorough=3000)
def names(ctx):
    "every accepted name solves by the method it denotes, with the precision of the state"
    rng = ctx.rng
    name = rng.choice(list(NAMES))
    m = NAMES[name]
    x = torch.randn(rng.randint(1, 3), 2, generator=ctx.gen, dtype=torch.float64)
    dtype = rng.choice([torch.float64, torch.float32]) if m not in ('ieuler',) else torch.float64
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'offset']), n=rng.randint(2, 5), T=rng.uniform(.3, 1), dtype=dtype)
    f = make_field(ctx, 2 if m != 'alf' else 1, dtype=dtype, kind=rng.choice(['lin', 'tanh', 'sin', 'mix']))
    x = x.to(dtype)
    ctx.desc(name=name, method=m, dtype=dtype, grid=kind, n=len(ts), reverse=rev)
    ctx.check(isinstance(str_to_solver(name, dtype), CLS[m]), 'class', f"{name!r} denotes {type(str_to_solver(name, dtype)).__name__}")
    tol = 1e-9 if dtype == torch.float64 else 2e-5
    if m == 'alf':
        class F(nn.Module):
            order = 1
            def forward(self, t, x): return f(t, x)
        y = odeint_symplectic(F(), x, ts, name)[1]
        r = odeint_symplectic(F(), x, ts, AsynchronousLeapfrog(dtype=dtype))[1]
    else:
        y = odeint(f, x, ts, name, **(dict(atol=1e-5, rtol=1e-5) if m in ('dopri5', 'tsit5') else {}))[1]
        if m in ('dopri5', 'tsit5'): r = odeint(f, x, ts, CLS[m](dtype), atol=1e-5, rtol=1e-5)[1]
        elif m == 'ieuler': r = odeint(f, x, ts, ImplicitEuler())[1]
        else: r = ref.compose(ref.STEPS[m], f, x, ts)
    ctx.check(y.dtype == dtype, 'dtype', f"{y.dtype} for a state in {dtype}")
    ctx.close(y, r, tol, 'method', f"{name!r} against the method itself")
    ctx.ev('named')
    ctx.key(name, str(dtype), kind, rev)


MSN = dict(mszero=MSZero, zero=MSZero, parareal=MSZero, msbackward=MSBackward, backward=MSBackward, ieuler=ParallelImplicitEuler)
MSN.update({'discrete-adjoint': MSBackward, 'parallel-implicit-euler': ParallelImplicitEuler})


def secant(g, x, alpha, iters, name):
    "Broyden's two updates of the inverse Jacobian, sample by sample"
    out, wild = [], 0.
    for z in x:
        h = lambda z: g(z[None])[0]
        J = torch.autograd.functional.jacobian(h, z).pinverse()
        gz = h(z)
        for _ in range(iters):
            z1 = z - alpha * (J @ gz)
            g1 = h(z1)
            s, y = z1 - z, g1 - gz
            r = s - J @ y
            J = J + (torch.outer(r, s @ J) / (s @ J @ y + 1e-6) if name == 'broyden' else torch.outer(r, y) / (y @ y + 1e-6))
            z, gz, wild = z1, g1, max(wild, float(J.abs().max()), float(z1.abs().max()))
        out.append(z)
    return torch.stack(out), wild


@family(quick=120, thorough=2000)
def other_names(ctx):
    "names of multiple shooting, stochastic and root-finding methods"
    rng = ctx.rng
    k = rng.choice(['ms', 'sde', 'root'])
    if k == 'ms':
        n = rng.choice(MS)
        ctx.check(isinstance(str_to_ms_solver(n), MSN[n]), 'class', f"{n!r} denotes {type(str_to_ms_solver(n)).__name__}")
        if MSN[n] is not ParallelImplicitEuler:
            f = make_field(ctx, 2, kind='tanhauto')
            x = torch.randn(2, 2, generator=ctx.gen, dtype=torch.float64)
            ts = torch.linspace(0, 1, 4).double()
            ctx.close(odeint_mshooting(f, x, ts, n, fine_steps=3, maxiter=1)[1], odeint_mshooting(f, x, ts, MSN[n](), fine_steps=3, maxiter=1)[1], 1e-12, 'method', n)
    elif k == 'sde':
        n = rng.choice(SDE)
        C = dict(zip(SDE, [EulerMaruyama, EulerHeun, MilesteinIto, MilesteinStratonovich]))[n]
        st = 'stratonovich' if n in ('eulerHeun', 'milstein_stratonovich') else 'ito'
        x = torch.randn(2, 2, generator=ctx.gen, dtype=torch.float64)
        ts, kind, _ = grid(ctx, kind='uneven', reverse=False)
        a = torch.randn(2, 2, generator=ctx.gen, dtype=torch.float64)
        bm = lambda s, t: a * (t - s) + torch.sin(9 * t) - torch.sin(9 * s)
        s = SDEFunc(lambda t, x: -x, lambda t, x: torch.sin(x + t), noise_type=rng.choice(['general', 'diagonal', 'scalar', 'additive']), sde_type=st)
        ctx.close(sdeint(s, x, ts, n, bm)[1], sdeint(s, x, ts, C(s, bm, torch.float64), bm)[1], 1e-12, 'method', n)
    else:
        n = rng.choice(['broyden', 'broyden_fast'])
        d, it, al = rng.randint(2, 4), rng.randint(1, 6), rng.uniform(.2, 1.)
        x = torch.randn(rng.randint(1, 4), d, generator=ctx.gen, dtype=torch.float64)
        A = torch.eye(d, dtype=torch.float64) + .4 * torch.randn(d, d, generator=ctx.gen, dtype=torch.float64) / d ** .5
        g = lambda z: z @ A.T + .6 * torch.tanh(z * 2) - 1
        z, log = root_find(g, x.clone(), alpha=al, method=n, search_method='none', f_tol=-1, f_rtol=1, x_tol=-1, x_rtol=1, maxiters=it)
        e, wild = secant(g, x, al, it, n)
        if wild < 1e3: ctx.close(z, e, 1e-8, 'method', f"{n}: iterate {it}")
    ctx.desc(kind=k, name=n)
    ctx.ev('named')
    ctx.key(k, n)
