"""C16: higher-order Neural ODEs."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid
from lib import ref
from lib.grads import make_net, loss_of, grads, trainable
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE

PROPERTY = 'C16'
RULE = ("random (order 2-5, block width, batch, trailing dimensions, time-dependent field, solver, sensitivity, grid, direction) against the explicitly written companion system: rows, gradients, "
        "evaluation times and states seen by the field; key = order, width, batch, trailing dims, field, solver, sensitivity, grid, direction, loss")
ASSUMPTIONS = ['adaptive: same tolerance in both, compared to a fine reference for gradients']


class Last(nn.Module):
    "highest derivative from the full state and time; blocks along dimension 1"
    def __init__(self, net, order, log=None):
        super().__init__()
        self.net, self.order, self.log = net, order, log
    def forward(self, t, x, args={}):
        if self.log is not None: self.log.append((float(t), x.detach().clone()))
        y = self.net(t, x.movedim(1, -1)).movedim(-1, 1)
        return y[:, -(x.shape[1] // self.order):]


def companion(vf, n):
    def f(t, x):
        bl = list(x.chunk(n, 1))
        return torch.cat(bl[1:] + [vf(t, x)], 1)
    return f


@family(quick=300, thorough=6000)
def values(ctx):
    rng = ctx.rng
    n, k, b = rng.choice([2, 2, 3, 4, 5]), rng.randint(1, 3), rng.randint(1, 4)
    tail = rng.choice([(), (), (), (2,), (2, 3)])
    net = make_net(ctx, n * k, kind=rng.choice(['mlp', 'bilinear', 'auto', 'noparam', 'xfree']))
    log = []
    vf, plain = Last(net, n, log), Last(net, n)
    ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter', 'clustered']))
    s, sens = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5']), rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    x = torch.randn(b, n * k, *tail, generator=ctx.gen, dtype=torch.float64)
    tol = 10. ** -rng.uniform(4, 8)
    ctx.desc(order=n, width=k, batch=b, tail=tail, field=net.kind, solver=s, sensitivity=sens, grid=kind, reverse=rev)
    node = NeuralODE(vf, str_to_solver(s, torch.float64), order=n, sensitivity=sens, atol=tol, rtol=tol)
    f = companion(plain, n)
    times, states = [], []
    def probe(t, y):
        times.append(float(t)), states.append(y.clone())
        return f(t, y)
    with torch.no_grad():
        _, exp = odeint(probe, x, ts, str_to_solver(s, torch.float64), atol=tol, rtol=tol)
        te, out = node(x, ts)
        ctx.close(out, exp, 1e-11, 'values', 'rows differ from the companion system')
        ctx.check(torch.equal(te, ts), 'times', 'times')
        ctx.check(len(log) == len(times), 'evaluations', f"{len(log)} evaluations of the field, {len(times)} of the companion system")
        if len(log) == len(times):
            ctx.check(max(abs(a - t) for (a, _), t in zip(log, times)) < 1e-9, 'time', 'times seen by the field')
            ctx.close(torch.stack([y for _, y in log]), torch.stack(states), 1e-9, 'state', 'states seen by the field')
            ctx.ev('field_calls', len(log))
        if s not in ('dopri5', 'tsit5'):
            ctx.close(out, ref.compose(ref.STEPS[s], f, x, ts), 1e-10, 'textbook', 'rows differ from the textbook rule')
        # derivative at single points
        t = torch.tensor(rng.uniform(-2, 2), dtype=torch.float64)
        ctx.close(node.vf(t, x), f(t, x), 1e-12, 'derivative', 'derivative of the state')
        ctx.close(node.trajectory(x, ts), exp, 1e-11, 'values', 'trajectory()')
    ctx.key(n, k, b, tail, net.kind, s, sens, kind, rev)


@family(quick=110, thorough=2000)
def gradients(ctx):
    rng = ctx.rng
    n, k, b = rng.choice([2, 2, 3, 4]), rng.randint(1, 2), rng.randint(1, 3)
    tail = rng.choice([(), (), (2,)])
    net = make_net(ctx, n * k, kind=rng.choice(['mlp', 'bilinear', 'auto']))
    vf = Last(net, n)
    sens = rng.choice(['autograd', 'adjoint', 'adjoint', 'interpolated_adjoint'])
    if sens == 'interpolated_adjoint':
        T = rng.uniform(.3, .9)
        ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'offset']), n=int(T / .022) + 6, T=T)
    else: ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross']), n=rng.randint(2, 6), T=rng.uniform(.4, 1.6))
    s = rng.choice(['dopri5', 'tsit5'])
    x = torch.randn(b, n * k, *tail, generator=ctx.gen, dtype=torch.float64)
    lname, loss = loss_of(ctx, len(ts), x.shape)
    ctx.desc(order=n, width=k, batch=b, tail=tail, field=net.kind, extras=net.extras, solver=s, sensitivity=sens, grid=kind, reverse=rev, loss=lname)
    tol = 1e-7 if sens == 'interpolated_adjoint' else 1e-8
    node = NeuralODE(vf, str_to_solver(s, torch.float64), order=n, sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
    xa, xb = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    _, sa = node(xa, ts)
    sb = ref.fine(companion(vf, n), xb, ts, 2 if sens == 'interpolated_adjoint' else 30)
    ga, gb = grads(loss(sa), [xa] + trainable(net)), grads(loss(sb), [xb] + trainable(net))
    sc = max(float(v.abs().max()) for v in gb)
    for u, v in zip(ga, gb): ctx.close(u, v, 3e-4 if sens == 'interpolated_adjoint' else 3e-5, sens, 'gradient', scale=sc)
    ctx.ev('gradients', len(ga))
    ctx.key('grad', n, k, b, tail, net.kind, net.extras, s, sens, kind, rev, lname)
