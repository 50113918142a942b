"""C21: continuous normalizing flows."""
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid, wide
from lib import ref
from lib.grads import loss_of, grads
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE
from torchdyn.models import CNF, hutch_trace, autograd_trace
from torchdyn.nn import DepthCat, DataControl

PROPERTY = 'C21'
RULE = ("random (network with or without depth and control layers, width, batch, log-density start, trace estimator, solver, sensitivity, interface, grid, direction); the first column against the trace of "
        "an independently computed Jacobian, against minus the log-determinant of the Jacobian of the whole flow map, and (Hutchinson) against v^T J v of the recorded noise; gradients against autograd "
        "through a fine augmented reference; key = network, width, batch, estimator, solver, sensitivity, grid, direction")
ASSUMPTIONS = ['states [batch, 1 + d]', 'allowance 2e-5 relative at tolerances of 1e-8 (interpolated adjoint 3e-4 on dense grids)']


class Spec:
    "weights, explicit evaluation raw(t, z, u) and the same network made of torchdyn modules"
    def __init__(self, ctx, d, kind=None):
        rng = ctx.rng
        self.d, self.kind = d, kind or rng.choice(['mlp', 'mlp', 'linear', 'square', 'depth', 'depth', 'ctrl', 'both', 'frozen'])
        h = d + 2
        w = d + (self.kind in ('depth', 'both')) + d * (self.kind in ('ctrl', 'both'))
        r = lambda *s: nn.Parameter(torch.randn(*s, generator=ctx.gen, dtype=torch.float64))
        self.W1, self.b1, self.W2, self.b2, self.A = r(h, w), r(h), r(d, h), r(d), r(d, d)
        if self.kind == 'frozen': self.W2.requires_grad_(False)

    def params(self):
        ps = [self.A, self.b2] if self.kind == 'linear' else [self.W1, self.b1, self.W2, self.b2]
        return [p for p in ps if p.requires_grad]

    def raw(self, t, z, u):
        if self.kind == 'linear': return .6 * z @ self.A.T + self.b2
        c = z
        if self.kind in ('depth', 'both'): c = torch.cat([c, torch.as_tensor(t, dtype=z.dtype) * torch.ones_like(z[..., :1])], -1)
        if self.kind in ('ctrl', 'both'): c = torch.cat([c, u], -1)
        hid = c @ self.W1.T / c.shape[-1] ** .5 + self.b1
        hid = torch.sin(hid) ** 2 if self.kind == 'square' else torch.tanh(hid)
        return hid @ self.W2.T / self.d ** .5 + .2 * self.b2

    def build(self):
        s = self
        class Body(nn.Module):
            def __init__(self):
                super().__init__()
                if s.kind == 'linear': self.A, self.b2 = s.A, s.b2
                else: self.W1, self.b1, self.W2, self.b2 = s.W1, s.b1, s.W2, s.b2
            def forward(self, c):
                if s.kind == 'linear': return .6 * c @ self.A.T + self.b2
                hid = c @ self.W1.T / c.shape[-1] ** .5 + self.b1
                hid = torch.sin(hid) ** 2 if s.kind == 'square' else torch.tanh(hid)
                return hid @ self.W2.T / s.d ** .5 + .2 * self.b2
        pre = [DepthCat(1)] if s.kind in ('depth', 'both') else []
        if s.kind in ('ctrl', 'both'): pre = pre + [DataControl()]
        return nn.Sequential(*pre, Body()) if pre else Body()

    def jac(self, t, z, u):
        "closed form of d raw / d z, sample by sample"
        if self.kind == 'linear': return (.6 * self.A).expand(len(z), -1, -1)
        c = z
        if self.kind in ('depth', 'both'): c = torch.cat([c, torch.as_tensor(t, dtype=z.dtype) * torch.ones_like(z[..., :1])], -1)
        if self.kind in ('ctrl', 'both'): c = torch.cat([c, u], -1)
        k = c.shape[-1] ** .5
        hid = c @ self.W1.T / k + self.b1
        dh = torch.sin(2 * hid) if self.kind == 'square' else 1 - torch.tanh(hid) ** 2
        return torch.einsum('oh,bh,hi->boi', self.W2 / self.d ** .5, dh, self.W1[:, :self.d] / k)


def sub(ts, h=.03): return max(1, int(float(ts[-1] - ts[0]).__abs__() / (len(ts) - 1) / h) + 1)


class Dist:
    "noise distribution that records what it hands out"
    def __init__(self, d, gen, kind):
        self.d, self.gen, self.kind, self.log = d, gen, kind, []
    def sample(self, shape=torch.Size()):
        v = torch.randn(*shape, self.d, generator=self.gen, dtype=torch.float64)
        if self.kind == 'rademacher': v = torch.where(v > 0, 1., -1.).to(v)
        self.log.append(v)
        return v


class Aug:
    def __init__(self, spec, u, noise=None): self.s, self.u, self.v = spec, u, noise
    def __call__(self, t, y, args={}):
        z = y[:, 1:]
        J = self.s.jac(t, z, self.u)
        tr = torch.einsum('bi,bij,bj->b', self.v, J, self.v) if self.v is not None else torch.einsum('bii->b', J)
        return torch.cat([-tr[:, None], self.s.raw(t, z, self.u)], 1)


def batch(ctx, d, B=None):
    B = B or ctx.rng.choice([1, 2, 3, 5])
    x = torch.randn(B, d + 1, generator=ctx.gen, dtype=torch.float64)
    if ctx.rng.random() < .4: x[:, 0] = 0
    return x


@family(quick=240, thorough=6000)
def trace(ctx):
    "single evaluations: value of both parts and their derivatives"
    rng = ctx.rng
    d = wide(rng, rng.choice([1, 1, 2, 2, 3, 4, 6]))
    s = Spec(ctx, d, rng.choice(['mlp', 'linear', 'square', 'depth', 'frozen']))
    x = batch(ctx, d)
    hutch = rng.random() < .5
    dist = Dist(d, ctx.gen, rng.choice(['gauss', 'rademacher'])) if hutch else None
    cnf = CNF(s.build(), trace_estimator=hutch_trace if hutch else rng.choice([None, autograd_trace]), noise_dist=dist)
    t = torch.tensor(rng.uniform(-2, 2), dtype=torch.float64)
    if hutch: cnf.noise = dist.sample((len(x),))
    layout = rng.choice(['plain', 'nograd', 'leaf', 'view', 'inside'])
    ctx.desc(net=s.kind, d=d, B=len(x), hutch=hutch, layout=layout)
    exp = Aug(s, x[:, 1:], cnf.noise)
    xx = x.clone()
    if layout in ('leaf', 'inside'): xx.requires_grad_(True)
    if layout == 'view': xx = torch.randn(len(x), 2 * d + 3, dtype=torch.float64)[:, 1:d + 2].copy_(x)
    for m in cnf.modules():
        if hasattr(m, 't'): m.t = t
    if layout == 'nograd':
        with torch.no_grad(): y = cnf(xx)
    else: y = cnf(xx)
    xe = x.clone().requires_grad_(True)
    e = exp(t, xe)
    ctx.close(y[:, 1:], e[:, 1:], 1e-10, 'field', 'the samples do not follow the field')
    ctx.close(y[:, 0], e[:, 0], 1e-10, 'trace', 'first column is not minus the trace')
    ctx.check(tuple(y.shape) == tuple(x.shape) and y.dtype == x.dtype, 'shape', f"{tuple(y.shape)} {y.dtype}")
    # v -> v^T J v with unit vectors sums to the trace
    if hutch:
        tot = 0.
        for i in range(d):
            cnf.noise = torch.zeros(len(x), d, dtype=torch.float64)
            cnf.noise[:, i] = 1
            tot = tot + cnf(x.clone())[:, 0]
        ctx.close(tot, -torch.einsum('bii->b', s.jac(t, x[:, 1:], x[:, 1:])), 1e-10, 'units', 'sum over unit noise vectors is not the trace')
    if layout in ('leaf', 'inside', 'plain'):
        w = torch.randn(x.shape, generator=ctx.gen, dtype=torch.float64)
        if s.params():
            ws = s.params() + ([xx] if layout != 'plain' else [])
            es = s.params() + ([xe] if layout != 'plain' else [])
            got, want = grads((w * y).sum(), ws), grads((w * e).sum(), es)
            for a, b in zip(got, want): ctx.close(a, b, 1e-9, 'field_gradient', 'derivative of the augmented field')
    ctx.ev('evaluations')
    ctx.key(s.kind, d, len(x), hutch, layout)


@family(quick=120, thorough=2500)
def logdet(ctx):
    "exact estimator: the first column is minus the log-determinant of the flow map of the samples"
    rng = ctx.rng
    d = wide(rng, rng.choice([1, 2, 2, 3, 4]))
    s = Spec(ctx, d)
    x = batch(ctx, d)
    ts, kind, rev = grid(ctx, T=rng.uniform(.3, 1.5), n=rng.randint(2, 7), kind=rng.choice(['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'jitter', 'clustered']))
    name = rng.choice(['dopri5', 'tsit5', 'rk4'])
    if name == 'rk4':
        n = 60
        ts = torch.linspace(float(ts[0]), float(ts[-1]), n, dtype=torch.float64)
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    how = rng.choice(['forward', 'forward', 'trajectory', 'no_grad', 'odeint'])
    if s.kind in ('ctrl', 'both') and how == 'odeint': how = 'forward'
    ctx.desc(net=s.kind, d=d, B=len(x), solver=name, sensitivity=sens, how=how, grid=kind, reverse=rev)
    cnf = CNF(s.build(), trace_estimator=rng.choice([None, autograd_trace]))
    tol = 1e-8
    node = NeuralODE(cnf, str_to_solver(name, torch.float64), sensitivity=sens, atol=tol, rtol=tol)
    if how == 'trajectory': out = node.trajectory(x.clone(), ts)
    elif how == 'no_grad':
        with torch.no_grad(): te, out = node(x.clone(), ts)
    elif how == 'odeint': te, out = odeint(node.vf, x.clone(), ts, str_to_solver(name, torch.float64), atol=tol, rtol=tol)
    else: te, out = node(x.clone(), ts)
    out = out.detach()
    u = x[:, 1:]
    with torch.no_grad():
        plain = ref.fine(lambda t, z: s.raw(t, z, u), u, ts, sub(ts))
    ctx.close(out[:, :, 1:], plain, 2e-5, 'samples', 'samples do not follow the plain field')
    # Jacobian of the flow map, row by row of the grid (on long grids, of some rows)
    rows = list(range(len(ts))) if len(ts) < 12 else sorted(rng.sample(range(1, len(ts) - 1), 3)) + [len(ts) - 1]
    for b in range(len(x)):
        ub = u[b:b + 1]
        phi = lambda z: ref.fine(lambda t, y: s.raw(t, y, ub), z[None], ts, sub(ts))[rows, 0]
        J = torch.autograd.functional.jacobian(phi, u[b])
        ld = torch.linalg.slogdet(J)
        ctx.close(out[rows, b, 0] - x[b, 0], -ld.logabsdet, 3e-5, 'logdet', f"sample {b}: first column is not minus the log-determinant of the flow map")
        ctx.ev('jacobians', len(rows))
        if b == 1: break
    ctx.key(s.kind, d, len(x), name, sens, how, kind, rev)


@family(quick=120, thorough=2500)
def hutchinson(ctx):
    "noise drawn once per forward call, with the batch's size, and kept during it"
    rng = ctx.rng
    d = wide(rng, rng.choice([1, 2, 2, 3, 4]))
    s = Spec(ctx, d)
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    name = rng.choice(['dopri5', 'tsit5', 'rk4'])
    dist = Dist(d, ctx.gen, rng.choice(['gauss', 'rademacher']))
    tol = 1e-8
    node = NeuralODE(CNF(s.build(), trace_estimator=hutch_trace, noise_dist=dist), str_to_solver(name, torch.float64), sensitivity=sens, atol=tol, rtol=tol)
    ctx.desc(net=s.kind, d=d, solver=name, sensitivity=sens, noise=dist.kind)
    used = []
    for k in range(3):
        x = batch(ctx, d)
        ts, kind, rev = grid(ctx, T=rng.uniform(.3, 1.), n=rng.randint(2, 5), kind=rng.choice(['even', 'uneven', 'two', 'offset', 'cross']))
        if name == 'rk4': ts = torch.linspace(float(ts[0]), float(ts[-1]), 40, dtype=torch.float64)
        how = rng.choice(['forward', 'trajectory', 'no_grad'])
        n0 = len(dist.log)
        if how == 'trajectory': out = node.trajectory(x.clone(), ts)
        elif how == 'no_grad':
            with torch.no_grad(): te, out = node(x.clone(), ts)
        else: te, out = node(x.clone(), ts)
        ctx.check(len(dist.log) == n0 + 1, 'draws', f"{len(dist.log) - n0} noise draws in one call")
        v = dist.log[-1]
        if not ctx.check(tuple(v.shape) == (len(x), d), 'noise_shape', f"noise of shape {tuple(v.shape)} for a batch {tuple(x.shape)}"): return
        with torch.no_grad(): e = ref.fine(Aug(s, x[:, 1:], v), x, ts, sub(ts))
        ctx.close(out.detach(), e, 3e-5, 'hutchinson', f"call {k}: rows are not the integral of v^T J v for the noise drawn")
        used.append((len(x), kind, rev, how))
        ctx.ev('noise_draws')
    ctx.key(s.kind, d, name, sens, dist.kind, used)


@family(quick=12, thorough=60)
def unbiased(ctx):
    rng = ctx.rng
    d = wide(rng, rng.choice([2, 3, 4]))
    s = Spec(ctx, d, rng.choice(['mlp', 'linear', 'square']))
    N = 4000
    z = torch.randn(1, d + 1, generator=ctx.gen, dtype=torch.float64)
    kind = rng.choice(['gauss', 'rademacher', 'torch'])
    dist = torch.distributions.MultivariateNormal(torch.zeros(d, dtype=torch.float64), torch.eye(d, dtype=torch.float64)) if kind == 'torch' else Dist(d, ctx.gen, kind)
    node = NeuralODE(CNF(s.build(), trace_estimator=hutch_trace, noise_dist=dist), 'euler')
    ctx.desc(net=s.kind, d=d, noise=kind)
    h = .5
    # one Euler step: the first column is -h v^T J v at the same point for every sample
    _, out = node(z.expand(N, d + 1).clone(), torch.tensor([0., h], dtype=torch.float64))
    e = (out[-1, :, 0] - z[0, 0]).detach() / h
    J = s.jac(torch.zeros(()), z[:, 1:], z[:, 1:])[0]
    sd = float(e.std()) / N ** .5
    ctx.check(abs(float(e.mean()) + float(J.trace())) < 6 * sd + 1e-7, 'bias', f"mean {float(e.mean())} of {N} estimates, trace {-float(J.trace())}, standard error {sd:.2e}")
    ctx.ev('estimates', N)
    ctx.key(s.kind, d, kind, ctx.index)


@family(quick=120, thorough=2500)
def gradient(ctx):
    "likelihood-like losses: gradients through samples and density, several forward passes pending"
    rng = ctx.rng
    d = wide(rng, rng.choice([1, 2, 2, 3]))
    s = Spec(ctx, d)
    sens = rng.choice(['autograd', 'adjoint', 'adjoint', 'interpolated_adjoint'])
    hutch = rng.random() < .6
    dist = Dist(d, ctx.gen, rng.choice(['gauss', 'rademacher'])) if hutch else None
    tol = 1e-8
    name = rng.choice(['dopri5', 'tsit5'])
    node = NeuralODE(CNF(s.build(), trace_estimator=hutch_trace if hutch else None, noise_dist=dist), str_to_solver(name, torch.float64), sensitivity=sens, atol=tol, rtol=tol,
                     atol_adjoint=tol, rtol_adjoint=tol, solver_adjoint=str_to_solver('dopri5', torch.float64))
    K = rng.choice([1, 2, 2])
    ctx.desc(net=s.kind, d=d, solver=name, sensitivity=sens, hutch=hutch, pending=K)
    calls = []
    for k in range(K):
        x = batch(ctx, d)
        if sens == 'interpolated_adjoint':
            T = rng.uniform(.3, .8)
            ts, kind, rev = grid(ctx, kind=rng.choice(['even', 'offset', 'cross']), n=int(T / .022) + 8, T=T)
        else: ts, kind, rev = grid(ctx, T=rng.uniform(.3, 1.), n=rng.randint(2, 5), kind=rng.choice(['even', 'uneven', 'two', 'offset', 'cross']))
        xa = x.clone().requires_grad_(rng.random() < .6)
        _, out = node(xa, ts)
        # standard normal base density of the last row plus a random term
        lname, extra = loss_of(ctx, len(ts), x.shape)
        a = rng.random()
        loss = lambda o, a=a, extra=extra: (.5 * o[-1, :, 1:] ** 2).sum() + 1.3 * o[-1, :, 0].sum() + a * extra(o)
        calls.append((x, xa, ts, out, loss, dist.log[-1] if hutch else None, kind, rev))
    order = list(range(K))
    rng.shuffle(order)
    for k in order:
        x, xa, ts, out, loss, v, kind, rev = calls[k]
        xe = x.clone().requires_grad_(True)
        ref_out = ref.fine(Aug(s, x[:, 1:].detach(), v), xe, ts, max(2, sub(ts, .02)))
        ctx.close(out, ref_out, 3e-5, 'rows', 'rows')
        ws = s.params() + ([xa] if xa.requires_grad else [])
        got = grads(loss(out), ws)
        want = grads(loss(ref_out), s.params() + ([xe] if xa.requires_grad else []))
        sc = max(float(w.abs().max()) for w in want)
        for a, b in zip(got, want):
            ctx.close(a, b, 3e-5 if sens != 'interpolated_adjoint' else 3e-4, 'gradient', f"gradient of call {k} of {K}", scale=sc)
        ctx.ev('gradients', len(ws))
    ctx.key(s.kind, d, name, sens, hutch, K, [(len(c[0]), c[6], c[7]) for c in calls])


@family(quick=30, thorough=300)
def refused(ctx):
    "the stochastic estimator cannot be built without noise; training changes the density"
    rng = ctx.rng
    d = wide(rng, rng.choice([1, 2, 3]))
    s = Spec(ctx, d, 'mlp')
    ctx.desc(d=d)
    try: CNF(s.build(), trace_estimator=hutch_trace); ok = False
    except Exception: ok = True
    ctx.check(ok, 'refused', 'hutch_trace accepted without a noise distribution')
    sens = rng.choice(['autograd', 'adjoint'])
    node = NeuralODE(CNF(s.build()), str_to_solver('dopri5', torch.float64), sensitivity=sens, atol=1e-7, rtol=1e-7)
    opt = torch.optim.SGD(node.parameters(), 5e-2)
    x, ts = batch(ctx, d, 4), torch.linspace(0, 1, 2, dtype=torch.float64)
    ls = []
    for _ in range(5):
        opt.zero_grad()
        _, out = node(x.clone(), ts)
        # negative log-likelihood: log p(x) = log N(z) - (change of the first column)
        nll = (.5 * out[-1, :, 1:] ** 2).sum(1).mean() + (out[-1, :, 0] - x[:, 0]).mean()
        nll.backward()
        opt.step()
        ls.append(float(nll))
    ctx.check(ls[-1] < ls[0], 'training', f"likelihood did not improve along its gradient: {ls}")
    ctx.key(d, sens, ctx.index)
