"""C17: depth, data-control and augmentation layers."""
import copy
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid, wide
from lib import ref
from lib.grads import loss_of, grads, trainable
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE
from torchdyn.nn import DepthCat, DataControl, Augmenter

PROPERTY = 'C17'
RULE = ("random networks with depth and data-control layers at random nesting levels inside a NeuralODE, random solver, sensitivity, batch sizes changing between calls, grid, direction; rows, gradients and "
        "the values appended by the layers against the same network with the time and the initial condition passed explicitly; key = layout, solver, sensitivity, batches, grid, direction; "
        "augmenters of random axis, order and function against concatenation")
ASSUMPTIONS = ['the data-control input is a constant of the solve for differentiation (it is detached)']


class Spec:
    """a random network: list of ('lin', i, o) / ('depth',) / ('ctrl',) / ('tanh',) entries, built as nested torchdyn modules or evaluated explicitly"""
    def __init__(self, ctx, d, depth=True, ctrl=True, extra=0):
        rng = ctx.rng
        self.items, w = [], d
        kinds = []
        for _ in range(rng.randint(1, 3)):
            if depth and rng.random() < .7: kinds.append('depth')
            if ctrl and rng.random() < .6: kinds.append('ctrl')
            kinds.append('lin')
        if depth and 'depth' not in kinds: kinds.insert(0, 'depth')
        if ctrl and 'ctrl' not in kinds: kinds.insert(0, 'ctrl')
        n_lin = kinds.count('lin')
        r = lambda *s: torch.randn(*s, generator=ctx.gen, dtype=torch.float64)
        for k in kinds:
            if k == 'depth': self.items.append(['depth']); w += 1
            elif k == 'ctrl': self.items.append(['ctrl']); w += d
            else:
                n_lin -= 1
                o = d if n_lin == 0 else d + 2
                self.items += [['lin', r(o, w) / w ** .5, r(o) * .3]]
                w = o
                if n_lin or rng.random() < .5: self.items.append(['tanh'])
        self.name = '-'.join(i[0] for i in self.items)
        self.nest = rng.choice(['flat', 'nested', 'deep', 'custom'])

    def build(self):
        mods = []
        for i in self.items:
            if i[0] == 'lin':
                m = nn.Linear(i[1].shape[1], i[1].shape[0]).double()
                m.weight.data, m.bias.data = i[1].clone(), i[2].clone()
            else: m = dict(depth=lambda: DepthCat(1), ctrl=DataControl, tanh=nn.Tanh)[i[0]]()
            mods.append(m)
        if self.nest == 'flat' or len(mods) < 3: return nn.Sequential(*mods)
        if self.nest == 'nested': return nn.Sequential(nn.Sequential(*mods[:2]), nn.Sequential(*mods[2:]))
        if self.nest == 'deep':
            m = nn.Sequential(*mods[-2:])
            for k in mods[-3::-1]: m = nn.Sequential(k, m)
            return m
        class Custom(nn.Module):
            def __init__(self):
                super().__init__()
                self.parts = nn.ModuleDict({f"p{i}": m for i, m in enumerate(mods)})
            def forward(self, x):
                for m in self.parts.values(): x = m(x)
                return x
        return Custom()

    def explicit(self, params, u):
        def f(t, x):
            it = iter(params)
            for i in self.items:
                if i[0] == 'lin': x = x @ next(it).T + next(it)
                elif i[0] == 'depth': x = torch.cat([x, t.to(x) * torch.ones_like(x[:, :1])], 1)
                elif i[0] == 'ctrl': x = torch.cat([x, u], 1)
                else: x = torch.tanh(x)
            return x
        return f


GK = ['even', 'uneven', 'two', 'offset', 'negative', 'cross', 'clustered']


def node_of(net, s, sens, tol, **kw):
    return NeuralODE(net, str_to_solver(s, torch.float64), sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol, **kw)


def dense(ctx, sens):
    rng = ctx.rng
    if sens == 'interpolated_adjoint':
        T = rng.uniform(.3, .8)
        return grid(ctx, kind=rng.choice(['even', 'offset']), n=int(T / .022) + 6, T=T)
    return grid(ctx, kind=rng.choice(GK), n=rng.randint(2, 6), T=rng.uniform(.4, 1.5))


@family(quick=260, thorough=5000)
def layers(ctx):
    "several calls with different batches; values seen by the layers, rows, gradients right after each call"
    rng = ctx.rng
    d = wide(rng, rng.randint(1, 3))
    use = rng.choice([(True, False), (False, True), (True, True), (True, True)])
    spec = Spec(ctx, d, *use)
    net = spec.build()
    s, sens = rng.choice(['euler', 'rk4', 'midpoint', 'dopri5', 'tsit5']), rng.choice(['autograd', 'adjoint', 'adjoint', 'interpolated_adjoint'])
    if sens != 'autograd': s = rng.choice(['dopri5', 'tsit5'])
    node = node_of(net, s, sens, 1e-8 if sens == 'adjoint' else 1e-7)
    ctx.desc(net=spec.name, nest=spec.nest, solver=s, sensitivity=sens, width=d)
    seen = []
    for m in net.modules():
        if isinstance(m, DepthCat): m.register_forward_hook(lambda m, i, o: seen.append(('t', o[:, -1].detach().clone())))
        if isinstance(m, DataControl): m.register_forward_hook(lambda m, i, o: seen.append(('u', o[:, -d:].detach().clone())))
    bs = []
    for call in range(rng.randint(1, 3)):
        b = rng.randint(1, 5) if not bs or rng.random() < .6 else bs[-1]
        bs.append(b)
        ts, kind, rev = dense(ctx, sens)
        mode = rng.choice(['normal', 'normal', 'zero', 'repeat', 'const', 'large', 'onezero'])
        x0 = torch.randn(b, d, generator=ctx.gen, dtype=torch.float64)
        if mode == 'zero': x0 = x0 * 0
        if mode == 'const': x0 = torch.full_like(x0, rng.choice([1., -2., .5]))
        if mode == 'large': x0 = x0 * 3
        if mode == 'onezero': x0[rng.randrange(b)] = 0
        if mode == 'repeat' and len(bs) > 1 and bs[-2] == b: x0 = x.clone()
        x = x0
        xa, xb = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
        f = spec.explicit([p for p in net.parameters()], x)
        times = []
        def probe(t, y):
            times.append(float(t))
            return f(t, y)
        seen.clear()
        _, sa = node(xa, ts)
        with torch.no_grad():
            _, plain = odeint(probe, x, ts, str_to_solver(s, torch.float64), atol=node.atol, rtol=node.rtol)
        ctx.close(sa, plain, 1e-10, 'rows', 'rows differ from the explicit field')
        tt = [v for k, v in seen if k == 't']
        nd = spec.name.count('depth')
        if nd:
            # adaptive step sizes near the rounding level may differ between two ways of writing the same field
            eps = 1e-9 if s in ref.ORDERS and s not in ('dopri5', 'tsit5') else 1e-3
            if eps < 1e-3: ctx.check(len(tt) == nd * len(times), 'evaluations', f"{len(tt)} depth layers evaluated, expected {nd * len(times)}")
            if len(tt) == nd * len(times):
                ctx.check(all(float((v - times[i // nd]).abs().max()) < eps for i, v in enumerate(tt)), 'depth', 'depth appended is not the time of the evaluation')
                ctx.ev('depth_seen', len(tt))
        uu = [v for k, v in seen if k == 'u']
        ctx.check(all(v.shape == x.shape and torch.equal(v, x) for v in uu), 'control', 'control appended is not the initial condition of this call')
        ctx.ev('control_seen', len(uu))
        lname, loss = loss_of(ctx, len(ts), x.shape)
        if s in ('dopri5', 'tsit5'): sb, tg = ref.fine(f, xb, ts, 2 if sens == 'interpolated_adjoint' else 25), 5e-4 if sens == 'interpolated_adjoint' else 1e-4
        else: sb, tg = ref.compose(ref.STEPS[s], f, xb, ts), 1e-9
        if s in ('dopri5', 'tsit5'): tg *= max(1., ref.amplification(f, x, ts, ctx) / 3)  # errors of the solve grow with its sensitivity
        seen.clear()
        ga, gb = grads(loss(sa), [xa] + trainable(net)), grads(loss(sb), [xb] + trainable(net))
        sc = max(float(v.abs().max()) for v in gb)
        for p, q in zip(ga, gb): ctx.close(p, q, tg, 'gradient_' + sens, 'gradient', scale=sc)
        ctx.check(all(torch.equal(v, x) for k, v in seen if k == 'u'), 'control_backward', 'control seen in the backward pass')
        if rng.random() < .3:  # trajectory as well
            y = torch.randn(rng.randint(1, 4), d, generator=ctx.gen, dtype=torch.float64)
            with torch.no_grad():
                tr = node.trajectory(y, ts)
                _, e = odeint(spec.explicit(list(net.parameters()), y), y, ts, str_to_solver(s, torch.float64), atol=node.atol, rtol=node.rtol)
            ctx.close(tr, e, 1e-10, 'trajectory', 'trajectory()')
        if rng.random() < .3:
            with torch.no_grad():
                for p in net.parameters(): p.mul_(.9)
    ctx.key(spec.name, spec.nest, s, sens, bs, kind, rev)


@family(quick=60, thorough=1000)
def interleaved(ctx):
    "two forward calls before their backward passes: each differentiates its own solve"
    rng = ctx.rng
    d = wide(rng, rng.randint(1, 3))
    spec = Spec(ctx, d, rng.random() < .5, True)
    net = spec.build()
    sens = rng.choice(['autograd', 'adjoint', 'adjoint', 'interpolated_adjoint'])
    s = rng.choice(['dopri5', 'tsit5'])
    node = node_of(net, s, sens, 1e-8 if sens == 'adjoint' else 1e-7)
    same = rng.random() < .5
    ctx.desc(net=spec.name, nest=spec.nest, solver=s, sensitivity=sens, same_batch=same)
    calls = []
    for k in range(2):
        ts, kind, rev = dense(ctx, sens)
        x = torch.randn(2 if same else k + 1, d, generator=ctx.gen, dtype=torch.float64)
        xa = x.clone().requires_grad_(True)
        lname, loss = loss_of(ctx, len(ts), x.shape)
        calls.append((x, xa, ts, loss, node(xa, ts)[1]))
    order = rng.choice([(0, 1), (1, 0)])
    for k in order:
        x, xa, ts, loss, sa = calls[k]
        xb = x.clone().requires_grad_(True)
        sb = ref.fine(spec.explicit(list(net.parameters()), x), xb, ts, 2 if sens == 'interpolated_adjoint' else 25)
        ga, gb = grads(loss(sa), [xa] + trainable(net)), grads(loss(sb), [xb] + trainable(net))
        sc = max(float(v.abs().max()) for v in gb)
        for p, q in zip(ga, gb): ctx.close(p, q, 3e-4 if sens == 'interpolated_adjoint' else 3e-5, 'interleaved', f"gradient of call {k}", scale=sc)
    ctx.key(spec.name, spec.nest, s, sens, same, order)


@family(quick=60, thorough=800)
def images(ctx):
    "depth concatenation along other axes, convolutional fields, depth inside fields that take time themselves"
    rng = ctx.rng
    c, hw, b = rng.randint(1, 2), rng.randint(3, 4), rng.randint(1, 3)
    conv = nn.Conv2d(c + 1, c, 3, padding=1).double()
    for p in conv.parameters(): p.data = torch.randn(p.shape, generator=ctx.gen, dtype=torch.float64) * .3
    axis = rng.choice([1, 2, 3, -1])
    if axis == 1: net, f = nn.Sequential(DepthCat(1), conv, nn.Tanh()), lambda t, x: torch.tanh(conv(torch.cat([x, t * torch.ones_like(x[:, :1])], 1)))
    else:
        ax = axis % 4
        class Crop(nn.Module):
            def forward(self, x): return x.narrow(ax, 0, x.shape[ax] - 1) * torch.cos(x.narrow(ax, x.shape[ax] - 1, 1)) - x.narrow(ax, 1, x.shape[ax] - 1)
        crop = Crop()
        net = nn.Sequential(DepthCat(axis), crop)
        f = lambda t, x: crop(torch.cat([x, t * torch.ones_like(x.narrow(ax, 0, 1))], ax))
    x = torch.randn(b, c, hw, hw, generator=ctx.gen, dtype=torch.float64)
    ts, kind, rev = grid(ctx, kind=rng.choice(GK))
    s = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5'])
    ctx.desc(axis=axis, shape=tuple(x.shape), solver=s, grid=kind, reverse=rev)
    with torch.no_grad():
        out = node_of(net, s, rng.choice(['autograd', 'adjoint']), 1e-6)(x, ts)[1]
        ctx.close(out, odeint(f, x, ts, str_to_solver(s, torch.float64), atol=1e-6, rtol=1e-6)[1], 1e-10, 'axis', f"depth along axis {axis}")
    # the layer by itself
    m = DepthCat(axis)
    m.t = torch.tensor(rng.uniform(-2, 2), dtype=torch.float64)
    o = m(x)
    ctx.close(o, torch.cat([x, m.t * torch.ones_like(x.narrow(axis, 0, 1))], axis), 1e-14, 'depthcat', 'DepthCat output')
    ctx.key(axis, c, hw, b, s, kind, rev)


@family(quick=80, thorough=800)
def augment(ctx):
    rng = ctx.rng
    nd = rng.randint(1, 4)
    shape = tuple(rng.randint(1, 4) for _ in range(nd))
    dtype = rng.choice([torch.float32, torch.float64])
    x = torch.randn(*shape, generator=ctx.gen, dtype=torch.float64).to(dtype)
    axis = rng.randrange(nd) if rng.random() < .7 else -rng.randint(1, nd)
    dims, order = rng.randint(0, 5), rng.choice(['first', 'last'])
    fn = rng.random() < .4
    ctx.desc(shape=shape, axis=axis, dims=dims, order=order, func=fn, dtype=dtype)
    x0 = x.clone().requires_grad_(True)
    if fn:
        reps = rng.randint(1, 3)
        class F(nn.Module):
            def forward(self, x): return torch.cat([torch.sin(x) + k for k in range(reps)], axis)
        m = Augmenter(augment_idx=axis, augment_func=F(), order=order)
        a = F()(x)
    else:
        m = Augmenter(augment_idx=axis, augment_dims=dims, order=order)
        a = torch.zeros([dims if i == axis % nd else v for i, v in enumerate(shape)], dtype=dtype)
    y = m(x0)
    ctx.check(y.dtype == dtype, 'augment_dtype', str(y.dtype))
    ctx.close(y, torch.cat([a, x] if order == 'first' else [x, a], axis), 0, 'augment', 'augmented state')
    ctx.check(torch.equal(x0.detach(), x), 'augment', 'input was modified')
    g, = torch.autograd.grad(y.sum(), x0)
    ctx.close(g, torch.ones_like(x) + (reps * torch.cos(x) if fn else 0), 1e-5, 'augment_grad', 'gradient through the augmenter')
    default = Augmenter()
    z = torch.randn(3, 2, generator=ctx.gen)
    ctx.close(default(z), torch.cat([torch.zeros(3, 5), z], 1), 0, 'augment_default', 'default augmenter')
    ctx.key(shape, axis, dims, order, fn, str(dtype))
