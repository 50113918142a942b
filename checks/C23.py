"""C23: Galerkin layers."""
import copy
import numpy as np
import torch
import torch.nn as nn
from lib.core import family
from lib.fields import grid, many, wide
from lib import ref
from lib.grads import loss_of, grads
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE
from torchdyn.nn import DepthCat, GalLinear, GalConv2d
from torchdyn.nn.galerkin import Fourier, Polynomial, Chebychev, VanillaRBF, MultiquadRBF, GaussianRBF

PROPERTY = 'C23'
RULE = ("random (layer, basis, degree, centres, scales, adaptivity, bias, dilation, shift, precision, depth, shape): output against the ordinary layer with independently expanded weights over sequences of "
        "depths and parameter updates, derivatives with respect to every parameter, the input and the depth, and whole Neural ODEs with depth-varying layers (all sensitivities) against explicit ones; "
        "key = layer, basis, degree, adaptive, bias, dilation, shift, precision, mode")
ASSUMPTIONS = ['depth in the last feature or channel, degrees 0 .. deg-1', 'radial bases: functions of r = |s - center| times the degree over the scale (Gaussian: degree minus center)']
BASES = dict(Fourier=Fourier, Polynomial=Polynomial, Chebychev=Chebychev, VanillaRBF=VanillaRBF, MultiquadRBF=MultiquadRBF, GaussianRBF=GaussianRBF)


def basis_of(ctx, name=None, dtype=torch.float64):
    rng = ctx.rng
    name = name or rng.choice(list(BASES))
    deg = rng.choice([1, 2, 3, 3, 4, 5, 7])
    kw = {}
    if 'RBF' in name:
        kw = dict(adaptive=rng.random() < .5)
        if rng.random() < .7: kw.update(eps_scales=rng.choice([1, 2, .7, 3.]), centers=rng.choice([0, .5, -1, 1.3]))
    b = BASES[name](deg, **kw)
    if kw.get('adaptive') and rng.random() < .7:
        with torch.no_grad():
            b.centers += .3 * torch.randn(deg, generator=ctx.gen)
            b.eps_scales += .2 * torch.rand(deg, generator=ctx.gen)
    return name, deg, bool(kw.get('adaptive')), b


def expand(name, b, deg, s, p=None):
    "-> list of values [deg], one per family of functions, differentiable in s"
    k = torch.arange(deg, dtype=s.dtype)
    if name == 'Fourier': return [torch.cos(k * s), torch.sin(k * s)]
    if name == 'Polynomial': return [torch.stack([torch.prod(s.expand(i)) if i else torch.ones_like(s) for i in range(deg)])]
    if name == 'Chebychev':
        T = [torch.ones_like(s), s]
        while len(T) < deg: T.append(2 * s * T[-1] - T[-2])
        return [torch.stack(T[:deg])]
    c, e = (b.centers, b.eps_scales) if p is None else p
    r = (s - c).abs() if isinstance(c, torch.Tensor) else (s - c).abs().expand(deg)
    if name == 'VanillaRBF': return [r * k / e]
    if name == 'MultiquadRBF': return [1 + (1 + (r * k / e) ** 2).sqrt()]
    return [torch.exp(-(r * (k - c) / e) ** 2)]


def weights(layer, name, deg, t):
    "vector of all weights at depth t"
    s = (t * layer.dilation.to(t) + layer.shift.to(t)).reshape(())
    return sum(layer.coeffs[:, :, i] @ v for i, v in enumerate(expand(name, layer.expfunc, deg, s)))


def apply(layer, kind, name, deg, x, t, bias, geo):
    w = weights(layer, name, deg, t)
    if kind == 'linear':
        i, o = geo
        return x @ w[:i * o].reshape(o, i).T + (w[i * o:] if bias else 0)
    i, o, ks, stride, pad = geo
    n = i * o * ks * ks
    return nn.functional.conv2d(x, w[:n].reshape(o, i, ks, ks), w[n:] if bias else None, stride=stride, padding=pad)


def layer_of(ctx, kind, dtype, square=None):
    rng = ctx.rng
    name, deg, adaptive, b = basis_of(ctx)
    kw = dict(bias=rng.random() < .7, expfunc=b, dilation=rng.random() < .6, shift=rng.random() < .6)
    if kind == 'linear':
        geo = (square, square) if square else (rng.randint(1, 4), rng.randint(1, 4))
        layer = GalLinear(*geo, **kw)
    else:
        ks = rng.choice([1, 2, 3])
        geo = (rng.randint(1, 3), rng.randint(1, 3), ks, rng.choice([1, 1, 2]), rng.choice([0, 1]))
        layer = GalConv2d(geo[0], geo[1], ks, stride=geo[3], padding=geo[4], **kw)
    layer = layer.to(dtype)
    with torch.no_grad():
        layer.coeffs.copy_(torch.randn(layer.coeffs.shape, generator=ctx.gen, dtype=torch.float64))
        if kw['dilation']: layer.dilation.copy_(torch.tensor([rng.uniform(.5, 1.5)]))
        if kw['shift']: layer.shift.copy_(torch.tensor([rng.uniform(-1, 1)]))
    return layer, name, deg, adaptive, kw, geo


def inputs(ctx, kind, geo, dtype):
    rng = ctx.rng
    B = many(rng, rng.choice([1, 2, 5]))
    shape = (B, geo[0]) if kind == 'linear' else (B, geo[0], rng.randint(3, 6), rng.randint(3, 6))
    return torch.randn(*shape, generator=ctx.gen, dtype=torch.float64).to(dtype)


@family(quick=420, thorough=12000)
def layer(ctx):
    rng = ctx.rng
    kind = rng.choice(['linear', 'linear', 'conv'])
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    L, name, deg, adaptive, kw, geo = layer_of(ctx, kind, dtype)
    ctx.desc(kind=kind, basis=name, deg=deg, adaptive=adaptive, bias=kw['bias'], dilation=kw['dilation'], shift=kw['shift'], geo=geo, dtype=dtype)
    tol = 1e-10 if dtype == torch.float64 else 2e-4
    ps = dict(L.named_parameters())
    want_names = {'coeffs'} | ({'dilation'} if kw['dilation'] else set()) | ({'shift'} if kw['shift'] else set()) | ({'expfunc.centers', 'expfunc.eps_scales'} if adaptive else set())
    ctx.check(want_names <= set(ps), 'parameters', f"parameters {sorted(ps)}")
    for k in range(3):
        x = inputs(ctx, kind, geo, dtype)
        t = torch.tensor(rng.choice([0., 1., -.7, rng.uniform(-1.5, 2)]), dtype=dtype)
        xa, ta = x.clone().requires_grad_(True), t.clone().requires_grad_(True)
        xb, tb = x.clone().requires_grad_(True), t.clone().requires_grad_(True)
        inp = torch.cat([xa, ta * torch.ones_like(xa[:, :1])], 1)
        if rng.random() < .3:
            with torch.no_grad(): L(inp * .5)   # other calls in between leave nothing behind
        y = L(inp)
        e = apply(L, kind, name, deg, xb, tb, kw['bias'], geo)
        ctx.close(y, e, tol, f"output{str(dtype)[-2:]}", f"call {k} at depth {float(t):.3f}", stop=True)
        w = torch.randn(y.shape, generator=ctx.gen, dtype=torch.float64).to(dtype)
        ws = list(ps.values())
        ga, gb = grads((w * y).sum(), ws + [xa, ta]), grads((w * e).sum(), ws + [xb, tb])
        sc = max(float(v.abs().max()) for v in gb)
        for n_, a, b in zip(list(ps) + ['input', 'depth'], ga, gb): ctx.close(a, b, tol * 30, f"gradient{str(dtype)[-2:]}", f"gradient of {n_}", scale=sc)
        ctx.ev('gradients', len(ga))
        # in-place updates of every parameter count in the next call
        with torch.no_grad():
            for p in ws: p.add_(.05 * torch.randn(p.shape, generator=ctx.gen).to(dtype))
        if k == 1:
            how = rng.choice(['deepcopy', 'state', 'none'])
            if how == 'deepcopy':
                L = copy.deepcopy(L)
                ps = dict(L.named_parameters())
            if how == 'state':
                sd = {k_: v.clone() for k_, v in L.state_dict().items()}
                with torch.no_grad():
                    for p in ps.values(): p.mul_(0)
                L.load_state_dict(sd)
    ctx.key(kind, name, deg, adaptive, kw['bias'], kw['dilation'], kw['shift'], str(dtype), 'layer')


@family(quick=120, thorough=2500)
def neural_ode(ctx):
    "depth-varying layers inside a Neural ODE"
    rng = ctx.rng
    d = wide(rng, rng.choice([1, 2, 3]))
    L1, n1, g1, a1, k1, _ = layer_of(ctx, 'linear', torch.float64, d)
    two = rng.random() < .4
    L2 = layer_of(ctx, 'linear', torch.float64, d) if two else None
    with torch.no_grad():
        for L in [L1] + ([L2[0]] if two else []): L.coeffs.mul_(.4 / L.deg)
    mods = [DepthCat(1), L1, nn.Tanh()] + ([DepthCat(1), L2[0]] if two else [])
    sens = rng.choice(['autograd', 'autograd', 'adjoint', 'interpolated_adjoint'])
    # polynomials of the depth grow: moderate spans keep the solution tame; kinks of radial bases need steps that end there
    kink = any('Vanilla' in n for n in [n1] + ([L2[1]] if two else []))
    ts, kind, rev = grid(ctx, T=rng.uniform(.3, .9), n=rng.randint(2, 5), kind=rng.choice(['even', 'uneven', 'two', 'offset' if n1 == 'Fourier' and not two else 'even', 'cross']))
    if sens == 'interpolated_adjoint': ts = torch.linspace(float(ts[0]), float(ts[-1]), 40, dtype=torch.float64)
    fixed = sens == 'autograd' and rng.random() < .5
    if kink: sens, fixed = 'autograd', True
    B = many(rng, rng.choice([1, 2, 4]))
    x = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    lname, loss = loss_of(ctx, len(ts), x.shape)
    ctx.desc(first=n1, second=L2[1] if two else None, sensitivity=sens, fixed=fixed, grid=kind, reverse=rev, loss=lname, d=d, B=B)
    tol = 1e-8
    node = NeuralODE(nn.Sequential(*mods), str_to_solver('rk4' if fixed else 'dopri5', torch.float64), sensitivity=sens, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol)
    def f(t, y):
        y = torch.tanh(apply(L1, 'linear', n1, g1, y, t, k1['bias'], (d, d)))
        if two: y = apply(L2[0], 'linear', L2[1], L2[2], y, t, L2[4]['bias'], (d, d))
        return y
    ps = list(L1.parameters()) + (list(L2[0].parameters()) if two else [])
    xa, xb = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    out = node(xa, ts)[1]
    e = ref.compose(ref.rk4, f, xb, ts) if fixed else ref.fine(f, xb, ts, 12 if sens != 'interpolated_adjoint' else 1)
    ctx.close(out, e, 1e-9 if fixed else 5e-5, 'solve', 'rows')
    ga, gb = grads(loss(out), [xa] + ps), grads(loss(e), [xb] + ps)
    sc = max(float(v.abs().max()) for v in gb)
    for a, b in zip(ga, gb): ctx.close(a, b, 1e-8 if fixed else 1e-4 if sens != 'interpolated_adjoint' else 5e-4, 'solve_gradient', 'gradient', scale=sc)
    ctx.key(n1, L2[1] if two else None, sens, fixed, kind, rev, lname, d, B)


