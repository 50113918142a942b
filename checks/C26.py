"""C26: toy datasets."""
import math
import numpy as np
import torch
from scipy.integrate import solve_ivp
from lib.core import family
from torchdyn.datasets.static_datasets import (ToyDataset, randnsphere, generate_concentric_spheres, generate_moons, generate_spirals,
                                               generate_gaussians, generate_gaussians_spiral, generate_diffeqml)

PROPERTY = 'C26'
RULE = ("random (generator, size odd and even from 1 up, noise incl. 0, dimension, radii, component counts, spreads, seed): position of every point against the curve, radius or centre of the component its label "
        "names, counts per label, spread and mean statistics within 7 standard errors, deviation linear in the noise parameter under one seed, dispatcher against generator under one seed; "
        "key = generator, parity, noise magnitude, dimension, size")
ASSUMPTIONS = ['n_samples is the total for moons, spheres and the logo, and the number per component for spirals and Gaussians', 'dimension at least 2 for Gaussians']
RMAX = 780 * 2 * math.pi / 360


def seed(ctx, s=None):
    s = ctx.rng.randrange(2 ** 31) if s is None else s
    torch.manual_seed(s); np.random.seed(s % 2 ** 31)
    return s


def size(ctx, big=False):
    return ctx.rng.choice([300, 601, 1000, 1001]) if big else ctx.rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 25, 40, 101, 200, 333])


def labels(ctx, y, n, counts):
    ctx.check(torch.is_tensor(y) and tuple(y.shape) == (n,), 'label_count', f'{n} points, labels {None if y is None else tuple(y.shape)}')
    u, c = torch.unique(y, return_counts=True)
    got = {float(a): int(b) for a, b in zip(u, c)}
    ctx.check(got == {float(k): v for k, v in counts.items() if v}, 'label_count', f'labels {got}, expected {counts}')


def finite(ctx, X, shape):
    ctx.check(torch.is_tensor(X) and tuple(X.shape) == shape, 'shape', f'points {tuple(X.shape)}, expected {shape}')
    ctx.check(bool(torch.isfinite(X).all()), 'not_finite', 'non-finite points')
    ctx.ev('points', X.shape[0])


def noise_of(ctx):
    return ctx.rng.choice([0., 0., 1e-4, 1e-2, .05, .2])


def bucket(n): return 'small' if n < 8 else ('medium' if n < 150 else 'large')


@family(quick=160, thorough=1500)
def spheres(ctx):
    rng = ctx.rng
    n, dim, noise = size(ctx, rng.random() < .3), rng.choice([1, 2, 3, 4, 7, 20]), noise_of(ctx)
    ri, ro = rng.choice([(.5, 1), (.2, 2.), (1, 3), (1.5, .7), (1., 10)])
    ctx.desc(n=n, dim=dim, noise=noise, radii=[ri, ro])
    seed(ctx)
    X, y = generate_concentric_spheres(n_samples=n, noise=noise, dim=dim, inner_radius=ri, outer_radius=ro)
    finite(ctx, X, (n, dim))
    labels(ctx, y, n, {1: n // 2, 0: n - n // 2})
    r = X.double().norm(dim=1)
    want = torch.where(y == 1, torch.tensor(float(ri)).double(), torch.tensor(float(ro)).double())
    dev = r - want
    bound = 1e-5 * max(ri, ro) + noise * (math.sqrt(dim) + 6)
    ctx.check(bool((dev.abs() <= bound).all()), 'geometry', f'worst distance from the labelled sphere {float(dev.abs().max()):.3g}, allowed {bound:.3g}')
    ctx.worst('deviation/bound', float(dev.abs().max()) / bound)
    if noise and n >= 100 and noise < .1 * min(ri, ro):  # the radial component has the stated deviation
        # E dev = (dim-1) noise^2 / (2 r), negligible below; radial std = noise
        s = float((dev - (dim - 1) * noise ** 2 / (2 * want)).std())
        ctx.check(abs(s / noise - 1) < 7 / math.sqrt(2 * n) + .12, 'noise_scale', f'radial deviation {s:.4g}, stated noise {noise}')
    for k, rad in ((1, ri), (0, ro)):
        D = X[y == k].double() / rad
        m = D.shape[0]
        if m >= 100:
            se = math.sqrt((1 / dim + (noise / rad) ** 2) / m)
            ctx.check(bool((D.mean(0).abs() < 7 * se).all()), 'not_uniform', f'mean direction of {m} points {D.mean(0).abs().max():.3g}, standard error {se:.3g}')
            M = D.T @ D / m
            ctx.check(bool(((M - torch.eye(dim) * (1 / dim + (noise / rad) ** 2)).abs() < 8 * (1 + (noise / rad) ** 2) / math.sqrt(m)).all()), 'not_uniform', 'second moments of the directions')
            if dim == 1: ctx.check(bool((D > 0).any() and (D < 0).any()), 'not_uniform', 'one side only')
    if n // 2 > 1 and dim > 1: ctx.check(len(torch.unique(X, dim=0)) == n, 'repeated', 'points repeat')
    v = randnsphere(dim, ro)
    ctx.check(tuple(v.shape) == (dim,) and abs(float(v.double().norm()) - ro) < 1e-5 * ro, 'geometry', f'randnsphere: norm {float(v.norm())}, radius {ro}')
    ctx.key('spheres', n % 2, noise, dim, bucket(n))


@family(quick=160, thorough=1500)
def moons(ctx):
    n, noise = size(ctx, ctx.rng.random() < .3), ctx.rng.choice([None, noise_of(ctx), noise_of(ctx), noise_of(ctx)])
    ctx.desc(n=n, noise=noise)
    seed(ctx)
    X, y = generate_moons(n_samples=n, noise=noise)
    finite(ctx, X, (n, 2))
    o = n // 2
    labels(ctx, y, n, {0: o, 1: n - o})
    X = X.double()
    nz = noise or 0.
    O, I = X[y == 0], X[y == 1]
    # outer: upper half of the unit circle; inner: lower half of the unit circle around (1, .5)
    tol = 1e-6 + 6 * nz
    for pts, c, s, name in ((O, (0., 0.), 1, 'outer'), (I, (1., .5), -1, 'inner')):
        q = pts - torch.tensor(c).double()
        m = len(q)
        if not m: continue
        d = (q.norm(dim=1) - 1).abs()
        ctx.check(bool((d <= tol * 1.5).all()), 'geometry', f'{name} moon: {float(d.max()):.3g} off its circle, noise {noise}')
        ctx.check(bool((s * q[:, 1] >= -tol).all()), 'geometry', f'{name} moon on the wrong half of its circle')
        if not nz and m >= 2:  # evenly spaced from end to end
            th = torch.sort(torch.atan2(s * q[:, 1], q[:, 0]) % (2 * math.pi))[0]
            th = torch.where(th > 4, th - 2 * math.pi, th).sort()[0]
            want = torch.linspace(0, math.pi, m).double()
            ctx.check(bool(((th - want).abs() < 1e-4).all()), 'spacing', f'{name} moon is not evenly sampled from end to end')
            ctx.ev('points', m)
    linear(ctx, generate_moons, n, nz)
    ctx.key('moons', n % 2, noise, bucket(n))


def linear(ctx, g, n, nz, **kw):
    "deviation scales with the noise parameter under one seed"
    a = ctx.rng.choice([.01, .1, .4])
    s = seed(ctx)
    X0 = g(n_samples=n, noise=0., **kw)[0].double()
    out = []
    for f in (1., 2.):
        seed(ctx, s)
        out.append(g(n_samples=n, noise=f * a, **kw)[0].double() - X0)
    sc = float(X0.abs().max()) + 1
    ctx.check(float((2 * out[0] - out[1]).abs().max()) < 1e-5 * sc, 'noise_scale', 'doubling the noise parameter does not double the deviation')
    if n >= 25:
        r = float(out[0].pow(2).mean().sqrt()) / a
        ctx.check(.1 < r < 3, 'noise_scale', f'root mean square deviation is {r:.3g} times the noise parameter')
        ctx.check(len(torch.unique(out[0].abs().sum(1).mul(1e4 / a).round())) > n // 4, 'noise_scale', 'points share one noise draw')
    ctx.ev('points', 2 * n)


@family(quick=120, thorough=1500)
def spirals(ctx):
    n, noise = size(ctx, ctx.rng.random() < .3), noise_of(ctx)
    ctx.desc(n=n, noise=noise)
    seed(ctx)
    X, y = generate_spirals(n_samples=n, noise=noise)
    finite(ctx, X, (2 * n, 2))
    labels(ctx, y, 2 * n, {0: n, 1: n})
    X = X.double()
    P, Q = X[y == 0], -X[y == 1]
    k = torch.linspace(0, RMAX, 20001).double()
    curve = torch.stack([-k.cos() * k, k.sin() * k], 1)
    bound = 8e-3 + 6 * noise
    for pts, name in ((P, 'first'), (Q, 'second')):
        d = torch.cdist(pts, curve).min(1)[0]
        ctx.check(bool((d < bound).all()), 'geometry', f'{name} spiral: {float(d.max()):.3g} off its curve, noise {noise}')
        ctx.worst('deviation/bound', float(d.max()) / bound)
        r = pts.norm(dim=1)
        if n >= 100:
            ctx.check(float(r.max()) > .85 * RMAX and float(r.min()) < .5 * RMAX, 'spread', f'{name} spiral covers radii {float(r.min()):.3g}..{float(r.max()):.3g}')
            ctx.check(len(torch.unique(r)) > n // 2, 'repeated', 'points repeat')
    if not noise:
        r = P.norm(dim=1)
        ctx.close(P, torch.stack([-r.cos() * r, r.sin() * r], 1), 1e-4, 'geometry', 'first spiral: point at radius r is not at angle pi - r')
        r = Q.norm(dim=1)
        ctx.close(Q, torch.stack([-r.cos() * r, r.sin() * r], 1), 1e-4, 'geometry', 'second spiral: point at radius r is not at angle -r')
    linear(ctx, generate_spirals, n, noise)
    ctx.key('spirals', n % 2, noise, bucket(n))


def blobs(ctx, X, y, n, centres, stds, noise, dim):
    k = len(centres)
    finite(ctx, X, (n * k, dim))
    labels(ctx, y, n * k, {i: n for i in range(k)})
    X = X.double()
    for i in range(k):
        B = X[y == i]
        c = torch.zeros(dim).double()
        c[:2] = torch.tensor(centres[i]).double()
        tol = 8 * stds[i] / math.sqrt(n) + 7 * noise + 1e-5
        d = (B.mean(0) - c).abs()
        ctx.check(bool((d < tol).all()), 'centre', f'component {i}: mean {float(d.max()):.3g} from its centre, allowed {tol:.3g} (n={n}, std={stds[i]}, noise={noise})')
        ctx.worst('mean/allowed', float(d.max()) / tol)
        far = (B - c).abs().max()
        ctx.check(float(far) < 7.5 * math.hypot(stds[i], noise) + 7 * noise + 1e-5, 'geometry', f'component {i}: a point {float(far):.3g} from the centre of its label')
        if n >= 40:
            s = B.std(0)
            lo, hi = stds[i] * (1 - 6 / math.sqrt(2 * n)), math.hypot(stds[i], noise) * (1 + 7 / math.sqrt(2 * n)) + 1e-5
            ctx.check(bool((s > lo).all() and (s < hi).all()), 'spread', f'component {i}: deviations {s.tolist()}, stated {stds[i]}, noise {noise}')
            if dim > 1 and n >= 100:
                R = torch.corrcoef(B.T) - torch.eye(dim)
                ctx.check(float(R.abs().max()) < 7 / math.sqrt(n) + (noise / stds[i]) ** 2, 'spread', f'component {i}: coordinates are correlated {float(R.abs().max()):.3g}')
        ctx.ev('points', n)


@family(quick=160, thorough=1500)
def gaussians(ctx):
    rng = ctx.rng
    n, k, dim, radius, std, noise = rng.choice([1, 2, 5, 40, 101, 200, 400]), rng.choice([1, 2, 3, 4, 5, 7, 12]), rng.choice([2, 2, 3, 5, 8]), rng.choice([.5, 1, 2., 7.]), rng.choice([1e-3, .01, .1, .5]), rng.choice([0., 1e-3, .02])
    ctx.desc(n=n, k=k, dim=dim, radius=radius, std=std, noise=noise)
    seed(ctx)
    X, y = generate_gaussians(n_samples=n, n_gaussians=k, dim=dim, radius=radius, std_gaussians=std, noise=noise)
    a = [2 * math.pi * (i + 1) / k for i in range(k)]
    blobs(ctx, X, y, n, [(radius * math.cos(v), radius * math.sin(v)) for v in a], [std] * k, noise, dim)
    ctx.key('gaussians', k, dim, radius, std, noise, n)


@family(quick=160, thorough=1500)
def gaussian_spiral(ctx):
    rng = ctx.rng
    n, k, loop, dim, noise = rng.choice([1, 2, 5, 40, 101, 200, 400]), rng.choice([1, 2, 3, 5, 7, 12]), rng.choice([1, 3, 4, 5, 8]), rng.choice([2, 2, 3, 5]), rng.choice([0., 1e-3, .02])
    r0, r1 = rng.choice([(1, .2), (2., .5), (.3, 3), (1, 1)])
    s0, s1 = rng.choice([(.3, .1), (.01, .05), (.001, .001), (.1, .001)])
    ctx.desc(n=n, k=k, loop=loop, dim=dim, radii=[r0, r1], stds=[s0, s1], noise=noise)
    seed(ctx)
    X, y = generate_gaussians_spiral(n_samples=n, n_gaussians=k, n_gaussians_per_loop=loop, dim=dim, radius_start=r0, radius_end=r1,
                                     std_gaussians_start=s0, std_gaussians_end=s1, noise=noise)
    R, S = np.linspace(r0, r1, k), np.linspace(s0, s1, k)
    a = [2 * math.pi * (i + 1) / loop for i in range(k)]
    blobs(ctx, X, y, n, [(r * math.cos(v), r * math.sin(v)) for r, v in zip(R, a)], [float(s) for s in S], noise, dim)
    ctx.key('gaussians_spiral', k, loop, dim, (r0, r1), (s0, s1), noise, n)


_curves = []


def logo():
    if not _curves:
        f = lambda t, x: [-x[1] + x[0] * (1 - x[0] ** 2 - x[1] ** 2), x[0] + x[1] * (1 - x[0] ** 2 - x[1] ** 2)]
        for x0 in ([0, 2], [-1.6, -1.2], [1.6, -1.2]):
            s = solve_ivp(f, [0, 3.2], x0, method='DOP853', rtol=1e-9, atol=1e-9, t_eval=np.linspace(0, 3.2, 4000))
            _curves.append(torch.tensor(s.y.T))
        th = torch.linspace(0, 2 * math.pi, 6000).double()
        _curves.append(2 * torch.stack([th.cos(), th.sin()], 1))
    return _curves


@family(quick=60, thorough=400)
def diffeqml(ctx):
    n, noise = ctx.rng.choice([1, 2, 5, 33, 400, 801]), ctx.rng.choice([0., 1e-3, .02, .1])
    ctx.desc(n=n, noise=noise)
    seed(ctx)
    X, y = generate_diffeqml(n_samples=n, noise=noise)
    finite(ctx, X, (n, 2))
    ctx.check(y is None, 'label_count', 'the logo has no labels')
    D = torch.stack([torch.cdist(X.double(), c).min(1)[0] for c in logo()], 1)
    near = D.min(1)[0]
    bound = 6.5 * math.hypot(.01, noise) + .02
    ctx.check(bool((near < bound).all()), 'geometry', f'{float(near.max()):.3g} off the logo, noise {noise}')
    if n >= 400:
        r = float(near.pow(2).mean().sqrt())
        lim = math.hypot(.01, noise)
        ctx.check(r < 1.5 * lim + .005 and r > .3 * lim, 'noise_scale', f'root mean square distance to the logo {r:.3g}, noise {noise}')
        if noise < .05:
            f = torch.bincount(D.argmin(1), minlength=4).double() / n
            ctx.check(bool((f > .08).all()) and abs(float(f[3]) - .4) < .15, 'spread', f'share of the four curves {f.tolist()}')
    ctx.key('diffeqml', n, noise)


@family(quick=120, thorough=1000)
def dispatch(ctx):
    rng = ctx.rng
    name = rng.choice(['moons', 'spirals', 'spheres', 'gaussians', 'gaussians_spiral', 'diffeqml'])
    n = rng.choice([2, 3, 8, 31])
    kw = {}
    opts = dict(moons=dict(noise=.3), spirals=dict(noise=.2), spheres=dict(noise=.1, dim=5, inner_radius=.3, outer_radius=2.),
                gaussians=dict(n_gaussians=4, dim=3, radius=2., std_gaussians=.2, noise=.1),
                gaussians_spiral=dict(n_gaussians=5, n_gaussians_per_loop=3, dim=4, radius_start=2., radius_end=1., std_gaussians_start=.4, std_gaussians_end=.2, noise=.1),
                diffeqml=dict(noise=.1))[name]
    for k, v in opts.items():
        if rng.random() < .6: kw[k] = v
    ctx.desc(name=name, n=n, kw=kw)
    g = dict(moons=generate_moons, spirals=generate_spirals, spheres=generate_concentric_spheres, gaussians=generate_gaussians,
             gaussians_spiral=generate_gaussians_spiral, diffeqml=generate_diffeqml)[name]
    s = seed(ctx)
    A, a = ToyDataset().generate(n, name, **kw)
    seed(ctx, s)
    B, b = g(n_samples=n, **kw)
    ctx.check(A.shape == B.shape and bool((A == B).all()), 'dispatcher', f'{name}: points differ from those of the generator')
    ctx.check((a is None) == (b is None) and (a is None or bool((a == b).all())), 'dispatcher', f'{name}: labels differ from those of the generator')
    seed(ctx, s + 1)
    C, _ = ToyDataset().generate(n, name, **kw)
    ctx.check(name == 'moons' and not kw.get('noise', 1e-4) or not bool((A == C).all()), 'dispatcher', f'{name}: another seed gives the same points')
    ctx.ev('points', len(A))
    ctx.key('dispatch', name, sorted(kw), n)
