"""C25: root finding."""
import torch
from lib.core import family
from lib.fields import many, wide
from torchdyn.numerics.solvers.root import root_find

PROPERTY = 'C25'
RULE = ("random (system, batch, width, precision, method, line search, step length, tolerances, budget): the log against the residual re-evaluated at the returned iterate, the termination report against "
        "the requested tolerances sample by sample and against the iteration count, prefixes of growing budget against the Broyden recurrence of each sample alone; "
        "key = system, batch, width, method, search, alpha, outcome")
ASSUMPTIONS = ['states [batch, dim]; systems evaluated sample by sample', 'recurrences include the documented denominators\' 1e-6']
METHODS = ['broyden', 'broyden_fast']


class System:
    def __init__(self, ctx, d, dtype=torch.float64):
        r = lambda *s: torch.randn(*s, generator=ctx.gen, dtype=torch.float64).to(dtype)
        self.kind = ctx.rng.choice(['tanh', 'linear', 'cubic', 'sin', 'hard', 'wavy'])
        self.A = torch.eye(d, dtype=dtype) * 2 + .6 * r(d, d) / d ** .5
        self.b, self.W = r(d), r(d, d) / d ** .5
        self.batch = 0
    def __call__(self, z):
        if z.dim() == 2: self.batch += 1
        return self.value(z)
    def value(self, z):
        if self.kind == 'linear': return z @ self.A.T - self.b
        if self.kind == 'tanh': return z - torch.tanh(z @ self.W.T * .7 + self.b)
        if self.kind == 'cubic': return z @ self.A.T + .2 * z ** 3 - self.b
        if self.kind == 'sin': return z @ self.A.T + .5 * torch.sin(z) - self.b
        if self.kind == 'wavy': return z @ self.A.T + 2. * torch.sin(2 * z) - 3 * self.b   # steps overshoot, residuals grow before they shrink
        return z ** 3 - z @ self.W.T + self.b   # several roots, singular Jacobians nearby


def recurrence(g, z, method, alpha, K):
    "iterates of one sample [d]"
    J = torch.linalg.pinv(torch.autograd.functional.jacobian(g.value, z))
    zs, fs, ds = [z], [g.value(z)], [None]
    for _ in range(K):
        d = J @ fs[-1]
        z = zs[-1] - alpha * d
        f = g.value(z)
        dz, dg = z - zs[-1], f - fs[-1]
        r = dz - J @ dg
        if method == 'broyden': J = J + torch.outer(r, dz @ J) / (dz @ J @ dg + 1e-6)
        else: J = J + torch.outer(r, dg) / (dg @ dg + 1e-6)
        zs.append(z), fs.append(f), ds.append(d)
    return zs, fs, ds


def draw(ctx, dtype=torch.float64):
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3, 5])), many(rng, rng.choice([1, 2, 4]))
    g = System(ctx, d, dtype)
    z = (torch.randn(B, d, generator=ctx.gen, dtype=torch.float64) * rng.choice([.5, 1, 3])).to(dtype)
    return d, B, g, z


@family(quick=300, thorough=8000)
def iterates(ctx):
    "no line search: prefixes of growing budgets are the recurrence"
    rng = ctx.rng
    d, B, g, z0 = draw(ctx)
    method, alpha = rng.choice(METHODS), rng.choice([.1, .5, 1, 1., .8, rng.uniform(.05, 1.2)])
    K = rng.choice([1, 2, 3, 5, 8, 12])
    ctx.desc(system=g.kind, d=d, B=B, method=method, alpha=alpha, K=K)
    R = [recurrence(g, z, method, alpha, K) for z in z0]
    ref = torch.stack([torch.stack(r[0]) for r in R], 1)
    if not torch.isfinite(ref).all() or ref.abs().max() > 1e4: return ctx.ev('diverged')
    # sensitivity of the recurrence itself: chaotic ones are not comparable
    p = torch.stack([torch.stack(recurrence(g, z + 1e-9 * torch.randn(d, generator=ctx.gen, dtype=torch.float64), method, alpha, K)[0]) for z in z0], 1)
    amp = max(1., float((p - ref).abs().max()) / 1e-9)
    if not amp < 1e5: return ctx.ev('ill_conditioned')
    n = 0
    for k in sorted({1, K, rng.randint(1, K)}):
        keep = z0.clone()
        root, log = root_find(g, z0, alpha=alpha, f_tol=-1., maxiters=k, method=method, search_method='none')
        ctx.check(torch.equal(z0, keep), 'argument', 'the initial guess was changed')
        it = log.data['iteration']
        ctx.check(it == k and 'termination_condition' not in log.data, 'budget', f"{it} iterations with a budget of {k}")
        ctx.close(root, ref[k], 1e-9 * amp, f"iterate_{method}", f"iterate {k} (alpha {alpha})")
        ctx.close(log.data['dz'], torch.stack([r[2][k] for r in R]), 1e-8 * amp, f"direction_{method}", f"direction of step {k}")
        n += 1
    ctx.ev('prefixes', n)
    if n: ctx.key(g.kind, d, B, method, alpha, K)


@family(quick=420, thorough=12000)
def honesty(ctx):
    rng = ctx.rng
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    d, B, g, z0 = draw(ctx, dtype)
    method = rng.choice(METHODS)
    search = rng.choice(['none', 'none', 'naive', 'armijo'])
    alpha = rng.choice([.1, .5, 1])
    tol = dict(f_tol=rng.choice([1e-2, 1e-4, 1e-6, 10.]), f_rtol=rng.choice([.1, 1e-3, 1., 1e-5]), x_tol=rng.choice([1e-2, 1e-1, 1e-4, 10.]), x_rtol=rng.choice([1., .1, 1e-3, 10.]))
    # one criterion that decides alone
    lone = rng.choice([None, None, 'f_tol', 'f_rtol', 'f_rtol', 'x_tol', 'x_rtol'])
    if lone: tol = {k: rng.choice([.3, .1, .01]) if k == lone else 1e6 for k in tol}
    if lone == 'f_rtol':
        alpha, search = rng.choice([.5, 1, 1.7]), 'none'
        if rng.random() < .7: g.kind = 'wavy'
    N = rng.choice([1, 2, 5, 20, 60])
    verbose = rng.random() < .9
    ctx.desc(system=g.kind, d=d, B=B, dtype=dtype, method=method, search=search, alpha=alpha, N=N, **tol)
    root, log = root_find(g, z0.clone(), alpha=alpha, maxiters=N, method=method, search_method=search, verbose=verbose, **tol)
    ctx.check(tuple(root.shape) == (B, d) and root.dtype == dtype, 'shape', f"{tuple(root.shape)} {root.dtype}", stop=True)
    if not verbose: return ctx.check(True, 'silent')
    D = log.data
    ctx.check(torch.equal(D['z'], root) or not torch.isfinite(root).all(), 'logged', 'the logged iterate is not the returned one')
    if not torch.isfinite(root).all(): return ctx.ev('diverged')
    f = torch.stack([g.value(v) for v in root])
    e = 1e-11 if dtype == torch.float64 else 1e-4
    ctx.close(D['geval'], f, e, 'residual', 'logged residual is not that of the returned iterate', scale=float(root.abs().max()) ** 3 + 1)
    it, done = D['iteration'], D.get('termination_condition')
    ctx.check(1 <= it <= N, 'count', f"{it} iterations with a budget of {N}")
    f0 = torch.stack([g.value(v) for v in z0]).norm(dim=1)
    fn, dn, zn = f.norm(dim=1), D['dz'].norm(dim=1), root.norm(dim=1)
    s = 1 + 1e-5 if dtype == torch.float32 else 1 + 1e-9
    tiny = 1e-9 if dtype == torch.float64 else 1e-5
    if done is not None:
        ok = [(fn <= tol['f_tol'] * s + tiny), fn <= tol['f_rtol'] * f0 * s + tiny, dn <= tol['x_tol'] * s + tiny, dn <= tol['x_rtol'] * zn * s + tiny]
        ctx.check(all(bool(o.all()) for o in ok), 'honest', lambda: f"reports {done} with |f| {fn.tolist()}, |f0| {f0.tolist()}, |dz| {dn.tolist()}, |z| {zn.tolist()}")
        ctx.ev('terminated')
    else:
        ctx.check(it == N, 'budget', f"stopped after {it} of {N} iterations without a reason")
        met = (fn <= tol['f_tol'] / s).all() and (fn <= tol['f_rtol'] * f0 / s).all() and (dn <= tol['x_tol'] / s).all() and (dn <= tol['x_rtol'] * zn / s).all()
        ctx.check(not bool(met) or fn.max() < tiny, 'unreported', 'the last iterate meets every tolerance, yet no termination is reported')
        ctx.ev('exhausted')
    # asking again is deterministic
    r2, l2 = root_find(g, z0.clone(), alpha=alpha, maxiters=N, method=method, search_method=search, **tol)
    ctx.check(torch.equal(r2, root) and l2.data['iteration'] == it and l2.data.get('termination_condition') == done, 'again', 'a second call differs')
    # one iteration less does not meet the tolerances (with fixed steps the iterates are the same)
    if search == 'none' and done is not None and it > 1:
        _, l3 = root_find(g, z0.clone(), alpha=alpha, maxiters=it - 1, method=method, search_method=search, **tol)
        ctx.check('termination_condition' not in l3.data and l3.data['iteration'] == it - 1, 'earlier', 'an earlier iterate already met the tolerances')
    ctx.key(g.kind, d, B, method, search, alpha, str(dtype), 'terminated' if done else 'exhausted', it)


@family(quick=80, thorough=2000)
def converged(ctx):
    "well-behaved systems, full steps: the root is found, and found for every sample"
    rng = ctx.rng
    d, B = wide(rng, rng.choice([1, 2, 3])), many(rng, rng.choice([1, 3, 5]))
    g = System(ctx, d)
    g.kind = rng.choice(['linear', 'sin', 'cubic'])
    g.A = torch.eye(d, dtype=torch.float64) * 3 + .3 * g.W
    z0 = torch.randn(B, d, generator=ctx.gen, dtype=torch.float64)
    method = rng.choice(METHODS)
    ctx.desc(system=g.kind, d=d, B=B, method=method)
    root, log = root_find(g, z0, alpha=1., f_tol=1e-7, f_rtol=1e-3, x_tol=1e-5, x_rtol=10., maxiters=200, method=method, search_method='none')
    if 'termination_condition' not in log.data:
        # the relative conditions can be out of reach for a sample that started at its root
        return ctx.check(float(g.value(root).abs().max()) < 1e-4, 'converged', f"residual {float(g.value(root).abs().max()):.1e} after 200 iterations")
    ctx.check(float(g.value(root).norm(dim=1).max()) <= 1e-7 * 1.001, 'converged', 'residual')
    # alone or together
    i = rng.randrange(B)
    one, _ = root_find(g, z0[i:i + 1], alpha=1., f_tol=1e-7, f_rtol=1e-3, x_tol=1e-5, x_rtol=10., maxiters=200, method=method, search_method='none')
    ctx.close(one[0], root[i], 1e-5, 'batch', 'root of one sample depends on the batch')
    ctx.key(g.kind, d, B, method, ctx.index)


@family(quick=20, thorough=200)
def refused(ctx):
    rng = ctx.rng
    d, B, g, z0 = draw(ctx)
    bad = rng.choice([dict(method='secant'), dict(search_method='wolfe3'), dict(method=None)])
    ctx.desc(**{k: str(v) for k, v in bad.items()})
    try: root_find(g, z0, **bad); ok = False
    except Exception: ok = True
    ctx.check(ok, 'refused', f"{bad} accepted")
    ctx.key(str(bad), d, B)
