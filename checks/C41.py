"""C41: values and gradients do not depend on the mode of a call."""
import contextlib, copy
import torch
import torch.nn as nn
from torch.utils.checkpoint import checkpoint
from lib.core import family
from lib.zoo import ZOO, MORE, zoo, out, differentiable

PROPERTY = 'C41'
RULE = ("a zoo of 25 kinds of solve and model, each called plainly and then in other modes: gradients recorded, disabled, inference, anomaly detection, deterministic algorithms, saved-tensor hooks, training / evaluation, "
        "parameters frozen (all, some), inputs as leaves / results / parameters / not differentiable, states, grids and parameters in other memory layouts, hooks on modules, functional calls; gradients by autograd.grad / backward / "
        "accumulated / twice on one graph / under checkpointing / from sums of losses / with expanded and strided incoming gradients; rows and gradients must be those of the plain call; key = kind, mode, shape, grid")
ASSUMPTIONS = ['noise of trace estimators drawn from the same seed', 'inference mode only where the solve itself needs no derivative (torch returns zero derivatives in that mode)']
F64 = torch.float64
KINDS = ZOO + MORE
INNER = ('cnf', 'hnn', 'lnn', 'gnf')   # fields differentiate inside


def strided(ctx, v, how):
    "the same values in another memory layout"
    if v.dim() == 0 or v.numel() == 0: return v
    if how == 'step':
        big = torch.full(v.shape[:-1] + (2 * v.shape[-1],), float('nan'), dtype=v.dtype)
        big[..., ::2] = v
        return big[..., ::2]
    if how == 'offset':
        big = torch.full((v.numel() + 7,), float('nan'), dtype=v.dtype)
        big[5:5 + v.numel()] = v.reshape(-1)
        return big[5:5 + v.numel()].view(v.shape)
    if how == 'padded':
        big = torch.full(v.shape[:-1] + (v.shape[-1] + 3,), float('nan'), dtype=v.dtype)
        big[..., 1:-2] = v
        return big[..., 1:-2]
    # storage in the reverse order of axes
    p = list(range(v.dim()))[::-1]
    return v.permute(p).contiguous().permute(p)


LAYOUTS = ['step', 'offset', 'padded', 'transposed']


@contextlib.contextmanager
def deterministic():
    torch.use_deterministic_algorithms(True)
    try: yield
    finally: torch.use_deterministic_algorithms(False)


def frozen(m):
    q = copy.deepcopy(m)
    for p in q.parameters(): p.requires_grad_(False)
    return q


def mode_of(ctx, m, x, ts, kind):
    "-> (name, function returning the rows)"
    rng = ctx.rng
    modes = ['no_grad', 'inference', 'anomaly', 'deterministic', 'saved_hooks', 'eval', 'train', 'frozen', 'leaf', 'nonleaf', 'parameter', 'ts_grad', 'x_layout', 'ts_layout', 'p_layout', 'module_hooks', 'functional', 'expanded',
             'enable_in_no_grad', 'second', 'memo']
    name = rng.choice(modes)
    # inference tensors cannot enter graphs, and an energy differentiates whatever the mode
    if name == 'inference' and kind in INNER + ('root', 'shooting'): name = 'no_grad'
    if name == 'expanded' and kind in ('sde', 'nsde'): name = 'leaf'   # one path per sample
    if name == 'functional' and not list(m.parameters()): name = 'no_grad'
    if name == 'ts_grad' and kind in ('conv', 'galerkin'): name = 'leaf'
    if name == 'parameter' and kind in INNER + ('order2',): name = 'nonleaf'

    def go():
        call = lambda q=m, a=x, b=ts: out(q(a.clone() if a is x else a, b.clone() if b is ts else b))
        if name == 'no_grad':
            with torch.no_grad(): return call()
        if name == 'inference':
            with torch.inference_mode(): return call().clone()
        if name == 'anomaly':
            with torch.autograd.detect_anomaly(check_nan=False): return call(a=x.clone().requires_grad_(True))
        if name == 'deterministic':
            with deterministic(): return call()
        if name == 'saved_hooks':
            with torch.autograd.graph.saved_tensors_hooks(lambda v: v.clone(), lambda v: v): return call(a=x.clone().requires_grad_(True))
        if name in ('eval', 'train'):
            q = copy.deepcopy(m)
            getattr(q, name)()
            return call(q)
        if name == 'frozen': return call(frozen(m))
        if name == 'leaf': return call(a=x.clone().requires_grad_(True))
        if name == 'nonleaf': return call(a=x.clone().requires_grad_(True) * 1.)
        if name == 'parameter': return call(a=nn.Parameter(x.clone()))
        if name == 'ts_grad': return call(b=ts.clone().requires_grad_(True))
        if name == 'x_layout': return call(a=strided(ctx, x, rng.choice(LAYOUTS)))
        if name == 'ts_layout': return call(b=strided(ctx, ts, rng.choice(['step', 'offset'])))
        if name == 'p_layout':
            q = copy.deepcopy(m)
            for p in q.parameters(): p.data = strided(ctx, p.data, rng.choice(LAYOUTS))
            return call(q)
        if name == 'module_hooks':
            q = copy.deepcopy(m)
            for s in list(q.modules()):
                s.register_forward_hook(lambda *a: None)
                s.register_forward_pre_hook(lambda *a: None)
            return call(q)
        if name == 'functional':
            return out(torch.func.functional_call(m, {k: p.detach().clone() for k, p in m.named_parameters()}, (x.clone(), ts.clone())))
        if name == 'enable_in_no_grad':
            with torch.no_grad(), torch.enable_grad(): return call(a=x.clone().requires_grad_(True))
        if name == 'second':
            q = copy.deepcopy(m)
            with torch.no_grad(): call(q)
            return call(q, x.clone().requires_grad_(True))
        if name == 'memo':
            # in the backward pass of another computation
            got = []
            class Inside(torch.autograd.Function):
                @staticmethod
                def forward(ctx_, v): return v.clone()
                @staticmethod
                def backward(ctx_, g):
                    with torch.enable_grad(): got.append(call())
                    return g
            v = torch.ones(1, requires_grad=True)
            Inside.apply(v).sum().backward()
            return got[0]
        if name == 'expanded':   # one sample, repeated without copying
            return None
    return name, go


def seeded(fn, s):
    torch.manual_seed(s)
    return fn()


@family(quick=len(KINDS) * 30, thorough=len(KINDS) * 300)
def values(ctx):
    rng = ctx.rng
    kind = KINDS[ctx.index % len(KINDS)]
    label, m, x, ts, conf = zoo(ctx, kind)
    name, go = mode_of(ctx, m, x, ts, kind)
    ctx.desc(kind=label, mode=name, shape=tuple(x.shape), grid=conf[0], reverse=conf[1], n=len(ts))
    s = rng.randrange(10 ** 6)
    # rounding moves located events by up to the tolerance of a comparison
    tol = 1e-10 if kind != 'hybrid' else 1e-4
    if name == 'expanded':
        one = x[:1]
        y = seeded(lambda: out(m(one.repeat(*([3] + [1] * (x.dim() - 1))), ts.clone())), s)
        z = seeded(lambda: out(m(one.expand(3, *x.shape[1:]), ts.clone())), s)
    else:
        y = seeded(lambda: out(copy.deepcopy(m)(x.clone(), ts.clone())), s)
        z = seeded(go, s)
    ctx.check(y.dtype == z.dtype, 'dtype')
    if not torch.isfinite(y).all() or y.abs().max() > 1e6: return
    if kind == 'hybrid' and z.shape != y.shape: return
    ctx.close(z.detach(), y.detach(), tol, f"rows_{name}", f"rows in mode {name} differ from those of the plain call", scale=1 + float(y.detach().abs().max()))
    ctx.ev('calls', 2)
    ctx.key(label, name, conf)


@family(quick=len(KINDS) * 30, thorough=len(KINDS) * 300)
def gradients(ctx):
    rng = ctx.rng
    kind = rng.choice([k for k in KINDS if differentiable(k)])
    label, m, x, ts, conf = zoo(ctx, kind)
    adaptive = kind in ('adaptive', 'adaptive_wrapped', 'dense', 'hybrid', 'trajectory')
    modes = ['backward', 'accumulate', 'twice', 'some_frozen', 'x_fixed', 'nonleaf', 'ts_grad', 'anomaly', 'eval', 'saved_hooks', 'checkpoint', 'p_layout', 'x_layout', 'strided_grad', 'expanded_grad', 'rows', 'through', 'two_calls', 'interleaved',
             'one_by_one', 'thread', 'subset', 'after_inference', 'after_no_grad']
    # sums of losses: only where the backward pass is linear in the incoming gradient (no step control of its own)
    if 'adjoint' not in label or not adaptive: modes += ['sum', 'sum', 'scaled']
    name = rng.choice(modes)
    if name == 'ts_grad' and kind in ('conv', 'galerkin'): name = 'twice'
    if name == 'checkpoint' and kind in INNER: name = 'twice'
    ctx.desc(kind=label, mode=name, shape=tuple(x.shape), grid=conf[0], reverse=conf[1], n=len(ts))
    s = rng.randrange(10 ** 6)
    m0 = copy.deepcopy(m)

    def call(q=m, a=None, b=None):
        torch.manual_seed(s)
        return out(q(a, ts.clone() if b is None else b))
    a0 = x.clone().requires_grad_(True)
    y0 = call(m0, a0)
    if not y0.requires_grad: return
    if not torch.isfinite(y0).all() or y0.abs().max() > 1e6: return
    w = torch.randn(y0.shape, generator=ctx.gen, dtype=F64)
    if rng.random() < .3: w = w * (torch.rand(len(w), generator=ctx.gen) < .5).to(F64).reshape([-1] + [1] * (w.dim() - 1))
    if name in ('rows', 'expanded_grad'):
        i = rng.randrange(len(w))
        w = torch.zeros_like(w)
        w[i] = rng.choice([1., -.7]) if name == 'rows' else 0.
        if name == 'expanded_grad': w = torch.full_like(w, rng.uniform(-1, 1))

    def G(y, a, q, w=w, **kw):
        ps = [p for p in q.parameters() if p.requires_grad]
        gs = torch.autograd.grad((w * y).sum(), [a] + ps if a is not None and a.requires_grad else ps, allow_unused=True, **kw)
        return [torch.zeros_like(p) if g is None else g for g, p in zip(gs, [a] + ps if a is not None and a.requires_grad else ps)]
    ref = G(y0, a0, m0)
    sc = 1 + max(float(g.abs().max()) for g in ref if g.numel())
    if not sc < 1e6: return

    def equal(gs, rs, what=''):
        ctx.check(len(gs) == len(rs), 'gradients', f"{len(gs)} gradients, expected {len(rs)}", stop=True)
        for g, r in zip(gs, rs):
            ctx.check(g.shape == r.shape, 'gradient_shape', f"{tuple(g.shape)}")
            if g.numel(): ctx.close(g, r, 1e-10 if kind != 'hybrid' else 1e-4, f"gradient_{name}", f"gradient in mode {name}{what} differs from that of the plain call", scale=sc)
    a = x.clone().requires_grad_(True)
    q = copy.deepcopy(m)
    ps = [p for p in q.parameters() if p.requires_grad]
    dense = lambda v: torch.zeros_like(v) if v.grad is None else v.grad
    if name == 'backward':
        (w * call(q, a)).sum().backward()
        equal([dense(v) for v in [a] + ps], ref)
    elif name == 'accumulate':
        k = rng.randint(2, 3)
        for _ in range(k): (w * call(q, a)).sum().backward()
        equal([dense(v) / k for v in [a] + ps], ref)
    elif name == 'twice':
        y = call(q, a)
        one, two = G(y, a, q, retain_graph=True), G(y, a, q)
        equal(one, ref, ' (first pass)'), equal(two, ref, ' (second pass)')
    elif name == 'some_frozen':
        keep = [rng.random() < .5 for _ in ps]
        for p, k in zip(ps, keep): p.requires_grad_(k)
        equal(G(call(q, a), a, q), ref[:1] + [r for r, k in zip(ref[1:], keep) if k])
    elif name == 'x_fixed':
        if not ps: return
        y = call(q, x.clone())
        if not y.requires_grad: return ctx.check(all(float(r.abs().max()) == 0 for r in ref[1:] if r.numel()), 'no_graph', 'the rows do not depend on the parameters')
        g = G(y, None, q)
        equal(g, ref[1:])
    elif name == 'nonleaf':
        b = x.clone().requires_grad_(True)
        g = torch.autograd.grad((w * call(q, b * 1.)).sum(), [b] + ps, allow_unused=True)
        equal([torch.zeros_like(p) if v is None else v for v, p in zip(g, [b] + ps)], ref)
    elif name == 'ts_grad': equal(G(call(q, a, ts.clone().requires_grad_(True)), a, q), ref)
    elif name == 'anomaly':
        with torch.autograd.detect_anomaly(check_nan=False): g = G(call(q, a), a, q)
        equal(g, ref)
    elif name in ('after_inference', 'after_no_grad'):   # validated before it is trained
        with torch.no_grad() if name == 'after_no_grad' or kind in INNER + ('shooting',) else torch.inference_mode(): call(q, x.clone())
        equal(G(call(q, a), a, q), ref)
    elif name == 'eval': equal(G(call(q.eval(), a), a, q), ref)
    elif name == 'saved_hooks':
        with torch.autograd.graph.saved_tensors_hooks(lambda v: v.clone(), lambda v: v): y = call(q, a)
        equal(G(y, a, q), ref)
    elif name == 'checkpoint': equal(G(checkpoint(lambda v: call(q, v), a, use_reentrant=False, preserve_rng_state=False), a, q), ref)
    elif name == 'p_layout':
        for p in q.parameters(): p.data = strided(ctx, p.data, rng.choice(LAYOUTS))
        equal(G(call(q, a), a, q), ref)
    elif name == 'x_layout':
        b = strided(ctx, x, rng.choice(LAYOUTS)).detach().requires_grad_(True)
        equal(G(call(q, b), b, q), ref)
    elif name in ('strided_grad', 'expanded_grad'):
        for how in LAYOUTS if name == 'strided_grad' else [None]:
            y = call(q, a)
            go = strided(ctx, w, how) if how else w.reshape(-1)[:1].reshape([1] * w.dim()).expand(w.shape)
            before = go.clone()
            g = torch.autograd.grad(y, [a] + ps, go, allow_unused=True)
            equal([torch.zeros_like(p) if v is None else v for v, p in zip(g, [a] + ps)], ref)
            ctx.check(torch.equal(go, before), 'gradient_modified', f"the backward pass modified the gradient it was given ({how})")
    elif name == 'rows':
        y = call(q, a)
        g = torch.autograd.grad(y[i].sum() * w[i].reshape(-1)[0], [a] + ps, allow_unused=True)
        equal([torch.zeros_like(p) if v is None else v for v, p in zip(g, [a] + ps)], ref)
    elif name == 'through':   # the solve in the middle of a computation
        y = call(q, a)
        z = torch.zeros_like(y).requires_grad_(True)
        g = torch.autograd.grad(((y * w + z) * 2.).sum() / 2, [a] + ps + [z], allow_unused=True)
        equal([torch.zeros_like(p) if v is None else v for v, p in zip(g[:-1], [a] + ps)], ref)
    elif name == 'two_calls':   # one backward pass through two solves of one model
        b = (x + .3).clone().requires_grad_(True)
        ya, yb = call(q, a), call(q, b)
        if yb.shape != ya.shape: return
        r2 = torch.randn(yb.shape, generator=ctx.gen, dtype=F64)
        a1 = b.detach().clone().requires_grad_(True)
        refb = G(call(m0, a1), a1, m0, r2)
        if not max(float(g.abs().max()) for g in refb if g.numel()) < 1e6: return
        g = torch.autograd.grad((w * ya).sum() + (r2 * yb).sum(), [a, b] + ps, allow_unused=True)
        g = [torch.zeros_like(p) if v is None else v for v, p in zip(g, [a, b] + ps)]
        sc += max(float(v.abs().max()) for v in refb if v.numel())
        equal(g, [ref[0], refb[0]] + [u + v for u, v in zip(ref[1:], refb[1:])])
    elif name == 'interleaved':   # backward passes in the other order than the solves
        b = (x - .2).clone().requires_grad_(True)
        ya, yb = call(q, a), call(q, b)
        torch.autograd.grad(yb.sum(), [b], allow_unused=True)
        equal(G(ya, a, q), ref)
    elif name == 'one_by_one':
        y = call(q, a)
        vs = [a] + ps
        g = [torch.autograd.grad((w * y).sum(), v, allow_unused=True, retain_graph=True)[0] for v in vs]
        equal([torch.zeros_like(p) if v is None else v for v, p in zip(g, vs)], ref)
    elif name == 'subset':
        k = rng.randrange(1 + len(ps))
        vs = ([a] + ps)[k:k + 1]
        g = torch.autograd.grad((w * call(q, a)).sum(), vs, allow_unused=True)
        equal([torch.zeros_like(p) if v is None else v for v, p in zip(g, vs)], ref[k:k + 1])
    elif name == 'thread':
        import threading
        y, box = call(q, a), []
        th = threading.Thread(target=lambda: box.append(G(y, a, q)))
        th.start(), th.join()
        ctx.check(len(box) == 1, 'thread', 'the backward pass failed in another thread', stop=True)
        equal(box[0], ref)
    elif name in ('sum', 'scaled'):
        u = torch.rand(w.shape, generator=ctx.gen, dtype=F64) * 4 - 2
        y = call(q, a)
        if name == 'sum':
            g1, g2 = G(y, a, q, w * u, retain_graph=True), G(y, a, q, w * (1 - u))
            sc += max(float(v.abs().max()) for v in g1 + g2 if v.numel())
            equal([p + r for p, r in zip(g1, g2)], ref)
        else:
            c = 2. ** rng.randint(-40, 40) * rng.choice([1, -1])
            equal([g / c for g in G(y, a, q, w * c)], ref)
    ctx.ev('gradients', len(ref))
    ctx.key(label, name, conf)
