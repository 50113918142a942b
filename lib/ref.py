"""Reference models: textbook one-step rules and independent high-accuracy solutions."""
import numpy as np
import torch
from scipy.integrate import solve_ivp


def euler(f, t, dt, x): return x + dt * f(t, x)


def midpoint(f, t, dt, x): return x + dt * f(t + dt / 2, x + dt / 2 * f(t, x))


def rk4(f, t, dt, x):
    k1 = f(t, x)
    k2 = f(t + dt / 2, x + dt / 2 * k1)
    k3 = f(t + dt / 2, x + dt / 2 * k2)
    k4 = f(t + dt, x + dt * k3)
    return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


DOPRI5 = dict(
    c=[0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1, 1],
    a=[[], [1 / 5], [3 / 40, 9 / 40], [44 / 45, -56 / 15, 32 / 9],
       [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
       [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656],
       [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84]],
    b=[35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84, 0])

TSIT5 = dict(
    c=[0, 0.161, 0.327, 0.9, 0.9800255409045097, 1, 1],
    a=[[], [0.161], [-0.008480655492356989, 0.335480655492357],
       [2.8971530571054935, -6.359448489975075, 4.3622954328695815],
       [5.325864828439257, -11.748883564062828, 7.4955393428898365, -0.09249506636175525],
       [5.86145544294642, -12.92096931784711, 8.159367898576159, -0.071584973281401, -0.028269050394068383],
       [0.09646076681806523, 0.01, 0.4798896504144996, 1.379008574103742, -3.290069515436081, 2.324710524099774]],
    b=[0.09646076681806523, 0.01, 0.4798896504144996, 1.379008574103742, -3.290069515436081, 2.324710524099774, 0])


def rk(tab):
    def step(f, t, dt, x):
        ks = []
        for c, a in zip(tab['c'], tab['a']):
            ks.append(f(t + c * dt, x + dt * sum((w * k for w, k in zip(a, ks)), torch.zeros_like(x))))
        return x + dt * sum(w * k for w, k in zip(tab['b'], ks))
    return step


dopri5, tsit5 = rk(DOPRI5), rk(TSIT5)
STEPS = dict(euler=euler, midpoint=midpoint, rk4=rk4, dopri5=dopri5, tsit5=tsit5)
ORDERS = dict(euler=1, midpoint=2, rk4=4, dopri5=5, tsit5=5)


def compose(step, f, x, ts):
    "serial composition of a one-step rule over the intervals of a grid (works with autograd)"
    rows = [x]
    for a, b in zip(ts[:-1], ts[1:]):
        rows.append(step(f, a, b - a, rows[-1]))
    return torch.stack(rows)


def fine(f, x, ts, sub=40, step=rk4):
    "differentiable high-accuracy trajectory: `sub` fine steps in every interval"
    rows = [x]
    for a, b in zip(ts[:-1], ts[1:]):
        y, h = rows[-1], (b - a) / sub
        for i in range(sub): y = step(f, a + i * h, h, y)
        rows.append(y)
    return torch.stack(rows)


def truth(f, x, ts, rtol=1e-11, atol=1e-12, max_step=None):
    "independent solution by scipy's DOP853; real or complex states of any shape"
    cplx = x.is_complex()
    x0 = torch.view_as_real(x.to(torch.complex128)) if cplx else x.to(torch.float64)
    shape = x0.shape

    def rhs(t, y):
        y = torch.as_tensor(np.asarray(y)).reshape(shape)
        if cplx: y = torch.view_as_complex(y.contiguous())
        with torch.no_grad():
            dy = f(torch.tensor(t, dtype=torch.float64), y)
            if cplx: dy = torch.view_as_real(dy)
        return dy.to(torch.float64).reshape(-1).numpy()
    tt = ts.detach().to(torch.float64).numpy()
    kw = {} if max_step is None else dict(max_step=max_step)
    sol = solve_ivp(rhs, (tt[0], tt[-1]), x0.detach().reshape(-1).numpy(), method='DOP853', t_eval=tt, rtol=rtol, atol=atol, **kw)
    assert sol.success and sol.y.shape[1] == len(tt), sol.message
    y = torch.as_tensor(sol.y.T).reshape(len(tt), *shape)
    return torch.view_as_complex(y.contiguous()) if cplx else y


def rms(x): return (x.abs() ** 2).mean().sqrt()


def amplification(f, x, ts, ctx):
    "largest growth of a small perturbation along the solution"
    a = 1.
    base = fine(f, x, ts, 12)
    for _ in range(2):
        v = torch.randn(x.shape, generator=ctx.gen, dtype=torch.float64)
        v = 1e-6 * v / v.abs().max()
        for i in sorted({0, len(ts) // 2}):
            if i >= len(ts) - 1: continue
            d = fine(f, base[i] + v, ts[i:], 12) - base[i:]
            a = max(a, (d.abs().max() / 1e-6).item())
    return a
