import sys
R=sys.argv[1]
def ed(f, *prs):
    p=f'{R}/torchdyn/{f}'; s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
O='numerics/odeint.py'
ed('numerics/utils.py',
 ("    return tensor.abs().pow(2).mean().sqrt()","    flat = tensor.reshape(-1)\n    return (flat.abs() ** 2).mean() ** 0.5"),
 ("        h0 = 0.01 * d0 / d1\n","        h0 = d0 / (d1 * 100)\n"),
 ("    dt = torch.min(100 * h0, h1).to(t0)\n    return dt","    return torch.minimum(h0 * 100, h1).to(t0)"),
 ("    if error_ratio < 1: min_factor = torch.ones_like(dt)\n    exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()\n    factor = torch.min(max_factor, torch.max(safety / error_ratio ** exponent, min_factor))\n    return dt * factor.to(dt)",
  "    lo = torch.ones_like(dt) if error_ratio < 1 else min_factor\n    factor = (safety * error_ratio ** (-1. / order)).to(dt)\n    factor = torch.maximum(factor, lo)\n    factor = torch.minimum(factor, max_factor)\n    return factor * dt"))
ed('numerics/solvers/ode.py',
 ("        x_sol = x + dt * (bsol[0] * k1 + bsol[1] * k2 + bsol[2] * k3 + bsol[3] * k4)\n        return None, x_sol, None",
  "        ks = (k1, k2, k3, k4)\n        x_sol = x\n        for b, k in zip(bsol, ks):\n            x_sol = x_sol + (dt * b) * k\n        return None, x_sol, None"),
 ("        x_mid = x + 0.5 * dt * k1\n        x_sol = x + dt * f(t + 0.5 * dt, x_mid)","        half = dt / 2\n        x_sol = x + dt * f(t + half, x + half * k1)"),
 ("        v1 = 2 * self.const * (vt1 - v) + v\n","        v1 = 2 * self.const * vt1 - (2 * self.const - 1) * v\n"),
)
p=f'{R}/torchdyn/numerics/solvers/ode.py'; s=open(p).read()
i=s.index('class DormandPrince45'); j=s.index('class ImplicitEuler')
new='''def _embedded_step(solver, f, x, t, dt, k1):
    c, a, bsol, berr = solver.tableau
    if k1 is None: k1 = f(t, x)
    ks = [k1]
    for ci, ai in zip(c, a):
        ai = ai.reshape(-1)
        inc = ai[0] * ks[0]
        for w, k in zip(ai[1:], ks[1:]): inc = inc + w * k
        ks.append(f(t + ci * dt, x + dt * inc))
        if len(ks) == 7: break
    total = bsol[0] * ks[0]
    for w, k in zip(bsol[1:6], ks[1:6]): total = total + w * k
    err = berr[0] * ks[0]
    for w, k in zip(berr[1:], ks[1:]): err = err + w * k
    return ks[-1], x + dt * total, dt * err, tuple(ks)


class DormandPrince45(DiffEqSolver):
    def __init__(self, dtype=torch.float32):
        super().__init__(order=5)
        self.dtype = dtype
        self.stepping_class = 'adaptive'
        self.tableau = construct_dopri5(self.dtype)

    def step(self, f, x, t, dt, k1=None, args=None) -> Tuple:
        return _embedded_step(self, f, x, t, dt, k1)


class Tsitouras45(DiffEqSolver):
    def __init__(self, dtype=torch.float32):
        super().__init__(order=5)
        self.dtype = dtype
        self.stepping_class = 'adaptive'
        self.tableau = construct_tsit5(self.dtype)

    def step(self, f, x, t, dt, k1=None, args=None) -> Tuple:
        return _embedded_step(self, f, x, t, dt, k1)


'''
open(p,'w').write(s[:i]+new+s[j:])
ed('numerics/solvers/ode.py',
 ("                B_in = B_in - B_coarse[m-i] + B_fine[m-i]","                B_in = B_in + (B_fine[m-i] - B_coarse[m-i])"),
 ("        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)\n        i = 0\n","        sub_t_span = (torch.linspace(0, 1, fine_steps).to(x) * dt).to(x)\n        i = 0\n"))  if False else None
ed('numerics/interpolators.py',
 ("        result = coefs[0] + theta * coefs[1] \n        theta_power = theta\n        for coef in coefs[2:]:\n            theta_power = theta_power * theta\n            result += theta_power * coef\n        return result",
  "        result = coefs[-1]\n        for coef in coefs[-2::-1]:\n            result = coef + theta * result\n        return result"))
ed(O,
 ("	steps = 1\n	while steps <= len(t_span) - 1:\n		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)\n		t = t + dt\n\n		if steps in save_idx:\n			sol[steps] = x\n		if steps < len(t_span) - 1: dt = t_span[steps+1] - t\n		steps += 1\n",
  "	for steps in range(1, len(t_span)):\n		t, dt = t_span[steps - 1], t_span[steps] - t_span[steps - 1]\n		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)\n		if steps in save_idx: sol[steps] = x\n"),
 ("					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])\n","					x_mid = x + sum([(dt * b) * k for b, k in zip(interpolator.bmid, stages)])\n"),
 ("					dt_inner = dt_inner / 2\n","					dt_inner = 0.5 * dt_inner\n"),
)
ed('numerics/sdeint.py',
 ("    steps = 1  # starting with 1\n    while steps <= len(t_span) - 1:\n        _, x, _ = solver.step(x, t, dt)\n        t = t + dt\n        if steps in save_idx:\n            sol[steps] = x\n        if steps < len(t_span) - 1:\n            dt = t_span[steps + 1] - t\n        steps += 1\n",
  "    for steps in range(1, len(t_span)):\n        t, dt = t_span[steps - 1], t_span[steps] - t_span[steps - 1]\n        _, x, _ = solver.step(x, t, dt)\n        if steps in save_idx:\n            sol[steps] = x\n"))
ed('numerics/solvers/sde.py',
 ("        x_sol = x + self.sde.f(t, x) * dt + self.sde.g(t, x) * self.bm(t, next_t)\n","        dw = self.bm(t, next_t)\n        x_sol = x + (self.sde.g(t, x) * dw + dt * self.sde.f(t, x))\n"),
 ("            x + f * dt + (g + self.sde.g(next_t, x_prime)) * 0.5 * self.bm(t, next_t)\n","            x + f * dt + 0.5 * self.bm(t, next_t) * (self.sde.g(next_t, x_prime) + g)\n"),
 ("        x_sol = x + f * dt + g * bm_ + (gdg * 1 / (2 * sqrt_dt)) * v\n","        x_sol = x + (f * dt + g * bm_ + gdg * v / sqrt_dt / 2)\n"))
ed('numerics/sensitivity.py',
 ("            λtT = λT_flat @ vf(t_sol[-1], xT).flatten()\n","            λtT = (λT_flat * vf(t_sol[-1], xT).flatten()).sum()\n"),
 ("                dLdt[i-1] = λt @ vf(t_sol[i - 1], xt).flatten()\n","                dLdt[i-1] = (λt * vf(t_sol[i - 1], xt).flatten()).sum()\n"))
ed('numerics/solvers/hyper.py',) 
p=f'{R}/torchdyn/numerics/solvers/hyper.py'; s=open(p).read()
s=s.replace("        _, x_sol, _ = super().step(f, x, t, dt, k1)\n        return None, x_sol + dt**(self.op1) * self.hypernet(t, x), None","        residual = self.hypernet(t, x) * dt**(self.op1)\n        return None, super().step(f, x, t, dt, k1)[1] + residual, None"); open(p,'w').write(s)
ed('nn/galerkin.py',
 ("        B = []  \n        for i in range(self.n_eig):\n            Bin = torch.eye(self.deg).to(self.coeffs)\n            Bin[range(self.deg), range(self.deg)] = basis[i]\n            B.append(Bin)\n        B = torch.cat(B, 1).to(self.coeffs.device)\n        coeffs = torch.cat([self.coeffs[:,:,i] for i in range(self.n_eig)],1).transpose(0,1).to(self.coeffs.device) \n        X = torch.matmul(B, coeffs)\n        return X.sum(0)",
  "        out = 0.\n        for i in range(self.n_eig):\n            out = out + self.coeffs[:, :, i] @ (torch.ones(self.deg).to(self.coeffs) * basis[i])\n        return out"))
ed('numerics/solvers/root.py',
 ("        z = z0 - alpha * dz\n        geval = g(z)\n        Δz, Δg = z - z0, geval - geval_old","        step = -alpha * dz\n        z = z0 + step\n        geval = g(z)\n        Δz, Δg = step, geval - geval_old"))
