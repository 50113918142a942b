import sys
R=sys.argv[1]
def ed(f, *prs):
    p=f'{R}/torchdyn/{f}'; s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
ed('models/energy.py',
 ("            dHdx = torch.einsum('ijk, ij -> ik', self._generate_skew(x), dHdx)\n        return dHdx","            S = self._generate_skew(x)\n            out = torch.bmm(dHdx[:, None], S)[:, 0]\n        return out"),
 ("            eps = self.energy(x).sum()\n            out = -torch.autograd.grad(eps, x, allow_unused=False, create_graph=True)[0]\n        return out","            return torch.autograd.grad(-self.energy(x).sum(), x, create_graph=True)[0]"),
 ("            gradH = grad(self.net(x).sum(), x, create_graph=True)[0]\n        return torch.cat([gradH[:, n:], -gradH[:, :n]], 1).to(x)","            energy = self.net(x).sum()\n            dq, dp = grad(energy, x, create_graph=True)[0].split([n, x.shape[1] - n], 1)\n        return torch.cat([dp, dq.neg()], dim=1).to(x)"),
 ("        jac = tuple(map(partial(jacobian, self._lagrangian, create_graph=True), qqd_batch))\n        hess = tuple(map(partial(hessian, self._lagrangian, create_graph=True), qqd_batch))\n        qdd_batch = tuple(map(self._qdd, zip(jac, hess, qqd_batch)))\n        qd, qdd = x[:, n:], torch.cat([qdd[None] for qdd in qdd_batch])\n        return torch.cat([qd, qdd], 1)",
  "        rows = []\n        for el in qqd_batch:\n            J = jacobian(self._lagrangian, el, create_graph=True)\n            Hs = hessian(self._lagrangian, el, create_graph=True)\n            rows.append(self._qdd((J, Hs, el)))\n        return torch.cat([x[:, n:], torch.stack(rows)], 1)"))
ed('models/cnf.py',
 ("    trJ = 0.\n    for i in range(x_in.shape[1]):\n        trJ += grad(x_out[:, i].sum(), x_in, allow_unused=False, create_graph=True)[0][:, i]\n    return trJ",
  "    terms = [grad(x_out[:, i].sum(), x_in, create_graph=True)[0][:, i] for i in reversed(range(x_in.shape[1]))]\n    return torch.stack(terms).sum(0)"),
 ("    trJ = torch.einsum('bi,bi->b', jvp, noise)\n\n    return trJ","    return (noise * jvp).sum(1)"))
ed('nn/node_layers.py',
 ("            # if-else check for augmentation order\n            if self.order == 'first':\n                x = torch.cat([self.augment_func(x).to(x), x],\n                              self.augment_idx)\n            else:\n                x = torch.cat([x, self.augment_func(x).to(x)],\n                               self.augment_idx)\n        return x",
  "            aug = self.augment_func(x).to(x)\n            parts = (aug, x) if self.order == 'first' else (x, aug)\n            x = torch.cat(parts, self.augment_idx)\n        return x"),
 ("        t = self.t * torch.ones(t_shape).to(x)\n","        t = torch.ones(t_shape, dtype=x.dtype, device=x.device) * self.t\n"))
ed('core/defunc.py',
 ("        for _, module in self.vf.named_modules():\n            if hasattr(module, \"t\"):\n                module.t = t\n","        self._share_time(t)\n"),
 ("    def higher_order_forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:\n        x_new = []\n        size_order = x.size(1) // self.order\n        for i in range(1, self.order):\n            x_new.append(x[:, size_order * i : size_order * (i + 1)])\n        x_new.append(self.vf(t, x, args=args))\n        return cat(x_new, dim=1).to(x)",
  "    def _share_time(self, t):\n        for module in self.vf.modules():\n            if hasattr(module, 't'): setattr(module, 't', t)\n\n    def higher_order_forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:\n        size_order = x.size(1) // self.order\n        last = self.vf(t, x, args=args)\n        return cat([x[:, size_order: size_order * self.order], last], dim=1).to(x)"),
 ("            x_dyn = x[:, 1:]\n            dlds = self.integral_loss(t, x_dyn)\n            if len(dlds.shape) == 1:\n                dlds = dlds[:, None]\n            if self.order > 1:\n                x_dyn = self.higher_order_forward(t, x_dyn, args)\n            else:\n                x_dyn = self.vf(t, x_dyn, args=args)\n            return cat([dlds, x_dyn], 1).to(x_dyn)",
  "            x_dyn = x[:, 1:]\n            step = self.higher_order_forward if self.order > 1 else self._first_order\n            dx = step(t, x_dyn, args)\n            dlds = self.integral_loss(t, x_dyn)\n            if dlds.dim() == 1:\n                dlds = dlds.unsqueeze(1)\n            return cat([dlds, dx], 1).to(dx)"),
 ("    def _share_time","    def _first_order(self, t, x, args): return self.vf(t, x, args=args)\n\n    def _share_time"))
ed('core/neuralde.py',
 ("        if t_span is None and self.t_span is None:\n            t_span = torch.linspace(0, 1, 2)\n        elif t_span is None:\n            t_span = self.t_span\n\n        # loss dimension","        if t_span is None:\n            t_span = self.t_span if self.t_span is not None else torch.linspace(0, 1, 2)\n\n        # loss dimension"),
 ("        _, sol = odeint(\n            self.vf, x, t_span, solver=self.solver, atol=self.atol, rtol=self.rtol\n        )\n        return sol","        return odeint(self.vf, x, t_span, self.solver, atol=self.atol, rtol=self.rtol)[1]"))
O='numerics/odeint.py'
ed(O,
 ("""		if seminorm[0] == True:
			state_dim = seminorm[1]
			error = x_err[:state_dim]
			error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
		else:
			error = x_err
			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
		error_ratio = hairer_norm(error_scaled)
		accept_step = error_ratio <= 1

		if accept_step:
""","""		error_ratio = _error_ratio(x_err, x, x_new, atol, rtol, seminorm)
		accept_step = not (error_ratio > 1) and bool(error_ratio == error_ratio)

		if accept_step:
"""),
 ("""		if seminorm[0] == True:
			state_dim = seminorm[1]
			error = x_err[:state_dim]
			error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
		else:
			error = x_err
			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))

		error_ratio = hairer_norm(error_scaled)
""","""		error_ratio = _error_ratio(x_err, x, x_new, atol, rtol, seminorm)
"""),
 ("def _adaptive_odeint(f, k1,","def _error_ratio(err, x, x_new, atol, rtol, seminorm):\n	if seminorm[0] == True: err, x, x_new = [el[:seminorm[1]] for el in (err, x, x_new)]\n	return hairer_norm(err / (torch.maximum(x.abs(), x_new.abs()) * rtol + atol))\n\n\ndef _adaptive_odeint(f, k1,"),
 ("				coefs = None\n				while (ckpt_counter < len(t_eval)) and (t_next > t_eval[ckpt_counter]):\n					t0, t1 = t, t_next\n					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])\n					f0, f1, x0, x1 = k1, f_new, x, x_new\n					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)\n					x_in = interpolator.evaluate(coefs, t0, t1, t_eval[ckpt_counter])\n",
  "				x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])\n				coefs = interpolator.fit(dt, stages[0], f_new, x, x_new, x_mid)\n				while (ckpt_counter < len(t_eval)) and (t_next > t_eval[ckpt_counter]):\n					x_in = interpolator.evaluate(coefs, t, t_next, t_eval[ckpt_counter])\n"),
 ("	if t_span[1] < t_span[0] and solver.stepping_class != 'fixed': # time is reversed\n		if verbose: warn(\"You are integrating on a reversed time domain, adjusting the vector field automatically\")\n		f_ = lambda t, x: -f(-t, x)\n",
  "	if solver.stepping_class != 'fixed' and t_span[0] > t_span[-1]: # time is reversed\n		if verbose: warn(\"You are integrating on a reversed time domain, adjusting the vector field automatically\")\n		def f_(t, x): return f(-t, x).neg()\n"),
 ("			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])\n","			i = next(k for k, flag in enumerate(new_event_states.evid) if flag == True)\n"),
 ("	return torch.cat(eval_times), torch.stack(sol)\n\n\ndef _save","	eval_times, sol = torch.cat(eval_times), torch.stack(sol)\n	return eval_times, sol\n\n\ndef _save"))
ed('numerics/sensitivity.py',
 ("            for i in range(len(t_span) - 1, 0, -1):\n                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0),\n                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)\n                # prepare adjoint state for next interval\n                A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])\n                A[:λT_nel] += grad_output[-1][i - 1].flatten()\n",
  "            for i in reversed(range(1, len(t_span))):\n                A = odeint(adjoint_dynamics, A, torch.stack([t_span[i], t_span[i - 1]]),\n                           solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)[1][-1]\n                A = torch.cat([A[:λT_nel] + grad_output[-1][i - 1].flatten(), A[λT_nel:]])\n"),
 ("                A = torch.cat([A[-1, :xT_nel], A[-1, xT_nel:xT_nel + λT_nel], A[-1, -μT_nel-1:-1], A[-1, -1:]])\n                A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()\n",
  "                A = A[-1].clone()\n                A[xT_nel:xT_nel + λT_nel] = A[xT_nel:xT_nel + λT_nel] + grad_output[-1][i - 1].flatten()\n"))
ed('datasets/static_datasets.py',
 ("    for i in range(n_samples // 2):\n        X[i] = randnsphere(dim, inner_radius)\n    X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)\n    samples = []\n    for i in range(n_samples - n_samples // 2):\n        samples.append(randnsphere(dim, outer_radius)[None, :])\n    X[n_samples // 2:] = cat(samples)\n    X[n_samples // 2:] += zeros((n_samples - n_samples // 2, dim)).normal_(0, std=noise)\n    return X, y",
  "    for i in range(n_samples):\n        X[i] = randnsphere(dim, inner_radius if i < n_samples // 2 else outer_radius)\n    X += noise * torch.randn(n_samples, dim)\n    return X, y"))
p=f'{R}/torchdyn/datasets/static_datasets.py'; s=open(p).read()
s=s.replace("        X[i*n_samples:(i+1)*n_samples] = dist.sample(sample_shape=(n_samples,)) + torch.randn(dim)*noise\n        y[i*n_samples:(i+1)*n_samples] = i\n","        sl = slice(i * n_samples, (i + 1) * n_samples)\n        offset = noise * torch.randn(dim)\n        X[sl] = offset + dist.sample((n_samples,))\n        y[sl] = i\n"); open(p,'w').write(s)
ed('numerics/solvers/sde.py',
 ("        f = self.sde.f(t, x)\n        g = self.sde.g(t, x)\n        x_prime = x + g * self.bm(t, next_t)\n","        g = self.sde.g(t, x)\n        f = self.sde.f(t, x)\n        x_prime = x + self.bm(t, next_t) * g\n"))
p=f'{R}/torchdyn/numerics/systems.py'; s=open(p).read()
s=s.replace("            sol = []\n            for s_ in s:\n                sol += [(self.A[:, :, 0] * torch.cos(self.w[:, :, 0] * s_ + self.phi[:, :, 0]) +\n                         self.A[:, :, 1] * torch.cos(self.w[:, :, 1] * s_ + self.phi[:, :, 1])).sum(1)[None, :]]\n            return torch.cat(sol)","            ss = s[:, None, None, None]\n            return (self.A * torch.cos(self.w * ss + self.phi)).sum((2, 3))"); open(p,'w').write(s)
ed('numerics/solvers/ode.py',
 ("        i = 0\n        while i <= min(maxiter, n_subinterv - 1): # after `n_subinterv` sweeps all shooting parameters are exact\n            i += 1\n            B_coarse","        for i in range(1, min(maxiter, n_subinterv - 1) + 2):\n            B_coarse"),
 ("        i = 0\n        while i <= min(maxiter, n_subinterv - 1): # after `n_subinterv` sweeps all shooting parameters are exact\n            i += 1\n            B_fine = fine(B[i-1:])","        for i in range(1, min(maxiter, n_subinterv - 1) + 2):\n            B_fine = fine(B[i-1:])"))
ed('numerics/solvers/root.py',
 ("        alpha = alpha0\n        phi_a0 = self.phi(alpha)\n        while phi_a0 > self.phi0 and alpha > min_alpha:\n            alpha = mult_factor*alpha\n            phi_a0 = self.phi(alpha)\n        return alpha, phi_a0","        alpha = alpha0\n        while True:\n            phi_a0 = self.phi(alpha)\n            if not (phi_a0 > self.phi0 and alpha > min_alpha): return alpha, phi_a0\n            alpha = mult_factor*alpha"))
