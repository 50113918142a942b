From 125a34854444296d2d879bddccb08bc2cfa9edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 01/57] fix: rk4 stage times (k2 was evaluated at t, k4 at
 t+dt/2, first order on time-varying fields)

---
 torchdyn/numerics/solvers/_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/_constants.py b/torchdyn/numerics/solvers/_constants.py
index e7d4fff..06ea0cf 100644
--- a/torchdyn/numerics/solvers/_constants.py
+++ b/torchdyn/numerics/solvers/_constants.py
@@ -18,7 +18,7 @@ ExplicitRKTableau = namedtuple('ExplicitRKTableau', 'c, A, b_sol, b_err')
 
 
 def construct_rk4(dtype):
-    c = torch.tensor([0., 1 / 2, 1 / 2, 1], dtype=dtype)
+    c = torch.tensor([1 / 2, 1 / 2, 1.], dtype=dtype)
     a = [
         torch.tensor([1 / 2], dtype=dtype),
         torch.tensor([0., 1 / 2], dtype=dtype),
-- 
2.43.0


From 72a6d7af03095000ca9454c600d47e616d729101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 02/57] fix: odeint on reversed spans returned negated t_eval,
 ignored save_at and probed the field outside the domain

---
 torchdyn/numerics/odeint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7f10158..e59410f 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -51,13 +51,16 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	Returns:
 		Tuple[Tensor, Tensor]: returns a Tuple (t_eval, solution).
 	"""
+	if type(t_span) == list: t_span = torch.cat(t_span)
 	if t_span[1] < t_span[0]: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
+		if len(save_at) > 0: save_at = -torch.as_tensor(save_at)
+		t_eval, sol = odeint(f_, x, -t_span, solver, atol, rtol, t_stops, verbose, interpolator, return_all_eval,
+							 save_at, args, seminorm)
+		return -t_eval, sol
 	else: f_ = f
 
-	if type(t_span) == list: t_span = torch.cat(t_span)
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
 		solver = str_to_solver(solver, x.dtype)
-- 
2.43.0


From 17b2b9adcca0b7b42660dfda8e0a6de00a5a9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 03/57] fix: save_at was compared with itself: off-grid,
 unsorted or list save_at gave mislabelled rows

---
 torchdyn/numerics/odeint.py | 24 +++++++++++++-----------
 torchdyn/numerics/sdeint.py | 27 +++++++++++++++++----------
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index e59410f..9497ca9 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -413,28 +413,30 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 
 def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	"""Solves IVPs with same `t_span`, using fixed-step methods"""
-	if len(save_at) == 0: save_at = t_span
-	if not isinstance(save_at, torch.Tensor):
-		save_at = torch.tensor(save_at)
-		
-	assert all(torch.isclose(t, save_at).sum() == 1 for t in save_at),\
-		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+	if len(save_at) == 0: save_at, save_idx = t_span, range(len(t_span))
+	else:
+		save_at = torch.as_tensor(save_at).to(t_span)
+		matches = torch.isclose(save_at[:, None], t_span)
+		assert (matches.sum(1) == 1).all(),\
+			"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+		save_idx = matches.int().argmax(1).tolist()
 
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
-	sol = []
-	if torch.isclose(t, save_at).sum():
-		sol = [x]
+	sol = {}
+	if 0 in save_idx:
+		sol[0] = x
 
 	steps = 1
 	while steps <= len(t_span) - 1:
 		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
 		t = t + dt
 
-		if torch.isclose(t, save_at).sum():
-			sol.append(x)
+		if steps in save_idx:
+			sol[steps] = x
 		if steps < len(t_span) - 1: dt = t_span[steps+1] - t
 		steps += 1
+	sol = [sol[i] for i in save_idx]
 
 	if isinstance(sol[0], dict):
 		final_out = {k: [v] for k, v in sol[0].items()}
diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 1c2ba80..d5232f9 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -57,10 +57,8 @@ def sdeint(
     x, t_span = solver.sync_device_dtype(x, t_span)
     stepping_class = solver.stepping_class
     # instantiate save_at tensor
-    if len(save_at) == 0:
-        save_at = t_span
-    if not isinstance(save_at, torch.Tensor):
-        save_at = torch.tensor(save_at)
+    if len(save_at) > 0:
+        save_at = torch.as_tensor(save_at).to(t_span)
 
     # access parallel integration routines with different t_spans for each sample in `x`.
     if len(t_span.shape) > 1:
@@ -89,20 +87,29 @@ def _adaptive_sdeint():
 
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
+    if len(save_at) == 0:
+        save_at, save_idx = t_span, range(len(t_span))
+    else:
+        matches = torch.isclose(save_at[:, None], t_span)
+        assert (
+            matches.sum(1) == 1
+        ).all(), "each element of save_at must be contained in t_span once and only once"
+        save_idx = matches.int().argmax(1).tolist()
+
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
-    sol = []
-    if torch.isclose(t, save_at).sum():
-        # if t is in save_at
-        sol = [x]
+    sol = {}
+    if 0 in save_idx:
+        sol[0] = x
     steps = 1  # starting with 1
     while steps <= len(t_span) - 1:
         _, x, _ = solver.step(x, t, dt)
         t = t + dt
-        if torch.isclose(t, save_at).sum():
-            sol.append(x)
+        if steps in save_idx:
+            sol[steps] = x
         if steps < len(t_span) - 1:
             dt = t_span[steps + 1] - t
         steps += 1
+    sol = [sol[i] for i in save_idx]
 
     if isinstance(sol[0], dict):
         final_out = {k: [v] for k, v in sol[0].items()}
-- 
2.43.0


From f93d7e3fed8794da671d70ec360fb6de1b13ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:54 +0000
Subject: [PATCH 04/57] fix: adaptive odeint dropped the final row, raised
 IndexError or stalled when t + (t_eval - t) rounds away from t_eval

---
 torchdyn/numerics/odeint.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 9497ca9..de9cb7d 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -352,16 +352,17 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	ckpt_counter, ckpt_flag = 0, False
 	eval_times, sol = [t], [x]
 	while t < T:
-		if t + dt > T:
-			dt = T - t
+		t_next = t + dt
+		if t_next > T:
+			dt, t_next = T - t, t_span[-1:]
 		############### checkpointing ###############################
 		if t_eval is not None:
 			# satisfy checkpointing by using interpolation scheme or resetting `dt`
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_next > t_eval[ckpt_counter]):
 				if interpolator == None:
 					# save old dt, raise "checkpoint" flag and repeat step
 					dt_old, ckpt_flag = dt, True
-					dt = t_eval[ckpt_counter] - t
+					dt, t_next = t_eval[ckpt_counter] - t, t_eval[ckpt_counter:ckpt_counter+1]
 
 		f_new, x_new, x_err, stages = solver.step(f, x, t, dt, k1=k1, args=args)
 		################# compute error #############################
@@ -379,8 +380,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 			############### checkpointing via interpolation ###############################
 			if t_eval is not None and interpolator is not None:
 				coefs = None
-				while (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
-					t0, t1 = t, t + dt
+				while (ckpt_counter < len(t_eval)) and (t_next > t_eval[ckpt_counter]):
+					t0, t1 = t, t_next
 					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
 					f0, f1, x0, x1 = k1, f_new, x, x_new
 					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)
@@ -389,18 +390,19 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 					eval_times.append(t_eval[ckpt_counter][None])
 					ckpt_counter += 1
 
-			if t + dt == t_eval[ckpt_counter] or return_all_eval: # note (1)
+			if t_next == t_eval[ckpt_counter] or return_all_eval: # note (1)
 				sol.append(x_new)
-				eval_times.append(t + dt)
+				eval_times.append(t_next)
 				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
-				if t + dt == t_eval[ckpt_counter]: ckpt_counter += 1
-			t, x = t + dt, x_new
+				if t_next == t_eval[ckpt_counter]: ckpt_counter += 1
+			t, x = t_next, x_new
 			k1 = f_new
 
 		################ stepsize control ###########################
 		# reset "dt" in case of checkpoint without interp
 		if ckpt_flag:
-			dt = dt_old - dt
+			# `dt_old - dt` rounds to 0 when the step was clipped by less than a rounding error, keep `dt` in that case
+			if dt_old > dt: dt = dt_old - dt
 			ckpt_flag = False
 
 		dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From 11e461b829bdbeee165cb94c1db43509d7fa1c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 05/57] fix: odeint_hybrid skipped t_span points whose step was
 cut by an event or rejected, and its final step could round past the end

---
 torchdyn/numerics/odeint.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index de9cb7d..3a68a22 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -232,13 +232,13 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	while t < T and jnum < j_span:
 
 		############### checkpointing ###############################
-		if t + dt > t_span[-1]:
-			dt = t_span[-1] - t
+		t_next = t + dt
+		if t_next > t_span[-1]:
+			dt, t_next = t_span[-1] - t, t_span[-1:]
 		if t_eval is not None:
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_next > t_eval[ckpt_counter]):
 				dt_old, ckpt_flag = dt, True
-				dt = t_eval[ckpt_counter] - t
-				ckpt_counter += 1
+				dt, t_next = t_eval[ckpt_counter] - t, t_eval[ckpt_counter:ckpt_counter+1]
 
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
@@ -291,7 +291,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# reset k1
 			k1 = None
-			dt = dt_pre
+			dt, ckpt_flag = dt_pre, False
 
 		else:
 			################# compute error #############################
@@ -307,14 +307,15 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			accept_step = error_ratio <= 1
 
 			if accept_step:
-				t = t + dt
+				t = t_next
 				x = x_new
+				while (ckpt_counter < len(t_eval)) and (t >= t_eval[ckpt_counter]): ckpt_counter += 1
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
 				k1 = f_new
 
 			if ckpt_flag:
-				dt = dt_old - dt
+				if dt_old > dt: dt = dt_old - dt
 				ckpt_flag = False
 			################ stepsize control ###########################
 			dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From f182a6c97cb15af4aa4768bf7f9f9a31768a00b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 06/57] fix: odeint_hybrid bisection restarted from the full
 step, missing event_tol or crashing on an empty event list

---
 torchdyn/numerics/odeint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 3a68a22..0e339d4 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -260,20 +260,20 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 					dt_inner = dt_inner / 2
 					f_new, x_, x_err, _ = solver.step(f, x_inner, t_inner, dt_inner, k1=k1)
 
-					new_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
+					inner_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
 												   for cb in callbacks])
 					triggered_events = sum([(a_ != b_)  & (b_ == False)
-											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
+											for a_, b_ in zip(inner_event_states.evid, event_states.evid)])
 					niters = niters + 1
 
 				if triggered_events == 0: # if no event, advance start point of bisection search
 					x_inner = x_
 					t_inner = t_inner + dt_inner
-					dt_inner = dt
 					k1 = f_new
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
+				else: new_event_states = inner_event_states
 			x = x_inner
 			t = t_inner
 			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])
-- 
2.43.0


From 08f3648a5fbc0ee29b19ef070cd17436eb8c2c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 07/57] fix: odeint_hybrid did not count jumps, so j_span was
 not enforced

---
 torchdyn/numerics/odeint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 0e339d4..4f81204 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -284,6 +284,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# apply jump func.
 			x = callbacks[i].jump_map(t, x)
+			jnum = jnum + 1
 
 			# save state and time AFTER jump
 			sol.append(x.reshape(x_shape))
-- 
2.43.0


From 76719d0cc826e911040d13fc207ecaffab795947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 08/57] fix: adjoint methods crashed on unused or frozen
 parameters and on fields independent of the state

---
 torchdyn/numerics/sensitivity.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 503b21e..e33bbe8 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -61,15 +61,19 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 with torch.set_grad_enabled(True):
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
+                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(p for p in vf.parameters() if p.requires_grad), -λ,
                                     allow_unused=True, retain_graph=False))
+                    if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    # unused or frozen parameters have zero sensitivity
+                    dμ = iter(dμ)
+                    dμ = [next(dμ) if p.requires_grad else None for p in vf.parameters()]
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                     if dt == None: dt = torch.zeros(1).to(t)
                     if len(t.shape) == 0: dt = dt.unsqueeze(0)
                 return torch.cat([dx.flatten(), dλ.flatten(), dμ.flatten(), dt.flatten()])
@@ -135,15 +139,19 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
+                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(p for p in vf.parameters() if p.requires_grad), -λ,
                                         allow_unused=True, retain_graph=False))
+                    if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    # unused or frozen parameters have zero sensitivity
+                    dμ = iter(dμ)
+                    dμ = [next(dμ) if p.requires_grad else None for p in vf.parameters()]
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
 
             # solve the adjoint equation
-- 
2.43.0


From 62f24e811673c6bf92b5001d72aca050b5657a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 09/57] fix: adjoint t_span gradient had the wrong shape, sign
 at t0 and evaluation time, and crashed for more than two points

---
 torchdyn/numerics/sensitivity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index e33bbe8..d93b428 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -89,16 +89,16 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 # prepare adjoint state for next interval
                 #TODO: reuse vf_eval for dLdt calculations
                 xt = A[-1, :xT_nel].reshape(xT_shape)
-                dLdt_ = A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i], xt).flatten()
-                A[-1, -1:] -= grad_output[0][i - 1]
-                dLdt[i-1] = dLdt_
+                # solution point `i - 1 > 0` only moves along the flow with its own time; `t0` shifts the whole trajectory
+                λt = grad_output[-1][i - 1].flatten() if i > 1 else -A[-1, xT_nel:xT_nel + λT_nel]
+                dLdt[i-1] = λt @ vf(t_sol[i - 1], xt).flatten()
 
                 A = torch.cat([A[-1, :xT_nel], A[-1, xT_nel:xT_nel + λT_nel], A[-1, -μT_nel-1:-1], A[-1, -1:]])
                 A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()
 
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
-            λ_tspan = torch.stack([dLdt[0], dLdt[-1]])
+            λ_tspan = (dLdt + grad_output[0]).to(t_sol)
             return (μ, λ, λ_tspan, None, None, None)
 
     return _ODEProblemFunc
-- 
2.43.0


From ecfb1ec97033de52175a398705efa02d6b6b376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 10/57] fix: interpolated adjoint returned rows outside t_span,
 ignored the adjoint solver settings and failed on reversed spans or non 2-D
 states

---
 torchdyn/numerics/sensitivity.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index d93b428..bb3fc79 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -114,7 +114,9 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
                                         True, maxiter, fine_steps, save_at)
             ctx.save_for_backward(sol, t_span, t_sol)
-            return t_sol, sol
+            # intermediate solver points are only kept for the interpolation of the backward pass
+            rows = (t_sol == t_span[:, None].to(t_sol)).int().argmax(1)
+            return t_sol[rows], sol[rows]
 
         @staticmethod
         def backward(ctx, *grad_output):
@@ -127,13 +129,14 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
             A = torch.cat([λT.flatten(), μT.flatten()])
 
-            spline_coeffs = natural_cubic_coeffs(x=sol.permute(1, 0, 2).detach(), t=t_sol)
+            if t_sol[-1] < t_sol[0]: t_sol, sol = t_sol.flip(0), sol.flip(0) # splines require increasing times
+            spline_coeffs = natural_cubic_coeffs(x=sol.flatten(1).detach(), t=t_sol)
             x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol)
 
             # define adjoint dynamics
             def adjoint_dynamics(t, A):
                 if len(t.shape) > 0: t = t[0]
-                x = x_spline.evaluate(t).requires_grad_(True)
+                x = x_spline.evaluate(t).reshape(xT_shape).requires_grad_(True)
                 t = t.requires_grad_(True)
                 λ, μ = A[:λT_nel], A[-μT_nel:]
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
@@ -157,7 +160,8 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             # solve the adjoint equation
             n_elements = (λT_nel, μT_nel)
             for i in range(len(t_span) - 1, 0, -1):
-                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
+                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0),
+                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
-- 
2.43.0


From ba062fb67bd111ef501c678edd5c370098a7d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 11/57] fix: MultipleShootingProblem adjoints used a missing
 solver and swapped maxiter with fine_steps; accept solver_adjoint instances

---
 torchdyn/core/problems.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 3157b96..a8acea2 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -57,7 +57,7 @@ class ODEProblem(nn.Module):
             solver = str_to_solver(solver)
         if solver_adjoint is None:
             solver_adjoint = solver
-        else:
+        elif type(solver_adjoint) == str:
             solver_adjoint = str_to_solver(solver_adjoint)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
@@ -191,7 +191,8 @@ class MultipleShootingProblem(ODEProblem):
             interpolator=None,
             order=1,
             sensitivity=sensitivity,
-            solver_adjoint=solver_adjoint,
+            # the parallel solver cannot be reused for the (sequential) adjoint system
+            solver_adjoint="tsit5" if solver_adjoint is None else solver_adjoint,
             atol_adjoint=atol_adjoint,
             rtol_adjoint=rtol_adjoint,
             seminorm=seminorm,
@@ -211,7 +212,7 @@ class MultipleShootingProblem(ODEProblem):
             return _gather_odefunc_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -220,14 +221,14 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -236,8 +237,8 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
 
     def odeint(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
-- 
2.43.0


From 4d406a4a6449ca6e3b2ab96b686e52c55c2e0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 12/57] fix: multiple shooting solvers indexed past the last
 shooting parameter for maxiter >= len(t_span)

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 7406fb9..321b1a5 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -234,7 +234,7 @@ class MSZero(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        while i <= maxiter:
+        while i <= min(maxiter, n_subinterv - 1): # after `n_subinterv` sweeps all shooting parameters are exact
             i += 1
             B_coarse = odeint_func(f, B[i-1:], sub_t_span, solver=self.coarse_method)[1][-1]
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
@@ -264,7 +264,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
         B = B.requires_grad_(True)
-        while i <= maxiter:
+        while i <= min(maxiter, n_subinterv - 1): # after `n_subinterv` sweeps all shooting parameters are exact
             i += 1
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
             B_out = torch.zeros_like(B)
-- 
2.43.0


From c97253276225b65faccda23fd5dbcf0b965c165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 13/57] fix: MSBackward indexed the wrong segment after the
 first sweep and used a vjp in place of the jvp of the Newton update

---
 torchdyn/numerics/solvers/ode.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 321b1a5..587c919 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -262,19 +262,19 @@ class MSBackward(MultipleShootingDiffeqSolver):
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        fine = lambda b: odeint_func(f, b, sub_t_span, solver=self.fine_method)[1][-1]
         i = 0
-        B = B.requires_grad_(True)
         while i <= min(maxiter, n_subinterv - 1): # after `n_subinterv` sweeps all shooting parameters are exact
             i += 1
-            B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
+            B_fine = fine(B[i-1:])
             B_out = torch.zeros_like(B)
             B_out[:i] = B[:i]
             B_in = B[i-1]
             for m in range(i, n_subinterv):
                 # instead of jvps here the full jacobian can be computed and the vector products
                 # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-1], B, B_in - B[m-1], retain_graph=True)[0][m-1]
-                B_in = B_fine[m-1] + J_blk
+                J_blk = torch.autograd.functional.jvp(fine, B[m-1], B_in - B[m-1])[1]
+                B_in = B_fine[m-i] + J_blk
                 B_out[m] = B_in
             del B # manually free graph
             B = B_out
-- 
2.43.0


From 9048e9248073496351b329f89184bfe9bb5c8a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 14/57] fix: integral losses on higher-order Neural ODEs called
 a missing method; pass args to every vector field call

---
 torchdyn/core/defunc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 2f0ce26..d9eb21b 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -71,15 +71,15 @@ class DEFunc(nn.Module):
             if len(dlds.shape) == 1:
                 dlds = dlds[:, None]
             if self.order > 1:
-                x_dyn = self.horder_forward(t, x_dyn, args)
+                x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
-                x_dyn = self.vf(t, x_dyn)
+                x_dyn = self.vf(t, x_dyn, args=args)
             return cat([dlds, x_dyn], 1).to(x_dyn)
 
         # regular forward
         else:
             if self.order > 1:
-                x = self.higher_order_forward(t, x)
+                x = self.higher_order_forward(t, x, args)
             else:
                 x = self.vf(t, x, args=args)
             return x
@@ -89,7 +89,7 @@ class DEFunc(nn.Module):
         size_order = x.size(1) // self.order
         for i in range(1, self.order):
             x_new.append(x[:, size_order * i : size_order * (i + 1)])
-        x_new.append(self.vf(t, x))
+        x_new.append(self.vf(t, x, args=args))
         return cat(x_new, dim=1).to(x)
 
 
-- 
2.43.0


From 2ef2a8b382d5b9aa03f6efdb3fa0bde8d57fa0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 15/57] fix: vector fields with the documented signature (t, x)
 raised a TypeError for lack of an `args` keyword

---
 torchdyn/core/defunc.py | 8 ++++++--
 torchdyn/core/utils.py  | 9 ++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index d9eb21b..3909a9e 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -17,20 +17,24 @@ import torch.nn as nn
 
 
 class DEFuncBase(nn.Module):
-    def __init__(self, vector_field: Callable, has_time_arg: bool = True):
+    def __init__(self, vector_field: Callable, has_time_arg: bool = True, has_args: bool = True):
         """Basic wrapper to ensure call signature compatibility between generic torch Modules and vector fields.
         Args:
             vector_field (Callable): callable defining the dynamics / vector field / `dxdt` / forcing function
             has_time_arg (bool, optional): Internal arg. to indicate whether the callable has `t` in its `__call__'
                 or `forward` method. Defaults to True.
+            has_args (bool, optional): Internal arg. to indicate whether the callable accepts the `args` keyword. Defaults to True.
         """
         super().__init__()
         self.nfe, self.vf, self.has_time_arg = 0.0, vector_field, has_time_arg
+        self.has_args = has_args
 
     def forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:
         self.nfe += 1
-        if self.has_time_arg:
+        if self.has_time_arg and self.has_args:
             return self.vf(t, x, args=args)
+        elif self.has_time_arg:
+            return self.vf(t, x)
         else:
             return self.vf(x)
 
diff --git a/torchdyn/core/utils.py b/torchdyn/core/utils.py
index 460f3f3..044445a 100644
--- a/torchdyn/core/utils.py
+++ b/torchdyn/core/utils.py
@@ -16,6 +16,11 @@ import torch
 from torchdyn.core.defunc import DEFuncBase, DEFunc
 import torch.nn as nn
 
+def _accepts_args(fn):
+    "Whether `fn` can be called with the `args` keyword of `odeint`"
+    spec = getfullargspec(fn)
+    return 'args' in spec.args + spec.kwonlyargs or spec.varkw is not None
+
 def standardize_vf_call_signature(vector_field, order=1, defunc_wrap=False):
     "Ensures Callables or nn.Modules passed to `ODEProblems` and `NeuralODE` have consistent `__call__` signature (t, x)"
     
@@ -24,13 +29,15 @@ def standardize_vf_call_signature(vector_field, order=1, defunc_wrap=False):
             print("Your vector field callable (nn.Module) should have both time `t` and state `x` as arguments, "
                 "we've wrapped it for you.")
             vector_field = DEFuncBase(vector_field, has_time_arg=False)
+        elif not _accepts_args(vector_field.forward):
+            vector_field = DEFuncBase(vector_field, has_time_arg=True, has_args=False)
     else: 
         # argspec for lambda functions needs to be done on the function itself
         if 't' not in getfullargspec(vector_field).args:
             print("Your vector field callable (lambda) should have both time `t` and state `x` as arguments, "
                 "we've wrapped it for you.")
             vector_field = DEFuncBase(vector_field, has_time_arg=False)   
-        else: vector_field = DEFuncBase(vector_field, has_time_arg=True) 
+        else: vector_field = DEFuncBase(vector_field, has_time_arg=True, has_args=_accepts_args(vector_field))
     if defunc_wrap: return DEFunc(vector_field, order)
     else: return vector_field
 
-- 
2.43.0


From 49a180be8ced70af6a46012ddc430139f17ca47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 16/57] fix: ConservativeLinearSNF referenced missing
 attributes and could not be evaluated

---
 torchdyn/models/energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/models/energy.py b/torchdyn/models/energy.py
index 0cedd20..a4b9155 100644
--- a/torchdyn/models/energy.py
+++ b/torchdyn/models/energy.py
@@ -37,13 +37,13 @@ class ConservativeLinearSNF(nn.Module):
         with torch.set_grad_enabled(True):
             self.n = x.shape[1] // 2
             x = x.requires_grad_(True)
-            dHdx = torch.autograd.grad(self.H(x).sum(), x, create_graph=True)[0]
-            dHdx = torch.einsum('ijk, ij -> ik', self._skew(x), dHdx)
+            dHdx = torch.autograd.grad(self.energy(x).sum(), x, create_graph=True)[0]
+            dHdx = torch.einsum('ijk, ij -> ik', self._generate_skew(x), dHdx)
         return dHdx
 
     def _generate_skew(self, x):
-        M = self.J(x).reshape(-1, *x.shape[1:])
-        return (M - M.transpose(0, 2, 1)) / 2
+        M = self.J(x).reshape(-1, x.shape[1], x.shape[1])
+        return (M - M.transpose(1, 2)) / 2
 
 class GNF(nn.Module):
     def __init__(self, energy:nn.Module):
-- 
2.43.0


From 36a390a2b229e2aa4daafe557dd86325e3d64e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 17/57] fix: RBF bases ignored centers and eps_scales, and
 their adaptive variants had one center too many to be evaluated

---
 torchdyn/nn/galerkin.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 217d12b..9875026 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -31,15 +31,15 @@ class GaussianRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = (n_range - self.centers) / self.eps_scales
-        r = torch.norm(s - self.centers, p=2)
+        r = torch.abs(s - self.centers) # one center per degree
         basis = [math.e ** (-(r * n_range_scaled) ** 2)]
         return basis
 
@@ -60,15 +60,15 @@ class VanillaRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
-        r = torch.norm(s - self.centers, p=2)
+        r = torch.abs(s - self.centers) # one center per degree
         basis = [r * n_range_scaled]
         return basis
 
@@ -89,15 +89,15 @@ class MultiquadRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
-        r = torch.norm(s - self.centers, p=2)
+        r = torch.abs(s - self.centers) # one center per degree
         basis = [1 + torch.sqrt(1 + (r * n_range_scaled) ** 2)]
         return basis
 
-- 
2.43.0


From 37971ee1659616fc334e494bdf646d0bef05e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 18/57] fix: Galerkin layers with bias=False raised a TypeError
 in forward

---
 torchdyn/nn/galerkin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 9875026..5cc7737 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -222,7 +222,8 @@ class GalLinear(GalLayer):
         input = input[:,:-1]
         w = self.calculate_weights(t)
         self.weight = w[0:self.in_features*self.out_features].reshape(self.out_features, self.in_features)
-        self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
+        if self.bias is not None:
+            self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
         return torch.nn.functional.linear(input, self.weight, self.bias)
 
 
@@ -269,5 +270,5 @@ class GalConv2d(GalLayer):
         w = self.calculate_weights(t)
         n = self.oc*self.ic*self.ks*self.ks
         self.weight = w[0:n].reshape(self.oc, self.ic, self.ks, self.ks)
-        self.bias = w[n:].reshape(self.oc)
+        if self.bias is not None: self.bias = w[n:].reshape(self.oc)
         return torch.nn.functional.conv2d(input, self.weight, self.bias, stride=self.stride, padding=self.pad)
-- 
2.43.0


From d815d16e91a1e665119b1e649c7ce993701f9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 19/57] fix: concentric spheres with an odd number of samples
 raised a shape error

---
 torchdyn/datasets/static_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index ec67452..73ff059 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -61,10 +61,10 @@ def generate_concentric_spheres(n_samples:int=100, noise:float=1e-4, dim:int=3,
     X[:n_samples // 2] = cat(samples)
     X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
     samples = []
-    for i in range(n_samples // 2):
+    for i in range(n_samples - n_samples // 2):
         samples.append(randnsphere(dim, outer_radius)[None, :])
     X[n_samples // 2:] = cat(samples)
-    X[n_samples // 2:] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
+    X[n_samples // 2:] += zeros((n_samples - n_samples // 2, dim)).normal_(0, std=noise)
     return X, y
 
 
-- 
2.43.0


From 9c997d225b5c31e78a41ce439c623e106f773a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 20/57] fix: gaussian datasets with dim > 2 were off the
 circle, and crashed for dim > 3

---
 torchdyn/datasets/static_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index 73ff059..6dd6673 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -137,7 +137,7 @@ def generate_gaussians(n_samples=100, n_gaussians=7, dim=2,
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians
-        if dim > 2: dist.loc = torch.Tensor([radius*torch.cos(angle), torch.sin(angle), radius*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radius*torch.cos(angle), radius*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radius*torch.cos(angle), radius*torch.sin(angle)])
         X[i*n_samples:(i+1)*n_samples] = dist.sample(sample_shape=(n_samples,)) + torch.randn(dim)*noise
         y[i*n_samples:(i+1)*n_samples] = i
@@ -179,7 +179,7 @@ def generate_gaussians_spiral(n_samples=100, n_gaussians=7, n_gaussians_per_loop
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians_per_loop
-        if dim > 2: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), torch.sin(angle), radiuses[i]*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle)])
         dist.scale = std_devs[i]
 
-- 
2.43.0


From a654cb87e0f13a2baacb52639e59ee4c638d6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 21/57] fix: NeuralSDE.trajectory raised a TypeError

---
 torchdyn/core/neuralde.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 7be9b3b..631f387 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -252,15 +252,15 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
             return sol
 
     def trajectory(self, x: torch.Tensor, t_span: torch.Tensor):
-        x = self._prep_sdeint(x)
-        sol = sdeint(
+        x, t_span = self._prep_sdeint(x, t_span)
+        _, sol = sdeint(
             self.defunc,
             x,
             t_span,
-            solver=self.solver,
+            self.solver,
+            self.bm,
             rtol=self.rtol,
             atol=self.atol,
-            dt=self.ds,
         )
         return sol
 
-- 
2.43.0


From 09ced55899122c5de513bae4af4843e28ea61665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 22/57] fix: Milstein solvers accepted SDEs of the other
 calculus, silently solving a different equation

---
 torchdyn/numerics/solvers/sde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 328f440..4f0de97 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -94,6 +94,7 @@ class MilesteinIto(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "ito"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2 - dt
@@ -103,6 +104,7 @@ class MilesteinStratonovich(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "stratonovich"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2
-- 
2.43.0


From 6bab471630a1cfeb741d4303695934c8acd43753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 23/57] fix: NeuralSDE without an explicit Brownian motion (the
 default) could not be called

---
 torchdyn/core/neuralde.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 631f387..871f386 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -231,6 +231,14 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
 
         return x, t_span
 
+    def _brownian(self, x: Tensor, t_span: Tensor):
+        "Brownian motion given by the user or, if missing, a new sample path"
+        if self.bm is not None:
+            return self.bm
+        return torchsde.BrownianInterval(
+            t0=float(t_span[0]), t1=float(t_span[-1]), size=x.shape, dtype=x.dtype, device=x.device
+        )
+
     def forward(
         self,
         x: Union[Tensor, Dict],
@@ -245,7 +253,7 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
         # }
         # sdeint = switcher.get(self.sensitivity)
         # out = sdeint(x)
-        t_eval, sol = super().forward(x, t_span, self.bm, save_at, args)
+        t_eval, sol = super().forward(x, t_span, self._brownian(x, t_span), save_at, args)
         if self.return_t_eval:
             return t_eval, sol
         else:
@@ -258,7 +266,7 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
             x,
             t_span,
             self.solver,
-            self.bm,
+            self._brownian(x, t_span),
             rtol=self.rtol,
             atol=self.atol,
         )
-- 
2.43.0


From 1c3c8e30b72c551b39ab090be1c31bc34e740ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 24/57] fix: problems and Neural ODEs could not be deepcopied

---
 torchdyn/core/problems.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index a8acea2..d37c5c9 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -79,33 +79,24 @@ class ODEProblem(nn.Module):
         self.vf, self.order, self.sensalg = vector_field, order, sensitivity
         optimizable_params = tuple(optimizable_params)
 
-        if len(tuple(self.vf.parameters())) > 0:
-            self.vf_params = torch.cat(
-                [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
-
-        elif len(optimizable_params) > 0:
+        no_params = len(tuple(self.vf.parameters())) == 0
+        if no_params and len(optimizable_params) > 0:
             # use `optimizable_parameters` if f itself does not have a .parameters() iterable
             # TODO: advanced logic to retain naming in case `state_dicts()` are passed
             for k, p in enumerate(optimizable_params):
                 self.vf.register_parameter(f"optimizable_parameter_{k}", p)
-            self.vf_params = torch.cat(
-                [p.contiguous().flatten() for p in optimizable_params]
-            )
-
-        else:
+        elif no_params:
             print("Your vector field does not have `nn.Parameters` to optimize.")
             dummy_parameter = nn.Parameter(torch.zeros(1))
             self.vf.register_parameter("dummy_parameter", dummy_parameter)
-            self.vf_params = torch.cat(
-                [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
+
+    @property
+    def vf_params(self):
+        "Flattened parameters of the vector field. Not stored, since `deepcopy` does not support non-leaf tensors"
+        return torch.cat([p.contiguous().flatten() for p in self.vf.parameters()])
 
     def _autograd_func(self):
         "create autograd functions for backward pass"
-        self.vf_params = torch.cat(
-            [p.contiguous().flatten() for p in self.vf.parameters()]
-        )
         if (
             self.sensalg == "adjoint"
         ):  # alias .apply as direct call to preserve consistency of call signature
@@ -203,9 +194,6 @@ class MultipleShootingProblem(ODEProblem):
 
     def _autograd_func(self):
         "create autograd functions for backward pass"
-        self.vf_params = torch.cat(
-            [p.contiguous().flatten() for p in self.vf.parameters()]
-        )
         if (
             self.sensalg == "adjoint"
         ):  # alias .apply as direct call to preserve consistency of call signature
-- 
2.43.0


From 820fd972c1d678f9374668fc8f350dcb93a35640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:33 +0000
Subject: [PATCH 25/57] fix: adjoint problems passed save_at and args to the
 wrong arguments, ignoring save_at

---
 torchdyn/core/problems.py   |  9 +++++++--
 torchdyn/numerics/odeint.py | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index d37c5c9..73f00bb 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -7,7 +7,7 @@ from torchdyn.numerics.sensitivity import (
     _gather_odefunc_adjoint,
     _gather_odefunc_interp_adjoint,
 )
-from torchdyn.numerics.odeint import odeint, odeint_mshooting
+from torchdyn.numerics.odeint import odeint, odeint_mshooting, _save_indices
 from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
 from torchdyn.core.utils import standardize_vf_call_signature
 from torchdyn.core.defunc import SDEFunc
@@ -143,7 +143,12 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, save_at, args)
+            t_eval, sol = self._autograd_func()(self.vf_params, x, t_span)
+            # adjoint systems are solved on `t_span`, rows are selected outside of the `autograd.Function`
+            if len(save_at) > 0 and self.solver.stepping_class == "fixed":
+                t_eval, idx = _save_indices(t_span, save_at)
+                sol = sol[idx]
+            return t_eval, sol
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 4f81204..580b56b 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -415,15 +415,19 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	return torch.cat(eval_times), torch.stack(sol)
 
 
+def _save_indices(t_span, save_at=()):
+	"""Returns `save_at` as a tensor, with the position of each of its elements in `t_span`"""
+	if len(save_at) == 0: return t_span, range(len(t_span))
+	save_at = torch.as_tensor(save_at).to(t_span)
+	matches = torch.isclose(save_at[:, None], t_span)
+	assert (matches.sum(1) == 1).all(),\
+		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+	return save_at, matches.int().argmax(1).tolist()
+
+
 def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	"""Solves IVPs with same `t_span`, using fixed-step methods"""
-	if len(save_at) == 0: save_at, save_idx = t_span, range(len(t_span))
-	else:
-		save_at = torch.as_tensor(save_at).to(t_span)
-		matches = torch.isclose(save_at[:, None], t_span)
-		assert (matches.sum(1) == 1).all(),\
-			"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
-		save_idx = matches.int().argmax(1).tolist()
+	save_at, save_idx = _save_indices(t_span, save_at)
 
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
-- 
2.43.0


From 87ac511c4415522e4f78a4b2f33a6f1155d9060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 26/57] fix: odeint_symplectic on reversed spans returned
 negated t_eval and flipped velocities

---
 torchdyn/numerics/odeint.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 580b56b..96bd016 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -112,11 +112,6 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		return_all_eval (bool, optional): Defaults to False.
 		save_at (Union[List, Tensor], optional): Defaults to t_span
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
-		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
-		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
-	else: f_ = f
 	if type(t_span) == list: t_span = torch.cat(t_span)
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
@@ -140,17 +135,24 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if stepping_class == 'fixed':
 			if atol != odeint_symplectic.__defaults__[0] or rtol != odeint_symplectic.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			# reversed time domains are handled by negative steps, an adjusted vector field would flip velocities in the state
+			return _fixed_odeint(f, x, t_span, solver, save_at=save_at)
 		elif stepping_class == 'adaptive':
+			if t_span[1] < t_span[0]: # time is reversed
+				if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
+				f_, sign = lambda t, x: -f(-t, x), -1
+			else: f_, sign = f, 1
+			t_span = sign * t_span
 			t = t_span[0]
 			if f.order == 1:
 				pos = x[..., : solver.x_shape]
-				k1 = f(t, pos)
-				dt = init_step(f, k1, pos, t, solver.order, atol, rtol)
+				k1 = f_(t, pos)
+				dt = init_step(f_, k1, pos, t, solver.order, atol, rtol)
 			else:
-				k1 = f(t, x)
-				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+				k1 = f_(t, x)
+				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
+			return sign * t_eval, sol
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From 5c2847ffc609825e8b493be80ed915cd6300312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 27/57] fix: odeint_mshooting with user-given B0 ignored the
 initial condition x

---
 torchdyn/numerics/odeint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 96bd016..e8e6007 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -178,6 +178,7 @@ def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.M
 	# first-guess B0 of shooting parameters
 	if B0 is None:
 		_, B0 = odeint(f, x, t_span, solver.coarse_method)
+	else: B0 = torch.cat([x[None], B0[1:].to(x)]) # the first shooting parameter is not free, it is the initial condition
 	# determine which odeint to apply to MS solver. This is where time-variance can be introduced
 	odeint_func = _fixed_odeint
 	B = solver.root_solve(odeint_func, f, x, t_span, B0, fine_steps, maxiter)
-- 
2.43.0


From 09f4508ff7c53e58211825fbf29b6306788730ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 28/57] fix: implicit Euler evaluated the field at the start
 instead of the end of the step

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 587c919..eca5ee2 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -188,7 +188,7 @@ class ImplicitEuler(DiffEqSolver):
 
     @staticmethod
     def _residual(f, x, t, dt, x_sol):
-        f_sol = f(t, x_sol)
+        f_sol = f(t + dt, x_sol)
         return torch.sum((x_sol - x - dt*f_sol)**2)
 
     def step(self, f, x, t, dt, k1=None, args=None):
-- 
2.43.0


From e71672118e192326a866936a481faa36052e1dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:26 +0000
Subject: [PATCH 29/57] fix: step size controller turned double precision steps
 into single precision

---
 torchdyn/numerics/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c8f7c3e..c04b18e 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -56,11 +56,13 @@ def init_step(f, f0, x0, t0, order, atol, rtol):
 
 @torch.no_grad()
 def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
+    # single precision factors would turn a double precision `dt` (0-dim) into single precision
+    safety, min_factor, max_factor = safety.to(dt), min_factor.to(dt), max_factor.to(dt)
     if error_ratio == 0: return dt * max_factor
     if error_ratio < 1: min_factor = torch.ones_like(dt)
     exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()
     factor = torch.min(max_factor, torch.max(safety / error_ratio ** exponent, min_factor))
-    return dt * factor
+    return dt * factor.to(dt)
 
 
 def dense_output(sol, t_sol, t_eval, return_spline=False):
-- 
2.43.0


From b143c0970b1f67924cb874b9b9cb4b173b062a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 30/57] fix: importing torchdyn.numerics before torchdyn.core
 broke SDE problems and Neural SDEs ('module' object is not callable)

---
 torchdyn/numerics/sdeint.py      | 3 ++-
 torchdyn/numerics/solvers/sde.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index d5232f9..c4a7f4f 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -4,12 +4,13 @@ import torch.nn as nn
 from warnings import warn
 
 from torchsde._brownian import BaseBrownian
-from torchdyn.core.defunc import SDEFunc
 from torchdyn.numerics.solvers.sde import sde_str_to_solver
 from typing import List, Tuple, Union, Callable, Dict, Iterable
 
 
 def check_sde(sde):
+    # `torchdyn.core` imports `sdeint`: importing it along with this module would hand out the module in place of the function
+    from torchdyn.core.defunc import SDEFunc
     if isinstance(sde, SDEFunc):
         # Check some basics like f, g, f_prod, g_prod, f_g_prod ...etc
         return sde
diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 4f0de97..7d91096 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -1,8 +1,11 @@
+from __future__ import annotations
 import torch
 import abc
+from typing import TYPE_CHECKING
 from torchdyn.numerics.solvers.templates import DiffEqSolver
 from torchsde._brownian import BaseBrownian
-from torchdyn.core.defunc import SDEFunc
+if TYPE_CHECKING: # `torchdyn.core` imports `torchdyn.numerics`
+    from torchdyn.core.defunc import SDEFunc
 
 
 def _check_types(sde, solver_sde_type, solver_noise_type):
-- 
2.43.0


From 134dbc0d6e30e98912342d5146f6392ad6fa6283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:05 +0000
Subject: [PATCH 31/57] fix: save_at rejected valid times, and answered foreign
 ones with neighbouring rows, on grids finer than the relative tolerance

---
 torchdyn/numerics/odeint.py | 11 ++++++-----
 torchdyn/numerics/sdeint.py | 14 ++------------
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index e8e6007..35ab530 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -55,7 +55,7 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	if t_span[1] < t_span[0]: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
-		if len(save_at) > 0: save_at = -torch.as_tensor(save_at)
+		if len(save_at) > 0: save_at = -torch.as_tensor(save_at, dtype=t_span.dtype)
 		t_eval, sol = odeint(f_, x, -t_span, solver, atol, rtol, t_stops, verbose, interpolator, return_all_eval,
 							 save_at, args, seminorm)
 		return -t_eval, sol
@@ -421,11 +421,12 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 def _save_indices(t_span, save_at=()):
 	"""Returns `save_at` as a tensor, with the position of each of its elements in `t_span`"""
 	if len(save_at) == 0: return t_span, range(len(t_span))
-	save_at = torch.as_tensor(save_at).to(t_span)
-	matches = torch.isclose(save_at[:, None], t_span)
-	assert (matches.sum(1) == 1).all(),\
+	save_at = torch.as_tensor(save_at, dtype=t_span.dtype, device=t_span.device)
+	dist, idx = (save_at[:, None] - t_span).abs().sort(1)
+	# relative tolerances may span several points of a fine grid: the nearest one must be the only one in question
+	assert torch.isclose(save_at, t_span[idx[:, 0]]).all() and (10 * dist[:, 0] <= dist[:, 1:2].T).all(),\
 		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
-	return save_at, matches.int().argmax(1).tolist()
+	return save_at, idx[:, 0].tolist()
 
 
 def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index c4a7f4f..a7a90f0 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -4,6 +4,7 @@ import torch.nn as nn
 from warnings import warn
 
 from torchsde._brownian import BaseBrownian
+from torchdyn.numerics.odeint import _save_indices
 from torchdyn.numerics.solvers.sde import sde_str_to_solver
 from typing import List, Tuple, Union, Callable, Dict, Iterable
 
@@ -57,10 +58,6 @@ def sdeint(
         solver = sde_str_to_solver(solver, sde, bm, x.dtype)
     x, t_span = solver.sync_device_dtype(x, t_span)
     stepping_class = solver.stepping_class
-    # instantiate save_at tensor
-    if len(save_at) > 0:
-        save_at = torch.as_tensor(save_at).to(t_span)
-
     # access parallel integration routines with different t_spans for each sample in `x`.
     if len(t_span.shape) > 1:
         raise NotImplementedError(
@@ -88,14 +85,7 @@ def _adaptive_sdeint():
 
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
-    if len(save_at) == 0:
-        save_at, save_idx = t_span, range(len(t_span))
-    else:
-        matches = torch.isclose(save_at[:, None], t_span)
-        assert (
-            matches.sum(1) == 1
-        ).all(), "each element of save_at must be contained in t_span once and only once"
-        save_idx = matches.int().argmax(1).tolist()
+    save_at, save_idx = _save_indices(t_span, save_at)
 
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
     sol = {}
-- 
2.43.0


From 5b54a31353db4b276ff90ce1b6375562ec992f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 32/57] fix: adjoint gradients used the data-control input or
 trace noise of the latest forward call instead of their own

---
 torchdyn/numerics/sensitivity.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index bb3fc79..32c322c 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -27,6 +27,15 @@ def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator
         return odeint_mshooting(vf, x, t_span, solver, B0=B0, fine_steps=fine_steps, maxiter=maxiter)
 
 
+def _solve_inputs(vf):
+    "Values handed to layers of `vf` at the start of a solve: data-control inputs and noise of trace estimators"
+    return [(m, k, getattr(m, k)) for m in vf.modules() for k in ('_control', 'noise') if hasattr(m, k)]
+
+
+def _set_solve_inputs(values):
+    for m, k, v in values: setattr(m, k, v)
+
+
 # TODO: optimize and make conditional gradient computations w.r.t end times
 # TODO: link `seminorm` arg from `ODEProblem`
 def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, solver_adjoint, 
@@ -38,11 +47,15 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
                                         False, maxiter, fine_steps, save_at)
             ctx.save_for_backward(sol, t_sol)
+            ctx.inputs = _solve_inputs(vf)
             return t_sol, sol
 
         @staticmethod
         def backward(ctx, *grad_output):
             sol, t_sol = ctx.saved_tensors
+            # `vf` may have been used in other solves since
+            latest_inputs = _solve_inputs(vf)
+            _set_solve_inputs(ctx.inputs)
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
             # initialize flattened adjoint state
             xT, λT, μT = sol[-1], grad_output[-1][-1], torch.zeros_like(vf_params)
@@ -99,6 +112,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
             λ_tspan = (dLdt + grad_output[0]).to(t_sol)
+            _set_solve_inputs(latest_inputs)
             return (μ, λ, λ_tspan, None, None, None)
 
     return _ODEProblemFunc
@@ -114,6 +128,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
                                         True, maxiter, fine_steps, save_at)
             ctx.save_for_backward(sol, t_span, t_sol)
+            ctx.inputs = _solve_inputs(vf)
             # intermediate solver points are only kept for the interpolation of the backward pass
             rows = (t_sol == t_span[:, None].to(t_sol)).int().argmax(1)
             return t_sol[rows], sol[rows]
@@ -121,6 +136,9 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
         @staticmethod
         def backward(ctx, *grad_output):
             sol, t_span, t_sol = ctx.saved_tensors
+            # `vf` may have been used in other solves since
+            latest_inputs = _solve_inputs(vf)
+            _set_solve_inputs(ctx.inputs)
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
 
             # initialize adjoint state
@@ -168,6 +186,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
 
             λ, μ = A[:λT_nel], A[-μT_nel:]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
+            _set_solve_inputs(latest_inputs)
             return (μ, λ, None, None, None)
 
     return _ODEProblemFunc
\ No newline at end of file
-- 
2.43.0


From 44fe366fab5974e0259d87933f6a94ef0c7dcc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:56 +0000
Subject: [PATCH 33/57] fix: odeint_hybrid located events within rejected
 steps, losing the requested accuracy

---
 torchdyn/numerics/odeint.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 35ab530..e3a128e 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -246,8 +246,21 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
+		################# compute error #############################
+		if seminorm[0] == True:
+			state_dim = seminorm[1]
+			error = x_err[:state_dim]
+			error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
+		else:
+			error = x_err
+			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
+
+		error_ratio = hairer_norm(error_scaled)
+		accept_step = error_ratio <= 1
+
 		################ callback and events ########################
-		new_event_states = EventState([cb.check_event(t + dt, x_new) for cb in callbacks])
+		# rejected steps are too inaccurate to locate (or even detect) events
+		new_event_states = EventState([cb.check_event(t + dt, x_new) for cb in callbacks]) if accept_step else event_states
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
@@ -298,18 +311,6 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			dt, ckpt_flag = dt_pre, False
 
 		else:
-			################# compute error #############################
-			if seminorm[0] == True:
-				state_dim = seminorm[1]
-				error = x_err[:state_dim]
-				error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
-			else:
-				error = x_err
-				error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
-
-			error_ratio = hairer_norm(error_scaled)
-			accept_step = error_ratio <= 1
-
 			if accept_step:
 				t = t_next
 				x = x_new
-- 
2.43.0


From 4464337721252d8c435285f74e7d1ae57f10c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 34/57] fix: Milstein for Stratonovich SDEs had strong order
 0.5: its support value included the drift

---
 torchdyn/numerics/solvers/sde.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 7d91096..caec5eb 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -77,6 +77,11 @@ class MilsteinBase(DiffEqSolver):
     def v_term(self, bm_, dt):
         raise NotImplementedError
 
+    @abc.abstractmethod
+    def support_drift(self, f, dt):
+        "Contribution of the drift to the supporting value of the diffusion's finite difference"
+        raise NotImplementedError
+
     def step(self, x, t, dt):
         next_t = t + dt
         bm_ = self.bm(t, next_t)
@@ -84,7 +89,7 @@ class MilsteinBase(DiffEqSolver):
         f = self.sde.f(t, x)
         g = self.sde.g(t, x)
         sqrt_dt = dt.sqrt()
-        x_prime = x + f * dt + g * sqrt_dt
+        x_prime = x + self.support_drift(f, dt) + g * sqrt_dt
         g_x_prime = self.sde.g(t, x_prime)
         gdg = g_x_prime - g
 
@@ -102,6 +107,9 @@ class MilesteinIto(MilsteinBase):
     def v_term(self, bm_, dt):
         return bm_ ** 2 - dt
 
+    def support_drift(self, f, dt):
+        return f * dt
+
 
 class MilesteinStratonovich(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
@@ -112,6 +120,10 @@ class MilesteinStratonovich(MilsteinBase):
     def v_term(self, bm_, dt):
         return bm_ ** 2
 
+    def support_drift(self, f, dt):
+        # `v_term` has nonzero mean: a drift here would bias each step by O(dt^1.5), lowering the strong order to 0.5
+        return 0.
+
 
 class Midpoint(DiffEqSolver):
     def __init__(self, bm: BaseBrownian, dtype=torch.float32):
-- 
2.43.0


From e8859157cf2c3b1dbb618a2d6bc95789388ec5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 35/57] fix: Galerkin layers expanded in fractional degrees,
 NaN for polynomials at negative depth

---
 torchdyn/nn/galerkin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 5cc7737..4ca15e6 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -156,7 +156,7 @@ class Chebychev(nn.Module):
         if max_order > 0:
             s2 = 2 * s
             basis += [s.item()]
-            for i in range(2, max_order):
+            for i in range(2, max_order + 1):
                 basis += [basis[-1] * s2 - basis[-2]]
         return [torch.tensor(basis).to(n_range)]
 
@@ -176,7 +176,7 @@ class GalLayer(nn.Module):
         
     def calculate_weights(self, t):
         "Expands `t` following the chosen eigenbasis"
-        n_range = torch.linspace(0, self.deg, self.deg).to(self.coeffs.device)
+        n_range = torch.arange(self.deg).to(self.coeffs)
         basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs.device) + self.shift.to(self.coeffs.device))
         B = []  
         for i in range(self.n_eig):
-- 
2.43.0


From e6a7ce3f8a1979d544c6e7421203c8c99a21eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 36/57] fix: Chebychev expansions cut the gradients of
 dilation, shift and depth

---
 torchdyn/nn/galerkin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 4ca15e6..2cf4624 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -151,14 +151,14 @@ class Chebychev(nn.Module):
 
     def forward(self, n_range, s):
         max_order = n_range[-1].int().item()
-        basis = [1]
+        basis = [torch.ones_like(s)]
         # Based on numpy's Cheb code
         if max_order > 0:
             s2 = 2 * s
-            basis += [s.item()]
+            basis += [s]
             for i in range(2, max_order + 1):
                 basis += [basis[-1] * s2 - basis[-2]]
-        return [torch.tensor(basis).to(n_range)]
+        return [torch.cat(basis).to(n_range)]
 
 
 class GalLayer(nn.Module):
-- 
2.43.0


From c1935529b066d4d37a1873b591df03e1896d58f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 37/57] fix: Galerkin layers crashed in double precision

---
 torchdyn/nn/galerkin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 2cf4624..cba0a06 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -177,10 +177,10 @@ class GalLayer(nn.Module):
     def calculate_weights(self, t):
         "Expands `t` following the chosen eigenbasis"
         n_range = torch.arange(self.deg).to(self.coeffs)
-        basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs.device) + self.shift.to(self.coeffs.device))
+        basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs) + self.shift.to(self.coeffs))
         B = []  
         for i in range(self.n_eig):
-            Bin = torch.eye(self.deg).to(self.coeffs.device)
+            Bin = torch.eye(self.deg).to(self.coeffs)
             Bin[range(self.deg), range(self.deg)] = basis[i]
             B.append(Bin)
         B = torch.cat(B, 1).to(self.coeffs.device)
-- 
2.43.0


From 827e4caef02dcc562b99afad9731500cfb1decec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 38/57] fix: models with Galerkin layers could not be
 deepcopied after a forward call

---
 torchdyn/nn/galerkin.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index cba0a06..867cb21 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -173,7 +173,12 @@ class GalLayer(nn.Module):
         
     def reset_parameters(self):
         torch.nn.init.zeros_(self.coeffs)
-        
+
+    def __getstate__(self):
+        # `weight` and `bias` are computed at every forward: copies do not take their graph along
+        state = self.__dict__.copy()
+        return {k: v.detach() if k in ("weight", "bias") and v is not None else v for k, v in state.items()}
+
     def calculate_weights(self, t):
         "Expands `t` following the chosen eigenbasis"
         n_range = torch.arange(self.deg).to(self.coeffs)
-- 
2.43.0


From 7bb3a6d818e7aa7f29c2ea68990c5d554c1fbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:43 +0000
Subject: [PATCH 39/57] fix: fixed-step solvers on reversed grids evaluated
 hypernetworks (and other times seen by a step) at the negated time

---
 torchdyn/numerics/odeint.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index e3a128e..6a97fc1 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -52,7 +52,13 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 		Tuple[Tensor, Tensor]: returns a Tuple (t_eval, solution).
 	"""
 	if type(t_span) == list: t_span = torch.cat(t_span)
-	if t_span[1] < t_span[0]: # time is reversed
+
+	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
+	if type(solver) == str:
+		solver = str_to_solver(solver, x.dtype)
+
+	# fixed-step methods take negative steps: their `step` (e.g. a hypernetwork) sees the time of the system
+	if t_span[1] < t_span[0] and solver.stepping_class != 'fixed': # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		if len(save_at) > 0: save_at = -torch.as_tensor(save_at, dtype=t_span.dtype)
@@ -61,9 +67,6 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 		return -t_eval, sol
 	else: f_ = f
 
-	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
-	if type(solver) == str:
-		solver = str_to_solver(solver, x.dtype)
 	x, t_span = solver.sync_device_dtype(x, t_span)
 	stepping_class = solver.stepping_class
 
-- 
2.43.0


From 6c15a8028d3754e5b98a2a1c09131a10ae693884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:46 +0000
Subject: [PATCH 40/57] fix: root_find took one iteration more than maxiters

---
 torchdyn/numerics/solvers/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index d17b6d9..33e6a61 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -272,7 +272,7 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
     J_inv = batch_jacobian(g, z).pinverse()
 
     iteration = 0
-    while iteration <= maxiters:
+    while iteration < maxiters:
         iteration += 1
 
         # solver step
-- 
2.43.0


From e36f33ce2096685635182e12276520003d7e6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:46 +0000
Subject: [PATCH 41/57] fix: root_find measured f_rtol against the residual
 after the first step instead of the initial one

---
 torchdyn/numerics/solvers/root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index 33e6a61..41c42bd 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -267,6 +267,8 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
 
     # first evaluation of g(z)
     geval = g(z)
+    # the relative tolerance refers to the residual at the initial guess
+    tc.f0_norm = norm(geval, p=2, dim=1)
 
     # initialize inverse jacobian J^-1g(z)
     J_inv = batch_jacobian(g, z).pinverse()
-- 
2.43.0


From adf175b682890d1efafbfd838bb0c8c91a8e4dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 42/57] fix: spheres dataset crashed for a single sample

---
 torchdyn/datasets/static_datasets.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index 6dd6673..b656842 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -55,10 +55,8 @@ def generate_concentric_spheres(n_samples:int=100, noise:float=1e-4, dim:int=3,
     """
     X, y = zeros((n_samples, dim)), torch.zeros(n_samples)
     y[:n_samples // 2] = 1
-    samples = []
     for i in range(n_samples // 2):
-        samples.append(randnsphere(dim, inner_radius)[None, :])
-    X[:n_samples // 2] = cat(samples)
+        X[i] = randnsphere(dim, inner_radius)
     X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
     samples = []
     for i in range(n_samples - n_samples // 2):
-- 
2.43.0


From baaf373702f39ec19eb0a3cc560fe375a037d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 43/57] fix: models with DepthCat could not be deepcopied after
 a forward with differentiable times

---
 torchdyn/nn/node_layers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torchdyn/nn/node_layers.py b/torchdyn/nn/node_layers.py
index fbf479b..b4acfea 100644
--- a/torchdyn/nn/node_layers.py
+++ b/torchdyn/nn/node_layers.py
@@ -70,6 +70,11 @@ class DepthCat(nn.Module):
         t = self.t * torch.ones(t_shape).to(x)
         return torch.cat([x, t], self.idx_cat).to(x)
 
+    def __getstate__(self):
+        # `t` is assigned at every forward: copies do not take its graph along
+        state = self.__dict__.copy()
+        return {k: v.detach() if k == "t" and isinstance(v, torch.Tensor) else v for k, v in state.items()}
+
 
 class DataControl(nn.Module):
     """Data-control module. Allows for datasets-control inputs at arbitrary points of the DEFunc
-- 
2.43.0


From 5488fe23d5db85f8f26423403ab56641cd94e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:02 +0000
Subject: [PATCH 44/57] fix: fields of complex states were evaluated at complex
 times

---
 torchdyn/numerics/solvers/ode.py       | 2 +-
 torchdyn/numerics/solvers/templates.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index eca5ee2..3f52411 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -47,7 +47,7 @@ class SolverTemplate(nn.Module):
 
         if self.tableau is not None:
             c, a, bsol, berr = self.tableau
-            self.tableau = c.to(proto_arr), [a.to(proto_arr) for a in a], bsol.to(proto_arr), berr.to(proto_arr)
+            self.tableau = c.real.to(proto_arr.real), [a.to(proto_arr) for a in a], bsol.to(proto_arr), berr.to(proto_arr)
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
         self.min_factor = self.min_factor.to(device)
diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index f7e5e36..a74aab2 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -32,7 +32,7 @@ class DiffEqSolver(nn.Module):
         device = x.device
         if self.tableau is not None:
             c, a, bsol, berr = self.tableau
-            self.tableau = c.to(x), [a.to(x) for a in a], bsol.to(x), berr.to(x)
+            self.tableau = c.real.to(x.real), [a.to(x) for a in a], bsol.to(x), berr.to(x)
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
         self.min_factor = self.min_factor.to(device)
-- 
2.43.0


From 1fec4445797f8eea378334bdfc8804f443f9f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:02 +0000
Subject: [PATCH 45/57] fix: implicit Euler crashed on complex states

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 3f52411..c1ca2ce 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -189,7 +189,7 @@ class ImplicitEuler(DiffEqSolver):
     @staticmethod
     def _residual(f, x, t, dt, x_sol):
         f_sol = f(t + dt, x_sol)
-        return torch.sum((x_sol - x - dt*f_sol)**2)
+        return torch.sum((x_sol - x - dt*f_sol).abs()**2)
 
     def step(self, f, x, t, dt, k1=None, args=None):
         x_sol = x.clone()
-- 
2.43.0


From d895e117812d8281e6b0d5a73ac57f1fe2cca6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:02 +0000
Subject: [PATCH 46/57] fix: solvers derived from the DiffEqSolver template
 crashed on dictionary states

---
 torchdyn/numerics/solvers/templates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index a74aab2..48902b1 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -29,10 +29,11 @@ class DiffEqSolver(nn.Module):
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
-        device = x.device
+        proto_arr = next(iter(x.values())) if isinstance(x, dict) else x
+        device = proto_arr.device
         if self.tableau is not None:
             c, a, bsol, berr = self.tableau
-            self.tableau = c.real.to(x.real), [a.to(x) for a in a], bsol.to(x), berr.to(x)
+            self.tableau = c.real.to(proto_arr.real), [a.to(proto_arr) for a in a], bsol.to(proto_arr), berr.to(proto_arr)
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
         self.min_factor = self.min_factor.to(device)
-- 
2.43.0


From dc9466f44d444b2b17851b63657ad0bd4da90b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:21 +0000
Subject: [PATCH 47/57] fix: dense_output passed its arguments to torchcde in
 the wrong order

---
 torchdyn/numerics/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c04b18e..652f521 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -67,8 +67,8 @@ def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
 
 def dense_output(sol, t_sol, t_eval, return_spline=False):
     t_sol = t_sol.to(sol)
-    spline_coeff = hermite_cubic_coefficients_with_backward_differences(t_sol, sol.permute(1, 0, 2))
-    sol_spline = CubicSpline(t_sol, spline_coeff)
+    spline_coeff = hermite_cubic_coefficients_with_backward_differences(x=sol.permute(1, 0, 2), t=t_sol)
+    sol_spline = CubicSpline(coeffs=spline_coeff, t=t_sol)
     sol_eval = torch.stack([sol_spline.evaluate(t) for t in t_eval])
     if return_spline:
         return sol_eval, sol_spline
-- 
2.43.0


From caaa031136b34343760cb6244d48a7c533f13916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:33 +0000
Subject: [PATCH 48/57] fix: solvers given by name to ODEProblem and multiple
 shooting had single-precision coefficients in double-precision solves

---
 torchdyn/core/problems.py              | 5 +++--
 torchdyn/numerics/solvers/templates.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 73f00bb..2815d73 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -54,11 +54,12 @@ class ODEProblem(nn.Module):
         super().__init__()
         # instantiate solver at initialization
         if type(solver) == str:
-            solver = str_to_solver(solver)
+            # coefficients are cast to the precision of the state by each solve
+            solver = str_to_solver(solver, torch.float64)
         if solver_adjoint is None:
             solver_adjoint = solver
         elif type(solver_adjoint) == str:
-            solver_adjoint = str_to_solver(solver_adjoint)
+            solver_adjoint = str_to_solver(solver_adjoint, torch.float64)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
             solver,
diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index 48902b1..bbbb862 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -70,8 +70,8 @@ class MultipleShootingDiffeqSolver(nn.Module):
         from torchdyn.numerics.solvers.ode import str_to_solver
 
         super(MultipleShootingDiffeqSolver, self).__init__()
-        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method)
-        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method)
+        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method, torch.float64)
+        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method, torch.float64)
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
-- 
2.43.0


From 058c102168f645d0f0bb7d2565868a930436f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:33 +0000
Subject: [PATCH 49/57] fix: the fine grid of multiple shooting was built in
 single precision

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index c1ca2ce..6245277 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -232,7 +232,7 @@ class MSZero(MultipleShootingDiffeqSolver):
     # TODO (qol): extend to time-variant ODEs by using shifted_odeint
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=x.dtype).to(x)
         i = 0
         while i <= min(maxiter, n_subinterv - 1): # after `n_subinterv` sweeps all shooting parameters are exact
             i += 1
@@ -261,7 +261,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
 
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=x.dtype).to(x)
         fine = lambda b: odeint_func(f, b, sub_t_span, solver=self.fine_method)[1][-1]
         i = 0
         while i <= min(maxiter, n_subinterv - 1): # after `n_subinterv` sweeps all shooting parameters are exact
-- 
2.43.0


From 01d5a59b010842a588b0586a1ef41f232af5aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:47 +0000
Subject: [PATCH 50/57] fix: a solver once used in single precision kept
 rounded coefficients in later double-precision solves

---
 torchdyn/numerics/solvers/templates.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index bbbb862..d3ffa55 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -9,6 +9,10 @@ import torch.nn as nn
 # from torchdyn.numerics.solvers.ode import str_to_solver, str_to_ms_solver
 
 
+class CastTableau(tuple):
+    "Coefficients in the precision of a solve; `exact` holds those they were cast from"
+
+
 class DiffEqSolver(nn.Module):
     def __init__(
             self, 
@@ -32,8 +36,12 @@ class DiffEqSolver(nn.Module):
         proto_arr = next(iter(x.values())) if isinstance(x, dict) else x
         device = proto_arr.device
         if self.tableau is not None:
-            c, a, bsol, berr = self.tableau
-            self.tableau = c.real.to(proto_arr.real), [a.to(proto_arr) for a in a], bsol.to(proto_arr), berr.to(proto_arr)
+            # cast the coefficients as constructed: those cast for an earlier solve may have been rounded
+            exact = getattr(self.tableau, 'exact', self.tableau)
+            c, a, bsol, berr = exact
+            tableau = CastTableau((c.real.to(proto_arr.real), [a.to(proto_arr) for a in a], bsol.to(proto_arr), berr.to(proto_arr)))
+            tableau.exact = exact
+            self.tableau = tableau
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
         self.min_factor = self.min_factor.to(device)
-- 
2.43.0


From 486d84d4b558e9dce0d2ebec043c84f902d1e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:23 +0000
Subject: [PATCH 51/57] fix: error coefficients of single-precision solvers
 were differences of rounded numbers

---
 torchdyn/numerics/solvers/_constants.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/solvers/_constants.py b/torchdyn/numerics/solvers/_constants.py
index 06ea0cf..389dfef 100644
--- a/torchdyn/numerics/solvers/_constants.py
+++ b/torchdyn/numerics/solvers/_constants.py
@@ -38,12 +38,12 @@ def construct_dopri5(dtype):
         torch.tensor([9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656], dtype=dtype),
         torch.tensor([35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84], dtype=dtype),
     ]
-    bsol = torch.tensor([35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84, 0], dtype=dtype)
-    berr = torch.tensor([1951 / 21600, 0, 22642 / 50085, 451 / 720, -12231 / 42400, 649 / 6300, 1 / 60.], dtype=dtype)
+    bsol = torch.tensor([35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84, 0], dtype=torch.float64)
+    berr = torch.tensor([1951 / 21600, 0, 22642 / 50085, 451 / 720, -12231 / 42400, 649 / 6300, 1 / 60.], dtype=torch.float64)
 
     dmid = torch.tensor([-1.1270175653862835, 0., 2.675424484351598, -5.685526961588504, 3.5219323679207912,
                          -1.7672812570757455, 2.382468931778144])
-    return (c, a, bsol, bsol - berr)
+    return (c, a, bsol.to(dtype), (bsol - berr).to(dtype)) # subtract before rounding
 
 
 def construct_tsit5(dtype):
@@ -99,7 +99,7 @@ def construct_tsit5(dtype):
         -3.290069515436080679901047585711363850115683290894936158531296799594813811049925401677,
         2.324710524099773982415355918398765796109060233222962411944060046314465391054716027841,
         0.
-    ], dtype=dtype)
+    ], dtype=torch.float64)
     berr = torch.tensor([
         .9468075576583945807478876255758922856117527357724631226139574065785592789071067303271e-1,
         .9183565540343253096776363936645313759813746240984095238905939532922955247253608687270e-2,
@@ -108,8 +108,8 @@ def construct_tsit5(dtype):
         -2.707712349983525454881109975059321670689605166938197378763992255714444407154902012702,
         1.866628418170587035753719399566211498666255505244122593996591602841258328965767580089,
         1 / 66.,
-    ], dtype=dtype)
-    return (c, a, bsol, bsol - berr)
+    ], dtype=torch.float64)
+    return (c, a, bsol.to(dtype), (bsol - berr).to(dtype)) # subtract before rounding
 
 
 ########################
-- 
2.43.0


From 351b4df06a3e567f20085dd3f28487bdef9bb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:27 +0000
Subject: [PATCH 52/57] fix: an interpolator once used in single precision kept
 rounded coefficients

---
 torchdyn/numerics/interpolators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/interpolators.py b/torchdyn/numerics/interpolators.py
index ea3c7b4..717f2af 100644
--- a/torchdyn/numerics/interpolators.py
+++ b/torchdyn/numerics/interpolators.py
@@ -20,7 +20,12 @@ class Interpolator:
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other interpolator tensors are on the same device with compatible dtypes"
-        if self.bmid is not None: self.bmid = self.bmid.to(x) 
+        if self.bmid is not None:
+            # cast the coefficients as constructed: those cast for an earlier solve may have been rounded
+            exact = getattr(self.bmid, 'exact', self.bmid)
+            bmid = exact.to(x)
+            if bmid is not exact: bmid.exact = exact
+            self.bmid = bmid
         return x, t_span
 
     def fit(self, f0, f1, x0, x1, t, dt, **kwargs):
-- 
2.43.0


From 0c42ed75710e86a1e1d5644ae38a2b73ab2b80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:53 +0000
Subject: [PATCH 53/57] fix: adjoint methods ignored the dependence of an
 integral loss on the parameters, and failed on losses that do not depend on
 the state

---
 torchdyn/numerics/sensitivity.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 32c322c..6444537 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -79,8 +79,13 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                     if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
-                        dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
-                        dλ = dλ - dg
+                        g = integral_loss(t, x).sum()
+                        if g.requires_grad:
+                            # the loss may depend on the parameters directly, or not on the state
+                            dg, *dgμ = torch.autograd.grad(g, (x,) + tuple(p for p in vf.parameters() if p.requires_grad),
+                                                           allow_unused=True, retain_graph=True)
+                            if dg is not None: dλ = dλ - dg
+                            dμ = [el if dgp is None else -dgp if el is None else el - dgp for el, dgp in zip(dμ, dgμ)]
 
                     # unused or frozen parameters have zero sensitivity
                     dμ = iter(dμ)
@@ -165,8 +170,13 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                     if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
-                        dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
-                        dλ = dλ - dg
+                        g = integral_loss(t, x).sum()
+                        if g.requires_grad:
+                            # the loss may depend on the parameters directly, or not on the state
+                            dg, *dgμ = torch.autograd.grad(g, (x,) + tuple(p for p in vf.parameters() if p.requires_grad),
+                                                           allow_unused=True, retain_graph=True)
+                            if dg is not None: dλ = dλ - dg
+                            dμ = [el if dgp is None else -dgp if el is None else el - dgp for el, dgp in zip(dμ, dgμ)]
 
                     # unused or frozen parameters have zero sensitivity
                     dμ = iter(dμ)
-- 
2.43.0


From 1c160f7971466cd625f1c5f6881a4f8c07096059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:53 +0000
Subject: [PATCH 54/57] fix: adjoint methods failed on constant fields

---
 torchdyn/numerics/sensitivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 6444537..d21fa5a 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -74,6 +74,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 with torch.set_grad_enabled(True):
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
                     dx = vf(t, x)
+                    if not dx.requires_grad: dx = dx + 0 * x # a constant field has zero sensitivities
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(p for p in vf.parameters() if p.requires_grad), -λ,
                                     allow_unused=True, retain_graph=False))
                     if dλ is None: dλ = torch.zeros_like(x)
@@ -165,6 +166,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     dx = vf(t, x)
+                    if not dx.requires_grad: dx = dx + 0 * x # a constant field has zero sensitivities
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(p for p in vf.parameters() if p.requires_grad), -λ,
                                         allow_unused=True, retain_graph=False))
                     if dλ is None: dλ = torch.zeros_like(x)
-- 
2.43.0


From fecd03dab3424b1dc30c12084b497f0b24050200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:14 +0000
Subject: [PATCH 55/57] fix: adaptive solves never ended once an error estimate
 was NaN or the step size underflowed

---
 torchdyn/numerics/odeint.py | 10 ++++++++--
 torchdyn/numerics/utils.py  |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 6a97fc1..1611026 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -211,7 +211,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	if type(solver) == str: solver = str_to_solver(solver, x.dtype)
 	x, t_span = solver.sync_device_dtype(x, t_span)
 	x_shape = x.shape
-	ckpt_counter, ckpt_flag, jnum = 0, False, 0
+	ckpt_counter, ckpt_flag, jnum, rejected = 0, False, 0, False
 	t_eval, t, T = t_span[1:], t_span[:1], t_span[-1]
 
 	###### initial jumps ###########
@@ -260,6 +260,8 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 		error_ratio = hairer_norm(error_scaled)
 		accept_step = error_ratio <= 1
+		stuck = not t_next > t # `dt` is below the resolution of `t`, or not a number
+		rejected = not accept_step or (rejected and stuck) # since `t` last moved
 
 		################ callback and events ########################
 		# rejected steps are too inaccurate to locate (or even detect) events
@@ -331,6 +333,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 							solver.min_factor,
 							solver.max_factor,
 							solver.order)
+			if stuck and rejected: raise RuntimeError(f"Step size underflow at t = {t.item()}")
 
 	return torch.cat(eval_times), torch.stack(sol)
 
@@ -358,7 +361,7 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 		is called for interpolated adjoints
 	"""
 	t_eval, t, T = t_span[1:], t_span[:1], t_span[-1]
-	ckpt_counter, ckpt_flag = 0, False
+	ckpt_counter, ckpt_flag, rejected = 0, False, False
 	eval_times, sol = [t], [x]
 	while t < T:
 		t_next = t + dt
@@ -384,6 +387,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
 		error_ratio = hairer_norm(error_scaled)
 		accept_step = error_ratio <= 1
+		stuck = not t_next > t # `dt` is below the resolution of `t`, or not a number
+		rejected = not accept_step or (rejected and stuck) # since `t` last moved
 
 		if accept_step:
 			############### checkpointing via interpolation ###############################
@@ -419,6 +424,7 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 						solver.min_factor,
 						solver.max_factor,
 						solver.order)
+		if stuck and rejected: raise RuntimeError(f"Step size underflow at t = {t.item()}")
 	return torch.cat(eval_times), torch.stack(sol)
 
 
diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index 652f521..6d7522c 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -59,6 +59,7 @@ def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
     # single precision factors would turn a double precision `dt` (0-dim) into single precision
     safety, min_factor, max_factor = safety.to(dt), min_factor.to(dt), max_factor.to(dt)
     if error_ratio == 0: return dt * max_factor
+    if error_ratio.isnan(): return dt * min_factor
     if error_ratio < 1: min_factor = torch.ones_like(dt)
     exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()
     factor = torch.min(max_factor, torch.max(safety / error_ratio ** exponent, min_factor))
-- 
2.43.0


From e94086e0e2c118189188de8cc112abd72970067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:15 +0000
Subject: [PATCH 56/57] fix: adjoint gradients of the time grid ignored that
 its end points delimit the integral loss

---
 torchdyn/numerics/sensitivity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index d21fa5a..8538100 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -101,6 +101,8 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             n_elements = (xT_nel, λT_nel, μT_nel)
             dLdt = torch.zeros(len(t_sol)).to(xT)
             dLdt[-1] = λtT
+            # the end points of the grid also delimit the integral loss
+            if integral_loss: dLdt[-1] += integral_loss(t_sol[-1], xT).sum()
             for i in range(len(t_sol) - 1, 0, -1):
                 t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), 
                                       solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint,
@@ -111,6 +113,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 # solution point `i - 1 > 0` only moves along the flow with its own time; `t0` shifts the whole trajectory
                 λt = grad_output[-1][i - 1].flatten() if i > 1 else -A[-1, xT_nel:xT_nel + λT_nel]
                 dLdt[i-1] = λt @ vf(t_sol[i - 1], xt).flatten()
+                if integral_loss and i == 1: dLdt[0] -= integral_loss(t_sol[0], xt).sum()
 
                 A = torch.cat([A[-1, :xT_nel], A[-1, xT_nel:xT_nel + λT_nel], A[-1, -μT_nel-1:-1], A[-1, -1:]])
                 A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()
-- 
2.43.0


From e2886c911c3abdda3a4af73aa19c3328dfe0afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:36 +0000
Subject: [PATCH 57/57] fix: parallel implicit Euler mixed intervals with axes
 of states that are not matrices

---
 torchdyn/numerics/solvers/ode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 6245277..e4b1286 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -295,8 +295,9 @@ class ParallelImplicitEuler(MultipleShootingDiffeqSolver):
     def _residual(f, x, B, t_span):
         dt = t_span[1:] - t_span[:-1]
         F = f(0., B[1:])
-        residual = torch.sum((B[2:] - B[1:-1] - dt[1:, None, None] * F[1:]) ** 2)
-        residual += torch.sum((B[1] - x - dt[0] * F[0]) ** 2)
+        # one interval per row, states of any shape
+        residual = torch.sum((B[2:] - B[1:-1] - dt[1:].reshape(-1, *[1] * x.dim()) * F[1:]).abs() ** 2)
+        residual += torch.sum((B[1] - x - dt[0] * F[0]).abs() ** 2)
         return residual
 
     # TODO (qol): extend to time-variant ODEs by model parallelization
-- 
2.43.0

