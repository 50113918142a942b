import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))
OD='torchdyn/numerics/odeint.py'; SO='torchdyn/numerics/solvers/ode.py'; SE='torchdyn/numerics/sensitivity.py'; UT='torchdyn/numerics/utils.py'
NE='torchdyn/core/neuralde.py'; PR='torchdyn/core/problems.py'; DE='torchdyn/core/defunc.py'; CT='torchdyn/numerics/solvers/_constants.py'
p('C01','ODE solutions are returned exactly on the requested time grid',
 "For every built-in ODE solver, state shape and strictly monotone time grid (forward or reversed, evenly spaced or not, two points or many, anywhere on the time axis), odeint returns exactly one row per requested time, in the requested order. The returned times equal the requested ones, the first row equals the initial condition, and every row has the shape and, for a grid of the same precision, the dtype of the state. This includes grid points far closer together, or far further apart, than the step the solver would take by itself, and points that a step reaches only up to rounding.",
 ['inputs','configurations'],'all solvers x state shapes x dtypes x tolerances x strictly monotone grids',
 'The tests integrate on three evenly spaced grids and look at the last row; nothing compares returned times or the row count over grids where the step controller and the grid interact.',
 [OD],[('checkpointing of the adaptive loop',OD+': _adaptive_odeint'),('fixed grid loop',OD+': _fixed_odeint'),('reversed spans',OD+': odeint')],['return value of odeint'])
p('C02','Fixed-step solvers apply their textbook rule over every grid interval',
 "With 'euler', 'midpoint', 'rk4' and 'ieuler', each row of the solution is the previous row advanced by that method's textbook rule (explicit Euler, explicit midpoint, classical fourth-order Runge-Kutta, backward Euler up to optimisation tolerance) over exactly that grid interval. The field is evaluated at the rule's own stage times and stage states, so the statement covers time-dependent fields, uneven and reversed grids and every state shape.",
 ['inputs','configurations','programs'],'all vector fields, states, grids and ways of naming the solver (every alias, fresh or reused instance)',
 'Tests compare end points of two autonomous systems against another solver at tolerance 1e-1..1e-3; a wrong stage time or a stale step size on an uneven grid stays inside that.',
 [SO,CT,OD],[('Euler, Midpoint, RungeKutta4, ImplicitEuler step',SO),('tableau constants',CT),('dt update',OD+': _fixed_odeint')],['rows returned by odeint','calls of the vector field'])
p('C03','Adaptive solutions are accurate to the requested tolerance',
 "For smooth fields, states returned by the adaptive solvers ('dopri5', 'tsit5') at every requested time differ from the true solution by no more than a moderate multiple of atol + rtol*|x| (amplified only by the sensitivity of the problem itself). Tightening the tolerances makes the solution converge to the true one, independently of the grid on which output is requested.",
 ['inputs','configurations'],'all smooth fields (autonomous and time-dependent), tolerances from 1e-2 to 1e-10, grids, state shapes',
 'The tests use one tolerance and a handful of systems and only look at the final state with loose thresholds.',
 [SO,CT,OD,UT],[('embedded error estimate',SO),('error norm and acceptance',OD+': _adaptive_odeint'),('step size controller',UT+': init_step, adapt_step')],['rows returned by odeint'])
p('C04','Adaptive solves advance only through steps that pass the error test',
 "During an adaptive solve every step the solution advances through has a root-mean-square error estimate, scaled by atol + rtol*max(|x|,|x_new|), of at most one; a step failing the test is retried from the same time and state with a step no larger. Accepted steps chain without gap or overlap from the first to the last requested time, and apart from the initial step-size probe the field is never evaluated outside the requested interval. When a seminorm is requested only the selected leading components enter the test.",
 ['histories','inputs','configurations'],'every solve trace over fields (including ones that force rejections), tolerances, grids and seminorm settings',
 'The tests never look at individual steps; a controller that accepts failing steps or re-evaluates from the wrong state still lands near the solution.',
 [OD,UT],[('acceptance test and step control',OD+': _adaptive_odeint'),('adapt_step, hairer_norm',UT)],['calls of solver.step (wrapped instance)','calls of the vector field'],[('t, x, dt, k1','current time, state, step and first stage',OD+': _adaptive_odeint')])
p('C05','One solver step has the declared order and an honest error estimate',
 "One step of each explicit solver with step h has a local error that shrinks like h^(order+1) for the order the method is known for (1 Euler, 2 midpoint, 4 rk4, 5 dopri5 and tsit5), on time-dependent fields too. The error estimate of the adaptive solvers is the difference to a lower-order solution: it vanishes like h^5 and no slower, is non-zero whenever that difference is, and the derivative handed on to the next step equals the field at the end of the step. Supplying the first-stage derivative instead of letting the step compute it changes nothing.",
 ['inputs','programs'],'all smooth fields, step sizes, states',
 'No test measures convergence rates or error estimates.',
 [SO,CT],[('step methods',SO),('Butcher tableaux',CT)],['return value of solver.step'])
p('C06','Reversed time spans solve the same equation backwards in time',
 "On a decreasing time grid odeint returns the solution of the same ODE followed backwards from the first listed time: it equals the forward solution of the time-mirrored problem, time-dependent fields are evaluated at the true (not mirrored) times, and the times are returned as requested. Integrating forward and then back over the reversed grid returns to the initial condition within the accuracy of the solver, for the functional interface and for Neural ODEs alike, with and without output selection or interpolation.",
 ['inputs','configurations'],'all solvers, fields with explicit time dependence, decreasing grids of either sign',
 'Reversed spans are only exercised inside adjoint computations with autonomous fields and symmetric thresholds.',
 [OD],[('time reversal',OD+': odeint')],['rows and times returned by odeint','times at which the field is called'])
p('C07','Solving is a pure function of its arguments',
 "The result of an ODE solve depends only on its arguments: repeating a call gives bit-identical output, whatever other solves of the same precision (other fields, shapes, grids or solvers, interrupted solves included) ran in between and whether solver objects are fresh or reused. A solve never modifies the tensors and containers it is given and leaves the global random state, gradient mode and default dtype as they were.",
 ['histories','inputs','configurations'],'all interleavings of solves sharing solver, field and tensor objects',
 'Each test runs one solve on fresh objects; nothing compares results across call histories.',
 [OD,SO,'torchdyn/numerics/solvers/templates.py',NE],[('solver objects carry tableau and controller state',SO)],['results of repeated calls','argument tensors after the call'],[('tableau, safety, min_factor, max_factor','solver state that outlives a call','torchdyn/numerics/solvers/templates.py')])
p('C08','save_at selects exactly the requested rows and rejects anything else',
 "With a fixed-step solver, passing save_at returns exactly the rows of the full solution at those times, in the order listed in save_at, labelled with those times; the trajectory itself is unchanged by the selection. A save_at time that does not belong to the grid is rejected with an error instead of being answered with another row. The same holds through Neural ODEs, ODE problems under every sensitivity method, and SDE solves.",
 ['inputs','configurations'],'all subsets and orders of grid points, off-grid times, forward and reversed grids, lists and tensors',
 'One test passes save_at equal to the end points of an even grid.',
 [OD,'torchdyn/numerics/sdeint.py',PR],[('save_at matching',OD+': _fixed_odeint'),('SDE save_at','torchdyn/numerics/sdeint.py: _fixed_sdeint')],['rows and times returned'])
p('C09','Dense output interpolates without changing the solution',
 "With the '4th' interpolator and 'dopri5', output points inside a step are read from a fourth-order interpolant while steps are no longer cut at them: all rows are accurate to the order of the tolerance at every requested time, and agree with the uninterpolated solve to that accuracy. Rows and times obey the grid contract, and requesting more output points adds no solver steps and does not change the states reached at the ends of steps.",
 ['inputs','configurations'],'all fields, grids (dense, sparse, uneven, reversed), tolerances',
 'Interpolation is never enabled in the passing tests.',
 ['torchdyn/numerics/interpolators.py',OD,CT],[('fourth order fit and evaluation','torchdyn/numerics/interpolators.py'),('checkpointing via interpolation',OD+': _adaptive_odeint')],['rows returned by odeint','number of field calls'])
p('C10','Adjoint gradients equal the gradients of the solution map',
 "With sensitivity 'adjoint', for any scalar loss of the returned trajectory the gradients with respect to the initial condition and every parameter of the vector field equal those of differentiating the solution itself, up to solver tolerance. This holds for losses touching any subset of output times, for time-dependent fields, any state shape, forward and reversed grids, and fields whose parameters are partly unused or frozen; repeated calls and parameter updates in between are reflected.",
 ['inputs','programs','configurations','histories'],'all losses on the trajectory, fields, parameters, grids, solver and adjoint solver pairs, ODE and multiple-shooting problems',
 'One autonomous field, a loss on one grid and thresholds of 1e-1..1e-2 for parameters only.',
 [SE,PR],[('backward of the adjoint function',SE+': _gather_odefunc_adjoint')],['gradients after backward()'])
p('C11','Interpolated-adjoint gradients equal the gradients of the solution map',
 "With sensitivity 'interpolated_adjoint', the returned trajectory is the one requested and, for any scalar loss of it, the gradients with respect to the initial condition and the parameters equal those of differentiating the solution itself, up to solver and interpolation accuracy. This holds for losses touching any subset of output times, time-dependent fields, any state shape, forward and reversed grids and partly unused or frozen parameters.",
 ['inputs','programs','configurations'],'all losses on the trajectory, fields, parameters and grids',
 'One autonomous field on one grid with thresholds of 1e-1..1e-2.',
 [SE],[('backward with spline of the forward pass',SE+': _gather_odefunc_interp_adjoint')],['gradients after backward()','returned trajectory'])
p('C12','Back-propagation through solvers differentiates the computed solution',
 "With sensitivity 'autograd' and in the functional interface, gradients (and second derivatives) of any loss on the trajectory with respect to the initial condition, the field's parameters and, for fixed-step solvers, the time grid are the exact derivatives of the discrete solution for explicit fixed-step solvers, and equal the derivatives of the true solution up to tolerance for adaptive ones. Every output row stays connected to the graph, nothing is detached, and solving under no_grad returns the same values.",
 ['inputs','programs','configurations'],'all explicit solvers, fields, losses over any rows',
 'Tests compare autograd to torchdiffeq once with a loose threshold.',
 [OD,SO],[('differentiable stepping',SO),('stacking of rows',OD)],['gradients after backward()'])
p('C13','Integral losses are the time integral of the loss and are differentiated fully',
 "An integral loss given to a Neural ODE with 'autograd' makes the first state component accumulate exactly the time integral of the loss along the trajectory while the remaining components follow the unchanged dynamics, including higher-order ones. With the adjoint methods the gradients of the initial condition, parameters and (with 'adjoint') time grid are those of the terminal loss plus the time integral of the loss along the trajectory (for a batch: the sum over the integrals of samples).",
 ['inputs','programs','configurations'],'all integral losses and fields, orders, sensitivity methods, grids',
 'The tests compare one quadratic integral loss at tolerance 1e-2..1e-3.',
 [DE,SE,NE],[('propagated loss',DE+': DEFunc.forward'),('integral term of the adjoint',SE)],['trajectory','gradients after backward()'])
p('C14','Adjoint methods give correct gradients with respect to the time grid',
 "With sensitivity 'adjoint' and a time grid that requires gradients, the gradient of any loss of the trajectory with respect to each entry of the grid is the one of the solution map: the state's velocity at later output times, minus the sensitivity carried back to the start at the first, each evaluated at its own time and state. The gradient has the shape of the grid for any number of points.",
 ['inputs','configurations'],'all losses, time-dependent fields, grids of two or more points, forward and reversed',
 'No test asks for the gradient of the time grid.',
 [SE],[('dLdt accumulation',SE+': _gather_odefunc_adjoint')],['t_span.grad'])
p('C15','Neural ODEs and ODE problems are faithful wrappers of odeint',
 "A NeuralODE or ODEProblem with given solver, tolerances and interpolator returns the same times and states as calling odeint with the same field and settings: forward and trajectory agree, the default time span is [0, 1], return_t_eval=False returns the states only, and chaining, batch shape and sensitivity method do not change forward values. Fields given as functions or modules of (x), (t, x) or (t, x, args) behave identically and receive the true time and state; the number of function evaluations reported grows by exactly the number of evaluations made.",
 ['inputs','programs','configurations'],'all field signatures, solver choices (string, alias, instance), sensitivity methods, grids',
 'The tests check shapes and that runs do not crash.',
 [NE,PR,DE,'torchdyn/core/utils.py'],[('signature standardisation','torchdyn/core/utils.py'),('delegation',PR+': ODEProblem.odeint'),('default span',NE+': _prep_integration')],['returned values','calls of the vector field'])
p('C16','Higher-order Neural ODEs integrate the equivalent first-order system',
 "A Neural ODE of order n on a state made of n equal blocks [x, x', ..., x^(n-1)] integrates the companion first-order system: the derivative of each block is the next one and that of the last is the given field evaluated at the full state and current time. This holds for any n >= 2, block width, batch, time-dependent fields, all sensitivity methods, and in combination with an integral loss.",
 ['inputs','programs','configurations'],'all orders, widths, fields, sensitivity methods',
 'One test constructs order 2 and checks the shape.',
 [DE],[('higher_order_forward',DE)],['trajectory','gradients'])
p('C17','Depth, data-control and augmentation layers see the current solve',
 "Inside a Neural ODE, depth-concatenation layers at any nesting level append the time of the current field evaluation, and data-control layers append the initial condition of the current forward call (never of an earlier call, never the running state), also in backward passes, for every solver and for several such layers at once. The augmenter appends or prepends the stated number of zero or computed dimensions along the stated axis and leaves the original entries untouched.",
 ['histories','inputs','configurations'],'all nestings, sequences of forward/trajectory calls with different data, solvers and sensitivity methods',
 'Tests run these layers once and check that nothing crashes.',
 ['torchdyn/nn/node_layers.py',DE,NE],[('time assignment',DE+': DEFunc.forward'),('control assignment',NE+': _prep_integration'),('Augmenter','torchdyn/nn/node_layers.py')],['values seen by layers','trajectory'],[('t / _control','time and control handed to layers','torchdyn/nn/node_layers.py')])
p('C18','Multiple shooting converges to the serial fine solution in finitely many sweeps',
 "For autonomous fields on an even grid, after k parallel-in-time sweeps of the zero-order (Parareal) or backward (Newton) solver the first k+1 shooting states equal the serial solution of the fine method exactly, whatever the initial guess, and for as many sweeps as intervals the whole trajectory does; the first state is always the initial condition. Parallel implicit Euler returns the backward Euler trajectory. Multiple-shooting layers return the same as the functional interface.",
 ['inputs','configurations'],'all autonomous fields, initial guesses, numbers of intervals, sweeps, fine steps, coarse and fine methods',
 'One test compares a default run with a threshold of 1e-2.',
 [SO,OD,PR],[('sweeps',SO+': MSZero, MSBackward, ParallelImplicitEuler'),('dispatch',OD+': odeint_mshooting')],['returned shooting states'])
p('C19','Hybrid solves locate events in order and apply jumps exactly once',
 "In a hybrid solve the field is followed between events; each event is located to within event_tol (plus integration error) of the time its condition first becomes true along the flow, and is recorded as two rows with the same time whose second state is the jump map of the first (of the first callback listed, when several conditions become true together). Times never decrease, all requested grid points reached before the end are among the rows, integration goes on from the jumped state, and the solve ends at the last requested time or after j_span jumps.",
 ['histories','inputs','configurations'],'all event/jump systems, several callbacks, priorities, grids, tolerances and jump limits',
 'The hybrid solver has no passing test at all.',
 [OD],[('event detection and bisection',OD+': odeint_hybrid')],['returned times and rows','calls of jump_map and check_event'],[('event_states, jnum','flags before the step, number of jumps',OD+': odeint_hybrid')])
p('C20','SDE solvers follow their scheme along the given Brownian path',
 "With diagonal noise, every row of an SDE solution is the previous one advanced by the scheme named (Euler-Maruyama and Milstein for Ito, Euler-Heun and Milstein for Stratonovich) over exactly that interval, using the increment of the supplied Brownian path over that interval and coefficients evaluated at the right times; refining the grid converges to the strong solution of the stated calculus. Solving an equation of one calculus with a scheme of the other is refused, and a Neural SDE with a given path equals the functional solve, its data-control layers given the initial state of the current call.",
 ['inputs','configurations'],'all drift and diffusion functions (time-dependent too), grids, paths, shapes, solvers',
 'Tests compare the final state of one geometric Brownian motion, averaged, at threshold 1e-2..1e-1.',
 ['torchdyn/numerics/sdeint.py','torchdyn/numerics/solvers/sde.py',NE],[('steps','torchdyn/numerics/solvers/sde.py'),('grid loop','torchdyn/numerics/sdeint.py')],['rows returned by sdeint','queries of the Brownian path'])
p('C21','Normalizing flows propagate the exact log-density change',
 "A continuous normalizing flow moves its first state component by minus the trace of the Jacobian of its field, so that after integration the component equals minus the log-determinant of the flow map for the remaining ones; the samples themselves follow the plain field. The Hutchinson estimator is v^T J v for the noise v drawn once per forward call and kept fixed during it, hence unbiased; and gradients with respect to parameters flow through both parts.",
 ['inputs','programs','configurations'],'all fields, dimensions, batches, noise distributions, solvers and sensitivity methods',
 'Tests check that densities are finite on one architecture.',
 ['torchdyn/models/cnf.py',NE],[('trace estimators','torchdyn/models/cnf.py'),('noise sampling',NE+': _prep_integration')],['first state component','noise attribute during a solve'])
p('C22','Energy-based fields keep their structure',
 "The Hamiltonian field is (dH/dp, -dH/dq) and conserves H; the gradient flow is minus the gradient of its energy, which never increases along it; the conservative stable flow is a skew-symmetric matrix times the energy gradient and conserves the energy; the Lagrangian field satisfies the Euler-Lagrange equations of its Lagrangian. All hold for every energy network, state and batch, sample by sample, and can be differentiated further for training.",
 ['inputs','programs'],'all energies, dimensions, batches, also under no_grad and inside adjoint solves',
 'Tests check shapes and that a training step runs.',
 ['torchdyn/models/energy.py'],[('HNN, GNF, LNN, ConservativeLinearSNF','torchdyn/models/energy.py')],['field values','energy along trajectories'])
p('C23','Galerkin layers apply depth-varying weights from their expansion',
 "A Galerkin linear or convolutional layer with depth t in its last input channel acts on the remaining channels as the ordinary layer whose weights and bias are the expansion sum_k coeff_k * basis_k(dilation*t + shift) of the chosen basis (Fourier, polynomial, Chebyshev, radial bases with their centers and scales). The weights are recomputed at every call from the current depth and parameters, with or without bias, and gradients reach coefficients, dilation, shift and adaptive basis parameters.",
 ['inputs','configurations'],'all bases, degrees, depths, channel sizes, strides, paddings, parameter values',
 'Coefficients are initialised to zero in the tests, which only check that a forward pass runs.',
 ['torchdyn/nn/galerkin.py'],[('calculate_weights and basis modules','torchdyn/nn/galerkin.py')],['layer outputs','gradients'])
p('C24','Samples of a batch are solved independently of one another',
 "With a fixed-step solver the trajectory of one sample does not depend on which other samples are in the batch, their order, or their number (a batch of one included), in the ODE, SDE, higher-order, depth-dependent, hypersolver and symplectic paths; with adaptive solvers the same holds within tolerance. Extra leading state dimensions and non-contiguous memory layout do not change results either.",
 ['inputs','configurations'],'all batches, permutations, sub-batches, state layouts',
 'No test compares a batch with its parts.',
 [OD,SO,DE],[('elementwise stepping',SO)],['rows returned'])
p('C25','Root finding reports what it found and follows its update rule',
 "root_find returns the last iterate, its log holds that iterate with the residual evaluated exactly there and the true iteration count, and a reported termination condition means that residual and step are within the requested absolute and relative tolerances for every sample of the batch; otherwise exactly the iteration budget was used. With a fixed step length the iterates are those of Broyden's good ('broyden') or bad ('broyden_fast') update started from the true Jacobian, sample by sample.",
 ['inputs','configurations'],'all functions, starting points, batch sizes, tolerances, budgets, methods, searches',
 'Tests check that the residual of three functions gets small.',
 ['torchdyn/numerics/solvers/root.py'],[('Broyden updates, termination check, loop','torchdyn/numerics/solvers/root.py')],['return value and log of root_find'])
p('C26','Toy datasets have the geometry, labels and sizes they document',
 "Every generated dataset pairs each point with the label of the component it was drawn from: the moons, spirals, spheres and Gaussian rings and spirals lie on their documented curves, radii, centres and spreads up to the stated noise, with the sample counts each generator stands for (`n_samples` points in all for moons, spheres and the logo, per component for spirals and Gaussians), in any dimension and for even and odd counts. Noise parameters scale the deviation and zero noise gives exact geometry; the dispatcher returns what the individual generators return.",
 ['inputs','configurations'],'all sizes, noise levels, dimensions, radii and component counts',
 'No passing test looks at the coordinates.',
 ['torchdyn/datasets/static_datasets.py'],[('generators','torchdyn/datasets/static_datasets.py')],['returned points and labels'])
p('C27','Hypersolvers add the learned residual at the order of the base solver',
 "A hypersolver step equals the step of its base solver plus dt^(order+1) times the hypernetwork evaluated at the time and state at the start of the step, for every step of a solve, including uneven and reversed grids; with a zero hypernetwork it is the base solver and with the exact residual the solution becomes one order more accurate. Gradients reach the hypernetwork through odeint and Neural ODEs.",
 ['inputs','configurations'],'all base solvers, hypernetworks, fields, grids',
 'No passing test uses a hypersolver.',
 ['torchdyn/numerics/solvers/hyper.py'],[('hyper steps','torchdyn/numerics/solvers/hyper.py')],['rows returned by odeint','calls of the hypernetwork'])
p('C28','Asynchronous leapfrog is second order and exactly reversible',
 "With the asynchronous leapfrog solver the symplectic interface advances the pair (position, velocity) by the leapfrog rule: drift half a step, reflect the velocity about the field at mid-step time, drift half a step. Integrating back over the reversed grid recovers the initial pair to rounding error, positions converge at second order to the ODE solution, and rows, times and output selection obey the grid contract.",
 ['inputs','configurations'],'all fields (time-dependent too), grids even and uneven, batches',
 'No passing test uses the symplectic interface.',
 [SO,OD],[('AsynchronousLeapfrog.step',SO),('odeint_symplectic',OD)],['rows returned by odeint_symplectic'])
p('C29','Models survive copying, saving and training without changing meaning',
 "Saving and reloading (whole object or state dict), deep-copying and pickling a Neural ODE, ODE problem or multiple-shooting layer preserves its outputs exactly, and a copy shares no parameters with the original. The parameter list contains every parameter of the field exactly once and nothing else trainable; updates by an optimiser or in-place edits take effect in the next forward and backward call under every sensitivity method.",
 ['histories','configurations'],'all sequences of forward, backward, step, save, load, copy on all model classes and sensitivity methods',
 'Tests save one freshly built adjoint problem and check that loading does not crash.',
 [PR,NE],[('vf_params and autograd function creation',PR)],['outputs, gradients and parameters before and after'],[('vf_params','flattened parameters',PR)])
p('C30','User-defined solvers, complex and dictionary states are driven faithfully',
 "odeint drives any solver object with the documented step interface: on a fixed grid it calls it once per interval with the current time, exactly that interval's length, the current state and the caller's args, and returns the states it produces. Dictionary states come back as dictionaries of stacked rows in grid order, and complex states evolve as the equivalent pair of real equations, with the same accuracy control.",
 ['inputs','programs','configurations'],'all user solvers, args, dictionary layouts, complex fields, grids and output selections',
 'One example each, on an even grid.',
 [OD,SO],[('fixed loop',OD+': _fixed_odeint'),('adaptive loop',OD+': _adaptive_odeint')],['calls of step','returned structure'])
p('C31','Solves running at the same time in several threads do not interfere',
 "Solves of any kind (plain, wrapped with any sensitivity and its backward pass, symplectic, hybrid, multiple shooting, stochastic, hypersolver, root finding) that run concurrently in several threads each give the result they give alone. This includes threads that share solver or interpolator objects, input tensors, or one model whose vector field keeps no state of its own.",
 ['schedules','programs','configurations'],'all interleavings of concurrent solves, their kinds, and what they share',
 'The tests are single-threaded.',
 [OD,SE,PR,SO],[('solver objects carry no per-solve state',SO+': DiffEqSolver'),('adjoint state held per call',SE+': _gather_odefunc_adjoint')],['results of concurrent solves'])
p('C32','Memory held by solves does not grow with the number of steps or calls',
 "With sensitivity 'adjoint' what is kept for the backward pass, and the peak of the backward pass itself, depends on the returned rows, the parameters and one field evaluation, not on how many solver steps were taken; the interpolated adjoint adds one state per step. Solves under no_grad keep nothing, and repeated calls and training steps leave the amount of live tensors constant.",
 ['inputs','histories','configurations'],'all models, sensitivities, tolerances (hence step counts), grids, and call histories',
 'Values and gradients are the same whatever is retained.',
 [OD,SE,PR],[('forward solve outside the graph',SE+': _gather_odefunc_adjoint'),('adaptive loop',OD+': _adaptive_odeint')],['tensors saved for backward','live tensors'])
p('C33','Solves do no more work than their method needs',
 "A fixed-step solve evaluates the field at most once per stage and interval, an adaptive one at most six times per attempted step plus two. The number of attempted steps is that of a standard step-size controller on the same problem (up to a small factor): it grows like the fifth root of the tolerance, stays at a handful for fields the method integrates exactly, needs only a few more steps per requested time, none when interpolating, and the same holds for backward solves of adjoints and for iterations of multiple shooting.",
 ['inputs','configurations'],'all solvers, interfaces, fields, tolerances and grids',
 'Tests compare values, which are the same however many steps are taken.',
 [OD,SO,UT,SE],[('step-size control',UT+': adapt_step, init_step'),('adaptive loop',OD+': _adaptive_odeint'),('reuse of the last stage',SO+': DormandPrince45, Tsitouras45')],['numbers of field evaluations and step calls'])
p('C34','All solver steps and stored solutions can be had densely',
 "With return_all_eval an adaptive solve takes the same steps and returns every accepted one together with every requested time, in strictly monotone order and each once, the rows being the states the steps arrived at and, at requested times, those of the plain call. dense_output passes through the stored rows, reproduces linear data and follows smooth data between them, each sample for itself.",
 ['inputs','configurations'],'all adaptive solvers, grids, directions, tolerances, interpolation settings and stored trajectories',
 'Never called by the tests.',
 [OD,UT],[('all-evaluations output',OD+': _adaptive_odeint'),('spline output',UT+': dense_output')],['returned times and rows'])
p('C35','Back-propagation through SDE solves differentiates the computed path',
 "Gradients of any loss of the rows returned by sdeint or NeuralSDE, with respect to the initial state and every parameter of drift and diffusion, are those of the scheme applied along the given Brownian path. Training a NeuralSDE by its registered parameters therefore follows the same course as training that discrete scheme.",
 ['inputs','programs','configurations'],'all drifts, diffusions (sharing, freezing or not using parameters), schemes, grids, interfaces and losses',
 'Tests check solutions only, never their gradients.',
 ['torchdyn/numerics/sdeint.py','torchdyn/numerics/solvers/sde.py',NE],[('steps in the graph','torchdyn/numerics/solvers/sde.py: step'),('wrapper',NE+': NeuralSDE')],['gradients'])
p('C36','Method names mean what they say and unsupported requests are refused',
 "Every accepted name of a solver, multiple-shooting, stochastic or root-finding method solves by the method it denotes, in the precision of the state. Every request outside of what is implemented (unknown names, a calculus or noise type that does not match the scheme, time grids per sample, save_at off the grid, missing order, noise or stepping rule, stochastic adjoints) raises instead of returning a result computed by something else, and leaves its arguments and later solves unaffected.",
 ['inputs','configurations'],'all names and near-misses, all combinations of one unsupported aspect with otherwise valid settings',
 'A handful of names is tested, and no refusals.',
 [OD,SO,PR,NE,'torchdyn/numerics/sdeint.py','torchdyn/numerics/solvers/sde.py','torchdyn/numerics/solvers/root.py'],[('solver dictionaries',SO+': SOLVER_DICT, MS_SOLVER_DICT'),('calculus check','torchdyn/numerics/solvers/sde.py: _check_types'),('selection check',OD+': _save_indices')],['raised exceptions','results by name'])
p('C37','Benchmark systems implement their equations',
 "The systems of numerics.systems evaluate the equations they are named after for every batch shape, with scalar and vector times agreeing, and solving them reproduces closed forms, equilibria and symmetries. Random systems draw their parameters from the given distributions, do not depend on what they should not (state of forcings, time of autonomous ones), and randomize_parameters gives fresh parameters of the same kind.",
 ['inputs','configurations'],'all systems, dimensions, batch shapes, times, distributions',
 'Two of them are used as fields in tests, none is compared with its equations.',
 ['torchdyn/numerics/systems.py'],[('systems','torchdyn/numerics/systems.py')],['values and solutions'])
p('C38','Solves do not depend on units, sign, layout or time origin',
 "Writing one problem in other variables gives the same solution in those variables. This holds for states (with absolute tolerances) multiplied by any factor, of either sign and any magnitude, for states stored in another shape or order, for time in other units on fixed-step grids and with another origin when the field is autonomous, and for losses in other units; it covers rows, event times, Brownian paths and gradients of every kind of solve (the first step of adaptive solves has absolute thresholds in time).",
 ['inputs','configurations'],'all fields, magnitudes, signs, layouts, grids, tolerances and kinds of solve',
 'Tests use states of magnitude one, and values thresholds inside the code are never crossed.',
 [OD,SO,UT,SE,'torchdyn/numerics/solvers/sde.py'],[('step-size control',UT+': hairer_norm, init_step, adapt_step'),('solver steps',SO+': step'),('gradients',SE)],['rows, times and gradients of both writings'])
p('C39','Solves can be cut and continued, and are linear for linear fields',
 "Stopping at a requested time and starting again from the state reached there gives the same rows, jumps, paths and gradients as solving in one go, for every kind of solve (exactly with fixed steps, within tolerance with adaptive ones). For fields linear in the state the solution is linear in the initial state, and the gradient of a linear loss with respect to it is the transposed solution map.",
 ['inputs','configurations','histories'],'all fields, grids, directions, cuts and kinds of solve',
 'Tests solve in one go, from one initial state.',
 [OD,SO,SE,'torchdyn/numerics/sdeint.py','torchdyn/core/neuralde.py'],[('solver loops',OD+': _fixed_odeint, _adaptive_odeint, odeint_hybrid'),('scheme steps','torchdyn/numerics/solvers/sde.py: step'),('backward solves',SE)],['rows, times, jumps and gradients of the pieces and of the whole'])
p('C40','Results carry the precision of the state',
 "With state, times and parameters in double precision every solve, model and gradient is computed in double precision throughout and is as accurate as the method in that precision, and in single precision everything returned is single precision and agrees to within its rounding. Neither depends on the default dtype, on whether solvers are given by name or as objects, or on the precision those objects were used in before.",
 ['inputs','configurations','histories'],'all models, solvers, interfaces, sensitivities, precisions and earlier uses',
 'Tests run in single precision with tolerances no tighter than 1e-4.',
 [OD,SO,SE,UT,'torchdyn/numerics/solvers/templates.py','torchdyn/core/problems.py','torchdyn/numerics/interpolators.py'],[('coefficients cast to the state','torchdyn/numerics/solvers/templates.py: sync_device_dtype'),('solvers by name','torchdyn/core/problems.py: ODEProblem.__init__'),('tableaux','torchdyn/numerics/solvers/_constants.py')],['dtype and digits of rows and gradients'])
p('C41','Values and gradients do not depend on the mode of a call',
 "Rows and gradients depend on the values of the inputs only. They are the same whether gradients are recorded, disabled or enabled again inside, with anomaly detection, deterministic algorithms or saved-tensor hooks, in training and evaluation mode, with any part of the parameters and inputs frozen, for inputs that are leaves, results or parameters in any memory layout, and after use in another mode. Gradients obtained by autograd.grad, backward, accumulation, repeated or interleaved passes, checkpointing, in another thread, from parts or sums of losses agree.",
 ['inputs','configurations','histories'],'all solves and models, modes, layouts, subsets of differentiated tensors and ways of differentiating',
 'Tests call every model once, in training mode, with fresh contiguous tensors, and call backward once.',
 [OD,SO,SE,'torchdyn/core/problems.py','torchdyn/core/neuralde.py','torchdyn/nn','torchdyn/models'],[('autograd functions',SE),('solver loops',OD),('models','torchdyn/core/neuralde.py, torchdyn/core/defunc.py')],['rows and gradients of the plain call and of the call in another mode'])
p('C42','Every solve ends, and never with a made-up solution',
 "Every solve, event cascade and backward pass ends. It ends with all rows asked for when the solution exists on the span, even if trial steps leave the domain of the field or overflow. When the solution blows up, leaves the domain, starts from or becomes not-a-number, in one coordinate or all, it ends with an error or with rows and gradients that are not finite.",
 ['inputs','configurations','fault_sequences'],'all fields (undefined, unbounded, NaN), states, interfaces, solvers, tolerances, precisions, directions and backward passes',
 'Tests only solve problems with smooth global solutions.',
 [OD,UT,SE,'torchdyn/numerics/solvers/root.py'],[('adaptive loops',OD+': _adaptive_odeint, odeint_hybrid'),('step-size control',UT+': adapt_step, init_step'),('backward solves',SE)],['numbers of evaluations, raised exceptions, finiteness of rows and gradients'])
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P: jsonschema.validate(q,sch); assert q['statement'].count('. ')<=2,(q['id'])
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(q,ensure_ascii=False)+'\n' for q in P)); print(len(P))
