"""Single source of the property list; tools/gen.py writes properties.jsonl, MANIFEST.json and the table in DESIGN.md."""
P = "bayesian_sde_solver/"
EM, D15, HYP = P + "sde_solvers/euler_maruyama.py", P + "sde_solvers/diag_15_scheme.py", P + "sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py"
FOS, IS, SDE = P + "foster_polynomial.py", P + "ito_stratonovich.py", P + "sde_solver.py"
ODE, E0, E1, E02, E12, EUL = (P + "ode_solvers/" + f for f in ("ekf.py", "ekf0.py", "ekf1.py", "ekf0_2.py", "ekf1_2.py", "euler.py"))
KF, IOUP, MAT, TR, UT, CAL = (P + "ode_solvers/probnum/" + f for f in ("ekf.py", "IOUP.py", "matern.py", "transition_function.py", "_utils.py", "calibration.py"))
SSM, S0, S1, SSMD = (P + "ssm_parabola/" + f for f in ("ekf.py", "ekf0.py", "ekf1.py", "ssm_parabola_ode.py"))
INS, IVP, PB = (P + "utils/" + f for f in ("insert.py", "ivp.py", "progress_bar.py"))

TESTS = "The tests run a handful of problems from one seed and compare Monte-Carlo moments with tolerances around 10%; "


def p(id, title, statement, over, text, why, files, mech, how, extra_note=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=[dict(name=a, where=b) for a, b in mech], how=how, extra_note=extra_note)


PROPS = [
p("C01", "Ito/Stratonovich conversion is exact and the two directions are inverse",
  "Converting an Ito equation to Stratonovich form subtracts from the i-th drift component one half of the sum over noise sources j and "
  "coordinates k of s_kj * d s_ij / d x_k, evaluated at the given state and time, and the opposite conversion adds the same term; the diffusion is returned "
  "unchanged. This holds for time-dependent and rectangular diffusions of any smooth form, and converting there and back gives the original drift.",
  ["inputs"], "all smooth drifts a(x,t) and diffusions s(x,t), all x and t; state dimension and number of noise sources up to 5 (products up to 16)",
  "The tests compare a few concrete equations at a few points; index mistakes vanish for diagonal, symmetric or constant diffusions.",
  [IS], [("drift_correction", IS), ("to_stratonovich / to_ito", IS)],
  "Drift and diffusion are uninterpreted functions with symbolic values and first derivatives at the symbolic point; the traced conversion is compared entrywise with the index formula written by loops."),

p("C02", "Sampled Brownian parabola has the Brownian law",
  "Over an interval of length dt, the two sampled coefficients of each coordinate are jointly centred Gaussian, independent of each other and "
  "across coordinates, with variances dt (increment) and dt/2 (area coefficient). The curve evaluated at time t is a*u + b*sqrt(6)*u*(1-u) with u = t/dt, so it starts "
  "at 0, ends at the increment a, and its time average over the interval has the law of the Brownian time average jointly with the increment; batches of "
  "keys give the same coefficients as one key at a time.",
  ["inputs"], "all keys, all dt > 0, all t; dimensions up to 8 (curve: 4)",
  TESTS + "the exact covariances, independence and the value of the curve at every t are not reachable by sampling.",
  [FOS], [("get_approx.parabolas", FOS), ("get_approx.eval_parabola", FOS)],
  "The random draws are symbolic independent standard normals; outputs are affine in them and the covariance (sum of coefficient products) is compared with the exact law; the curve is compared as a polynomial in symbolic t."),

p("C03", "Parabola of a finely sampled path uses that path's increment and area",
  "For a Brownian path sampled on N equal steps, the increment coefficient is the path's end point and the area coefficient is sqrt(6) times (the trapezoidal "
  "time average of the whole piecewise-linear path, starting from 0, minus half the end point). The returned standard-normal increments are those the path is "
  "built from: scaled by sqrt(dt/N) and accumulated they reproduce the end point. The curve is evaluated by the same formula as for sampled parabolas.",
  ["inputs"], "all keys, all dt > 0; N up to 100 in dimension 1, 33 in dimension 2, 8 in dimension 3, 4 in dimension 5",
  "The tests look at strong convergence against a fine path with a loose slope tolerance; the missing first trapezoid (a genuine defect, repaired) passed them.",
  [FOS], [("get_approx_and_brownian", FOS)],
  "Symbolic normals for the N increments; outputs compared with the reference functional of the returned increments, and their covariance with the exact law (increment variance dt, area variance dt/2*(1-1/N^2))."),

p("C04", "Parabola assembled from fine parabolas is the exact coarse parabola",
  "Assembling N consecutive independent fine parabolas of length dt/N gives coefficients whose increment is the sum of the fine increments and whose "
  "area is the exact integral of the concatenated fine curves; jointly they have exactly the law of one sampled parabola of length dt (variances dt and dt/2, uncorrelated). "
  "The fine coefficients are returned with the coarse ones: the fine increments as sampled, the fine areas divided by sqrt(6).",
  ["inputs"], "all keys, all dt > 0; N up to 32 in dimension 1, 17 in dimension 2, 4 in dimension 4",
  "The tests run one N and one dimension and look at empirical convergence slopes.",
  [FOS], [("get_approx_fine", FOS)],
  "As C03, with the integral of the concatenated fine curves as the oracle (polynomial integration)."),

p("C05", "Pathwise driver integrates dz/dt = f + s w' on every interval, at absolute time",
  "Over N intervals of length delta the driver returns the times 0, delta, ..., N*delta and a trajectory starting at x0, where each next point is what the ODE integrator "
  "returns for the interval when started at the previous point, given the interval length, and given the field f(z, t_k + t) + s(z, t_k + t) w_k'(t) for local time t, with w_k the interval's own Brownian approximation evaluated from the "
  "coefficients that are returned for that interval. Tuples as states (value, mean, covariance) are carried and returned in full, the given initial state first.",
  ["inputs", "configurations"], "all drifts, diffusions, Brownian approximations, ODE integrators (as arbitrary functions of what they are given), keys, delta > 0; N up to 40 in dimension 1, 17 in dimension 2, 5 in dimension 3",
  "The tests use autonomous problems, where a wrong absolute time cannot be seen, and look at marginal moments, where a coefficient/interval mismatch cannot be seen.",
  [SDE, INS], [("sde_solver.body", SDE), ("insert", INS)],
  "Drift, diffusion, Brownian curve and integrator are uninterpreted; the returned trajectory is compared with the recursion written out, using the returned coefficients; also with the Euler integrator and the real parabolas."),

p("C06", "Euler ODE integrator is the explicit Euler recursion",
  "With step h and N steps the result is y_N of y_{k+1} = y_k + h f(y_k, k h), y_0 the initial value.",
  ["inputs"], "all fields f(x,t), all starts and steps h; N up to 101 in dimension 1, 65 in dimension 2, 5 in dimension 5",
  "The tests integrate two scalar problems with a small step, for which a shifted time grid stays within tolerance.",
  [EUL], [("solver", EUL)],
  "Uninterpreted field; the traced scan is unrolled and compared with the recursion."),

p("C07", "Euler-Maruyama has the right one-step law and composes over steps",
  "Given the present point x at time t_k = k h, the next point is Gaussian with mean x + h f(x,t_k) and covariance h s(x,t_k) s(x,t_k)^T, with independent noise on "
  "different steps; rectangular diffusions are supported. The returned times are 0, h, ..., N h and the trajectory starts at the initial value.",
  ["inputs"], "all f, s, h > 0, starts, keys; state and noise dimension up to 3 (4 for the one-step law), N up to 65 in dimension 1, 17 in dimension 2, 10 in dimension 3",
  TESTS + "time dependence and correlated or rectangular noise are not sampled.",
  [EM], [("solver", EM)],
  "One-step law by covariance of the affine map of symbolic normals; trajectories by comparing with the recursion fed with the noise read off a run of the same solver on dx = dW."),

p("C08", "Pathwise Euler-Maruyama follows exactly the increments it is given",
  "Given increments dW_k the trajectory is x_{k+1} = x_k + h f(x_k, k h) + s(x_k, k h) dW_k from the initial value, on times 0, h, ..., N h. With the standard option the increments are "
  "standard normals and sqrt(h) times them is used; the caller's array is not otherwise altered. Applied to the increments of the sampled scheme it returns the same trajectory.",
  ["inputs"], "all increments, f, s, h > 0, starts; dimensions up to 3, N up to 101 in dimension 1, 33 in dimension 2, 12 in dimension 3",
  "The tests use an equation with a constant diffusion and one path.",
  [EM], [("solver_pathwise", EM)],
  "Increments, drift, diffusion symbolic; trajectory compared with the recursion; also fed with the increments of the fine Brownian path of C03."),

p("C09", "Order-1.5 scheme for diagonal noise is the strong Taylor scheme",
  "For a diagonal diffusion whose k-th entry depends on the k-th coordinate only, each step adds a h + b_k dW + (b_k b_k'/2)(dW^2-h) + (sum over j of d_j a_k b_j dZ_j) + "
  "(h^2/2)(drift operator applied to a_k, with its second-order term) + (a_k b_k' + b_k^2 b_k''/2)(dW h - dZ) + (b_k/2)(b_k b_k''+ b_k'^2)(dW^2/3-h) dW. Here (dZ_k, dW_k) is "
  "centred Gaussian with Var dZ = h^3/3, Var dW = h, Cov = h^2/2, independent across coordinates and steps. Times are 0, h, ..., N h and the trajectory starts at the initial value.",
  ["inputs"], "all smooth drifts, all diagonal diffusions with b_k(x_k), all h > 0, starts, keys; one step in dimension up to 3 (constant noise: 4), two steps in dimension 1 (2 thorough), with constant noise up to 12 steps in dimension 1 and 2 in dimension 3",
  "The only test uses constant or scalar noise and compares moments; the terms of order h^1.5 are far below its tolerance (products of elementwise terms were wrong for multidimensional state-dependent noise, repaired).",
  [D15], [("body / partialxsigma / laplaceweighted", D15)],
  "Uninterpreted drift and diagonal entries with symbolic derivatives up to second order; dW and dZ are read off runs of the same solver on dx = dW and dx = x dt + dW, their law is checked exactly, then the step polynomial is compared term by term."),

p("C10", "Hypoelliptic order-1.5 scheme has the leading-order Ditlevsen-Samson step law",
  "With the first coordinate smooth and noise only in the others (block g), given x the next point is Gaussian with mean x + h a + (h^2/2)(Da a + half the Hessian of each a_i contracted with s s^T) and "
  "covariance whose rough block is h g g^T, cross block (h^2/2) (grad_u a_1) g g^T and smooth variance (h^3/3)(grad_u a_1) g g^T (grad_u a_1)^T, u being the rough coordinates. Steps use independent noise and the trajectory starts at the initial value on times 0, h, ..., N h.",
  ["inputs"], "all smooth drifts and noise blocks, h > 0, starts, keys; one step in dimension up to 3 (4 thorough), dimension 2 up to 4 steps; with numeric linear or quadratic coefficients and arbitrary start and offset dimension up to 5 and up to 12 steps",
  "The tests check FitzHugh-Nagumo and the oscillator (dimension 2, one noise source, constant noise) by Monte Carlo.",
  [HYP], [("body / partialua / laplaceweighted", HYP)],
  "Uninterpreted drift and noise block with derivatives; the traced step's mean and covariance (via the multivariate-normal contract) are compared entrywise."),

p("C11", "Filter step computes the exact Kalman predict and linearised update",
  "Prediction maps mean m and covariance P to (A m + xi, A P A^T + Q). The update linearises the observation function at the predicted mean (Jacobian H, value c) and returns mean m - K c and covariance P - K S K^T with S = H P H^T + R and K = P H^T S^-1; no other quantity enters.",
  ["inputs"], "all transitions, prior moments, noise covariances with S invertible, all smooth observation functions; state dimension up to 3, observation dimension up to 2; with numeric matrices state dimension up to 8, observation dimension up to 5, up to 33 steps",
  "The tests compare the square-root form with the covariance form for one random instance, so an error common to both is invisible.",
  [KF], [("predict", KF), ("update", KF)],
  "One step of the traced filter with uninterpreted observation function, compared with the textbook moments by cross-multiplied polynomial identities."),

p("C12", "Square-root filter and covariance filter are the same filter",
  "Given lower-triangular factors of the state, transition and observation noise covariances, one step of the square-root form returns the same mean as the covariance form and a "
  "lower-triangular factor whose product with its transpose is the covariance form's covariance, including degenerate cases (zero initial covariance, zero observation noise). The reported innovation covariance agrees as well.",
  ["inputs"], "all lower-triangular factors, transitions, observation functions with S invertible; state dimension up to 3, observation dimension up to 2; with numeric matrices state dimension up to 6, observation dimension up to 3, up to 8 steps",
  "The tests compare the two forms for one random instance (and those tests fail at the pinned commit for unrelated reasons).",
  [KF], [("tria", KF), ("predict / update, lower_sqrt", KF)],
  "QR is modelled by its contract (orthogonal times triangular, realised as symbolic Cholesky of the Gram matrix with arbitrary signs resolved), and the products L L^T and means are compared."),

p("C13", "Filter folds predict/update over the parameters and reports the last innovation",
  "Filtering over a sequence of parameters equals folding the one-step filter over them from the initial law, each step using its own parameter tuple. When the uncertainty output is requested, the same law is returned together with the innovation covariance and innovation of the last step, as covariances in both the covariance and the square-root form.",
  ["inputs", "histories"], "all observation functions of state and parameters, all transitions and initial laws; dimensions up to 2, up to 3 steps; with numeric matrices dimensions up to 4 and 3, up to 33 steps",
  "No test requests the uncertainty output or uses an observation that depends on its parameter in a checkable way.",
  [KF], [("ekf.body / body_return_UC", KF)],
  "The traced N-step filter compared with N traced one-step filters composed, and the innovation with the specification of C11."),

p("C14", "Restarted probabilistic ODE integrator is the stated Kalman filter",
  "Over one interval the restarted integrator starts from the exact law (x, f(x,0)) with zero covariance, uses step k's prior transition (integrated Brownian motion with unit diffusion by default, or the given one) and conditions "
  "on x'(t) - f(x(t),t) = 0 at t = h, 2h, ..., N h with observation noise covariance R (zero by default); EKF1 linearises the field at the predicted mean and EKF0 uses its value only. Without a key it returns the posterior mean of the state "
  "at the end; with a key, that mean plus a draw with the posterior covariance, both in covariance and square-root form.",
  ["inputs", "configurations"], "all fields, starts, steps h > 0, priors, noise covariances; dimension up to 2, up to 3 filter steps; with numeric step, prior and Jacobian dimension up to 5, up to 33 steps",
  TESTS + "the observation times, the linearisation and the noise argument are not exercised by autonomous, noise-free problems.",
  [ODE, E0, E1, KF], [("_solver", ODE), ("solver", E0), ("solver", E1)],
  "Uninterpreted time-dependent field; reference Kalman recursion in checks/kalman.py and checks/odef.py; the law of the returned sample by covariance of its affine dependence on the symbolic normals."),

p("C15", "Higher-order priors are initialised exactly with the solution's derivatives",
  "With three or more states per coordinate the restarted integrator starts from x, f(x,0) and the second derivative of the solution, df/dt + (df/dx) f at time 0, with zero covariance on these three; any further state starts "
  "at zero with unit variance, independently. The rest of the interval is the stated filter with the given prior.",
  ["inputs", "configurations"], "all time-dependent fields, starts, h > 0, priors; 3 and 4 states per coordinate, dimension up to 2, up to 2 steps; with numeric step, prior and Jacobian up to 8 states, dimension 4, 17 steps",
  "The tests only use two states per coordinate; both defects found here (the missing time derivative, and the covariance for four states) passed them.",
  [ODE, E0, E1], [("solver: second_derivative, initial covariance", E0), ("solver", E1)],
  "As C14 with the derivatives of the uninterpreted field symbolic."),

p("C16", "Continued probabilistic integrator propagates the previous posterior",
  "Started from a Gaussian state law (m, P), the continued integrator filters from mean (m, f(m,0)) and covariance P pushed through the linearisation: state block P, derivative blocks H P, P H^T, H P H^T with H the Jacobian of f at (m,0) for EKF1 and H = 0 for EKF0. "
  "It returns a sample, the posterior mean and the posterior covariance of the state; the sample equals the mean without a key and otherwise has exactly the posterior mean and covariance. Uncertainty output adds the full joint sample and law and the last innovation with its covariance, and square-root form returns the same quantities.",
  ["inputs", "configurations"], "all fields, start laws (including P = 0), priors, noise covariances, h > 0; dimension up to 2, up to 2 steps; with numeric step, prior, start covariance and Jacobian dimension up to 4, up to 33 steps",
  "The tests call these integrators end to end only and compare moments; the covariance fed back between intervals is not checked.",
  [ODE, E02, E12, UT], [("solver", E02), ("solver", E12), ("interlace_matrix", UT)],
  "As C14; the symbolic positive semidefinite start covariance goes through the matrix square root by its contract S S = P."),

p("C17", "Padding and combining priors act block by block",
  "Padding a prior transition to a higher order keeps its entries in the leading block and puts zeros elsewhere; combining independent transitions concatenates the offsets and places the covariances and matrices on the block diagonal in order, whatever their sizes. A restarted integration with the combined prior treats decoupled coordinates as separate one-coordinate problems.",
  ["inputs", "configurations"], "all entries; up to 5 blocks of up to 4 states, padding up to order 5",
  "No test combines or pads priors.",
  [TR, ODE], [("pad_prior", TR), ("get_independently_factorized_prior", TR)],
  "Symbolic entries, entrywise comparison; end to end with the filter on two decoupled uninterpreted fields."),

p("C18", "Integrated Brownian motion prior is the exact transition of that process",
  "For the q-times integrated Brownian motion the transition matrix has entries dt^(j-i)/(j-i)!, the covariance is sigma^2 times the exact integral of the squared response (entries dt^(2q+1-i-j)/((2q+1-i-j)(q-i)!(q-j)!)), and the offset is zero, repeated independently for each coordinate. "
  "Two half transitions compose to the whole one; with mean reversion theta the matrix is the exact exponential and the covariance is the same leading-order one.",
  ["inputs", "configurations"], "all dt > 0, sigma, theta; q up to 8, dimension up to 8 (theta = 0), q up to 4 (theta > 0)",
  "The tests use q = 1 only, with unit diffusion.",
  [IOUP], [("transition_function", IOUP)],
  "Matrix exponential of a nilpotent symbolic matrix by its finite series, of the mean-reverting one by its ODE characterisation; entries compared as polynomials."),

p("C19", "Matern prior is the transition of the Matern process",
  "For smoothness k+1/2 the underlying equation has characteristic polynomial (s + lambda)^(k+1) with lambda = sqrt(2k+1)/length and noise of the given magnitude on the last state only. The closed form for 3/2 is exactly the exponential and the "
  "integrated covariance of that equation, and agrees with the generic path; every coordinate gets the same independent block and the offset is zero.",
  ["inputs", "configurations"], "all dt, magnitude, length > 0; k up to 4, dimension up to 4",
  "No test uses the Matern prior (the sign of the powers of lambda for k other than 1, repaired, was never exercised).",
  [MAT, TR], [("transition_function", MAT)],
  "Transition against the finite form exp(-lambda h) * polynomial in h of the equation with a (k+1)-fold root; closed-form covariance by the stationary value and the composition law Q(s+t) = A(t) Q(s) A(t)^T + Q(t), which determine it; the generic path against the generic transition of C20 called on the required equation."),

p("C20", "Generic linear prior transition has the law of its linear equation",
  "For dX = (F X + u) dt + L dW over a step h the matrix is exp(F h), the offset is the integral over [0,h] of exp(F s) u and the covariance that of exp(F s) L L^T exp(F s)^T, both within the error of a second-order quadrature with the requested number of nodes. The offset is linear in u, the covariance is symmetric and quadratic in L, and both are exact for constant integrands.",
  ["inputs", "configurations"], "all nilpotent F of size 2 and 3, all F of size 1 and 2 for the matrix, all u, L, h > 0; 2, 3, 5 and the default number of nodes",
  "No test calls it directly.",
  [TR], [("transition_function", TR)],
  "For nilpotent symbolic F the exponential is its finite series and the exact integrals are polynomials: the solver bounds the difference by the second-order remainder from both sides (inequality queries). For other F: the exponential by its contract, linearity in u and L, constant integrands exactly."),

p("C21", "Interlacing puts every component in its place",
  "Interlacing r vectors of length d gives the vector whose entry r*i + j is component i of vector j; interlacing the four covariance blocks of two vectors gives the covariance of the interlaced vector, entry by entry.",
  ["inputs"], "all entries; up to 6 vectors of length up to 7, blocks up to 7x7",
  "No test covers dimension above 2 or non-symmetric blocks.",
  [UT], [("interlace", UT), ("interlace_matrix", UT)],
  "Symbolic entries compared one by one."),

p("C22", "Diffusion calibration is the maximum-likelihood scale",
  "Given N innovations z_n of dimension d with covariances S_n, the calibrated squared diffusion is (1/(N d)) times the sum of z_n^T S_n^-1 z_n. It is the stationary point of the Gaussian likelihood, scales quadratically with the innovations and inversely with the covariances.",
  ["inputs"], "all innovations, all symmetric invertible covariances; N up to 3, d up to 2; with numeric covariances N up to 33, d up to 6",
  "No test calls it.",
  [CAL, E02, E12], [("mle_diffusion", CAL)],
  "Symbolic linear solve; compared with the explicit adjugate formula; end to end on the uncertainty output of the continued integrators."),

p("C23", "Filter with parabola coefficients in the state is the stated Gaussian inference",
  "The state of each coordinate is (x, x', w, i); it starts at mean (x, a(x,0), 0, 0) with covariance that of s w'(0) for w a Brownian parabola (w, i independent, variances delta and delta/2), the coefficients are constant in time, (x, x') follow the prior transition of the filter step, and the filter conditions on "
  "x' = a(x,t) + s(x,t)(w + sqrt(6)(1 - 2t/delta) i)/delta at t = h, ..., N h. EKF1 linearises in x and the coefficients, EKF0 in the coefficients only. Returned are the end point, w and i: means without a key, otherwise a joint sample of the posterior law.",
  ["inputs", "configurations"], "all drifts, square diffusions, delta, h > 0, priors, noise covariances; dimension up to 2, up to 2 steps; with numeric interval, prior, Jacobian and diffusion dimension up to 5, up to 16 steps",
  TESTS + "one-dimensional and constant diffusions hide transposed or misplaced blocks.",
  [SSM, S0, S1, KF], [("_solver", SSM), ("solver", S0), ("solver", S1)],
  "As C14 with the 4-component state; both covariance and square-root form."),

p("C24", "Driver of the coefficients-in-state method feeds each interval the right problem",
  "Over N intervals of length delta the driver returns times 0, delta, ..., N*delta and a trajectory from x0 whose next point is the interval solver's first output when given the previous point, the interval length and the drift and diffusion shifted to absolute time t_k.",
  ["inputs", "configurations"], "all drifts, diffusions and interval solvers; N up to 40 in dimension 1, 8 in dimension 2, 5 in dimension 3",
  "The tests use autonomous equations, where the time shift cannot be seen.",
  [SSMD], [("sde_solver.body", SSMD)],
  "Uninterpreted drift, diffusion and interval solver; trajectory compared with the recursion."),

p("C25", "Progress bar never changes results and always completes",
  "Decorating a loop body with the progress bar leaves carried state and outputs unchanged. For every number of iterations the bar is created once before any update, its updates add up to exactly that number, and it is closed once, at the last iteration.",
  ["inputs", "configurations"], "every iteration index symbolically; numbers of iterations 1, 2, 3, 10, 100, 999-3001 around the switch points (thorough: more); arbitrary bodies",
  "Tests only see that runs finish.",
  [PB, SDE, SSMD], [("progress_bar / close_tqdm", PB)],
  "The traced conditionals are turned into integer conditions on the symbolic iteration index; z3 decides where each callback fires and the totals are summed from those sets."),

p("C26", "Randomness: independent draws per use, and the key alone decides the run",
  "In every driver, scheme, Brownian approximation and filter, no random key is consumed by two draws, and no key is both split and consumed for a draw, so draws of different steps, intervals and purposes (Brownian path and posterior sample) are independent. The output is a function of the given key and arguments only, and "
  "the random linear test problem draws independent standard-normal drift and diffusion matrices.",
  ["inputs", "configurations"], "all keys (free algebra of key derivations); dimension up to 2, up to 4 intervals",
  "Reusing a key keeps each marginal moment the tests look at and changes only joint laws.",
  [SDE, SSMD, FOS, EM, D15, HYP, E0, E1, IVP], [("jax.random.split before each draw", SDE), ("random_linear_sde", IVP)],
  "Keys are terms; each draw records the term it consumes; distinctness of all consumed terms is asserted, and joint covariances across steps are compared with independence."),

p("C27", "Reference moments of the test problems match their own drift and diffusion",
  "Every bundled problem that supplies reference moments supplies the right ones for its own coefficients and start: exact means and covariances solve the moment equations of the linear problems, "
  "and expansions agree with the Taylor expansion of the moments, by the generator, up to their stated order in time. Numerically integrated reference covariances use the correct integrand and quadrature.",
  ["inputs"], "all t > 0; every bundled problem with reference moments",
  "The references are what tests compare against; the tests cannot check them, and two were wrong (repaired).",
  [IVP], [("theoretical_mean*, theoretical_variance*", IVP)],
  "The problem's own drift and diffusion are traced and differentiated symbolically to build the generator expansion; the traced reference is compared as a polynomial (or exponential polynomial) in t."),

p("C28", "Variants of a test problem describe the same equation and can be run",
  "The square-diffusion variant of a problem has the same start, drift, noise covariance and reference moments as the original, with noise in the second coordinate only; the reduced synaptic model is the conductance part of the full one. Every bundled problem can be advanced by one Euler-Maruyama step, which has its drift and noise covariance at the start.",
  ["inputs"], "all states and times; all bundled problems with deterministic coefficients",
  "The reduced synaptic model used wrong component indices (repaired) because no test uses it; the variants are compared by tests only through moments.",
  [IVP], [("square_matrix_*, *_reduced, *_square", IVP)],
  "Both variants traced on the same symbolic state and compared."),

p("C29", "Inserting the initial value shifts, keeps and loses nothing",
  "Inserting a value at a position along an axis of an array gives the array with that slice at that position and all other entries in their old order; for a tuple of arrays the i-th value goes into the i-th array and a tuple of the same length is returned.",
  ["inputs", "configurations"], "arrays of rank 1 to 3 with sides up to 4, every position and axis, tuples of up to 3",
  "Tests only insert at the front of a single array.",
  [INS], [("insert", INS)],
  "Symbolic entries compared one by one."),
p("C30", "Every method reproduces constant noise with a drift linear in time",
  "For dX = (c + e t) dt + s dB with constant c, e, s, the pathwise driver with an EKF integrator (integrated-Brownian prior) gives at interval ends x0 + integral of the drift + s times the returned Brownian increments; sampling adds independent Gaussian noise of covariance M h^3/12 I per interval (M steps of length h). "
  "The filter with the Brownian coefficients in the state gives the joint law of end point and increment exactly, up to that same noise. "
  "Euler-Maruyama and the order 1.5 scheme are exact in law for constant drift.",
  ["inputs", "configurations"], "all c, e, s, starts, interval lengths; dimension up to 3, up to 4 intervals of up to 6 filter steps, square and rectangular s",
  "The tests do compare moments of additive-noise problems, for one problem and with a 10% tolerance.",
  [SDE, E0, E1, E02, E12, SSMD, S0, S1, EM, D15], [("sde_solver", SDE), ("sde_solver (coefficients in the state)", SSMD)],
  "The whole run is traced with symbolic normals; outputs are affine in them, and their means and covariances are compared with the law of the equation."),

p("C31", "Mapped and compiled runs equal single runs",
  "Mapping a driver, scheme, Brownian approximation or integrator over several keys, starts and interval lengths at once gives for each row exactly what a single run with that key, start and length gives, and a compiled run gives what the uncompiled one gives.",
  ["inputs", "configurations"], "all drifts, diffusions, keys, starts, steps; two runs mapped together, dimension 2, up to 3 steps or intervals",
  "The tests only run mapped over keys and look at pooled moments, where an exchange between rows cannot be seen.",
  [SDE, SSMD, FOS, EM, D15, HYP, E0, E1, E02, E12, KF], [("jax.vmap over the drivers", SDE), ("ekf", KF)],
  "vmap, jit and plain calls traced together on the same symbolic keys; compared entry by entry."),

p("C32", "Prior scale moves no mean, scales covariances, and calibration recovers it",
  "Multiplying the initial covariance, the process noise and the observation noise of a filter by the same factor leaves means and innovations unchanged and multiplies all covariances by that factor; "
  "the calibrated diffusion is divided by it. The sampled noise of a stochastic integrator scales by the same factor.",
  ["inputs"], "all scales c > 0, starts, parameters and time-dependent fields, numeric model matrices; state dimension up to 4, observations up to 2, up to 4 steps; covariance and square-root form",
  "The tests use one prior scale.",
  [KF, E0, E1, S0, S1, CAL], [("ekf", KF), ("mle_diffusion", CAL)],
  "Both runs are traced with a symbolic scale and compared, with the scale taken out."),

p("C33", "Configurations that describe the same computation agree",
  "EKF0 equals EKF1 when the field does not depend on the state; restarting from the current value equals continuing from a known value; the square-root form equals the covariance form; omitted prior and noise equal the integrated-Brownian prior and no noise given explicitly; "
  "the drivers without diffusion give the deterministic integrator's result; the order 1.5 scheme with constant drift and diffusion equals Euler-Maruyama.",
  ["inputs", "configurations"], "all starts and time-dependent fields, numeric steps and Jacobians; dimension up to 3, up to 5 steps",
  "Each configuration is tested by itself and loosely.",
  [E0, E1, E02, E12, ODE, S0, S1, SDE, SSMD, EM, D15], [("solver variants", E0), ("solver variants", E1), ("drivers", SSMD)],
  "Both configurations traced on the same symbols and keys and compared."),

p("C34", "A run cut at a grid time and resumed is the uncut run",
  "Stopping after k steps and starting again from the reached state, with the clock of drift and diffusion moved on by the elapsed time and the remaining random numbers, gives the second part of the uncut run, in its values and (shifted) times. This holds for Euler, Euler-Maruyama on a given path, both drivers including states with covariances, and the filter.",
  ["inputs", "configurations"], "all drifts, diffusions, starts, steps; up to 17 steps cut at chosen points (all points up to 4 steps), dimension up to 3",
  "No test restarts a run.",
  [SDE, SSMD, EM, EUL, KF], [("scan over intervals", SDE), ("scan over intervals", SSMD)],
  "The two halves and the whole are traced with the same symbolic noise and compared."),

p("C35", "Renaming coordinates and noise sources renames the result",
  "Permuting the coordinates of start, drift, diffusion rows (and the noise columns) of a problem permutes means, covariances, laws and trajectories in the same way, for the conversions, the schemes, every filter integrator with or without prior and noise, and both drivers.",
  ["inputs", "configurations"], "all drifts, diffusions and starts; dimension up to 4, one permutation without fixed points per dimension; filters with numeric Jacobian, step and prior",
  "Index slips that treat coordinates unequally cancel in the diagonal and low-dimensional test problems.",
  [IS, EM, D15, HYP, E0, E1, E02, E12, KF, S0, S1, SDE, SSMD], [("drift_correction", IS), ("block layout of the state", ODE)],
  "Original and permuted problem traced together and compared after permuting back."),

p("C36", "Recursive filters equal one-shot Gaussian conditioning on linear problems",
  "For linear dynamics and observations the filter's final mean and covariance (and its last innovation) are those of the joint Gaussian law of all states conditioned at once on all observations; "
  "the same holds for the EKF1 integrators on linear equations and the EKF1 filter with Brownian coefficients in the state.",
  ["inputs"], "all starts, parameters and time-dependent offsets, numeric model matrices; state dimension up to 4 (integrators: 3 with 2 to 4 states per coordinate), up to 8 observations",
  "The tests check the accuracy of the solution, not that it is the stated posterior.",
  [KF, ODE, E1, E12, S1], [("ekf predict / update", KF)],
  "Traced filter against the joint Gaussian built from covariances of all states and solved by elimination."),

p("C37", "Results do not depend on the units of state, observation and time",
  "Any change of basis of state or observation transforms filter means and covariances accordingly. Measuring state or time in other units changes the results of the integrators, schemes, Brownian approximations and drivers only by the corresponding factors.",
  ["inputs"], "all scale factors > 0, starts, fields; dimension up to 4 (numeric bases), up to 4 steps; covariance and square-root form; curves and slopes in dimension up to 3",
  "The tests use problems in one unit; fixed floors, thresholds and regularisers are invisible at that scale.",
  [KF, E0, E1, E02, E12, SSM, S1, EM, D15, HYP, FOS, SDE], [("ekf", KF), ("step-dependent transition matrices", IOUP)],
  "Run in both units traced on the same symbols and keys and compared after conversion."),
p("C38", "Bundled problems are the models they are named after, at every state",
  "For some parameter values: the FitzHugh-Nagumo drift is ((x - x^3 - y + s)/eps, gamma x - y + alpha); the (double) integrated Brownian motions integrate each next coordinate; the oscillators have drift (v, -Dx - gamma v), all with constant noise in the last coordinate only. "
  "Geometric Brownian motion has drift and noise proportional to the state. The synaptic voltage has a leak and two conductances with reversal potentials and no noise; the conductances relax linearly with independent square-root noise.",
  ["inputs"], "all states (positive conductances); all bundled problems with deterministic coefficients; parameters read off the code at probe states",
  "The tests use each problem from one start over a short time, where the cubic term or a coupling away from the start cannot be seen.",
  [IVP], [("fhn, ibm, harmonic_oscillator, gbm, synaptic_conductance", IVP)],
  "Drift and diffusion traced at a symbolic state and compared with the model whose coefficients are the traced drift's own values at probe states."),
p("C39", "Comparison scripts run method and reference on the same Brownian path",
  "Every experiment(delta, N, M, fine) under scripts/ returns, per Monte-Carlo key, the named method's run on that key with the stated problem and prior and M integrator steps per interval. "
  "The reference is the Euler-Maruyama run (or the linear closed form) on the fine increments of that same key, at the same N+1 times. Every sample is kept in both.",
  ["inputs"], "all start values, interval lengths, additive noises and drifts in place of the bundled problem, all interval integrators, all draws; two samples, 2-3 intervals, 1-2 integrator steps, 2-3 fine steps",
  "No test runs a script, and a run at full size takes hours; a wrong clock, step or sample pairing only bends a convergence plot.",
  ["scripts/*.py", "scripts/*/*.py"], [("experiment", "scripts/pathwise_convergence_experiment_2_RAM.py"), ("experiment", "scripts/pathwise_convergence_experiment_3_ssm.py"), ("experiment", "scripts/breaking_multidimensionnal.py")],
  "The definitions of each script are executed with the bundled problem and the interval integrator made arbitrary (and with the real integrator), experiment() is traced for a symbolic key, start, noise and interval length, and its output is compared with the library driver and the library pathwise Euler-Maruyama on the same key."),
p("C40", "Posterior-sampling and calibration scripts report and draw from one posterior",
  "In scripts/sampling_from_posterior_alg3 the means, covariances, innovations, fine, coarse and ODE references and increments reported all belong to the first key's path, and the diffusion estimate is the maximum-likelihood one of its innovations. "
  "Posterior samples are Gaussian with exactly the reported means and covariances, and the calibrated run uses the uncalibrated prior scale times the root of the estimate.",
  ["inputs"], "all starts, interval lengths, drifts, additive noises, interval integrators, posteriors and estimates; two to three intervals, dimension up to 2",
  "No test runs these scripts; a transposed factor or a dropped prior scale leaves plausible-looking samples.",
  ["scripts/sampling_from_posterior_alg3/*.py"], [("experiment", "scripts/sampling_from_posterior_alg3/uncertainty_calibration.py"), ("sample", "scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py")],
  "The scripts are executed symbolically with an arbitrary interval integrator; for the draws, with an arbitrary posterior; the calibration loop with an arbitrary estimate. Sample moments are exact expectations over the draws."),
]

NOT_APPLICABLE = [
p("N01", "Strong convergence orders of the full methods",
  "As the interval length goes to zero, the pathwise driver with Brownian parabolas and an accurate ODE integrator converges strongly to the solution of the SDE with the order proved in the literature (1.0 in general, 1.5 for the Taylor schemes).",
  ["inputs"], "all smooth drifts and diffusions with the usual growth conditions, interval length to 0, number of intervals to infinity",
  "A limit over unboundedly many steps; the tests fit slopes on a few step sizes for particular problems.",
  [SDE, D15, HYP], [("sde_solver", SDE)], "", ""),
p("N02", "Results are insensitive to floating-point rounding",
  "With single- or double-precision arithmetic every computed mean, covariance and sample is within a small relative error of its exact-arithmetic value, including covariances close to singular and very small steps.",
  ["inputs"], "all inputs of moderate size, steps down to 1e-8",
  "Rounding behaviour depends on the values reached; tests see a few.",
  [KF, ODE], [("ekf", KF)], "", ""),
]
NA_REASON = {
 "N01": "an asymptotic statement over unboundedly many steps: a bounded solver query cannot express the limit; the one-step laws and expansions it rests on are decided by C02-C10.",
 "N02": "the traced computations use exp, sqrt, matrix square roots and QR from XLA/LAPACK, whose floating-point code is outside reach of symbolic execution; the checks decide the exact-real semantics of the traced program, validated on concrete double runs.",
}
