#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (run after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
X = "pyproximal/"
prop("C01", "Evaluating a functional gives its documented value",
 "Calling any proximal operator on a vector returns the value of the functional its documentation defines (norms, penalties, quadratics, TV, spectral norms, envelopes, with their weights, data and shift terms), for every parameter choice and for complex vectors wherever the definition is stated through moduli. Composite functionals (sums, stacks, affine shifts, scalings, compositions with an operator) evaluate to the corresponding combination of their parts.",
 ["inputs", "configurations"], "all operators, all admissible parameters and shapes, all real (and where defined complex) vectors including zeros, ties and values on branch boundaries",
 "tests evaluate few operators on one seeded normal vector; the branch boundaries, zero/negative/complex entries and vector weights are never sampled",
 [X+"proximal", X+"ProxOperator.py"], [("__call__ / elementwise of each operator", X+"proximal/*.py"), ("operator algebra __call__", X+"ProxOperator.py")])
prop("C02", "Proximal operators of convex functions return the unique minimiser",
 "For every convex functional f in the library, every point x and every step tau>0, prox(x,tau) is the minimiser of f(y) + |y-x|^2/(2 tau): no other point has a smaller objective. This covers scalar and vector weights, shifted norms, group norms, real and complex data, and steps given as arrays where the operator accepts them.",
 ["inputs", "configurations"], "every convex operator, all parameters, all x including zeros, ties and points exactly on thresholds, all tau>0",
 "tests mostly check only the Moreau identity, which any function satisfies when the dual is computed from the prox, at one seeded normal vector and one tau",
 [X+"proximal/L1.py", X+"proximal/L2.py", X+"proximal/L21.py", X+"proximal/L21_plus_L1.py", X+"proximal/Huber.py", X+"proximal/Euclidean.py", X+"proximal/Quadratic.py"], [("closed form prox", X+"proximal/*.py")])
prop("C03", "Non-convex penalties: prox is the global minimiser or documented threshold",
 "For each non-convex penalty (log, exponential-type, Geman, SCAD, cardinality envelopes, relaxed Mumford-Shah, L0-type thresholding) prox(x,tau) attains the global minimum of penalty(y) + |y-x|^2/(2 tau) within the parameter range documented for its formula; L0 applies the documented hard threshold at tau*sigma. Results are odd in x, never larger than x in modulus, and keep the sign (or phase) of x.",
 ["inputs", "configurations"], "every non-convex penalty, all admissible parameters, all x (both sides of every jump and kink), all tau in the documented range",
 "tests compare a handful of points against a coarse grid for single parameter values; jumps between stationary points sit at parameter-dependent locations no fixed sample hits",
 [X+"proximal/Log.py", X+"proximal/ETP.py", X+"proximal/Geman.py", X+"proximal/SCAD.py", X+"proximal/QuadraticEnvelope.py", X+"proximal/RelaxedMS.py", X+"proximal/L0.py"], [("stationary point selection", X+"proximal/*.py")])
prop("C04", "Projections return the nearest point of their set",
 "Every projection (box, hyperplane-box, simplex, Euclidean, L1, L0, L1,0 and nuclear balls, half space, affine set, Hankel matrices, pairwise-difference intersection, generic intersections) returns a point of its set that is at least as close to the input as any other point of the set. Points already inside are returned unchanged, so projecting twice equals projecting once, and the proximal operator of the indicator is this projection whatever tau is.",
 ["inputs", "configurations"], "all sets, radii, bounds, centres, shapes and axes with non-empty sets, all inputs: interior, boundary, exterior, with ties, zeros and negative entries; complex inputs for ball projections",
 "tests project one random exterior vector and check feasibility only: nearest-ness and interior points are not examined",
 [X+"projection", X+"proximal/Simplex.py", X+"proximal/_Simplex_numba.py"], [("projection formulas and bisection", X+"projection/*.py")])
prop("C05", "Indicator functionals answer set membership correctly",
 "Calling the indicator of a set returns true for the points of the set and false for points outside it by more than its tolerance, for every set in the library. A projected point is reported as a member up to the accuracy to which that set is projected.",
 ["inputs", "configurations"], "all indicator operators, all parameters, points inside, outside in every direction (too large, too small, negative, a single violated row), and projected points",
 "tests evaluate the indicator only on one projected vector (expecting true); answers for non-members are unsampled",
 [X+"proximal"], [("__call__ of indicator operators", X+"proximal/{Box,Simplex,L0,L1,Euclidean,Nuclear,Hankel,HalfSpace,AffineSet,Intersection,GenericIntersection}.py")])
prop("C06", "Moreau decomposition and conjugate (dual) proximal operators",
 "For every operator, x and tau>0, x equals prox(x,tau) + tau * dual prox(x/tau, 1/tau). For convex functionals the dual prox is itself the proximal operator of the convex conjugate: it lies in the conjugate's domain and minimises the conjugate's proximal objective, also when the operator was obtained by swapping prox and dual with the adjoint property.",
 ["inputs", "configurations"], "all operators, all parameters, all x, all tau>0; separately implemented duals and those derived by default",
 "where the dual is derived from the prox the existing Moreau test is a tautology; separately implemented duals are checked on one vector",
 [X+"ProxOperator.py", X+"utils/moreau.py", X+"proximal"], [("_prox_moreau/_proxdual_moreau", X+"ProxOperator.py"), ("proxdual overrides", X+"proximal/{L1,L21,Euclidean}.py")])
prop("C07", "Operator algebra obeys the calculus rules of proximal operators",
 "Adding or subtracting a vector, scaling by a positive scalar and composing with a scaled shift, nested to any depth, produce operators whose value, prox, dual prox and gradient are those of the function f+<v,x>, s*f and f(a x + b). The prox of a chained operator applies the proxes one after the other, and the adjoint exchanges prox and dual prox. The operands keep behaving as before, and invalid operands are rejected with an error.",
 ["programs", "inputs"], "all expression trees built from the algebra over all base operators, all vectors, scalars, x and tau",
 "tests cover one level of each rule on one operator with one vector; nesting, gradients and values of composed operators are not tested",
 [X+"ProxOperator.py"], [("_SumOperator, _PostcompositionOperator, _PrecompositionOperator, _ChainOperator, _AdjointOperator", X+"ProxOperator.py")])
prop("C08", "Stacked and orthogonally composed functions have exact proximal operators",
 "The proximal operator, value and gradient of a vertical stack act independently on each block, whether blocks are given by consecutive sizes or by restriction operators in any order. Composition of f with an orthogonal or partially orthogonal (Q Q^H = alpha I) operator plus an offset gives the exact minimiser of f(Qy+b)+|y-x|^2/(2 tau).",
 ["programs", "inputs"], "all lists of block operators and sizes, all restriction patterns, all (semi-)orthogonal operators, offsets, alpha, x and tau",
 "tests use one pair of equal L1/L2 blocks and check Moreau only; offsets, alpha != 1 and gradients of stacks are unsampled",
 [X+"proximal/VStack.py", X+"proximal/Orthogonal.py"], [("block slicing and restriction", X+"proximal/VStack.py"), ("orthogonal composition rule", X+"proximal/Orthogonal.py")])
prop("C09", "Sums and intersections via Dykstra converge to the exact prox/projection",
 "The proximal operator of a sum of convex functions converges to the minimiser of the (weighted) sum plus the quadratic, as documented for two-operator and parallel modes, both step conventions and any positive weights. The projection onto an intersection of convex sets converges to the nearest point of the intersection for one, two or more sets, sequential or parallel, independently of the order of the sets.",
 ["inputs", "configurations"], "all lists of one to five convex operators or sets with non-empty intersection, weights, modes, x, tau, tolerances",
 "tests compare a few fixed combinations; weights, order, modes and stopping are combined only in a handful of cases",
 [X+"proximal/Sum.py", X+"proximal/_Dykstra.py", X+"projection/GenericIntersection.py", X+"proximal/GenericIntersection.py", X+"projection/Intersection.py"], [("dykstra_two, parallel_dykstra_projection, parallel_dykstra_prox", X+"proximal/_Dykstra.py")])
prop("C10", "Spectral operators act on singular values exactly",
 "Operators on matrices (nuclear norm, weighted nuclear norm, nuclear ball, penalties on singular values, low-rank envelopes) evaluate their documented function of the singular values for any matrix shape, and their prox is U diag(prox of singular values) V^H and hence the minimiser for convex cases. They are invariant to left/right orthogonal transformations and transposition.",
 ["inputs", "configurations"], "all shapes (tall, wide, square, 1xN), ranks, repeated singular values, weights, radii, tau; real and complex matrices",
 "tests use one random square or tall matrix and check Moreau; rank deficiency, wide matrices, weight vectors and invariance are unsampled",
 [X+"proximal/Nuclear.py", X+"proximal/SingularValuePenalty.py", X+"proximal/QuadraticEnvelope.py", X+"projection/Nuclear.py"], [("SVD based prox", X+"proximal/Nuclear.py"), ("SVD based prox", X+"proximal/SingularValuePenalty.py")])
prop("C11", "Gradients equal the derivative of the evaluated functional",
 "For every operator declaring a gradient, the gradient at any point where the functional is differentiable equals the derivative of the value it returns when called; for base operators (not composed by operator algebra) without one it equals the gradient of the Moreau envelope with the configured envelope parameter. This holds with all data, weight, shift and dot-product terms, real or complex, and through operator algebra and stacking of operators that declare a gradient.",
 ["inputs", "configurations"], "all differentiable operators and compositions, all parameters, all points",
 "only two operators are gradient-tested, along one random direction, with a utility that checks only a single real or imaginary perturbation",
 [X+"ProxOperator.py", X+"proximal"], [("grad", X+"proximal/*.py"), ("Moreau envelope grad", X+"ProxOperator.py")])
prop("C12", "Total variation: value and proximal operator are exact and converge",
 "The TV functional equals sigma times the sum over samples of the Euclidean norm of forward differences in 1 to 4 dimensions. Given enough iterations its prox converges to the minimiser of sigma*TV(y)+|y-x|^2/(2 tau); any number of iterations preserves the mean and leaves constants unchanged.",
 ["inputs", "configurations"], "all array shapes with every dimension >=2 in 1-4 dimensions, sigma, tau, iteration counts and tolerances, real and complex data",
 "tests check a denoising run and the Moreau identity with a derived dual; optimality is never checked",
 [X+"proximal/TV.py"], [("dual FISTA loop", X+"proximal/TV.py")])
prop("C13", "Quadratic data-fit proxes solve their linear system with every solver path",
 "The prox of sigma/2|Op x-b|^2 (+ alpha<q,x>), of general quadratics, of convolutional data fits, and of user-defined nonlinear functions equals the solution of the documented linear system or optimisation problem. Explicit, factorised, legacy, cg and cgls paths agree to solver accuracy, for any sequence of steps and inputs, with warm start on or off.",
 ["inputs", "configurations", "histories"], "all operators (explicit or matrix-free, tall, wide, complex), data, q, sigma, alpha, tau sequences, solver choices and warm-start settings",
 "tests compare a few solver paths for a single call each; sequences of calls with changing tau (cached factorisation, warm start) are not exercised",
 [X+"proximal/L2.py", X+"proximal/Quadratic.py", X+"proximal/Nonlinear.py"], [("normal equation / regularised solves", X+"proximal/L2.py"), ("cached factorisation", X+"proximal/L2.py")])
prop("C14", "Call-count schedules: the k-th prox call uses the k-th schedule value",
 "When a weight, radius or inner iteration count is given as a function of the call counter, the k-th call of prox uses exactly the value the function returns for k (counting from 1), and evaluating the functional after k calls uses the value for k. Constants behave as a constant function, and two operators never share their counters.",
 ["histories"], "all sequences of prox and value calls on all schedule-capable operators with arbitrary schedules",
 "tests call prox once or twice with a schedule; interleavings of calls and several operators are not exercised",
 [X+"proximal/L1.py", X+"proximal/L0.py", X+"proximal/L2.py", X+"proximal/TV.py", X+"proximal/RelaxedMS.py"], [("call counters", X+"proximal/{L0,L1,L2,TV,RelaxedMS}.py")])
prop("C15", "Invalid steps and parameters are rejected",
 "Every prox and dual prox, of base and composed operators, raises a ValueError when tau (or any entry of an array tau) is zero or negative, and accepts every positive tau. Constructors and solvers reject documented-invalid parameters (negative weights, mismatched sizes, unknown engines, accelerations or solvers, missing initial guesses) instead of returning a result.",
 ["inputs", "configurations"], "all operators and compositions, all non-positive scalars and arrays containing one non-positive entry, all invalid parameter values",
 "the tau check is tested for one operator and one value",
 [X+"ProxOperator.py", X+"proximal", X+"optimization"], [("_check_tau", X+"ProxOperator.py"), ("argument checks", X+"optimization/primal.py")])
prop("C16", "Operators never modify their inputs and repeated calls agree",
 "Evaluating, taking the prox, dual prox or gradient of any operator, and applying any projection, leaves the input arrays and the arrays the operator was built from unchanged. The same call repeated, interleaved with any other calls, or issued on an independently built equal operator gives the same result (up to solver accuracy for warm-started operators and except for declared call-count schedules).",
 ["histories", "inputs"], "all operators and random call sequences (value, prox, dual, gradient; varying x, tau), views and read-only arrays",
 "tests always pass fresh temporaries and never look at the inputs again; aliasing shows only when the caller reuses the array",
 [X+"proximal", X+"projection", X+"ProxOperator.py"], [("out-of-place arithmetic", X+"proximal/*.py")])
prop("C17", "Simplex engines and layouts agree with the exact simplex projection",
 "The numpy and numba engines return the exact Euclidean projection onto the simplex for vectors and for every row or column of a matrix layout, to the requested accuracy, for any radius and magnitude of the input. Both engines give the same answer, and the result for one row does not depend on the other rows.",
 ["inputs", "configurations"], "all sizes, radii>0, axis choices, value magnitudes, ties and negatives, both engines",
 "tests run a random matrix through both engines and check the row sums only",
 [X+"proximal/Simplex.py", X+"proximal/_Simplex_numba.py", X+"projection/Simplex.py", X+"projection/Box.py"], [("bisection", X+"proximal/_Simplex_numba.py")])
prop("C18", "Proximal-point and proximal-gradient solvers converge to a minimiser",
 "Given enough iterations and admissible steps, the proximal point, proximal gradient (plain, relaxed, vandenberghe, fista, backtracking), Anderson-accelerated, generalized proximal gradient and two-step IST solvers return a point whose objective is the global minimum of the stated convex problem. The answer does not depend on the starting point for strictly convex problems.",
 ["inputs", "configurations"], "random well-posed convex composite problems, starting points, steps, relaxation, acceleration, number of terms and weights",
 "tests compare two solvers on one fixed problem; accelerations, Anderson, TwIST and relaxation have no test",
 [X+"optimization/primal.py"], [("ProximalPoint, ProximalGradient, AndersonProximalGradient, GeneralizedProximalGradient, TwIST", X+"optimization/primal.py")])
prop("C19", "Proximal-gradient type solvers follow their documented recursion",
 "The sequence of iterates produced by the proximal point, proximal gradient (with relaxation eta, per-iteration or multi-rhs step and weight schedules, and momentum), Anderson, generalized proximal gradient, half-quadratic splitting and TwIST solvers is the one given by the recursion in their documentation, iterate by iterate.",
 ["schedules", "inputs"], "all problems, iteration counts, step and weight schedules, eta, acceleration and histories",
 "tests look only at the final iterate of two solvers and never vary schedules or relaxation",
 [X+"optimization/primal.py"], [("iteration loops", X+"optimization/primal.py")])
prop("C20", "Backtracking yields sufficient decrease and monotone objectives",
 "Proximal gradient and PALM-type solvers with backtracking find, at every iteration, a step satisfying the sufficient-decrease inequality of their documentation, shrinking the previous step only by the given factor. The objective then never increases from one iterate to the next, and the result minimises the problem even when the initial step is far too large.",
 ["inputs", "schedules"], "random problems, initial steps spanning orders of magnitude, shrink factors, numbers of trials",
 "no test uses backtracking",
 [X+"optimization/primal.py", X+"optimization/palm.py"], [("_backtracking", X+"optimization/primal.py"), ("_backtracking", X+"optimization/palm.py")])
prop("C21", "ADMM-family solvers follow their recursion and solve the split problem",
 "ADMM, ADMM with L2 misfit and linearized ADMM generate the documented recursion in either update order and from any combination of initial vectors, and with admissible steps converge to a pair with x (or Ax) equal to z that minimises the stated objective.",
 ["inputs", "configurations", "schedules"], "random convex problems and linear operators (square, tall, wide), steps, update orders, initial vectors, iteration counts",
 "tests compare ADMM and DR on one problem with one initialisation; gfirst with a linear operator and given z0 are never run",
 [X+"optimization/primal.py"], [("ADMM, ADMML2, LinearizedADMM", X+"optimization/primal.py")])
prop("C22", "Splitting solvers over many terms reach the common minimiser",
 "Douglas-Rachford, PPXA and consensus ADMM follow their documented recursion and converge to a minimiser of the sum of their terms, for any number and order of terms, positive normalised weights, relaxation, step and initialisation (shared or one vector per term).",
 ["inputs", "configurations"], "random lists of convex terms, weights, relaxation parameters, steps, initial vectors in every accepted form",
 "tests use two or three terms with one shared initial vector",
 [X+"optimization/primal.py"], [("DouglasRachfordSplitting, PPXA, ConsensusADMM", X+"optimization/primal.py")])
prop("C23", "Primal-dual solvers follow their recursion and reach the saddle point",
 "The primal-dual solver (fixed or per-iteration steps, any theta, either update order, with or without the extra smooth linear term) and its adaptive version generate the documented iterates and converge to the minimiser of f(x)+g(Ax)+<z,x> for admissible steps, for square and rectangular operators. Their dual output certifies the primal one.",
 ["inputs", "configurations", "schedules"], "random convex problems, operators, step schedules, theta, order, z, initial primal and dual vectors",
 "no test exercises the primal-dual solvers at all",
 [X+"optimization/primaldual.py"], [("PrimalDual, AdaptivePrimalDual", X+"optimization/primaldual.py")])
prop("C24", "Solvers honour the callback, stopping and initial-guess contract",
 "Every solver calls the callback exactly once per iteration, in order, with the current iterate, the last of which is what it returns; it never modifies its initial guesses, data or weights; printing progress does not change any result; and running n iterations then inspecting is the same as the first n iterations of a longer run. A tolerance of None runs all iterations, and otherwise the solver stops at the first iteration meeting its documented criterion.",
 ["histories", "configurations"], "all solvers with random small problems, iteration counts, tolerances, callback styles and display settings",
 "tests never pass a callback, tolerance or show flag, and never look at the initial guess afterwards",
 [X+"optimization"], [("callback/tol/show handling in every solver", X+"optimization/*.py")])
prop("C25", "Alternating solvers for bilinear problems descend to stationary points",
 "PALM and inertial PALM follow their documented recursion (per-block steps from the block Lipschitz constants, given inertia coefficients), PALM never increases the full objective, and both approach a point where each block satisfies its own prox-gradient optimality condition.",
 ["inputs", "schedules"], "random bilinear factorisation problems, regularisers, step factors, inertia coefficients, backtracking options, initial factors",
 "no test runs PALM or iPALM",
 [X+"optimization/palm.py", X+"utils/bilinear.py"], [("PALM, iPALM", X+"optimization/palm.py")])
prop("C26", "Bilinear operators: values, gradients and Lipschitz constants are consistent",
 "A low-rank factorised data-fit evaluates to half the squared residual of the product of its factors, its partial and joint gradients are the derivatives of that value at the current factors, and its block Lipschitz constants bound the variation of those gradients. Updating one or both factors changes the state accordingly, and evaluating at other factors leaves the stored factors unchanged.",
 ["inputs", "histories"], "random factor shapes, data, optional linear operator, real and complex, random sequences of updates and evaluations",
 "tests check one gradient with one random direction and one matvec",
 [X+"utils/bilinear.py"], [("LowRankFactorizedMatrix", X+"utils/bilinear.py")])
prop("C27", "Bregman, sparse-relaxed and plug-and-play solvers do what they document",
 "Bregman iterations follow the documented subgradient recursion with any inner solver and reach data consistency as outer iterations grow; the sparse relaxed regularized regression solver converges to the minimiser of its relaxed objective; the plug-and-play wrapper around any supported solver equals that solver run with the denoiser as the proximal operator of g.",
 ["inputs", "configurations"], "random problems, inner solvers and their arguments, warm start settings, relaxation parameters, denoisers",
 "no test runs these solvers",
 [X+"optimization/bregman.py", X+"optimization/sr3.py", X+"optimization/pnp.py"], [("Bregman", X+"optimization/bregman.py"), ("SR3", X+"optimization/sr3.py"), ("PlugAndPlay", X+"optimization/pnp.py")])
prop("C28", "Segmentation returns a valid, order-consistent labelling",
 "Image segmentation returns probabilities that are non-negative and sum to one at every pixel, together with the label of largest probability. Permuting the class values permutes the labels, and with vanishing regularisation every pixel gets the class nearest to its value, for images of two or more dimensions and any number type. Given enough iterations the probabilities minimise the documented total-variation objective.",
 ["inputs", "configurations"], "random images (2-4 dimensions, floating point and integer), numbers of classes and class values, sigma, alpha, class deviations, initial guesses, iteration counts, callbacks",
 "no test runs the segmentation",
 [X+"optimization/segmentation.py"], [("Segment", X+"optimization/segmentation.py")])
prop("C29", "Gradient and Moreau self-test utilities accept right and reject wrong operators",
 "The gradient-test utilities and the Moreau-identity utility report success for operators whose gradient or dual is right and failure (or an error when asked to raise) for operators whose gradient or dual is wrong beyond the tolerance at the entry they sample, so that repeated calls expose any wrong entry. They do not modify the arrays or operators handed to them.",
 ["inputs"], "random differentiable functions, correct and perturbed gradients, single wrong entries, real and complex settings, tolerances, seeds",
 "tests only feed correct operators, so a utility that always answers true would pass",
 [X+"utils/gradtest.py", X+"utils/moreau.py"], [("gradtest_proximal, gradtest_bilinear", X+"utils/gradtest.py"), ("moreau", X+"utils/moreau.py")])
prop("C30", "Proximal operators are nonexpansive and respect symmetries and precision",
 "For every convex functional the prox is firmly nonexpansive and monotone; for permutation-, sign- or phase-invariant functionals it commutes with those transformations, and for norms it commutes with positive rescaling of input and step. Real inputs give real outputs of the same shape, single precision in gives a single precision-accurate answer, and complex inputs with zero imaginary part agree with the real answer.",
 ["inputs"], "all operators, pairs of points arbitrarily close or far, transformations, scales over many magnitudes, float32/float64/complex",
 "relations between different inputs are not expressed by any test",
 [X+"proximal", X+"projection"], [("prox implementations", X+"proximal/*.py")])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P))
