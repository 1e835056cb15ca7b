#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review and edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","The variable store is an exact typed map under every operation history",
 "After any sequence of inserts, replacements, removals, in-place mutations, entry operations, clones and tangent updates, the variable store holds exactly the keys and values a plain key-to-variable map would hold. Reading (or borrowing mutably) a present key with the type it was stored under yields that variable; an absent key, or another variable type, yields nothing; a replacing insert and a removal hand back the value that was stored before. Length, emptiness, iteration, consuming iteration and the by-type filter all describe that same content, and a clone is independent of its original from then on.",
 ["histories"],"all sequences of store operations up to a depth, over keys whose symbols differ in letter only, index only or both, and values of different variable types",
 "Unit tests do not exercise the store directly at all; one doc example inserts and reads two keys. The property ranges over all operation histories.",
 ["src/containers/values.rs"],[("Values methods over a hash map of boxed variables with downcasts","src/containers/values.rs")],["Values public API"])

p("C02","Distinct symbols are distinct keys, and a key names its symbol back",
 "Converting symbols to keys never maps two different symbols to the same key: symbols that differ in their letter or in their index (any Unicode letter, any index below 2^32) stay distinct, in the store as well as in the key value. Converting a key back to a symbol recovers exactly the letter and the index it was made from, so that printed keys, symbols and stores name the right variable.",
 ["inputs"],"all characters x indices below 2^32 (structured exhaustive sets), plus all letters offered by the library's symbol module and user-declared symbols",
 "No test covers key packing; the collision-freeness is a statement about all pairs of symbols.",
 ["src/containers/symbol.rs","src/lib.rs"],[("bit packing of character and index into the key","src/containers/symbol.rs"),("assign_symbols! generated conversions","src/containers/symbol.rs")],["Key value, symbol Debug output, Values lookups"])

p("C03","A stacked update vector is split so each variable gets its own slice",
 "For every set of variables, the computed ordering gives each variable a contiguous slice as long as its tangent dimension, the slices partition the stacked vector with no gap or overlap, and the total dimension is the sum of the variable dimensions. Reading a key from a stacked vector returns exactly its slice, and applying a stacked vector to a set of variables moves every variable by exactly its own slice and by nothing else; variables that the vector does not mention stay unchanged, and a vector of the wrong length is rejected.",
 ["inputs","configurations"],"all sets of up to four (thorough: five) variables of mixed dimensions, all hash iteration orders of the set, and all explicit slice layouts",
 "Tests use one or two variables and whatever order the randomly seeded hash map happens to produce in that run.",
 ["src/containers/order.rs","src/linear/values.rs","src/containers/values.rs"],[("ValuesOrder::from_values running offset","src/containers/order.rs"),("LinearValues slices","src/linear/values.rs"),("Values::oplus_mut","src/containers/values.rs")],["ValuesOrder, LinearValues, Values"])

p("C04","The assembled sparse system equals the dense block system it stands for",
 "For every factor graph and every variable ordering, the assembled residual vector stacks the factors' right-hand sides in graph order, and the assembled sparse Jacobian holds, for each factor, each variable's derivative block at that factor's rows and that variable's columns, and zero elsewhere. The linear cost of the graph at any stacked vector x is half the squared norm of (A x - b) of that assembled system. This holds whatever order the keys are listed in inside a factor, however factors of different sizes are interleaved, and whichever variables no factor touches.",
 ["inputs","configurations"],"all small factor graphs (factor arities 1-6, mixed variable and residual dimensions, all key permutations) x all variable orderings",
 "The only assembly test checks one two-variable graph; placement must be right for every topology and every hash order.",
 ["src/containers/graph.rs","src/linear/graph.rs","src/linear/factor.rs","src/linalg/mod.rs"],[("sparsity pattern construction","src/containers/graph.rs"),("value emission order in residual_jacobian","src/linear/graph.rs"),("block views","src/linalg/mod.rs")],["Graph::linearize, sparsity_pattern, LinearGraph::residual_jacobian/error"])

p("C05","A factor's cost and linearisation follow its residual, noise and kernel",
 "A factor's cost is its robust kernel applied to the squared norm of its noise-whitened residual (defaults when not given: unit noise and plain least squares), and a graph's cost is the sum over all its factors. Linearising a factor yields A and b such that A is the whitened Jacobian and b the negated whitened residual, both scaled by the square root of the kernel weight, with one block per key in key order; consequently the gradient of the cost is -A^T b. This holds for every residual arity from one to six and for every way of building the factor (builder with or without key-type checking, or the factor macro, with and without noise and kernel).",
 ["inputs","programs"],"all combinations of residual arity/type x noise model x robust kernel x construction form x value assignments",
 "Tests compare Jacobians of a few residuals at one point with unit noise; the combination space and the scaling are never checked.",
 ["src/containers/factor.rs","src/containers/graph.rs","src/residuals/traits.rs","factrs-proc/src/fac.rs","factrs-proc/src/residual.rs"],[("Factor::error / Factor::linearize","src/containers/factor.rs"),("FactorBuilder","src/containers/factor.rs"),("fac! expansion","factrs-proc/src/fac.rs"),("residual wrappers","src/residuals/traits.rs")],["Factor::error, Factor::linearize, Graph::error"])

p("C06","Automatic and numerical derivatives equal the true tangent-space Jacobian",
 "For every differentiable function of one to six variables of any mix of types, the automatic (forward-mode) Jacobian and gradient equal the true derivative with respect to the tangent perturbation of each variable, with each variable's columns in argument order, and the reported value equals the function value. The numerical differentiators (vector-valued, variable-valued, gradient and scalar) agree with them up to finite-difference accuracy. This holds at every point where the function is smooth, including the identity, tiny rotations and large rotations.",
 ["inputs","programs"],"all argument tuples over an alphabet of variable types for arities 1-6 x function family x evaluation points",
 "Tests differentiate at one generic point and mostly one argument; multi-argument numerical Jacobians are never compared against anything.",
 ["src/linalg/forward_prop.rs","src/linalg/numerical_diff.rs","src/linalg/mod.rs","src/variables"],[("forward_maker!","src/linalg/forward_prop.rs"),("numerical_maker!","src/linalg/numerical_diff.rs"),("dual_setup / dual_convert per variable","src/variables/*.rs")],["ForwardProp, NumericalDiff, numerical_derivative, forward_prop_derivative"])

p("C07","Every variable type obeys the group laws along every chain of operations",
 "For every variable type, compose, inverse, identity and the multiplication operators behave like multiplication and inversion of the corresponding matrices along every finite chain of operations: identity is neutral, inverses cancel on both sides, composition is associative and closed (rotations stay valid rotations up to rounding). The group difference of two elements, composed onto the second, gives back the first.",
 ["inputs","histories"],"all words up to a length over generators (tiny, generic, quarter, near-half, half and negative rotations, large translations), per variable type",
 "Tests evaluate one fixed element per type (and the 2D pose tests actually instantiate the 2D rotation).",
 ["src/variables/so2.rs","src/variables/so3.rs","src/variables/se2.rs","src/variables/se3.rs","src/variables/vector.rs","src/variables/imu_bias.rs","src/variables/traits.rs"],[("compose/inverse/identity per type","src/variables/*.rs")],["Variable trait methods"])

p("C08","Exponential, logarithm and the plus/minus operators are mutually inverse",
 "For every tangent vector, the exponential map equals the matrix exponential of its Lie-algebra matrix; for every element the logarithm is the minimal tangent vector (rotation angle at most pi) whose exponential is that same element, also for elements reached by long chains of compositions. Plus and minus follow the documented convention (right-hand update x*exp(d), difference log(y^-1 x), and the explicit left/right variants) and invert each other: y plus (x minus y) is x, and (x plus d) minus x is d whenever d's rotation is shorter than pi.",
 ["inputs","histories"],"all points of a tangent lattice with axes x magnitudes at and around every branch threshold (0, tiny, pi, 2 pi, beyond), both signs, and all products of such elements",
 "Tests check exp(log(x)) at one small positive tangent per type; branches for negative angles, half turns and double-cover quaternions are not reached.",
 ["src/variables/so2.rs","src/variables/so3.rs","src/variables/se2.rs","src/variables/se3.rs","src/variables/traits.rs"],[("exp/log closed forms with small-angle branches","src/variables/*.rs"),("oplus/ominus defaults","src/variables/traits.rs")],["Variable::{exp,log,oplus*,ominus*}"])

p("C09","Matrix-group operations agree with the matrix representation",
 "For every rotation and rigid-motion type: converting to a matrix and back gives the same element (including half-turn rotations in every direction), acting on a vector equals multiplying by the matrix, hat and vee are inverse to each other, and the adjoint of X maps every tangent t to the tangent whose exponential is X exp(t) X^-1. The swapped-hat matrix M(v) satisfies hat(t) v = M(v) t, and the rotation group's exponential derivative equals the derivative of the exponential map.",
 ["inputs"],"all elements of the generator words and tangent lattice x vectors, per matrix group",
 "Tests check one element near identity and leave adjoint and apply untested ('TODO: some way to test').",
 ["src/variables/so2.rs","src/variables/so3.rs","src/variables/se2.rs","src/variables/se3.rs"],[("MatrixLieGroup implementations","src/variables/*.rs"),("dexp","src/variables/so3.rs")],["MatrixLieGroup trait methods"])

p("C10","Noise models whiten exactly by the covariance they were given",
 "For every Gaussian noise model, however it was specified (scalar, per-axis or full; as standard deviation, covariance or information), the squared norm of a whitened vector equals its Mahalanobis distance under that covariance, and every specification of the same covariance gives the same distances. Whitening is linear and whitens each column of a matrix as it whitens that column as a vector; unit noise leaves vectors and matrices unchanged.",
 ["inputs"],"all constructors x dimensions 1-6 x lattices of covariances (isotropic, anisotropic, correlated, badly scaled) x vectors",
 "There are no tests of noise models apart from a custom-noise compile test.",
 ["src/noise/gaussian.rs","src/noise/unit.rs"],[("square-root information from each specification","src/noise/gaussian.rs")],["NoiseModel::{whiten_vec,whiten_mat}"])

p("C11","Robust kernels match their definitions and their weights are derivatives",
 "Every robust kernel's cost, as a function of the residual norm, equals its published definition with its tuning constant, is zero at zero, never negative, never decreasing, and continuous across its threshold. Its weight is the derivative of the cost with respect to the norm divided by the norm, is never negative, is at most 1 for every kernel except L1 (whose weight 1/norm is only regularised very close to zero), and equals plain least squares for small residuals (and constant cost with zero weight beyond the threshold of redescending hard kernels).",
 ["inputs"],"all kernels x tuning constants x a grid of squared norms dense around 0 and each threshold, ordered pairs for monotonicity",
 "Tests check the weight at ten points for the default constants and the value at 0.",
 ["src/robust/mod.rs"],[("loss/weight per kernel","src/robust/mod.rs")],["RobustCost::{loss,weight}"])

p("C12","Linear solvers return the least-squares solution for every system given",
 "For every full-rank sparse system, each solver's least-squares method returns the vector minimising ||A x - b|| (one entry per column), and each solver's symmetric method returns the solution of A x = b for symmetric positive definite A. All solvers agree, and one solver instance used for any sequence of systems that share a sparsity pattern returns for each of them what a fresh solver would.",
 ["inputs","histories"],"all sparsity patterns of small full-rank matrices with integer entries, all sequences of systems on one solver instance, for Cholesky, QR and LU",
 "Each solver is tested on a single 3x2 dense system with a fresh instance.",
 ["src/linear/solvers.rs"],[("solver implementations with cached symbolic factorisation","src/linear/solvers.rs")],["LinearSolver trait"])

p("C13","Optimisers find the optimum for every graph, ordering and solver",
 "For every well-posed problem - any connected topology of priors and relative measurements, any mix of variable types, any noise and any order in which variables and factors were added - Gauss-Newton and Levenberg-Marquardt started near the solution (for linear problems: anywhere) succeed and return the minimiser of the graph's cost: the exact weighted least-squares solution for linear problems, the true poses for consistent pose graphs. The answer does not depend on the solver, on the hash ordering of the variables or on the order of the factors, and contains exactly the variables that were passed in. (Levenberg-Marquardt may end by reporting a failed step only when the latest values it reported already are the minimiser, so that nothing can lower the cost.)",
 ["inputs","configurations"],"all labelled graph topologies on up to four variables x variable types x noise x insertion/hash orders x {GN, LM} x {Cholesky, QR, LU} x start offsets",
 "Tests optimise one prior and one two-variable chain per optimiser with one random hash order.",
 ["src/optimizers/gauss_newton.rs","src/optimizers/levenberg_marquardt.rs","src/optimizers/traits.rs","src/linear","src/containers"],[("GN step","src/optimizers/gauss_newton.rs"),("LM step","src/optimizers/levenberg_marquardt.rs")],["Optimizer::optimize results"])

p("C14","The optimisation loop stops, reports and notifies exactly as documented",
 "For every sequence of costs and step outcomes, optimisation returns the input untouched, without stepping, when its cost is already at or below the error tolerance; otherwise it steps until the first iteration whose cost is at or below the error tolerance, or whose absolute or relative decrease is at or below its tolerance, and returns the values after that step; after the iteration limit it reports the limit together with the latest values, and a failing step ends it with that failure at once. Every completed step of the built-in optimisers notifies each registered observer exactly once, in order, with the updated values and the iteration number counted from one.",
 ["histories","fault_sequences"],"all sequences of per-iteration costs (boundary values of each tolerance, increases, NaN) and step failures up to the iteration limit, x parameter settings",
 "No test drives the loop's stopping rules, the iteration limit, failures or observers.",
 ["src/optimizers/traits.rs","src/optimizers/gauss_newton.rs","src/optimizers/levenberg_marquardt.rs"],[("Optimizer::optimize default loop","src/optimizers/traits.rs"),("OptObserverVec::notify","src/optimizers/traits.rs")],["results of optimize, calls seen by a scripted optimiser/solver, observers"])

p("C15","Levenberg-Marquardt follows its damping policy for every trial outcome",
 "Each trial solves the normal equations with the diagonal (or, when chosen, the identity) scaled by the current damping added to them; a trial is accepted exactly when it lowers the linearised cost, otherwise damping grows by the damping factor and the trial is repeated, and the step fails, without notifying observers, once damping exceeds its maximum. After an accepted trial damping shrinks by the factor but never below its minimum; damping starts at its small initial value in every optimisation.",
 ["histories","fault_sequences"],"all accept/reject sequences of trial solutions up to a depth, injected through the solver, x damping parameters",
 "The damping policy is not tested at all; rejection paths need trial solutions an ordinary solver rarely returns.",
 ["src/optimizers/levenberg_marquardt.rs"],[("trial loop","src/optimizers/levenberg_marquardt.rs")],["systems handed to the linear solver, results of optimize"])

p("C16","A reused optimiser gives the same answer as a fresh one",
 "Running an optimiser again - on other starting values, on values with another set or order of variables, after a success, an iteration limit or a failed run - gives the same result as running a newly created optimiser with the same graph and parameters. Optimising never changes the graph, and the same input gives the same output on every run.",
 ["histories"],"all sequences of two or three optimise calls over an alphabet of starting values (including different variable orders and extra variables) x optimiser x solver",
 "Every test creates one optimiser and calls it once.",
 ["src/optimizers/gauss_newton.rs","src/optimizers/levenberg_marquardt.rs","src/linear/solvers.rs"],[("init resets per-run state","src/optimizers/*.rs")],["Optimizer::optimize results"])

p("C17","IMU preintegration matches its motion model for every measurement history",
 "For every sequence of gyroscope and accelerometer samples with any time steps, initial bias and gravity, the preintegrated factor's residual is zero exactly for the end state obtained from the start state by the documented recursion (rotation, velocity, position, constant bias, gravity), is corrected to first order for a changed bias, and otherwise measures the difference to that prediction. Its noise is the documented covariance propagation of those samples, driven by each of the configured gyroscope, accelerometer, bias, integration and initial covariances.",
 ["histories","inputs"],"all sample histories up to a length over an alphabet of measurements and time steps x biases x gravity x start states x covariance parameters",
 "Tests integrate constant measurements with zero bias, and check the bias Jacobians at one point; covariance is never checked.",
 ["src/residuals/imu_preint/delta.rs","src/residuals/imu_preint/residual.rs","src/residuals/imu_preint/newtypes.rs"],[("ImuDelta integrate/predict","src/residuals/imu_preint/delta.rs"),("covariance propagation","src/residuals/imu_preint/residual.rs")],["factor error/linearize for the built factor"])

p("C18","Loading a g2o file yields exactly the pose graph the file describes",
 "For every g2o file made of 2D/3D vertex and edge lines, the loader returns exactly the listed vertices with their poses, one relative-pose factor per edge between the right vertices with the listed measurement and the listed information matrix (matched to the library's rotation-first ordering), and one prior on the first vertex. Lines of other kinds are skipped without affecting the rest.",
 ["inputs"],"all files up to a number of lines over an alphabet of vertex/edge/unknown lines, plus per-entry probes of the information matrices",
 "No test loads a file; examples only run on two data sets and show the optimised cost.",
 ["src/utils.rs"],[("line parser and information reordering","src/utils.rs")],["returned graph's error/linearize and values"])

p("C19","Prior and relative residuals measure what they are documented to measure",
 "A prior residual is the documented tangent difference between the prior and the variable, and a relative residual the difference between the first variable moved by the measurement and the second variable; both vanish exactly when the variables agree with the measurement, for every variable type and at every pose, and their Jacobians are the true derivatives there. Their value does not depend on any other variable in the store nor on the keys used to name the variables.",
 ["inputs"],"all variable types x measurement and pose lattices x key assignments (including swapped keys and extra variables)",
 "Tests compare the Jacobian with a numerical one at a single point and never check the residual value.",
 ["src/residuals/prior.rs","src/residuals/between.rs","src/residuals/traits.rs"],[("PriorResidual","src/residuals/prior.rs"),("BetweenResidual","src/residuals/between.rs")],["Residual::{residual,residual_jacobian}, Factor::error"])

p("C20","The library's build options keep the same mathematics",
 "With the left-update option the plus/minus operators become exp(d)*x and log(x*y^-1), and automatic derivatives, linearisation and optimisation follow that convention consistently; with the simplified-exponential option rigid motions treat rotation and translation separately, with logarithm and exponential still inverse to each other; with the single-precision option every result agrees with the default build's to single precision. Under every option the group laws, derivative correctness and optimisation results of the default build continue to hold.",
 ["configurations","inputs"],"feature sets {left, fake_exp, left+fake_exp, f32} x the enumerations of the group, exp/log, derivative, residual and optimiser checks",
 "The test suite is only run with default features.",
 ["src/variables/traits.rs","src/variables/se2.rs","src/variables/se3.rs"],[("cfg!(feature) branches","src/variables/*.rs")],["same observations as C06-C08, C13, C19, on rebuilt configurations"])

p("C21","Serialising and deserialising a graph or values preserves it",
 "With serialisation enabled, every graph and every set of variables built from library or registered custom types deserialises to one with the same keys, values and costs.",
 ["inputs","configurations"],"all graphs and value sets over registered types",
 "The serialisation tests cannot be built in this environment.",
 ["src/containers","factrs-proc/src"],[("typetag registration in mark","factrs-proc/src")])

p("C22","What is drawn is what was estimated",
 "With the visualisation option, converting a variable to a drawing type shows exactly that variable (to single precision): points and translations at its position, rotations as the same rotation, axes as the red, green and blue columns of its rotation drawn from its position. Converting a set of variables shows exactly the variables of the requested type, each once, and keeps the order of a list. The observer attached to an optimiser logs every step once, in order, under its topic and at that step's time, showing exactly the estimates of that step, and does not affect the optimisation.",
 ["inputs","histories","configurations"],"all variable types x pose lattices x every drawing type; all lists and stores up to a size over them; optimisation runs of every length with observers attached",
 "No test converts or observes anything: the visualisation option is never built by the test suite.",
 ["src/rerun.rs"],[("From conversions","src/rerun.rs"),("RerunObserver::on_step","src/rerun.rs")],["contents of the produced archetypes","messages logged to an in-memory stream"])

p("C23","Ill-typed graphs and value sets do not compile, well-typed ones do",
 "A program that inserts, reads or removes a variable under a symbol tagged with other variable types, that connects a residual to a symbol not tagged with the variable type at that position, that gives a residual the wrong number of keys, or that gives a factor or a noise model a noise, vector or matrix of another dimension, is rejected by the compiler - whether the factor is written with the builder or with the factor macro, in any of its spellings, with or without noise and kernel. Every program that respects the tags, numbers and dimensions compiles, and so does every program that uses the unchecked operations with any symbol.",
 ["programs"],"all programs of a bounded grammar: store operations x symbols x variable types; factors of one to six variables x every assignment of symbols to positions, key counts, noise dimensions and spellings; noise constructors x dimensions",
 "Tests are programs that compile; none can show that a wrong program is rejected.",
 ["src/containers/symbol.rs","src/containers/values.rs","src/containers/factor.rs","src/noise/gaussian.rs","factrs-proc/src/fac.rs"],[("TypedSymbol bounds of store and builder","src/containers/values.rs"),("dimension bounds of FactorBuilder","src/containers/factor.rs"),("fac! expansion","factrs-proc/src/fac.rs")],["verdict of the compiler on programs that depend on the library"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
