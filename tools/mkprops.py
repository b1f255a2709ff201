#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so anchors stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

TM = 'beluga/numeric/data_classes/trajectory_mappers.py'
MF_ = 'beluga/symbolic/data_classes/mapping_functions.py'
NP_ = 'beluga/numeric/data_classes/NumericProblem.py'
CO = 'beluga/continuation/continuation.py'
GG = 'beluga/continuation/guess_generators.py'
SP = 'beluga/symbolic/data_classes/symbolic_problem.py'
CS = 'beluga/symbolic/data_classes/components_structures.py'
DG = 'beluga/symbolic/differential_geometry/differential_geometry.py'
SH = 'beluga/numeric/bvp_solvers/Shooting.py'
SB = 'beluga/numeric/bvp_solvers/SPBVP.py'
BA = 'beluga/numeric/bvp_solvers/BaseAlgorithm.py'
IV = 'beluga/numeric/ivp_solvers/ivpsol.py'
TR = 'beluga/numeric/data_classes/Trajectory.py'
TB = 'beluga/symbolic/special_functions/tables.py'
CF = 'beluga/symbolic/special_functions/custom_functions.py'
FD = 'beluga/numeric/numerical_derivatives/finite_diff.py'
CX = 'beluga/numeric/numerical_derivatives/complex_step.py'
CC = 'beluga/numeric/compilation/component_compilation.py'
LC = 'beluga/numeric/compilation/LocalCompiler.py'
HF = 'beluga/utils/helper_functions.py'
ST = 'beluga/utils/storage.py'
BE = 'beluga/beluga.py'

prop('C01', 'Mapping a solution into solver form and back returns the same solution',
 'Every problem transformation comes with a solution mapping; mapping a trajectory forward and then backward through one of them, or through the whole chain of a problem (inverse maps applied in reverse order), returns the original time grid (for grids that start at zero), states, controls, parameters and constants, and the original costates for every mapping that carries them. In solver form the added columns hold what the transformation says they hold: time as the last state, a control as an extra state with its own costate in the same column of the costate history, costates after the states, the duration as the last parameter on a grid running from 0 to 1. The cost attached on the way back is the problem\'s own cost of that trajectory.',
 ['inputs', 'configurations'], 'for all trajectories, all numbers of nodes, states, controls, parameters and constants, all bounds of trigonometrised controls, and all chains of transformations',
 'The suite round-trips one brachistochrone guess through two fixed chains; index arithmetic is only wrong for other counts, positions and bound expressions.',
 [TM, SP], [('solution mappers map/inv_map', TM), ('Problem.map_sol / inv_map_sol', SP)])

prop('C02', 'Automatic scaling is exact, unit-consistent and undone by unscaling',
 'Scaling divides every component of a solution (independent variable, states, quadratures, controls, both kinds of parameters, constants) by the magnitude its declared unit has in the scale set computed from that solution, and unscaling with the same factors gives back the original values. Base-unit magnitudes are the declared scale expressions evaluated on the largest magnitude each state, quadrature and time reaches and on the absolute values of parameters and constants. Neither direction modifies the solution passed in or touches other data such as the convergence flag. The equations derived from a dimensionally consistent problem stay consistent in the declared units, so the scaled problem is the same problem.',
 ['inputs', 'configurations'], 'for all solutions with non-zero scale magnitudes, all unit assignments (products and powers of declared base units) and all scale expressions',
 'Examples only run with autoscale for exit code; no test checks a factor, the pairing of factors with components, or non-mutation.',
 [NP_, HF, MF_], [('NumericProblem.compile_scaling', NP_), ('max_mag', HF), ('units given to costates, multipliers, constants of motion and duration', MF_)])

prop('C03', 'A continuation step visits exactly the announced path of constants',
 'A manual continuation step with n >= 2 cases presents exactly n guesses whose continued constants run from their current values to their targets in n equally spaced steps (equally spaced in logarithm for logarithmic spacing, start and target included), all continued constants moving together, and then stops. In every guess each constant that is not being continued keeps its value. Naming a constant the problem does not have is refused with an error, and a step can be run again from another start with the same guarantees.',
 ['inputs', 'histories', 'configurations'], 'for all start values, targets, numbers of cases, spacings, sets of continued constants and positions among all constants, on first and repeated runs',
 'Tests use the solvers directly; examples exercise a few fixed schedules and check nothing about the path.',
 [CO], [('ManualStrategy.init', CO), ('ContinuationStrategy.next', CO)])

prop('C04', 'Product-space continuation visits the full grid once, start first, target last',
 'A product-space step visits every combination of the per-constant sample values (equally spaced from current value to target) exactly once, beginning at the current values and ending with all targets. A sparse product step visits a duplicate-free path starting at the current values, containing every major grid point and, between neighbouring major points along the axis being extended, exactly the requested number of equally spaced intermediate points. Running the same step object again builds the schedule afresh from the new start.',
 ['inputs', 'histories', 'configurations'], 'for all numbers of constants, subdivisions, starts and targets, including steps that are run more than once',
 'No test covers the product strategies; schedule defects only show for two or more constants or for a re-run.',
 [CO], [('ProductStrategy.init', CO), ('SparseProductStrategy.init', CO)])

prop('C05', 'Each case starts from the nearest converged solution, never a shared copy',
 'The guess for the next case is the stored solution whose constants are nearest (smallest sum of absolute differences) to the constants of that case among those that converged, with its constants replaced by the requested ones; the guess that started the step only serves while nothing has converged. Guesses and stored solutions are independent copies, so changing a guess or a recorded solution afterwards never changes another. When the latest case failed, a manual step stops with an error instead of continuing, and a step that has not been initialised refuses to run.',
 ['histories', 'inputs'], 'for all histories of converged and failed cases of any length and all constant vectors',
 'Requires sequences mixing converged and failed cases; no test builds one.',
 [CO], [('ContinuationStrategy.get_closest_gamma', CO), ('ContinuationStrategy.next/add_gamma', CO)])

prop('C06', 'Bisection refines a failed interval and still reaches the target',
 'When a case of a bisection step fails, the next guess lies strictly between the last converged case and the failed one, at equal divisions of that interval (in value or in logarithm as configured, the same fraction for every continued constant), the failed point and all later points stay scheduled, and the number of announced cases grows by the number of inserted points. A failure of the very first case stops with an error, and repeated consecutive failures stop with an error after the configured number of divisions rather than looping. If every later case converges the step still ends exactly at the target. Running the same step again starts from the number of cases asked for, without the refinements of the earlier run.',
 ['histories', 'fault_sequences', 'inputs'], 'for all patterns of solver failures, numbers of cases, divisions and division limits',
 'Failure patterns are decided by the solver at run time; no test injects them.',
 [CO], [('BisectionStrategy.next', CO)])

prop('C07', 'The continuation driver solves every case in order and records each result once',
 'Running a set of continuation steps returns one list per step, with one recorded solution per case in order, equal to what the solver returned for that case (unscaled when scaling is on), and independent of the data the solver and later cases work on. Each step starts from the last solution of the step before it, and the solver is given this problem\'s own dynamics, quadratures, boundary conditions and Jacobians before any case. With scaling on, the solver receives the scaled guess and every recorded solution is in original units.',
 ['histories', 'configurations', 'fault_sequences'], 'for all lists of steps, all solver outcomes and both scaling settings',
 'Examples run the driver with one converging schedule each and never inspect the recorded set.',
 [CO, BE], [('run_continuation_set', CO), ('postprocess_continuations', BE)])

prop('C08', 'The derived boundary-value problem states the first-order optimality conditions',
 'For every optimal control problem the derived Hamiltonian is the path cost plus the sum of costate times state rate; every costate rate is minus the derivative of the Hamiltonian with respect to its state; the boundary conditions contain the user\'s constraints plus, for each state, the costate equal to minus (at the start) or plus (at the end) the derivative of the multiplier-augmented boundary cost, and one condition tying the terminal Hamiltonian to the terminal cost\'s explicit time derivative. Each boundary constraint gets its own multiplier entering the augmented cost of the endpoint it belongs to. Costates and multipliers carry the units of cost per unit of what they multiply. The user\'s dynamics and constraints themselves are kept unchanged.',
 ['programs', 'inputs'], 'for all problems: any number of states, controls and endpoint constraints and arbitrary differentiable dynamics, costs and constraints',
 'Tests derive one brachistochrone and look at convergence or round trips, not at the equations.',
 [MF_], [('Dualize.transformation', MF_)])

prop('C09', 'The derived boundary-value problem is square and uses only known symbols',
 'For every indirect method and control option (for problems without user-declared quadratures; symmetry reduction only with the differential control option) the derived boundary-value problem has exactly as many boundary conditions as unknowns: states (after adding time, costates and controls) plus quadratures, parameters and multipliers. Every expression of the derived problem (rates, boundary conditions, control laws) refers only to its own states, quadratures, controls, parameters, multipliers and constants, and every name declared by the transformations is distinct.',
 ['programs', 'configurations'], 'for all problems with any numbers of states, controls and constraints, both derivation methods, both control options, with and without inequality constraints',
 'Square systems are only exercised on the shapes of the example problems.',
 [MF_], [('make_indirect_method', MF_), ('Dualize / DifferentialControlLaw / NormalizeTime / SquashToBVP', MF_)])

prop('C10', 'The differential control law keeps the Hamiltonian stationary in the control',
 'With the differential control option the control becomes a state whose rate makes the total time derivative of the Hamiltonian\'s control gradient vanish identically along the dynamics, and the gradient itself is imposed as one terminal boundary condition per control. All other states and costates keep their dynamics, and a control for which the law is singular is refused with an error rather than given an infinite rate.',
 ['programs', 'inputs'], 'for all problems with an invertible control Hessian, any number of states and controls',
 'No test differentiates the control law; only a converging example depends on it.',
 [MF_], [('DifferentialControlLaw.transformation', MF_)])

prop('C11', 'Algebraic control laws are stationary and pick the Hamiltonian-minimising branch',
 'With the algebraic control option every candidate control makes the gradient of the Hamiltonian with respect to all controls vanish. Wherever the control is evaluated (solver dynamics, boundary conditions and the returned control history) the candidate with the smallest Hamiltonian value at that point is used, whatever the number and order of candidates.',
 ['programs', 'inputs'], 'for all problems with algebraically solvable controls, all candidate counts and orders and all points',
 'Examples have at most two candidates and no test compares the Hamiltonian over them.',
 [CC, TM, MF_], [('compile_control', CC), ('AlgebraicControlMapper', TM), ('AlgebraicControlLaw.transformation', MF_)])

prop('C12', 'Geometric tools give canonical equations; both methods give the same dynamics',
 'The standard symplectic form is antisymmetric and pairs each state with its own costate; the Hamiltonian vector field it gives is the canonical one (state rates are the costate-derivatives and costate rates minus the state-derivatives of the Hamiltonian), the exterior derivative of a function is its gradient, of a one-form is antisymmetric and of an exact form is zero. A form is reported symplectic only if it is square, of even dimension and antisymmetric. The geometric derivation method yields, for problems in which time has been made a state, the same rates for states, costates and controls as the traditional method (the rate of time\'s own costate may differ by a multiple of the Hamiltonian\'s control gradient, which is zero along solutions). Reducing the dualised problem by a declared symmetry leaves the rates of the remaining variables and the boundary conditions unchanged, with the conserved costate written as a parameter and the rate of the state along the symmetry kept as a quadrature. Every constant of motion derived from a declared symmetry is constant along the derived dynamics.',
 ['programs', 'inputs'], 'for all dimensions, all Hamiltonians and forms, and all problems derived by both methods',
 'The two methods are only compared through whether one example converges.',
 [DG, MF_], [('make_standard_symplectic_form / make_hamiltonian_vector_field / exterior_derivative / is_symplectic', DG), ('Dualize/DifferentialControlLaw diffyg branch', MF_)])

prop('C13', 'Making time a state and normalising time preserve the dynamics',
 'Adding time as a state appends exactly one state with unit rate and the old independent variable\'s name and units, leaves every other rate, cost and constraint unchanged, extends every declared symmetry by a zero component, and declares the time-translation symmetry exactly when nothing that enters the rates or the path cost (rates, path cost, switches, path constraints and their bounds) depends on time. Normalising time adds one duration parameter with the units of time and multiplies every rate (states, costates and quadratures) and the path cost by it, changing nothing else.',
 ['programs', 'inputs'], 'for all problems, any numbers of states, costates and quadratures, autonomous or not',
 'Only the composite effect on one example is observed by tests.',
 [MF_], [('MomentumShift.transformation', MF_), ('NormalizeTime.transformation', MF_)])

prop('C14', 'Inequality constraints become bounded controls or barrier costs',
 'A control constrained by the trigonometric method is replaced everywhere in the problem by an expression that stays within its bounds for every value of the new control and reaches both bounds, and the path cost gains a term minus activator times the cosine of the new control. A constraint handled by the barrier method adds to the cost of its own location activator times a term that is zero at the middle of the interval, non-negative inside, symmetric about the middle and unbounded towards both bounds. In both cases exactly that constraint is removed and every other constraint is kept.',
 ['programs', 'inputs'], 'for all constraint expressions, bounds (constants or expressions), activators, locations and numbers of constraints',
 'Examples use constant bounds and one constraint each, and check only the exit code.',
 [MF_], [('EpsTrig.transformation', MF_), ('UTM.transformation', MF_)])

prop('C15', 'Substituted quantities and switches disappear without changing the problem',
 'After preprocessing, no expression of the problem mentions a declared quantity, and every expression equals the original with all quantities replaced by their definitions, whatever the order in which quantities were declared and however deeply they refer to each other. A switch is replaced everywhere by the sum over its branches of the branch value times its smooth activation, which tends to one where the condition is negative and to zero where it is positive.',
 ['programs', 'inputs'], 'for all acyclic sets of quantities and declaration orders, all switches and all places an expression may occur',
 'Chains longer than two and other declaration orders are never exercised.',
 [MF_, SP, CS], [('ApplyQuantities.transformation', MF_), ('RASHS.transformation', MF_), ('Problem.subs_all', SP), ('subs_self methods / SwitchStruct', CS)])

prop('C16', 'Problem transformations compose like functions',
 'Composing two transformations with the multiplication, bind-left or bind-right operator applies them in the stated order, composition is associative, the empty transformation is an identity on both sides, and the n-th power applies a transformation exactly n times (negative or non-integer powers are refused). Composing never alters the operands, and applying a composition gives the same problem as applying its parts one after another.',
 ['programs', 'histories'], 'for all transformations, all compositions of any length and all groupings',
 'One fixed composition is tested; grouping, powers and operand reuse are not.',
 [MF_], [('GenericFunctor.__mul__/__lshift__/__rshift__/__pow__/__call__', MF_)])

prop('C17', 'Compiled functions compute exactly the symbolic problem',
 'The compiled dynamics, quadratures, boundary conditions, costs, control and analytical Jacobians of a problem evaluate to the problem\'s symbolic expressions at the given point: each argument vector is read in declaration order, boundary conditions are the initial ones at the start point followed by the terminal ones at the end point, and Jacobians are the exact partial derivatives of the dynamics and of the boundary conditions with respect to states, quadratures and parameters (for problems with at least one parameter and a condition at each end). The cost of a trajectory is initial cost at the first node plus terminal cost at the last plus the quadrature of the path cost over the time grid.',
 ['programs', 'inputs', 'configurations'], 'for all problems (with or without controls, control laws, quadratures, parameters, multipliers, Jacobians) and all evaluation points',
 'Tests pass hand-written functions to the solvers; the compiled ones are only run inside examples.',
 [NP_, CC, LC, MF_], [('NumericProblem.compile_*', NP_), ('compile_cost', CC), ('LocalCompiler.lambdify', LC), ('ComputeAnalyticalJacobians', MF_)])

prop('C18', 'The shooting solver reports convergence only for a solution it really has',
 'A solution returned as converged by the shooting method has boundary-condition and arc-matching residual within the tolerance at exactly the returned start values and parameters, and its trajectory is the propagation of the dynamics from those values over the guess\'s time interval with the arcs joined without duplicated or missing nodes. Packing start values, quadratures and parameters into the solver vector and unpacking them is exact for any sizes. The guess passed in is not modified, a solver object given new functions uses only those, and propagating the arcs in a pool of worker processes gives the same solution as propagating them in turn.',
 ['inputs', 'configurations', 'histories'], 'for all problems, arc numbers, root-finding algorithms offered and starting guesses, including solves that fail',
 'Tests check converged on solvable problems only; no test checks that a failed solve is not flagged or recomputes the residual.',
 [SH, BA], [('Shooting.solve', SH), ('_wrap_y0/_unwrap_y0', SH), ('BaseAlgorithm.set_*', BA)])

prop('C19', 'The collocation solver poses exactly the given problem and returns it unpacked',
 'The collocation solver is handed the system formed by the dynamics and quadratures evaluated at every mesh node, the boundary conditions at the two end nodes, and consistent Jacobians, with the parameter vector split into dynamical and boundary parameters in order. The returned solution carries the mesh, states, quadratures and both parameter groups in their original order and shape, the constants of the guess, and a convergence flag equal to the underlying solver\'s success. The guess passed in is not modified.',
 ['inputs', 'configurations'], 'for all numbers of nodes, states, quadratures and parameters of either kind, with and without Jacobians, and successful or failed solves',
 'Tests use fixed small problems; mixtures of quadratures and both parameter groups are not covered.',
 [SB], [('SPBVP.solve', SB)])

prop('C20', 'Propagation and quadrature start at the given point with the given rates',
 'Propagation returns a trajectory over exactly the requested interval whose first state is the given start and whose nodes are the integration of the given dynamics, with fixed-step mode (forward in time) placing nodes at the configured step plus the end point. Reconstructed quadratures equal the given initial values at the first node and, at every later node, those values plus the numerical integral of the quadrature rates along the trajectory up to that node. The quick option (in either direction) gives the same terminal quadrature values as full reconstruction.',
 ['inputs', 'configurations'], 'for all dynamics, intervals in either direction, initial values, numbers of quadratures and options',
 'Tests integrate a few constant-coefficient systems with one quadrature.',
 [IV], [('Propagator.__call__', IV), ('reconstruct', IV), ('integrate_quads', IV)])

prop('C21', 'A trajectory returns its nodes exactly and interpolates between them',
 'Evaluating a trajectory at a time returns states, quadratures and controls in column order, exactly the stored row at a node and the linear blend of the neighbouring rows between nodes, each quantity from its own history; indexing returns the stored rows and length is the number of nodes. Components that are absent come back empty. Results always reflect the data currently stored in the trajectory.',
 ['inputs', 'configurations'], 'for all numbers of nodes, of states, quadratures and controls including none and one, scalar and vector times',
 'Tests do not evaluate trajectories directly.',
 [TR], [('Trajectory.__call__/__getitem__/__len__', TR)])

prop('C22', 'Spline tables reproduce their data smoothly and differentiate consistently',
 'A one-dimensional table returns exactly the tabulated value at every tabulated argument including the first and last, has continuous first and second derivatives at interior points and zero second derivative at both ends, and its first, second and third derivative functions are the derivatives of the table function on each interval (higher ones zero). Differentiating an expression containing a table or a user function yields the derivative with respect to the right argument, and two different derivatives never share an implementation.',
 ['inputs', 'programs'], 'for all strictly increasing arguments (at least three points), all values, all evaluation points inside the range and all derivative orders and arguments',
 'No test covers tables or custom functions.',
 [TB, CF, CS], [('TableSpline1D', TB), ('SymTable.fdiff', TB), ('CustomFunctionMeta.fdiff / construct_name', CF), ('TableStruct', CS)])

prop('C23', 'Numerical derivatives are exact on the polynomials their stencil can represent',
 'Finite-difference weights generated for a grid satisfy all moment conditions: applied to any polynomial of degree below the number of grid points they give exactly the requested derivative at the origin. A generated forward, backward or central difference function approximates the requested (mixed) partial derivative with respect to the right arguments, and is exact up to rounding on polynomials within its order of accuracy; complex-step derivatives of first and second order differentiate with respect to the right arguments likewise.',
 ['inputs', 'configurations'], 'for all distinct grids, derivative orders, accuracy orders, methods, argument counts and evaluation points',
 'No test covers the derivative generators.',
 [FD, CX], [('gen_fin_diff_coeff', FD), ('gen_fin_diff', FD), ('gen_csd', CX)])

prop('C24', 'Problem declarations are kept faithfully and user inputs are never modified',
 'Declaring states, controls, constants, quadratures, parameters, constraints, costs and scales records exactly what was given, in declaration order, and every name can be used once: declaring a second item under a taken name is refused with an error and adds nothing. Solving works on copies: the user\'s problem and initial guess are unchanged by a solve, so the same problem can be solved again with the same result, and invalid settings (no problem, fewer than one processor, unknown method) are refused.',
 ['programs', 'histories'], 'for all declaration sequences, all clashes of names across kinds, and repeated solves',
 'No test declares duplicates, inspects the user problem after a solve or solves it twice.',
 [SP, CS, BE], [('Problem declaration methods / check_for_duplicate', SP), ('solve', BE)])

prop('C25', 'Saved solution files load back to the same solutions and problems',
 'Saving solutions, problem and derived problem to a file and loading it returns objects with the same contents: every array, constant, flag and cost of every solution, in the same nesting, and problems whose expressions and compiled behaviour are the same. Parts that were not given are absent from the file, and the file name asked for is the file written.',
 ['inputs', 'configurations'], 'for all solution sets (any nesting and sizes) and all combinations of saved parts',
 'Only the existence of a file is incidentally exercised.',
 [ST, BE], [('save / load', ST), ('solve save_sols handling', BE)])

prop('C26', 'Guesses honour the user settings; matched constants equal endpoint values',
 'A generated guess starts at the given state, costate, control and quadrature values (scalars spread over all components), runs forward or backward for the given duration, and for the propagated kind follows the problem\'s dynamics from that start; a zero duration, unknown direction or unknown kind is refused. Matching constants to a trajectory sets each constant named after a state (or time) with the start or end suffix to that component\'s value at the first or last node and changes no other constant.',
 ['inputs', 'configurations'], 'for all start vectors, guess values, durations, directions, and all problems\' constants and state names',
 'Examples only use them on the way to convergence.',
 [GG], [('GuessGenerator.auto/ones/static', GG), ('match_constants_to_states', GG)])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
