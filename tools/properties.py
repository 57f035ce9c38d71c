E = "Explores generated cases only: it can refute, not prove. Deterministic for a VERIF_SEED. Trusts the reference model in src/%s.cpp, the compiler and the libraries (Eigen, boost, jsoncpp). Built with AddressSanitizer, libstdc++ and Eigen assertions on."

prop("C01", "The fixed-size cache is a faithful least-recently-used map",
     "Whatever sequence of insertions and lookups it sees, a cache of capacity n answers every lookup with the value most recently stored under that key, or with nothing when the key is not among those it must still hold. It holds at most n entries, and when full it discards the entry whose last use is oldest; values stored or handed out are never altered by later operations on other keys.",
     ["histories", "inputs"], "all histories of put and get over small and large key sets, capacities 1..n, including keys whose hashes collide",
     "The existing tests insert a few fixed keys into a cache of one size; eviction order depends on the whole history.",
     ["trajopt_common/include/trajopt_common/cache.h"], [("Cache::put / Cache::get", "trajopt_common/include/trajopt_common/cache.h")],
     "model-based property testing: histories against a reference LRU map", E % "C01", ["return values of put and get"])

prop("C02", "Array, table, list and text utilities compute what they say, for every shape",
     "For every shape and value, taking or assigning rows, columns and blocks of a two-dimensional array touches exactly the addressed elements; interpolating a table is linear between its knots and exact on them; list, string and twist helpers agree with their mathematical definition. Requests that cannot be satisfied are reported, never answered with memory outside the operands.",
     ["inputs"], "all array shapes and part ranges, all sorted tables and query points, all lists and strings up to the generated size, all rigid transforms",
     "No existing stable test reaches these utilities; they must hold for every shape.",
     ["trajopt_common/include/trajopt_common/basic_array.h", "trajopt_common/include/trajopt_common/interpolation.hpp", "trajopt_common/include/trajopt_common/vector_ops.hpp", "trajopt_common/include/trajopt_common/stl_to_string.hpp", "trajopt_common/include/trajopt_common/utils.hpp", "trajopt_common/src"],
     [("BasicArray part access", "trajopt_common/include/trajopt_common/basic_array.h"), ("interpolation and list helpers", "trajopt_common/include/trajopt_common")],
     "property-based testing against element-by-element references", E % "C02")

prop("C03", "Symbolic expressions are a faithful algebra of polynomials",
     "Whatever sequence of sums, differences, scalings, products, squares and negations builds an affine or quadratic expression, its value at every point equals that of the mathematical polynomial, and operands that are not the target of an in-place operation are unchanged. Reducing or cleaning up an expression never changes its value by more than the removed terms.",
     ["programs", "inputs"], "all straight-line programs over the expression operators, all variable sets, all evaluation points",
     "The existing tests check a handful of fixed expressions with fixed coefficients; the operators compose.",
     ["trajopt_sco/src/expr_ops.cpp", "trajopt_sco/include/trajopt_sco/expr_ops.hpp", "trajopt_sco/include/trajopt_sco/expr_op_overloads.hpp", "trajopt_sco/include/trajopt_sco/expr_vec_ops.hpp", "trajopt_sco/src/expr_vec_ops.cpp", "trajopt_sco/src/solver_interface.cpp"],
     [("exprAdd/exprSub/exprMult/exprSquare/exprScale", "trajopt_sco/src/expr_ops.cpp"), ("value and simplification", "trajopt_sco/src/solver_interface.cpp")],
     "property-based testing: random programs against a dense polynomial", E % "C03")

prop("C04", "Converting expressions to solver matrices and back loses nothing",
     "The sparse matrices and vectors handed to a solver represent exactly the expressions they were built from: every coefficient appears once at its place, repeated variables are summed, nothing is lost or invented, and compressed formats are valid (sorted, in range, consistent pointers). This holds for every expression, including duplicated, cancelling and empty terms.",
     ["inputs"], "all lists of affine and quadratic expressions over up to a dozen variables with repeated and cancelling terms, and all sparse matrices in both compressed formats",
     "The existing tests convert a few fixed expressions.",
     ["trajopt_sco/src/solver_utils.cpp", "trajopt_sco/include/trajopt_sco/solver_utils.hpp", "trajopt_sco/src/solver_interface.cpp"],
     [("exprToEigen, eigenToCSC, tripletsToEigen", "trajopt_sco/src/solver_utils.cpp"), ("simplify2, vars2inds, cntrs2inds", "trajopt_sco/src/solver_interface.cpp")],
     "property-based testing against dense matrices", E % "C04")

prop("C05", "A model edited in any order is solved as the problem it describes",
     "After any history of adding and removing variables and constraints, changing bounds and replacing the objective, the bundled solver's answer is an answer to the problem the model then describes: a solution reported as found respects every bound and constraint and attains the minimum, and the names, values and bounds read back are those of the surviving elements. A problem that has a solution is never reported as infeasible.",
     ["histories", "inputs"], "all edit histories of convex quadratic models with a few variables, solved after any prefix",
     "The existing tests build and solve a few fixed models once; stale indices and leftovers need a history.",
     ["trajopt_sco/src/bpmpd_interface.cpp", "trajopt_sco/src/solver_interface.cpp", "trajopt_sco/include/trajopt_sco/bpmpd_interface.hpp"],
     [("BPMPDModel::update / optimize", "trajopt_sco/src/bpmpd_interface.cpp")],
     "stateful property testing against an exact reference QP solver", E % "C05" + " Known findings in the bundled solver binary are listed in known_findings.txt.")

prop("C06", "Variables and constraints can be added to a model from several threads",
     "When several threads add variables and constraints to the same model at the same time, every addition takes effect exactly once, with its own distinct index, its own name, bounds and expression, and no data race occurs. The model afterwards describes the union of what the threads added, and solves as such.",
     ["schedules", "histories"], "all interleavings of additions by 2..8 threads, with and without bounds, names and constraint kinds",
     "The existing tests are single threaded.",
     ["trajopt_sco/src/bpmpd_interface.cpp", "trajopt_sco/src/solver_interface.cpp"],
     [("the model's mutex", "trajopt_sco/src/bpmpd_interface.cpp")],
     "property-based testing of concurrent edit programs under ThreadSanitizer", "Explores the interleavings the scheduler produces for generated thread programs; ThreadSanitizer reports unordered accesses whatever their timing. It can refute, not prove.")

prop("C07", "Solver messages survive the pipe unchanged, whatever their size",
     "A problem or a result sent between the optimizer and the solver process arrives with every number, flag and length unchanged, for every content and size, and a stream cut short is reported rather than read as a message. Solving a model of any size therefore neither blocks nor fails because of the transport.",
     ["inputs", "fault_sequences"], "all message contents, empty to larger than a pipe buffer, delivered in any chunking, and cut at any byte",
     "The existing tests only send small problems that fit in the pipe buffer.",
     ["trajopt_sco/include/trajopt_sco/bpmpd_io.hpp", "trajopt_sco/src/bpmpd_interface.cpp", "trajopt_sco/src/bpmpd_caller.cpp"],
     [("bpmpd_io::ser / pinpout", "trajopt_sco/include/trajopt_sco/bpmpd_io.hpp"), ("BPMPDModel::optimize", "trajopt_sco/src/bpmpd_interface.cpp")],
     "property-based testing: round trips through a chunking relay, with truncation faults", E % "C07")

prop("C08", "Convex approximations are tangent to the functions they approximate",
     "The convex model of a cost or constraint built at a point has that function's value and, where it is differentiable, its slope at that point, and costs and penalties are modelled with exactly the stated shape (square, absolute value, hinge, maximum; equality or inequality; with the given coefficients) everywhere. Adding such a model to a problem and taking it away again leaves the problem as it was.",
     ["inputs", "histories"], "all generated smooth functions, coefficient vectors, penalty types and expansion points",
     "No existing stable test convexifies a function; the existing ones need a tesseract environment.",
     ["trajopt_sco/src/modeling.cpp", "trajopt_sco/src/modeling_utils.cpp", "trajopt_sco/include/trajopt_sco/modeling.hpp", "trajopt_sco/include/trajopt_sco/modeling_utils.hpp"],
     [("ConvexObjective / ConvexConstraints", "trajopt_sco/src/modeling.cpp"), ("CostFromFunc, CostFromErrFunc, ConstraintFromErrFunc", "trajopt_sco/src/modeling_utils.cpp")],
     "property-based testing: exact minimisation of the emitted terms against the closed form", E % "C08")

prop("C09", "The optimization problem is the sum of what was put into it",
     "However variables, costs and constraints are added, the problem's variables keep their order, names and bounds, each constraint is listed once under its kind, and every number of iterations reading them back gives the same. The nearest feasible point computed for linear constraints satisfies them and the bounds and is no further away than any other feasible point.",
     ["histories", "inputs"], "all histories of additions, all linear constraint sets with a non-empty feasible set, all starting points",
     "The existing stable tests do not build problems with linear constraints.",
     ["trajopt_sco/src/modeling.cpp", "trajopt_sco/include/trajopt_sco/modeling.hpp"],
     [("OptProb", "trajopt_sco/src/modeling.cpp")],
     "stateful property testing against a reference list model and an exact projection", E % "C09")

prop("C12", "Solver names, choices and settings mean one thing",
     "Every solver name converts to the solver it names and back, in any letter of text accepted, and an unknown name is reported. Asking for a solver that is available gives a model of that solver; asking for one that is not is reported or falls back as documented; the configuration put on a model is the one it uses.",
     ["inputs", "configurations"], "all solver types, all names and near-names, all values of the environment's solver choice",
     "The existing tests only iterate over the available solvers.",
     ["trajopt_sco/src/solver_interface.cpp", "trajopt_sco/include/trajopt_sco/solver_interface.hpp"],
     [("ModelType, createModel, availableSolvers", "trajopt_sco/src/solver_interface.cpp")],
     "property-based testing plus enumeration of all names", E % "C12")

prop("C10", "Numerical derivatives converge to the true derivatives",
     "Every numerical gradient, Jacobian and Hessian the library offers differs from the true derivative by no more than the truncation and rounding error of its difference formula, for every smooth function, point and step size. It evaluates the function only near the given point, leaves that point as it was, and Hessians come out symmetric.",
     ["inputs"], "all generated smooth functions of 1..5 variables, all points, steps from 1e-6 to 1e-1, scalar, vector and whole-problem forms",
     "A unit test compares one function at one point; an error in one column or one scaling shows only for some functions.",
     ["trajopt_sco/src/num_diff.cpp", "trajopt_sco/include/trajopt_sco/num_diff.hpp", "trajopt_ifopt/src/utils/numeric_differentiation.cpp", "trajopt_ifopt/src/core/problem.cpp"],
     [("calcForwardNumGrad/Jac, calcGradHess, calcGradAndDiagHess", "trajopt_sco/src/num_diff.cpp"), ("calcForwardNumJac, calcJacobianDifferent...", "trajopt_ifopt/src/utils/numeric_differentiation.cpp"), ("Problem::EvaluateCostFunctionGradient by differences", "trajopt_ifopt/src/core/problem.cpp")],
     "property-based testing against closed-form derivatives with computed error bounds", E % "C10")

prop("C13", "Bounds, clamping and interpolation mean what they say",
     "A bound classifies itself (equality, range, one-sided, unbounded) as its two limits say after any history of changes, distances to it and clamping to it are those of the interval, and lists of bounds built from vectors keep each limit at its place. Interpolating between two states starts and ends exactly on them with equal steps, and converting trajectories to variables and back changes nothing.",
     ["inputs", "histories"], "all limits including infinite and equal ones, all points, all step counts and state sizes",
     "The existing tests sample a few finite bounds.",
     ["trajopt_ifopt/src/core/bounds.cpp", "trajopt_ifopt/include/trajopt_ifopt/core/bounds.h", "trajopt_ifopt/src/utils/ifopt_utils.cpp", "trajopt_ifopt/src/utils/trajopt_utils.cpp"],
     [("Bounds", "trajopt_ifopt/src/core/bounds.cpp"), ("calcBoundsErrors, calcBoundsViolations, interpolate, toBounds", "trajopt_ifopt/src/utils/ifopt_utils.cpp")],
     "property-based testing against interval arithmetic", E % "C13")

prop("C14", "Node and variable views always agree with the whole decision vector",
     "After any history of value changes, each variable of each node shows exactly the part of the decision vector at its index, with its own names and bounds, and the parts cover the vector once. Equal vectors have equal fingerprints and a change of values changes the fingerprint; vectors of the wrong size are refused and leave the values alone.",
     ["histories", "inputs"], "all layouts of nodes and variables, all kinds of bounds, all histories of value changes",
     "The existing tests build one node of one or two variables and set it once.",
     ["trajopt_ifopt/src/variable_sets", "trajopt_ifopt/include/trajopt_ifopt/variable_sets"],
     [("NodesVariables, Node, Var", "trajopt_ifopt/src/variable_sets")],
     "stateful property testing against a flat reference vector", E % "C14")

prop("C15", "Joint constraints measure the differences they name",
     "For every trajectory, the position, velocity, acceleration and jerk constraints equal the corresponding finite differences of the joint values minus their targets, in a fixed order of steps and joints, their slopes are the exact derivatives, and each coefficient belongs to the joint it was given for. Requests with too few steps or mismatched sizes are refused.",
     ["inputs"], "all trajectories of 2..9 steps and 1..4 joints, with every form of coefficients, targets and bounds",
     "The existing tests check these on one fixed trajectory each.",
     ["trajopt_ifopt/src/constraints/joint_position_constraint.cpp", "trajopt_ifopt/src/constraints/joint_velocity_constraint.cpp", "trajopt_ifopt/src/constraints/joint_acceleration_constraint.cpp", "trajopt_ifopt/src/constraints/joint_jerk_constraint.cpp"],
     [("JointPosConstraint", "trajopt_ifopt/src/constraints/joint_position_constraint.cpp"), ("JointVel/Accel/JerkConstraint", "trajopt_ifopt/src/constraints")],
     "property-based testing against closed forms", E % "C15")

prop("C16", "Penalty costs equal the weighted violation of their bounds",
     "A squared or absolute penalty built on any constraint set is the weighted sum, over its rows, of the squared or absolute distance from the row's value to its bounds, with the matching slope; it is zero exactly where the bounds hold. It follows the variables through every change of values.",
     ["inputs", "histories"], "all constraint sets of 1..5 rows, all kinds of bounds, all weights, all points, including points on a bound",
     "The existing tests evaluate one or two points.",
     ["trajopt_ifopt/src/costs/squared_cost.cpp", "trajopt_ifopt/src/costs/absolute_cost.cpp", "trajopt_ifopt/include/trajopt_ifopt/costs"],
     [("SquaredCost", "trajopt_ifopt/src/costs/squared_cost.cpp"), ("AbsoluteCost", "trajopt_ifopt/src/costs/absolute_cost.cpp")],
     "property-based testing against closed forms", E % "C16")

prop("C17", "A problem is exactly the stack of its costs and constraints",
     "Values, bounds, coefficients and derivatives of a whole problem are those of its cost terms added up and of its constraint sets stacked in the order added, at the values currently set, including sets whose number of rows changes. Saved iterates are returned unchanged, and restoring one restores its values.",
     ["histories", "inputs"], "all problems of 0..4 cost terms and 0..4 constraint sets, fixed and changing in size, all histories of value changes, saves and restores",
     "The existing tests use one cost and fixed-size sets.",
     ["trajopt_ifopt/src/core/problem.cpp", "trajopt_ifopt/src/core/composite.cpp", "trajopt_ifopt/src/core/constraint_set.cpp", "trajopt_ifopt/src/core/cost_term.cpp", "trajopt_ifopt/src/core/component.cpp"],
     [("Problem", "trajopt_ifopt/src/core/problem.cpp"), ("CompositeVariables, CompositeDifferentiable stacking", "trajopt_ifopt/src/core/composite.cpp")],
     "stateful property testing against the individual components", E % "C17")

prop("C11", "The sequential convex optimizer keeps its trust-region and penalty promises",
     "Every run is a run of the documented method: subproblems are the sum of the convexified costs and weighted violations inside the trust box and the bounds, a step is taken only when the true merit improves enough, the box and the penalties change as stated, solver failures and limits are handled as stated. The status, values, counts and callbacks report what happened; converged means the constraints hold to tolerance; the model is left as it was. Without a problem or a start it refuses to run.",
     ["histories", "fault_sequences", "inputs", "configurations"], "all problems of generated smooth costs and constraints, all parameters, all sequences of solver failures, time limits, single and multi threaded, repeated runs",
     "No stable test runs the optimizer; its decisions depend on the whole history of steps, failures and penalties.",
     ["trajopt_sco/src/optimizers.cpp", "trajopt_sco/include/trajopt_sco/optimizers.hpp"],
     [("BasicTrustRegionSQP::optimize", "trajopt_sco/src/optimizers.cpp"), ("BasicTrustRegionSQPResults::update", "trajopt_sco/src/optimizers.cpp"), ("BasicTrustRegionSQPMultiThreaded", "trajopt_sco/src/optimizers.cpp")],
     "model-based property testing: recorded runs matched against a reference machine, with fault injection", E % "C11" + " The QP solver under the optimizer is the harness' own (src/ipm.cpp); a part of the cases uses the bundled one.",
     ["callbacks", "results()", "calls on the convex model"])

prop("C19", "Affine and quadratic models equal the expansions they are made from",
     "A model made from values, a Jacobian and Hessians at a point equals the first- or second-order expansion of the function about that point, at every other point. The square of affine expressions is the weighted sum of the squared rows, row by row and as one objective. Using a model object again for another size leaves nothing of its former content.",
     ["inputs", "histories"], "all sizes from no rows up, including one variable, empty rows, stored zeros, zero weights and reused objects",
     "The existing tests check a few two-variable examples at single points.",
     ["trajopt_optimizers/trajopt_sqp/src/expressions.cpp", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/expressions.h"],
     [("AffExprs::create, values, square", "trajopt_optimizers/trajopt_sqp/src/expressions.cpp"), ("QuadExprs::create, values", "trajopt_optimizers/trajopt_sqp/src/expressions.cpp")],
     "property-based testing against dense closed forms", E % "C19")

prop("C20", "IfoptQPProblem's quadratic program is the local model of its problem",
     "After any history of value, trust-box and penalty changes: costs and violations are those of the current values; after convexify() the QP minimises the weighted squared linearised costs plus the penalty coefficient times the violation of each linearised constraint, within the variable bounds and the trust box; the reported model of each cost and constraint agrees with that QP and equals the exact value where it was made.",
     ["histories", "inputs"], "all problems of 0..3 cost sets and 0..3 constraint sets with 1..3 rows each, all kinds of bounds, coefficients and variable bounds, all histories of the public operations including repeated setup",
     "The existing tests check the Hessian and gradient of one or two joint costs at one point, with no constraint slack, coefficients, history or evaluation of the model.",
     ["trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h"],
     [("IfoptQPProblem::convexify and helpers", "trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp"), ("evaluateConvexCosts, getExactCosts", "trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp")],
     "stateful property testing against a dense reference of the quadratic program", E % "C20")

prop("C21", "TrajOptQPProblem's quadratic program follows its terms, whatever their size",
     "After any history of value, trust-box, penalty and term changes, with terms whose number of rows changes or is zero: costs are weighted (squared, hinge or absolute) violations and constraints summed violations at the current values; after convexify() the QP minimises exactly the sum of their linearised costs and penalised violations within bounds and trust box, and the reported models agree with it. Bounds that do not fit a penalty are refused.",
     ["histories", "inputs"], "all problems of squared, hinge and absolute costs and constraints with fixed and changing rows, all coefficients and bounds, all histories of the public operations including added terms and repeated setup",
     "The existing tests check the Hessian and gradient of one or two fixed-size squared costs at one point.",
     ["trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trajopt_qp_problem.h"],
     [("TrajOptQPProblem::Implementation::convexify, update, setup", "trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp"), ("ConvexProblem::evaluateConvexCosts", "trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp")],
     "stateful property testing against a dense reference of the quadratic program", E % "C21")

prop("C22", "The trust-region SQP solver keeps its step, penalty and stopping promises",
     "Every run of TrustRegionSQPSolver is the documented method: each quadratic program is solved with the current data, trust box and penalties; a step is taken only when the true merit improves enough, and the box and penalties change as stated; a callback returning false, too many solver failures and the limits end the run with the status that says so. Converged means the constraints hold to tolerance; values, costs and merit left behind are those of the best step. Convex problems reach their optimum.",
     ["histories", "fault_sequences", "inputs", "configurations"], "all scripts of costs, violations, model values, solver failures, refused updates, changing sizes and callback answers, all parameters, repeated runs and the step-by-step interface; all problems of generated linear terms",
     "The existing tests that solve anything need the OSQP solver and are not in the stable suite.",
     ["trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h"],
     [("TrustRegionSQPSolver::solve, stepSQPSolver, runTrustRegionLoop", "trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp"), ("SQPParameters", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/types.h")],
     "model-based property testing: scripted runs matched against a reference machine, with fault injection", E % "C22" + " The QP solver is a stand-in of the harness, scripted or an interior-point method (src/ipm.cpp).",
     ["callbacks", "getResults() and getStatus()", "calls on the QP solver"])

prop("C18", "Joint trajectory terms equal their closed form, and trajectories map faithfully",
     "A joint position, velocity, acceleration or jerk cost or constraint over steps first..last penalises the finite difference of its order, per joint, from its target with its weight and tolerances, touching exactly the variables of those steps; its local model equals it where it was made, for every layout of variables. Trajectories, solution vectors and named joint values convert into each other without loss.",
     ["inputs", "configurations"], "all trajectories of 1..6 steps and 1..3 joints, all layouts of variables, step ranges, weights, targets and tolerances, all evaluation points",
     "The stable tests never build a trajectory term.",
     ["trajopt/src/trajectory_costs.cpp", "trajopt/include/trajopt/trajectory_costs.hpp", "trajopt/src/utils.cpp", "trajopt/include/trajopt/utils.hpp"],
     [("JointPos/Vel/Acc/Jerk costs and constraints", "trajopt/src/trajectory_costs.cpp"), ("getTraj, trajToDblVec, getJointSubset, AddVarArrays", "trajopt/src/utils.cpp")],
     "property-based testing against closed forms", E % "C18")

prop("C23", "Reading JSON gives the value that is there, the default, or an error",
     "For every document, type and member name: a member of the requested type is read exactly; a missing member gives the stated default, or an error naming it when there is none; a member that has no value of the requested type (text as a number, a list as a number, a number out of range) is an error, with or without a default. Lists are read element by element, in order, with nothing left of the former content.",
     ["inputs"], "all documents generated from values of every JSON type, nested in objects and lists, all member names and target types",
     "The stable tests read no JSON.",
     ["trajopt/src/json_marshal.cpp", "trajopt/include/trajopt/json_marshal.hpp"],
     [("fromJson overloads", "trajopt/src/json_marshal.cpp"), ("childFromJson, list reading", "trajopt/include/trajopt/json_marshal.hpp")],
     "property-based testing against the generated document", E % "C23")

prop("C24", "Configurations compare by every field and survive being written and read",
     "Two configurations or parameter sets are equal exactly when every field is; changing any one field makes them differ. A collision configuration written to YAML, JSON, XML or binary and read back equals the original; YAML with members left out reads as the defaults. Every status has its own name.",
     ["inputs", "configurations"], "all field values of every parameter and configuration type, all single-field changes, all four formats",
     "The existing test writes one default-like configuration.",
     ["trajopt_common/include/trajopt_common/collision_types.h", "trajopt_common/include/trajopt_common/cereal_serialization.h", "trajopt_common/include/trajopt_common/yaml_extensions.h", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/types.h", "trajopt_sco/src/optimizers.cpp"],
     [("TrajOptCollisionConfig, CollisionCoeffData", "trajopt_common/src/collision_types.cpp"), ("serialization", "trajopt_common/include/trajopt_common/cereal_serialization.h"), ("SQPParameters, BasicTrustRegionSQPParameters", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/types.h")],
     "property-based testing: round trips and single-field differences", E % "C24")

prop("C25", "Contacts are counted, weighted and differentiated by their definition",
     "Coefficients and margins of link pairs answer with the last value set, whatever the order of the links. The largest errors of a set of contacts are the maxima over its contacts at each end; contacts farther than the margin, or only at a fixed state, are dropped and no others; each contact's gradient is the derivative of its distance with respect to the joints, and the weighted gradient of a set is its weighted average.",
     ["histories", "inputs"], "all histories of coefficient settings, all sets of contacts of every time type, all serial robots of up to four joints and contact points on them",
     "No stable test touches the contact bookkeeping; it depends on combinations of link order, contact type and fixed states.",
     ["trajopt_common/src/collision_types.cpp", "trajopt_common/src/collision_utils.cpp", "trajopt_common/include/trajopt_common/collision_types.h", "trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp"],
     [("CollisionCoeffData, GradientResultsSet", "trajopt_common/src/collision_types.cpp"), ("getGradient, removeInvalidContactResults", "trajopt_common/src/collision_utils.cpp"), ("getWeightedAvgGradient", "trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp")],
     "property-based testing: a reference table, definitions, and finite differences", E % "C25" + " Robots and contacts come from the harness' stand-ins for tesseract (stubs/).")

prop("C26", "Collision evaluators report exactly the contacts that count",
     "For a state, or a motion between two states, the reported contacts are those of all pairs of links of which one moves, within margin plus buffer of the pair, without pairs of coefficient zero and without contacts only at a fixed end. Motions longer than the longest valid segment are split; a dynamic environment is used at its current state. Gradients are grouped by pair and shapes and, when there are more than allowed, ordered worst first.",
     ["inputs", "histories", "configurations"], "all generated worlds of up to six spheres on a robot of up to four joints, a wall, a floor and a moving door; all margins, coefficients, buffers, segment lengths, fixed ends and histories of evaluations",
     "The stable tests never run a collision check.",
     ["trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp", "trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp", "trajopt_common/src/collision_utils.cpp"],
     [("SingleTimestepCollisionEvaluator", "trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp"), ("LVSContinuous/LVSDiscreteCollisionEvaluator", "trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp")],
     "property-based testing against the geometry of generated worlds", E % "C26" + " Kinematics, environment and contact managers are the harness' stand-ins for tesseract (stubs/, src/world.h): spheres with closed-form contacts.")

prop("C27", "Collision constraints report the worst contacts and their derivatives",
     "After every change of the variables a collision constraint's rows are the largest error of each pair of shapes in contact, worst first when rows are short (or one row per contact), with the pair's coefficient; rows without contact are minus the buffer and constant. The derivative is that of the error, averaged over the contacts of a set by depth, and touches only the states that can move. Requests without two states of one size, a free end or a row are refused.",
     ["inputs", "histories"], "all six collision constraints on one or two states of trajectories of up to four states, one to four rows, either end fixed, generated worlds, histories of new and repeated values",
     "The stable tests never run a collision check.",
     ["trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp", "trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp", "trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp", "trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp", "trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp"],
     [("DiscreteCollisionConstraint, ...D", "trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp"), ("ContinuousCollisionConstraint, ...D", "trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp"), ("numerical constraints", "trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp")],
     "stateful property testing against the geometry of generated worlds", E % "C27" + " Kinematics, environment and contact managers are the harness' stand-ins for tesseract (stubs/, src/world.h).")

prop("C28", "Kinematic errors of the trajectory problem are exact, their Jacobians right",
     "The pose, moving-target pose, link displacement, joint velocity/acceleration/jerk, total time and singularity error functions give the documented error for every robot, frame, offset, tolerance band and choice of components, whatever else was evaluated before and with assertions on or off; their Jacobians are the derivatives of these errors; subset terms pick and place the joints by name; impossible tolerance bands are refused; what is drawn is what is measured.",
     ["inputs"], "robots of up to six revolute and prismatic joints, all frames, offsets, tolerance bands and index choices, joint values in +-2, times 0.2..5",
     "The stable tests build none of the trajopt module but its JSON part.",
     ["trajopt/src/kinematic_terms.cpp", "trajopt/include/trajopt/kinematic_terms.hpp", "trajopt/src/utils.cpp"],
     [("CartPose..., DynamicCartPose... calculators", "trajopt/src/kinematic_terms.cpp"), ("AvoidSingularity...Calculator", "trajopt/src/kinematic_terms.cpp")],
     "property-based testing against an independent robot model and numerical differences", E % "C28" + " Kinematics are the harness' stand-ins for tesseract (stubs/, src/robot.h).")

prop("C29", "Collision costs and constraints of the trajectory problem follow the contacts",
     "The collision evaluators of the trajectory problem report every contact nearer than its margin plus buffer whose pair has a coefficient and whose end can move, once, with its distance, margin, coefficient, place and time on the motion; the linear expressions are the distances' first order models in the variables that can move; costs are the weighted sums of the positive violations, constraints list the violations, and their local models agree with them. Results of repeated points do not depend on what was evaluated in between; wrong combinations of evaluator and type are refused.",
     ["inputs", "histories"], "single, discrete, continuous and split continuous evaluators, generated worlds, margins, coefficients, buffers, segment lengths and fixed ends, histories of new and repeated points",
     "The stable tests never run a collision check.",
     ["trajopt/src/collision_terms.cpp", "trajopt/include/trajopt/collision_terms.hpp", "trajopt_common/src/collision_types.cpp"],
     [("collision evaluators", "trajopt/src/collision_terms.cpp"), ("CollisionCost, CollisionConstraint", "trajopt/src/collision_terms.cpp")],
     "property-based testing against the geometry of generated worlds", E % "C29" + " Kinematics, environment and contact managers are the harness' stand-ins for tesseract (stubs/, src/world.h); gradients of contacts between two states are judged on robots that move straight.")
prop("C30", "A problem description becomes the optimization problem it describes",
     "The problem constructed from a description (JSON, or put together in code) has the variables, bounds, initial values and fixed values it describes, and for every cost and constraint of the description terms of that kind over exactly the steps asked for, with the given targets, tolerances, coefficients (and the documented defaults for what is left out), placed as cost or constraint and with or without time as asked, so that the values and local models of the whole problem are those worked out from the description at every trajectory. Solver settings are those given. A description with an error (unknown or misspelt member, wrong number of values, step or joint out of range, unknown link or type) is refused.",
     ["inputs"], "generated worlds and robots, descriptions with any of the registered term types, fields left out or given, time modes, initializations, fixed steps and joints; descriptions with one planted error",
     "The stable tests do not construct a problem; the example-based tests upstream sample a handful of descriptions and look at the result of the optimization only.",
     ["trajopt/src/problem_description.cpp", "trajopt/include/trajopt/problem_description.hpp", "trajopt/src/json_marshal.cpp"],
     [("ConstructProblem, TrajOptProb, ProblemConstructionInfo", "trajopt/src/problem_description.cpp"), ("TermInfo::fromJson, hatch", "trajopt/src/problem_description.cpp")],
     "property-based testing against an independent reading of the description", E % "C30" + " Kinematics, environment and contact managers are the harness' stand-ins for tesseract (stubs/, src/world.h).")

prop("C31", "Pose constraints on a state have the pose error's value, bounds and Jacobian",
     "A Cartesian position constraint has as value the error of the target frame as seen from the source frame (position, and rotation as a rotation vector) in the rows asked for; a Cartesian line constraint the error to the nearest pose of the segment between its two poses (nearest point, rotation interpolated there); an inverse kinematics constraint the distance to the solution nearest its seed. Bounds and coefficients are those given for these rows, the Jacobian is the derivative of the value with respect to the variables of its state only, and all are the same at every evaluation, whatever was evaluated before. Arguments that do not fit (indices, sizes, links, tolerances) are refused.",
     ["inputs", "histories"], "generated robots of 1..5 joints, frames on moving and fixed links with offsets, index subsets, bounds, line poses (also of length zero and with rotation), trajectories",
     "The tests upstream of these constraints need robots and are not among the stable ones; they sample one robot at few points, with all six rows.",
     ["trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp", "trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp", "trajopt_ifopt/src/constraints/inverse_kinematics_constraint.cpp"],
     [("CartPosConstraint", "trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp"), ("CartLineConstraint", "trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp"), ("InverseKinematicsConstraint", "trajopt_ifopt/src/constraints/inverse_kinematics_constraint.cpp")],
     "property-based testing against an independent model of poses and numerical derivatives", E % "C31" + " Kinematics are the harness' stand-ins for tesseract (stubs/, src/robot.h).")

prop("C32", "OSQP, qpOASES and Gurobi back ends solve the model the edits describe",
     "Whatever history of added and removed variables and constraints, bounds, objectives and solves a model has seen, each solve hands the solver library exactly the problem the model describes at that time (objective, rows, bounds; up to the order of rows and entries below the documented thresholds), with the settings given, warm starts only where allowed, and returns the library's status and point as the model's; nothing of the library is leaked or used after it is released. The choice of a back end by environment or argument is honoured.",
     ["inputs", "histories"], "histories of up to 25 edits with solves in between; statuses, error returns and refused updates or hot starts of the library",
     "None of these libraries is there in the build the tests run on; where they are, tests solve a handful of fixed problems with fresh models.",
     ["trajopt_sco/src/osqp_interface.cpp", "trajopt_sco/src/qpoases_interface.cpp", "trajopt_sco/src/gurobi_interface.cpp", "trajopt_sco/src/solver_interface.cpp"],
     [("OSQPModel", "trajopt_sco/src/osqp_interface.cpp"), ("qpOASESModel", "trajopt_sco/src/qpoases_interface.cpp"), ("GurobiModel", "trajopt_sco/src/gurobi_interface.cpp"), ("createModel", "trajopt_sco/src/solver_interface.cpp")],
     "stateful property-based testing against a reference model, on recording stand-ins of the libraries", E % "C32" + " The libraries are stand-ins written from their documentation (stubs_qp/): what they would answer is drawn, not computed.")

prop("C33", "OSQPEigenSolver hands OSQP the current quadratic program and its answer back",
     "After any history of set-up, updates and solves, what OSQP is asked to solve is the quadratic program last given (objective x'Hx + g'x, with OSQP's factor of a half; bounds beyond OSQP's infinity clamped), a solve succeeds exactly when OSQP says solved, the status is that of the most recent solve, data of another size is refused, and the solution is OSQP's. The warm start of an SQP problem is its current point with each slack variable at the violation of its row. In whole SQP runs, also with one solver for several problems, OSQP is always asked to solve the problem's current quadratic program.",
     ["inputs", "histories"], "histories of up to 20 operations, OSQP's answers; SQP problems with squared, absolute and hinge costs and constraints; runs over up to 3 problems with one solver",
     "The library is not there in the build the tests run on; where it is, tests look at the optimum of fixed problems, which a wrong warm start or status does not change.",
     ["trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp", "trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp"],
     [("OSQPEigenSolver", "trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp")],
     "stateful property-based testing against a reference, on recording stand-ins of the libraries", E % "C33" + " OSQP and OsqpEigen are stand-ins (stubs_qp/).")

prop("C34", "Callbacks and results show the trajectory the optimizer has reached",
     "Whenever the plot callback of the trajectory problem is called, it clears the viewer, draws what the costs and then the constraints that can be drawn draw at the current point, one trajectory with the joint positions (and only these) of every step under the joints' names, and waits. The file callback writes the header once and per call one line per step with that step's variables, the pose of every link at the step's joint positions, and all cost values and constraint violations. OptimizeProblem returns the trajectory reached with the names and values of all costs and constraints there. The callbacks of the SQP solver draw the current values of exactly the variables and constraints they were given, and never stop the solver.",
     ["inputs", "histories"], "generated robots, problems with and without time, costs and constraints of several kinds, points, histories of calls and additions",
     "No stable test plots or writes; upstream tests do so with a viewer that draws nothing and look at no file.",
     ["trajopt/src/plot_callback.cpp", "trajopt/src/file_write_callback.cpp", "trajopt/src/problem_description.cpp", "trajopt_optimizers/trajopt_sqp/src/callbacks/joint_state_plotter.cpp", "trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp"],
     [("PlotCallback, PlotProbCallback", "trajopt/src/plot_callback.cpp"), ("WriteCallback", "trajopt/src/file_write_callback.cpp"), ("OptimizeProblem, TrajOptResult", "trajopt/src/problem_description.cpp"), ("JointStatePlottingCallback", "trajopt_optimizers/trajopt_sqp/src/callbacks/joint_state_plotter.cpp"), ("CartesianErrorPlottingCallback", "trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp")],
     "property-based testing against recordings of a stand-in viewer and the parsed file", E % "C34" + " The viewer is the harness' stand-in.")


prop("C35", "What is printed, logged or written about a problem or a run is what it is",
     "The text form of an expression, and the file an OSQP model writes, denote the expression and the model: read back, they give the same polynomial, constraints and bounds under the variables' names, after any history of edits. The printed state of a problem lists every set once with its size, its place in the whole problem and its cost value or number of violated bounds; the printed quadratic program and the printed, tabulated and logged results of both optimizers show the numbers they are named after, to the digits shown, for every size including none. Printing changes nothing.",
     ["inputs", "histories"], "expressions of up to 4 terms, histories of up to 16 edits, problems of up to 3 costs and constraint sets, results of up to 5 variables and 4 terms with values of any magnitude",
     "No test reads what is printed; most of it is not even executed.",
     ["trajopt_sco/src/solver_interface.cpp", "trajopt_sco/src/osqp_interface.cpp", "trajopt_sco/src/optimizers.cpp", "trajopt_ifopt/src/core/problem.cpp", "trajopt_ifopt/src/core/component.cpp", "trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp", "trajopt_optimizers/trajopt_sqp/src/types.cpp", "trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp"],
     [("operator<< of expressions", "trajopt_sco/src/solver_interface.cpp"), ("OSQPModel::writeToFile", "trajopt_sco/src/osqp_interface.cpp"), ("BasicTrustRegionSQPResults::print, write...", "trajopt_sco/src/optimizers.cpp"), ("TrustRegionSQPSolver::printStepInfo", "trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp"), ("Problem::printCurrent", "trajopt_ifopt/src/core/problem.cpp")],
     "property-based testing: round trip of text forms, printed numbers against the values they name", E % "C35" + " OSQP is a stand-in (stubs_qp/) that is not asked to solve here.")
prop("C36", "A convex decomposition covers its solid and stays close to it",
     "For every closed triangle mesh and parameters in range, VHACD's hulls are closed, outward-oriented, convex, have positive volume, are at most as many as allowed, have no more vertices than allowed, and together cover the solid and stay within the resolution of it when they are not to be approximate; a convex solid gives one hull. Hulls above the allowed number are merged by taking, each time, the pair that leaves the least empty space. The result does not depend on the number of threads, single or double precision copies of exact coordinates, or what the object computed before; nothing leaks; the reported volumes and centres are those of the hulls. The asynchronous interface gives the result of the synchronous one under every history of compute, cancel, query, clean and release, calls back as documented, and neither deadlocks nor uses freed memory.",
     ["inputs", "histories", "schedules"], "solids of up to 4 pieces and some 200 triangles, up to 10^5 voxels, histories of up to 12 calls with callbacks that call back",
     "VHACD has no tests here; its output depends on geometry, parameters, threads and timing.",
     ["trajopt_ext/vhacd/src/VHACD.cpp", "trajopt_ext/vhacd/src/VHACD-ASYNC.cpp", "trajopt_ext/vhacd/src/vhacdVolume.cpp", "trajopt_ext/vhacd/src/vhacdMesh.cpp", "trajopt_ext/vhacd/include/vhacd/VHACD.h"],
     [("VHACD::ComputeACD", "trajopt_ext/vhacd/src/VHACD.cpp"), ("VHACD::MergeConvexHulls", "trajopt_ext/vhacd/src/VHACD.cpp"), ("VHACD::SimplifyConvexHull", "trajopt_ext/vhacd/src/VHACD.cpp"), ("MyHACD_API", "trajopt_ext/vhacd/src/VHACD-ASYNC.cpp")],
     "property-based testing: geometric oracles over generated solids, metamorphic relations, random call histories with schedules", E % "C36")
prop("C37", "The geometry under a decomposition: voxels, cuts, hulls, rays, mesh files",
     "Voxelizing a closed mesh marks as surface exactly the voxels its triangles pass through and as inside those the surface encloses, in the frame it reports; splitting voxels or tetrahedra by a plane loses and invents no volume and puts every part on its side; volumes, centres, principal axes and hulls are those of the parts. The convex hull of points contains them, is convex, closed and made of them, in all positions of the points including nearly flat or colinear ones, at any scale. A ray cast finds, of all points where a triangle is hit, the one nearest to the point asked for. A mesh written to a file and read again is the same mesh and no damaged file is read past its end or out of bounds. Arrays and circular lists hold what was put into them after any history, copied or not.",
     ["inputs", "histories"], "solids of up to some 200 triangles, grids of up to 40 voxels a side, hulls of up to 60 points with coordinates from 1e-3 to 1e3, histories of up to 60 operations",
     "VHACD has no tests here; the failures need particular positions of points, planes and rays, or particular sizes.",
     ["trajopt_ext/vhacd/src/vhacdVolume.cpp", "trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h", "trajopt_ext/vhacd/src/vhacdICHull.cpp", "trajopt_ext/vhacd/src/vhacdMesh.cpp", "trajopt_ext/vhacd/src/vhacdRaycastMesh.cpp", "trajopt_ext/vhacd/src/btConvexHullComputer.cpp", "trajopt_ext/vhacd/src/FloatMath.cpp"],
     [("Volume::Voxelize", "trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h"), ("VoxelSet::Clip, TetrahedronSet::Clip", "trajopt_ext/vhacd/src/vhacdVolume.cpp"), ("ICHull::Process", "trajopt_ext/vhacd/src/vhacdICHull.cpp"), ("RaycastMesh", "trajopt_ext/vhacd/src/vhacdRaycastMesh.cpp"), ("Mesh::LoadOFF, SaveOFF", "trajopt_ext/vhacd/src/vhacdMesh.cpp"), ("SArray", "trajopt_ext/vhacd/include/vhacd/inc/vhacdSArray.h"), ("CircularList", "trajopt_ext/vhacd/include/vhacd/inc/vhacdCircularList.inl")],
     "property-based testing: brute-force reference models, conservation laws under cuts, model-based container histories", E % "C37")
