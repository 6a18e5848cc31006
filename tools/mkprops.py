#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
I='include/mpc/'
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=a,where=I+b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=I+c) for a,b,c in state]
    assert len(title)<=80,title
    return d
L=[]
L.append(P('C01','Solver variables expand to the right predicted trajectory (nonlinear)',
 "For every vector the nonlinear solver proposes, the trajectory handed to the user's objective, constraints and output functions has row 0 of the states equal to the current measured state, row k equal to the solver's k-th state block times the state scale, input row k equal to the solver's input block min(k, control horizon - 1) times the input scale, the final input row repeating the one before it, and the slack equal to the solver's slack. The same expansion of the solver's answer is what the returned optimal sequence and command report.",
 ['inputs','configurations'],'all solver vectors, measured states, positive scales; horizons with control horizon < and = prediction horizon; static and dynamic sizes',
 'Tests unwrap a couple of fixed vectors with unit or one fixed scaling; the mapping must hold for every vector, scale and horizon pair.',
 ['NLMPC/Mapping.hpp','NLMPC/Base.hpp','NLMPC/NLOptimizer.hpp'],[('unwrapVector','NLMPC/Mapping.hpp'),('computeMapping','NLMPC/Mapping.hpp'),('run','NLMPC/NLOptimizer.hpp')],
 ['arguments received by user callbacks','NLMPC::optimize','IMPC::getOptimalSequence'],[('Iz2u','solver inputs to horizon inputs','NLMPC/Mapping.hpp')]))
L.append(P('C02','Nonlinear solver starting point: cold start or shifted previous solution',
 "With warm start disabled, or before any solve has succeeded, every nonlinear optimisation starts from the current state and the given last input repeated over the horizons (expressed in the solver's scaled variables) and the previous slack value. With warm start enabled after a successful solve, it starts from that solution moved one step earlier in time: each state block takes the next one's value (the last one is kept) and each input block takes the input that solution applies one step later. Components outside the bounds in force are moved to the nearest bound, because the solver refuses any other start.",
 ['histories','inputs','configurations'],'all sequences of up to three optimize calls with arbitrary solver outcomes, states, inputs and warm-start settings; several horizon pairs',
 'Tests never look at the starting vector given to the solver; a wrong shift only slows convergence or lands in another local optimum.',
 ['NLMPC/NLOptimizer.hpp','NLMPC/Mapping.hpp'],[('run','NLMPC/NLOptimizer.hpp')],['starting vector passed to the NLopt C API'],[('opt_vector','last solution','NLMPC/NLOptimizer.hpp'),('is_first_iteration','no success yet','NLMPC/NLOptimizer.hpp')]))
L.append(P('C03','Nonlinear state and input bounds reach the solver exactly where they were set',
 "After any sequence of state-bound and input-bound calls (whole-horizon, slice or matrix form), the lower and upper bounds in force in the nonlinear solver equal, for every predicted state step, every control step and every component, the values of the last call that addressed that step (divided by the scale of that variable), and are unbounded for steps no call addressed. A call never alters the bounds of a step or variable it does not address, and column or slice index k means prediction step k+1 for states and control step k for inputs.",
 ['histories','inputs','configurations'],'all sequences of up to three bound calls with arbitrary values and valid slices, scale calls before or after; several sizes; static and dynamic',
 'Tests check one or two slices on one size; any ordering, slice and component must land on the right solver variable.',
 ['NLMPC/NLOptimizer.hpp','NLMPC.hpp'],[('setStateBounds / setInputBounds / updateBounds','NLMPC/NLOptimizer.hpp'),('setStateBounds / setInputBounds','NLMPC.hpp')],['bounds held by the NLopt object'],[('lb, ub','solver bounds','NLMPC/NLOptimizer.hpp')]))
L.append(P('C04','Horizon slices are accepted exactly when well formed; rejection changes nothing',
 "Every setter taking a horizon slice accepts it (returns true) if and only if it is the 'all' slice {-1,-1} or satisfies 0 <= start < end <= horizon, the horizon being the control horizon for input bounds and the prediction horizon for everything else. An accepted slice affects exactly the steps start..end-1 (all of them for 'all'); a rejected call returns false and leaves the controller's problem unchanged.",
 ['inputs','configurations'],'all integer pairs (start, end) and values, for every slice setter of the linear and nonlinear controllers; control horizon < and = prediction horizon',
 'Tests use the full-horizon slice and a handful of others; the accept/reject boundary over all integer pairs is never swept.',
 ['IMPC.hpp','LMPC.hpp','NLMPC.hpp'],[('isPredictionHorizonSliceValid / isControlHorizonSliceValid / isSliceUnset','IMPC.hpp')],['return value of the slice setters','the optimisation problem handed to the solver before and after']))
L.append(P('C05','System dynamics appear as the solver equality constraints (nonlinear)',
 "For every solver vector, the equality constraints given to the nonlinear solver have exactly one entry per predicted state component, ordered by step, and equal x_{k+1} - f(x_k, u_k, k) for a discrete-time model and x_k + (Ts/2)(f(x_k,u_k,k) + f(x_{k+1},u_k,k)) - x_{k+1} for a continuous-time one, divided by the state scale, starting from the measured state. They therefore vanish if and only if the predicted trajectory satisfies the (trapezoidally discretised) dynamics.",
 ['inputs','configurations'],'all solver vectors, measured states, sampling times, state and input scales, and all quadratic vector fields with arbitrary coefficients (time-step dependent); discrete and continuous; several sizes',
 'Tests evaluate the constraint on fixed points of one linear model; agreement must hold for every point, scaling and model.',
 ['NLMPC/Constraints.hpp','NLMPC/Model.hpp','NLMPC/NLOptimizer.hpp'],[('getStateEqConstraints','NLMPC/Constraints.hpp'),('nloptEqConFunWrapper','NLMPC/NLOptimizer.hpp')],['constraint callback registered with NLopt']))
L.append(P('C06','Dynamics constraint gradient is the derivative the solver asked for',
 "Whenever the nonlinear solver requests it, the gradient of every dynamics equality constraint is the matrix of its derivatives with respect to every solver variable (scaled states, scaled control moves shared by all steps they are held for, slack), laid out constraint-major as the solver expects. This holds for discrete and continuous models, for any scaling.",
 ['inputs','configurations'],'all solver vectors, states, sampling times and scales, and all affine-in-each-argument models with arbitrary coefficients; discrete and continuous; several sizes',
 'Tests compare a gradient at one or two points with hand-computed numbers; a wrong block or missing scale factor elsewhere stays invisible.',
 ['NLMPC/Constraints.hpp','NLMPC/Mapping.hpp','NLMPC/NLOptimizer.hpp'],[('computeStateEqJacobian / glueJacobian','NLMPC/Constraints.hpp')],['gradient buffer filled by the constraint callback']))
L.append(P('C07','User constraints and their gradients reach the solver unaltered (nonlinear)',
 "For every solver vector, the user inequality and equality constraint values given to the nonlinear solver are exactly the user functions evaluated on the expanded trajectory, outputs and slack, one entry per declared constraint. Their gradients are the derivatives of those values with respect to every solver variable, including inputs held over several steps, the final input row and the slack, for any scaling.",
 ['inputs','configurations'],'all solver vectors and scales; all affine-in-each-argument user constraint and output functions with arbitrary coefficients; several numbers of constraints, sizes; static and dynamic',
 'Tests use one constraint function per size and compare a few numbers; each gradient entry must be right for every function and point.',
 ['NLMPC/Constraints.hpp','NLMPC/NLOptimizer.hpp'],[('evaluateIneq / evaluateEq / computeIneqJacobian / computeEqJacobian / glueJacobian','NLMPC/Constraints.hpp')],['constraint callbacks registered with NLopt']))
L.append(P('C08','Objective value and gradient reach the solver unaltered (nonlinear)',
 "For every solver vector, the objective value returned to the nonlinear solver is exactly the user's objective on the expanded trajectory, outputs and slack. When requested, the gradient is the derivative of that value with respect to every solver variable, including inputs held over several steps, the final input row, the slack and any scaling.",
 ['inputs','configurations'],'all solver vectors and scales; all objectives affine in each argument with arbitrary coefficients (exact) and quadratic ones (to the finite-difference error); several sizes; static and dynamic',
 'Tests compare the objective at a few vectors; the gradient under scaling and held inputs is never swept.',
 ['NLMPC/Objective.hpp','NLMPC/NLOptimizer.hpp'],[('evaluate / computeJacobian','NLMPC/Objective.hpp'),('nloptObjFunWrapper','NLMPC/NLOptimizer.hpp')],['objective callback registered with NLopt']))
L.append(P('C09','Feasibility flag is true exactly when the user constraints hold (nonlinear)',
 "After a successful nonlinear optimisation the result is flagged feasible if and only if, at the solution returned, every user inequality is at most its tolerance and every user equality is within its tolerance of zero. Constraints that were never set count as satisfied, a value that is not a number counts as violated, and a failed optimisation is never flagged feasible.",
 ['inputs','configurations'],'all solution vectors, all user constraint values (including non-finite), all tolerances; none, one or both kinds of constraints set; several numbers of constraints',
 'Tests only reach the few solutions the real solver returns; the boundary and each constraint position need all values.',
 ['NLMPC/Constraints.hpp','NLMPC/NLOptimizer.hpp'],[('isFeasible','NLMPC/Constraints.hpp')],['Result::is_feasible']))
L.append(P('C10','Nonlinear result reflects this solve; on failure it degrades safely',
 "After a nonlinear optimisation that the solver completes, the result holds the solver's status and cost, the command is the first input of the solution, the optimal sequence is the solution's trajectory with outputs from the user's output function, and the last result equals what was returned. If the solver fails by any error, the command is the previous result's command, the cost is infinite, the status is ERROR with solver code -1, infeasible, with a non-empty message, and the sequence is all zeros; no exception escapes and later calls still work.",
 ['histories','fault_sequences','inputs'],'all sequences of up to three optimize calls with any NLopt return code (each success and each error) and any solution vector',
 'Tests only see the outcomes the installed solver happens to produce; solver errors and mixed histories never occur in them.',
 ['NLMPC/NLOptimizer.hpp','IMPC.hpp'],[('run','NLMPC/NLOptimizer.hpp'),('optimize / getLastResult / getOptimalSequence','IMPC.hpp')],['IMPC::optimize','IMPC::getLastResult','IMPC::getOptimalSequence'],[('result','last result','IOptimizer.hpp')]))
L.append(P('C11','Every solver return code maps to the documented result status',
 "For every code the inner solver can return, the result status is SUCCESS exactly when the problem was solved (also to a tolerance, stop value or reduced accuracy), MAX_ITERATION exactly when an iteration/evaluation or time limit stopped it, INFEASIBLE exactly when the linear solver found the problem primal or dual infeasible (also to reduced accuracy), ERROR for solver errors, interruption and non-convexity, and UNKNOWN otherwise. The raw code is reported unchanged as the solver status when the solver produced an answer.",
 ['inputs','fault_sequences'],'all return codes of NLopt and all OSQP status codes (and any other integer)',
 'Tests reach two or three of the codes; the rest need solver faults that cannot be provoked on demand.',
 ['NLMPC/NLOptimizer.hpp','LMPC/LOptimizer.hpp','Types.hpp'],[('convertToResultStatus','NLMPC/NLOptimizer.hpp'),('convertToResultStatus','LMPC/LOptimizer.hpp')],['Result::status','Result::solver_status']))
L.append(P('C12','Linear problem encodes the plant dynamics and initial condition',
 "The linear controller's problem handed to the solver admits a set of predicted states, inputs and input increments on its equality rows if and only if x_0 and u_{-1} are the given ones, u_k = u_{k-1} + du_k, and x_{k+1} = A x_k + B u_k + B_d d_k for every step of the prediction horizon, with d_k the exogenous input set for step k. This holds for whatever model, disturbance matrices and exogenous inputs were set last.",
 ['inputs','configurations','histories'],'all A, B, C, Bd, Dd, d_k, x_0, u_{-1}; models set once or replaced; several sizes; static and dynamic',
 'Tests solve two or three fixed plants (and need OSQP); the encoding must be right for every matrix entry and step.',
 ['LMPC/ProblemBuilder.hpp','LMPC.hpp'],[('buildTimeInvariantTems / get / setStateModel / setExogenousInput','LMPC/ProblemBuilder.hpp')],['constraint matrix and bounds passed to osqp_setup']))
L.append(P('C13','Linear problem cost is the documented tracking cost',
 "Up to a constant, one half of the quadratic form plus the linear term handed to the solver equals half the sum over the horizon of the weighted squared output error (C x + Dd d - y_ref), input error (u - u_ref) and input-increment error (du - du_ref), each step using the weights, references and exogenous input set for it. The quadratic form carries no other term and its full symmetric matrix is represented.",
 ['inputs','configurations','histories'],'all weights, references, C, Dd, exogenous inputs; matrix and slice setters in any order; several sizes; static and dynamic',
 'Tests only compare the closed-loop command of fixed examples; a wrong weight or reference at one step is invisible there.',
 ['LMPC/ProblemBuilder.hpp','LMPC/LOptimizer.hpp','LMPC.hpp'],[('buildTimeInvariantTems / get / setObjective','LMPC/ProblemBuilder.hpp'),('setReferences','LMPC/LOptimizer.hpp')],['P and q passed to osqp_setup']))
L.append(P('C14','Linear bounds constrain the right variable at the right step',
 "In the linear controller's problem, state bounds set for column or slice index k constrain the state at step k+1, output bounds set for index k constrain the output C x + Dd d at step k+1, and input bounds set for index k constrain the input applied at step k, with index 0 also covering the initial state and output; steps past the control horizon take the last control step's input bounds when set by matrix or for the whole horizon. Values persist until overwritten by a later call addressing the same step, and steps never addressed stay unbounded.",
 ['inputs','histories','configurations'],'all bound values (including infinite), all sequences of up to three matrix/slice calls; control horizon < and = prediction horizon; static and dynamic',
 'Tests use constant bounds over the whole horizon, so a bound attached to the wrong step cannot show.',
 ['LMPC/ProblemBuilder.hpp','LMPC.hpp'],[('setStateBounds / setInputBounds / setOutputBounds / buildTimeInvariantTems / get','LMPC/ProblemBuilder.hpp'),('setStateBounds / setInputBounds / setOutputBounds','LMPC.hpp')],['inequality rows passed to osqp_setup'],[('minX,maxX,minY,maxY,minU,maxU','bounds per step','LMPC/ProblemBuilder.hpp')]))
L.append(P('C15','Linear control horizon: input may move only in the first control-horizon steps',
 "In the linear controller's problem the input increment is forced to zero at every prediction step k with control horizon <= k < prediction horizon, and is left free at every step k < control horizon. With equal horizons no increment is forced to zero.",
 ['configurations'],'every pair of horizons 1 <= control <= prediction <= bound, with all other data arbitrary; static and dynamic',
 'Tests fix one horizon pair, with both equal; an off-by-one only shows when control < prediction.',
 ['LMPC/ProblemBuilder.hpp'],[('buildTimeInvariantTems','LMPC/ProblemBuilder.hpp')],['increment rows passed to osqp_setup']))
L.append(P('C16','Linear scalar constraint rows: s_min <= xs.x + us.u <= s_max per step',
 "After a scalar constraint is set on the linear controller (whole horizon, slice or single index form), the problem handed to the solver contains for every addressed step exactly the row xs.x + us.u with that step's limits (the multipliers being those of the last accepted call, shared by the horizon), index k addressing prediction step k+1 paired with the input leading to it and index 0 also covering the initial step. Limits of steps not addressed keep their earlier values (unlimited if none), and an out-of-range index is rejected without effect.",
 ['inputs','histories','configurations'],'all limits, multipliers and indices; sequences of two calls; several sizes; static and dynamic',
 'No test sets a scalar constraint at all.',
 ['LMPC/ProblemBuilder.hpp','LMPC.hpp'],[('setScalarConstraint','LMPC/ProblemBuilder.hpp'),('setScalarConstraint','LMPC.hpp')],['last rows passed to osqp_setup']))
L.append(P('C17','Linear per-step data: slice and matrix setters agree and last write wins',
 "For objective weights, references and exogenous inputs of the linear controller, setting a slice changes exactly the addressed steps, setting 'all' equals setting the matrix with equal columns, and setting a matrix equals setting each of its columns by one-step slices. After any sequence of calls the problem handed to the solver depends only on the last value written for each step.",
 ['histories','inputs','configurations'],'all values and all sequences of up to three matrix/slice calls per quantity; control horizon < and = prediction horizon; static and dynamic',
 'Tests call each setter once over the full horizon.',
 ['LMPC.hpp','LMPC/ProblemBuilder.hpp','LMPC/LOptimizer.hpp'],[('setObjectiveWeights / setReferences / setExogenousInputs','LMPC.hpp')],['problem passed to osqp_setup'],[('outSysRef, cmdSysRef, deltaCmdSysRef, extInputMeas','per-step data','LMPC/LOptimizer.hpp')]))
L.append(P('C18','Quadratic program and settings are handed to the linear solver faithfully',
 "On every linear optimisation the solver receives a well-formed problem: dimensions matching, compressed-column matrices with monotone column pointers and strictly increasing in-range row indices, only the upper triangle of the quadratic form, lower limits and upper limits on every row, and the problem memory valid until the solver is done. Every optimiser parameter last set by the user (or its default) is the value in the solver settings, and warm start is used exactly if enabled and a previous answer or user-supplied start of the problem's size exists, with exactly those vectors.",
 ['inputs','configurations','histories'],'all matrix entries (including zeros), parameter values, warm-start data; up to three optimize calls',
 'Needs OSQP; tests see only the final command, never the data passed.',
 ['LMPC/LOptimizer.hpp','LMPC/ProblemBuilder.hpp','LMPC.hpp','Types.hpp'],[('run / createOsqpSparseMatrix / setParameters','LMPC/LOptimizer.hpp'),('getSparse','LMPC/ProblemBuilder.hpp')],['arguments of osqp_setup, osqp_warm_start, osqp_update_warm_start']))
L.append(P('C19','Linear result reflects the solver answer; on failure it degrades safely',
 "When the linear solver returns a solution, the command is the input it applies at step 0, the state, input and output sequences hold at row k the solution's x_k, the input applied at step k (last input row repeated) and C x_k + Dd d_k with d_k the exogenous input of that step (column k-1 of the horizon, the first one for k = 0), and cost, status code, status and feasibility are the solver's for this solve; infeasibility is never reported as success. When the solver yields no usable answer (setup failure, no solution, infeasible or not-a-number solution) the command stays the previous one, the cost is infinite, the sequences are zero, nothing is remembered for warm starting, and later calls still work.",
 ['histories','fault_sequences','inputs'],'all solver outcomes: every status, any solution vector, setup failure, absent or NaN solution; sequences of up to three optimize calls; static and dynamic',
 'Needs OSQP; solver failures cannot be provoked on demand.',
 ['LMPC/LOptimizer.hpp','LMPC/ProblemBuilder.hpp','IMPC.hpp'],[('run','LMPC/LOptimizer.hpp'),('mapToOutput','LMPC/ProblemBuilder.hpp')],['IMPC::optimize','IMPC::getLastResult','IMPC::getOptimalSequence','LMPC::getSolverWarmStartPrimal'],[('optimal_prev_x','previous answer','LMPC/LOptimizer.hpp')]))
L.append(P('C20','Compile-time-sized and run-time-sized controllers behave identically',
 "A controller whose sizes are template arguments and one built with the same sizes as constructor arguments, given the same sequence of calls, accept and reject the same calls, hand the same problem to the solver, compute the same callback values and gradients, and return the same results and sequences. This holds for the linear and the nonlinear controller.",
 ['configurations','inputs','histories'],'all model, bound, weight, reference and solver data; several size combinations including zero constraints',
 'Tests run fixed examples in both modes but never compare them on arbitrary data.',
 ['IDimensionable.hpp','IComponent.hpp','Types.hpp','Dim.hpp','LMPC.hpp','NLMPC.hpp'],[('COND_RESIZE_MAT','Types.hpp'),('setDimension','IDimensionable.hpp')],['solver-side problem and Result of both variants']))
L.append(P('C21','Continuous-to-discrete conversion builds the right matrix exponential',
 "Discretising (A, B, optionally an exogenous matrix) with sampling time Ts returns Ad, Bd (and Bed) equal to the corresponding blocks of the exponential of Ts times [A B Be; 0 0 0]. Discretising with C and D also returns them unchanged as Cd and Dd for any number of outputs.",
 ['inputs','configurations'],'all A, B, Be, C, D, Ts, with the matrix exponential an arbitrary function of its argument; several nx, nu, nd, ny combinations',
 'Tests check two fixed systems; misplaced blocks with other sizes are unseen.',
 ['Utils.hpp'],[('discretization (three overloads)','Utils.hpp')],['output arguments of discretization']))
L.append(P('C22','RK4 integrator performs the classical Runge-Kutta steps',
 "Integrating a (time-dependent) vector field for m steps of size h from time t returns exactly the result of m consecutive classical fourth-order Runge-Kutta steps, step i evaluating the field at t+ih, t+ih+h/2 and t+ih+h. Zero steps return the input unchanged.",
 ['inputs','configurations'],'all initial states, times, step sizes and all affine time-varying vector fields (and products of state and time) with arbitrary coefficients; 0 to 3 steps',
 'There is no test of the integrator.',
 ['Integrator.hpp'],[('run','Integrator.hpp')],['return value of RK4::run']))
L.append(P('C23','Execution statistics equal the statistics of the recorded solves',
 "After any history of optimisations and resets, the reported number of solves, total, minimum, maximum and average time and the population standard deviation are those of the (positive) solve durations since the last reset, and the per-status counts add up to the number of solves with each status counted exactly as returned. A reset brings back the empty statistics.",
 ['histories','inputs'],'all sequences of up to four solves with arbitrary durations and statuses, with a reset at any point',
 'The test times three fixed sleeps with a 10 ms tolerance, which hides a wrong weighting.',
 ['Profiler.hpp','IMPC.hpp'],[('solutionStart / solutionEnd / addSolutionTime / clear','Profiler.hpp')],['IMPC::getExecutionStats'],[('stats','running statistics','Profiler.hpp')]))
L.append(P('C24','Logger emits a message exactly when its type reaches the level, with prefix',
 "A message of a given type is written to the current stream if and only if the type is at or above the configured level, whatever sequence of level, prefix, stream and reset calls came before; when written it starts with the bracketed prefix if one is set and contains every streamed value in order. Level NONE silences everything and a reset restores the default level and empty prefix.",
 ['histories','inputs'],'all levels, message types and prefixes up to a stated length; sequences of up to four configuration calls and messages',
 'Tests try a few level/type pairs with one stream.',
 ['Logger.hpp'],[('log / operator<< / setLevel / setPrefix / reset','Logger.hpp')],['bytes written to the stream'],[('thresholdLevel, currentType, prefix, os','logger state','Logger.hpp')]))
L.append(P('C25','Dimension arithmetic is exact, and dynamic if any operand is dynamic',
 "The sum, difference and product of two problem dimensions, or of a dimension and a plain integer on either side, equal the integer result when both are known at compile time, and are 'dynamic' whenever an operand is dynamic. Operand order is respected.",
 ['inputs'],'all pairs of integers without overflow, every operator overload',
 'Tests never call the operators on arbitrary values; one overload is not used at all.',
 ['Dim.hpp','Types.hpp'],[('Size operators','Dim.hpp'),('make_dimension','Types.hpp')],['value of the resulting dimension']))
L.append(P('C26','Controllers are memory safe, leak free and independent of one another',
 "Creating, configuring, solving with (whatever the solver answers), moving or copying (where the type allows it) and destroying any number of linear and nonlinear controllers never reads or writes outside live memory, never uses an indeterminate value, and leaves no memory allocated. Calls on one controller never change the problem, result or sequence of another.",
 ['histories','configurations','fault_sequences'],'sequences of create/configure/optimize/destroy on up to two controllers with arbitrary solver outcomes; several sizes; static and dynamic',
 'Tests run without sanitizers, never with solver faults, and the linear ones need OSQP.',
 ['LMPC.hpp','NLMPC.hpp','LMPC/LOptimizer.hpp','NLMPC/NLOptimizer.hpp','IMPC.hpp'],[('~LMPC, ~NLMPC, ~LOptimizer, ~NLOptimizer','LMPC.hpp'),('clearData','LMPC/LOptimizer.hpp')],['heap state after destruction','memory accesses']))
L.append(P('C27','Nonlinear solver parameters, scaling and functions last set are in force',
 "Whatever sequence of parameter calls is made on the nonlinear controller, at the next optimisation the solver's relative and absolute tolerances, evaluation limit, time limit (none when not positive) and warm-start mode are those of the last call, or the defaults. The slack variable is fixed to zero exactly while hard constraints are in force and free otherwise; each user function registered is the one called, with the constraint counts and tolerances it was registered with.",
 ['histories','inputs','configurations'],'all parameter values; sequences of up to three parameter calls, and function registrations in any order',
 'Tests set parameters once with fixed values and never read what the solver holds.',
 ['NLMPC/NLOptimizer.hpp','NLMPC.hpp','Types.hpp'],[('setParameters / bindObjective / bindEq / bindUserIneq / bindUserEq','NLMPC/NLOptimizer.hpp')],['settings held by the NLopt object at nlopt_optimize']))
L.append(P('C28','Python bindings expose the same behaviour as the C++ controllers',
 "A controller driven from Python returns the same results as the C++ controller given the same calls.",
 ['programs'],'all call sequences from Python',
 'There is no Python test.',
 ['LMPC.hpp','NLMPC.hpp'],[('pybind11 module','LMPC.hpp')],['Python module']))
L.append(P('C29','Logging, queries, statistics and refused requests never change control',
 "Configuring the logger (level, stream, prefix, reset), reading the last result, the optimal sequence or the execution statistics, and printing or resetting the statistics never change any problem later handed to the solver, any user-function argument, any result or sequence, or which calls are accepted, whenever they happen, also during an optimisation. A request a controller kind does not support (scaling and sampling time on the linear controller, output bounds on the nonlinear one) throws and leaves everything as it was.",
 ['histories','configurations','inputs'],'all histories within the bounds with one such call inserted at any point, all logging levels, all real data; both controllers, static and dynamic sizes',
 'Tests run with one logging level and never compare a run with and without such calls.',
 ['Logger.hpp','IMPC.hpp','LMPC.hpp','NLMPC.hpp','LMPC/LOptimizer.hpp','LMPC/ProblemBuilder.hpp','NLMPC/NLOptimizer.hpp','Profiler.hpp'],[('getLastResult / getOptimalSequence / getExecutionStats / resetStats / setLoggerLevel','IMPC.hpp'),('setDiscretizationSamplingTime / setInputScale / setStateScale','LMPC.hpp'),('setOutputBounds','NLMPC.hpp')],['problem passed to the solver','IMPC::getLastResult','IMPC::getOptimalSequence']))
L.append(P('C30','A user function that throws makes that optimisation fail, and nothing more',
 "Whenever a state, output, objective or constraint function of the nonlinear controller throws while the solver runs, the exception does not reach the caller: optimize reports exactly what it reports when the solver itself fails (error status, code -1, infinite cost, the command of before, zero sequences). Every later optimisation, and every problem later handed to the solver, is the same as if the solver had failed there by itself, and nothing leaks. When the function throws after the solver succeeded (feasibility and output evaluation) either that holds or the exception reaches the caller, and later optimisations are unaffected all the same, apart from the initial guess.",
 ['fault_sequences','histories','inputs'],'an exception of each of five kinds at every call of every user function of one optimisation; preceded by a successful, failed or no optimisation; uninterpreted user functions; warm start on or off',
 'No test has a user function that throws.',
 ['NLMPC/NLOptimizer.hpp','NLMPC/Objective.hpp','NLMPC/Constraints.hpp','NLMPC/Model.hpp','IMPC.hpp'],[('run','NLMPC/NLOptimizer.hpp'),('optimize','IMPC.hpp')],['IMPC::optimize','IMPC::getLastResult','IMPC::getOptimalSequence','problem passed to the solver']))
L.append(P('C31','Printing the execution statistics shows their values',
 "Writing the execution statistics to an output stream prints, in this order and in the format of the existing text, the minimum, maximum and average time, the standard deviation and the total time, each with six decimals; the share of every status that occurred, under its own name, as a percentage of all solves with two decimals (this block is left out when nothing was solved); and the number of solves. It does so whatever was solved or reset before and whatever number format the stream had, and it leaves the stream's number format as it was.",
 ['histories','inputs'],'histories of solves and resets with symbolic durations and several outcomes, as for C23; and statistics with any five times and any number of solves up to 3 per status; a stream with its default format or with another one',
 'No test prints the statistics.',
 ['Profiler.hpp','IMPC.hpp'],[('operator<<','Profiler.hpp'),('resultStatusToString','Profiler.hpp'),('getExecutionStats','IMPC.hpp')],['text written to the stream','format of the stream afterwards']))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in L))
print(len(L))
