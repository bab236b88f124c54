"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


p('D01', 'Optimizer-side scaling and unscaling of driver variables are exact inverses',
  'For every declared scaler and adder (scalar or array, any combination), the value and the bounds an optimizer is given for a design variable, objective or constraint are (model value + adder) * scaler, and a value the optimizer sets reaches the model as value / scaler - adder, at exactly the declared (or explicitly requested) indices, index zero included.',
  ['inputs', 'configurations'], 'every scaler/adder/index combination of every design variable, objective and constraint',
  'Tests sample a handful of scalar scalers; the combinations scalar/array x adder/scaler x indices are not enumerated.',
  ['openmdao/core/driver.py', 'openmdao/drivers/predeterminedruns_driver.py'],
  [('read transform', 'Driver._get_distrib_var'), ('write transform', 'Driver.set_desvar'),
   ('bound transform', 'Driver.add_desvar, Driver.add_constraint')],
  observe=['Driver.get_desvars/get_objectives/get_constraints', 'root unknowns after Driver.set_desvar'])

p('D02', 'Gradients given to the driver are in the driver\'s scaled units, entry by entry',
  'Every entry d(output i)/d(design variable j) of a scaled gradient equals the unscaled derivative times scaler_i of the output and divided by scaler_j of the design variable, whatever the derivative mode (forward, reverse, finite difference) and return format (array or dict), for scalar and array scalers, and no entry is scaled twice.',
  ['inputs', 'configurations'], 'every mode, return format, scaler kind, index selection and sparsity pattern',
  'Tests exercise scalers mostly with equal values or a single mode; array scalers in forward mode and finite difference were in fact wrong in the pinned tree.',
  ['openmdao/core/problem.py', 'openmdao/core/driver.py'],
  [('scaling in linear-solver gradients', 'Problem._calc_gradient_ln_solver'),
   ('scaling in finite-difference gradients', 'Problem._calc_gradient_fd'),
   ('conversion tables', 'Driver._setup / dv_conversions, fn_conversions')])

p('D03', 'Approximating derivatives leaves the model as it was found, also on failure',
  'When partial or total derivatives are approximated by finite differences or complex step, every perturbed input and every complex-step switch is back at its previous value when the approximation returns, and also when the model raises part way, for every step form and step size.',
  ['inputs', 'fault_sequences', 'configurations'], 'every step form/type, every variable and index, and an exception raised by any model run inside the approximation',
  'Tests compare derivatives of models that never raise; the state left behind after a failing evaluation is not examined.',
  ['openmdao/core/system.py', 'openmdao/core/component.py', 'openmdao/components/exec_comp.py', 'openmdao/core/problem.py'],
  [('perturb/run/restore', 'System.fd_jacobian'), ('perturb/run/restore', 'Component.complex_step_jacobian'),
   ('perturb/restore', 'ExecComp.linearize')],
  state=[('in_complex_step', 'vectors carry imaginary parts', 'system.py:_ProbData')])

p('S01', 'A solver puts back every setting it changes temporarily, even when it fails',
  'Whatever a solver or linear operation changes only for the duration of a solve (derivative options and their lock, preconditioner nesting level, input restrictions) has its previous value again when the solve returns or raises.',
  ['fault_sequences', 'histories'], 'every exit of every solve, including an exception raised by any subsystem, component or nested solver',
  'Tests do not continue to use a model after an exception; the leak shows only in the next solve.',
  ['openmdao/solvers/newton.py', 'openmdao/solvers/scipy_gmres.py', 'openmdao/solvers/petsc_ksp.py', 'openmdao/core/group.py', 'openmdao/core/problem.py'],
  [('save/override/restore of the derivative options', 'Newton.solve'), ('precon_level counter', 'ScipyGMRES._precon, PetscKSP.apply'),
   ('rel_inputs hand-over', 'Group.solve_linear')])

p('S02', 'Iterative solvers stop within maxiter and never report failure as success',
  'A nonlinear or linear iterative solver (or line search) starts another iteration only while fewer than maxiter have been done and the norm of the current residual meets none of its tolerances, and it goes on until one of these changes. When it stops without having met a tolerance, or with a residual that is not finite, it raises an analysis error if configured to and otherwise reports failure; a solve that met a tolerance is never reported as failed, except that using the last permitted iteration may count as failure. A solver limited to a single pass makes no convergence claim.',
  ['inputs', 'configurations'], 'every combination of tolerances, maxiter, residual history (including NaN) and error options',
  'Convergence outcomes are sampled on a few well-behaved models; the stopping logic quantifies over all residual histories.',
  ['openmdao/solvers/newton.py', 'openmdao/solvers/nl_gauss_seidel.py', 'openmdao/solvers/ln_gauss_seidel.py', 'openmdao/solvers/scipy_gmres.py', 'openmdao/solvers/petsc_ksp.py', 'openmdao/solvers/backtracking.py', 'openmdao/solvers/brent.py'],
  [('iteration loop and verdict', 'solve() of each solver')])

p('S03', 'Every iteration is recorded once, after it ran, under its own coordinate',
  'Each iteration of a driver, nonlinear solver or line search is passed to each attached recorder exactly once, after the model was evaluated for that iteration, together with that system\'s parameters, unknowns and residuals. It carries an iteration coordinate already advanced to that iteration and nested under a copy of its parent\'s coordinate, and the evaluation below it is given that same coordinate.',
  ['histories', 'configurations'], 'every driver and nonlinear solver, every iteration count and nesting',
  'Tests check final counts of a few recorders, not the order of evaluation, coordinate update and recording on every path.',
  ['openmdao/solvers/nl_gauss_seidel.py', 'openmdao/solvers/newton.py', 'openmdao/solvers/run_once.py', 'openmdao/solvers/backtracking.py', 'openmdao/solvers/brent.py', 'openmdao/core/driver.py', 'openmdao/drivers/scipy_optimizer.py', 'openmdao/drivers/pyoptsparse_driver.py', 'openmdao/drivers/predeterminedruns_driver.py'],
  [('iteration metadata', 'util/record_util.py'), ('recording', 'RecordingManager.record_iteration')])

p('S04', 'Model code runs in its system\'s own directory; the caller\'s is always restored',
  'Whenever a system that has a working directory of its own (given absolute, or relative to its parent\'s) is executed, has its residuals evaluated, is linearized or finite-differenced, or is linearly solved, it runs in that directory. When control returns to the caller, normally or by exception and however the executions nest, the working directory is the one the caller had.',
  ['programs', 'fault_sequences'], 'every nesting of systems with and without directories and every failure inside them',
  'Directory handling is tested on one flat model with no exceptions and no re-entry.',
  ['openmdao/util/file_util.py', 'openmdao/core/group.py', 'openmdao/core/problem.py', 'openmdao/core/driver.py', 'openmdao/solvers/newton.py', 'openmdao/solvers/ln_gauss_seidel.py'],
  [('directory context', 'util/file_util.py:DirContext'), ('use around execution', 'every "with system._dircontext"')])

p('L01', 'Forward and reverse derivative operations are mirror images',
  'Every linear operation of the framework and its shipped components, run in reverse, is the transpose of the same operation run forward: products add to a target zeroed beforehand using the operator and its transpose, unit conversion, residual scaling and data transfer happen in exactly reversed order, subsystems are traversed in opposite order, and right-hand side and solution exchange places. Contributions reaching one source through several inputs are summed, never overwritten. A matrix or factorization built for one direction is not used for the other.',
  ['programs', 'configurations'], 'every linear solver, system kind and mode',
  'Each solver is tested in both modes on a few models; models where a swapped role happens to give the right answer (symmetric systems) hide errors.',
  ['openmdao/solvers', 'openmdao/core/group.py', 'openmdao/core/system.py', 'openmdao/core/component.py', 'openmdao/core/problem.py'],
  [('role selection by mode', 'Group.solve_linear, Component.solve_linear, ScipyGMRES.mult/_precon, PetscKSP.mult/apply, DirectSolver.mult, LinearGaussSeidel'),
   ('data transfer', 'DataTransfer.transfer, PetscDataTransfer.transfer')])

p('D04', 'Difference quotients divide by exactly the perturbation that was made',
  'Every column of a finite-difference or complex-step derivative is the change of the output divided by the change made to that one input entry, so it is exact for models linear in the entry: forward perturbs upward, backward downward, central both ways and complex step along the imaginary axis, the last two also free of second-order error. The column is stored in the block, row and column of the output and entry it belongs to, and an output that is the input itself gets the identity. Step size, step calculation, form and type come from the variable, then the caller, then the system, and the separate checking settings are used exactly when derivatives are being checked.',
  ['programs', 'configurations'], 'every form, step setting, entry and output of the approximation routines',
  'Tests compare a few well-scaled functions with tolerances of the order of the truncation error; a quotient that mixes up the two step sizes, or a column in the wrong place, shows only for relative steps, index subsets or vector variables.',
  ['openmdao/core/system.py', 'openmdao/core/component.py', 'openmdao/components/exec_comp.py', 'openmdao/core/vec_wrapper_complex_step.py'],
  [('difference quotients', 'System.fd_jacobian'), ('complex step', 'Component.complex_step_jacobian, ComplexStep*VecWrapper.step_complex, ExecComp.linearize')])

p('R01', 'A design of experiments runs and accounts for every case exactly once',
  'Every case a design of experiments generates is given to exactly one process, has its own design values applied before the model runs, runs the model once, and advances the case count once, in serial, distributed and load-balanced execution. A worker answers every case it takes exactly once, also when the case fails; the coordinator counts cases sent and answers received exactly, records every answer once under the right names, sends nothing more after a fatal error, and tells every worker to stop only when no answer is outstanding. Generated values lie between the bounds of their own entry, the requested number of cases is produced, and Latin hypercube designs stay Latin.',
  ['schedules', 'fault_sequences', 'configurations'], 'any order in which workers finish, any case failing, any number of cases and processes',
  'A lost or surplus message shows only for some interleavings or when a case fails, and then as a hang or a silently missing case; tests run a few cases in one process.',
  ['openmdao/drivers/predeterminedruns_driver.py', 'openmdao/drivers/latinhypercube_driver.py', 'openmdao/drivers/uniform_driver.py', 'openmdao/drivers/fullfactorial_driver.py', 'openmdao/util/concurrent.py'],
  [('multiprocessing', 'PredeterminedRunsDriver._run_lb_multiproc and worker'), ('MPI load balancing', 'PredeterminedRunsDriver._distrib_lb_build_runlist, concurrent_eval_lb'), ('generation', '_build_runlist of every driver')])

p('V01', 'Unit conversion and residual scaling are applied exactly once',
  'Reading an input returns the value of its source converted to the units of the input (the stored value plus offset, times factor) exactly once, for every storage kind, shape and complex-step state; reading never changes what is stored and writing stores what was given. Derivatives handed to or received from a component are multiplied by the conversion factor alone, residuals and their derivatives by the inverse of the declared residual scaling, each exactly once in forward, reverse, approximated and assembled form and in every kind of group. Incompatible units are rejected at setup, and a conversion is dropped only when it is the identity.',
  ['inputs', 'configurations', 'programs'], 'any units, offsets, residual scaling, shape, connection and differentiation mode',
  'A factor missing or doubled in one combination of storage kind and mode gives plausible numbers; tests cover a few units and mostly factors without offset.',
  ['openmdao/core/vec_wrapper.py', 'openmdao/core/vec_wrapper_complex_step.py', 'openmdao/core/problem.py', 'openmdao/core/system.py', 'openmdao/core/component.py', 'openmdao/core/group.py', 'openmdao/units/units.py'],
  [('values', 'Accessor._setup_get_funct/_setup_set_funct and the accessor functions'), ('conversion', 'Problem._setup_units, PhysicalUnit.conversion_tuple_to'), ('derivatives', 'TgtVecWrapper._apply_unit_derivatives, SrcVecWrapper._scale_derivatives/_scale_values, System._sys_apply_linear, Group.assemble_jacobian')])

p('M01', 'A system runs on exactly the current values of its connected sources',
  'Whenever a group executes a subsystem, or evaluates its residuals, every input fed by a connection holds exactly the current values of its source at the connected source indices (with imaginary parts during complex step, and objects by reference), for any index pattern, variable order and set of relevant variables. Every subsystem is run once, after the transfer to it, in the order of the group; every connection is served by the innermost group around both ends; and systems that run before one of their sources have their residuals evaluated.',
  ['inputs', 'programs', 'configurations'], 'every connection pattern, index list, relevance set and group nesting',
  'A wrong merge of index ranges or a missed transfer changes values only for particular index patterns or orders of variables; tests use a handful.',
  ['openmdao/core/data_transfer.py', 'openmdao/core/group.py', 'openmdao/core/parallel_group.py', 'openmdao/util/array_util.py', 'openmdao/util/string_util.py', 'openmdao/core/problem.py'],
  [('index pairs', 'Group._get_global_idxs, Group._setup_data_transfer'), ('slices', 'DataTransfer.__init__, to_slice'), ('order of runs', 'Group.children_solve_nonlinear, Group.apply_nonlinear')])

p('C01', 'Setup rejects ill-formed models and accepts well-formed ones',
  'Setup (or the declaring call) raises an error, and nothing runs, whenever a variable or subsystem name is invalid or used twice, a promotion matches nothing, a connection or driver refers to a variable that does not exist, a target is an output or has more than one source, or connected variables differ in type or shape. The same holds when source indices are not integers, lie outside the source or do not match the size of the target, when joined inputs without a source differ in units or initial value, and when an unconnected input has no shape. A model without these faults is not rejected for them.',
  ['programs', 'configurations', 'inputs'], 'every model, connection pattern, index list and variable shape',
  'Each fault can be combined with every other property of the connection (indices, pass-by-object, promotion level); a test shows one combination at a time.',
  ['openmdao/core/_checks.py', 'openmdao/core/problem.py', 'openmdao/core/group.py', 'openmdao/core/system.py', 'openmdao/core/component.py'],
  [('connections', 'check_connections, _check_types_match, _check_shapes_match'), ('names', 'Group.connect, Group._get_explicit_connections, Group.add, Component._check_varname, System._check_promotes'), ('report', 'Problem.setup, Problem._setup_connections, Problem._check_input_diffs')])

p('P01', 'A recorded case is a faithful snapshot of the iteration it names',
  'Each recorded iteration is stored once and holds exactly the parameters, unknowns and residuals that the recording options and the include and exclude patterns select, with the values they had when that iteration finished its model run and not values the model takes later. It carries the iteration coordinate of the level that recorded it, a time stamp, and a success flag and message that say so when the run failed; derivatives and metadata are recorded when and only when their option asks for it. Reading a case back gives the same variables, derivatives and status under the identifier it was recorded with.',
  ['histories', 'configurations', 'inputs'], 'every sequence of iterations, nesting of solvers, option setting and pattern list',
  'Stale or aliased values show only when later iterations overwrite the model, wrong coordinates only for nested solvers, and lost status only for failing runs.',
  ['openmdao/recorders', 'openmdao/util/record_util.py', 'openmdao/core/driver.py', 'openmdao/drivers', 'openmdao/solvers'],
  [('selection', 'BaseRecorder.startup, _check_path, _filter_vector'), ('recorders', 'record_iteration, record_derivatives of each recorder'), ('routing', 'RecordingManager'), ('coordinates', 'record_util'), ('readers', 'SqliteCaseReader, HDF5CaseReader, Case')])

p('C02', 'Every input takes its value from the one source its connections lead to',
  'After setup, an input is connected to an output exactly when declared connections, a shared promoted name, or inputs it is joined to lead to that output; it takes the entries given by composing the source indices along the way, and an input that declares no size gets its shape, size and initial value from those entries. An input that no output leads to stays unconnected, and setting it sets every input it is joined to. Reading or setting a variable by its promoted name reaches that variable and no other.',
  ['programs', 'configurations', 'inputs'], 'every model tree, promotion pattern, connection graph and index list',
  'Connections, promotion and indices combine freely over several levels; a test fixes one graph, and a wrong source often has a plausible value.',
  ['openmdao/core/problem.py', 'openmdao/core/group.py', 'openmdao/core/system.py'],
  [('declared', 'Group.connect, Group._get_explicit_connections, Problem._add_implicit_connections'), ('resolved', 'Problem._setup_connections, _compose_indices'), ('sizes', 'Problem.setup'), ('names', 'Group._promoted_name, System._promoted, Group._setup_variables, _get_root_var, _set_root_var')])

p('G01', 'Optimizers are given the declared objective, constraints, bounds and gradients',
  'An optimizer driver hands over every design variable with its current value, size and bounds, the objective, and every entry of every constraint with its own limits: a constraint function is in bounds for the optimizer exactly when the value the driver has for it satisfies all its limits, and its gradient is that of the same function, entry by entry. '
  'Every design the optimizer proposes is set completely before the model is run once for it, and the objective and constraints returned are those of that run; a run or a gradient that fails is reported to the optimizer as failed where it can be told. '
  'When the optimization ends, the model has been run at the optimum the optimizer reports.',
  ['inputs', 'configurations', 'programs'],
  'every driver configuration, constraint kind, limit, size and failing run',
  'The combinations of optimizer, kind of constraint, limits, sizes and failures are many, pyOptSparse is not installed where the tests run, and an optimizer converges on the few sampled problems although one gradient row or limit is another.',
  ['openmdao/drivers/scipy_optimizer.py', 'openmdao/drivers/pyoptsparse_driver.py', 'openmdao/core/driver.py'],
  [('scipy', 'ScipyOptimizer.run, _objfunc, _confunc, _gradfunc, _congradfunc'), ('pyOptSparse', 'pyOptSparseDriver.run, _objfunc, _gradfunc'), ('driver', 'Driver.get_constraints, calc_gradient')])

p('U01', 'Unit conversions are physically exact and mean the same every time',
  'Converting a value between units of the same dimensions gives the physically equal value for every prefixed, compound and offset unit, and units of different dimensions are never converted. '
  'Multiplying, dividing and raising units and quantities combines factors and dimensions the same way, and products, quotients of two units and powers never silently drop an offset. '
  'What a unit name means does not depend on the units used before, and the built-in library gives every unit its standard size, offset and dimensions.',
  ['inputs', 'histories'],
  'every unit, pair of units, value and order of use',
  'Units combine without bound (every prefix, product, quotient and power), each definition and each pair with an offset can be wrong on its own, and names resolved lazily into a shared table depend on what was asked before; tests convert a few common pairs in one order.',
  ['openmdao/units/units.py', 'openmdao/units/unit_library.ini'],
  [('conversion', 'PhysicalUnit.conversion_tuple_to, PhysicalQuantity.convert_value, convert_units'), ('algebra', 'PhysicalUnit.__mul__, __div__, __pow__'), ('names', '_find_unit, add_unit, import_library'), ('library', 'unit_library.ini')])

p('T01', 'Total derivatives: every entry is solved for once and lands in its own place',
  'In either direction and either format, the total derivatives of the requested outputs with respect to the requested inputs form a table in the order asked, in which every pair of entries has its own row and column and all wanted entries, and only those, appear. '
  'Each entry comes from one linear solve of the whole, freshly linearized model whose right-hand side is zero except for that entry, and a pair is zero or left out only if the input cannot influence the output, the given sparsity excludes it or the constraint is inactive. '
  'The direction asked for in the call is used, else the one set on the solver, else a computed one; finite differences fill the same table.',
  ['inputs', 'configurations'],
  'every list of inputs and outputs, choice of entries, direction, format, sparsity, inactive set and parallel group',
  'Index subsets, repeated names, sparsity, inactive entries, parallel groups, two directions and two formats combine into many cases; a misplaced row is only visible for variables whose sizes differ in the right way, and tests use a few small models.',
  ['openmdao/core/problem.py'],
  [('solves and placement', 'Problem._calc_gradient_ln_solver'), ('finite differences', 'Problem._calc_gradient_fd'), ('direction', 'Problem._mode, Problem.calc_gradient'), ('vectors', 'Problem._get_voi_key')])

p('V02', 'Every variable has a block of its own, shared by all vectors that view it',
  'Within a vector, each numeric variable of this process owns one contiguous block of exactly its size, in declaration order and apart from all others; objects and variables of other processes own none, and the size tables used to lay out data transfers say the same. '
  'The vectors of a subsystem are views of its parent\'s, so a value, imaginary part or object written through one is read through the other, and derivative vectors of variables of interest solved together never overlap. '
  'Selecting entries of a variable, counted from its start or its end, never reaches another variable.',
  ['inputs', 'configurations'],
  'every order and mixture of sizes, kinds and nesting of variables, every set of variables of interest and every selection of entries',
  'A hole or overlap shows only when a variable of an unusual kind precedes another one in the same vector; two such faults were in the pinned tree.',
  ['openmdao/core/vec_wrapper.py', 'openmdao/core/system.py', 'openmdao/core/group.py', 'openmdao/core/component.py'],
  [('layout', 'SrcVecWrapper.setup, TgtVecWrapper.setup'), ('views', 'VecWrapper.get_view, System._create_views'), ('shared storage', 'System._get_shared_vec_info, Group._create_vecs'), ('entries', 'VecWrapper._get_local_idxs')])

p('J01', 'Relevance leaves out only what cannot affect a derivative',
  'When derivatives are solved for a variable of interest, a subsystem is skipped only if it lies on no data path from an input of interest to an output of interest, and a variable only if it is neither an end of a connection between kept subsystems, a state of a kept subsystem, nor itself of interest there; without a variable of interest nothing is left out but subsystems that have neither numeric inputs nor states. '
  'Such a reduced solve is used only if every derivative asked for is between variables of interest. '
  'The linear solve of a Newton step uses every input fed from inside its system and nothing that an outer solve left in the inputs fed from outside.',
  ['inputs', 'configurations'],
  'every graph of systems and connections, every choice of variables of interest, every list of derivatives asked for and every nesting of solvers',
  'What is wrongly left out shows as a derivative that is silently zero, and only for a model of the right shape; three such faults were in the pinned tree.',
  ['openmdao/core/relevance.py', 'openmdao/core/problem.py', 'openmdao/core/system.py', 'openmdao/core/vec_wrapper.py', 'openmdao/solvers/newton.py'],
  [('what is relevant', 'Relevance._compute_relevant_vars, Relevance._setup_sys_graph'), ('asking', 'Relevance.is_relevant, Relevance.is_relevant_system'), ('skipping', 'System._sys_apply_linear, SrcVecWrapper.setup, TgtVecWrapper.setup'), ('reduced solves', 'Problem._calc_gradient_ln_solver, Problem._get_voi_key'), ('Newton', 'Newton.setup, Newton.solve')])

p('W01', 'Newton and line search steps respect declared bounds',
  'When Newton or its line search moves the outputs and states of a system, an entry that is within its declared lower and upper bounds stays within them: strictly between them, it takes the full requested step when that stays inside and stops exactly at the bound when it would cross. '
  'An entry that starts outside is brought back to its bound whenever it moves, and never becomes infinite or nan on account of its bounds. '
  'This holds for scalars and arrays of any shape and for every retry of a line search, which starts from the point before the step.',
  ['inputs', 'configurations'],
  'every value, bound, direction and requested length of every entry; scalar, flat and multi-dimensional variables; every retry of a line search',
  'Tests try a few crossings of one bound; a zero direction outside a bound, multi-dimensional states and states declared explicitly as not passed by object were all broken in the pinned tree without a test noticing.',
  ['openmdao/core/vec_wrapper.py', 'openmdao/solvers/newton.py', 'openmdao/solvers/backtracking.py'],
  [('shortening a step', 'SrcVecWrapper.distance_along_vector_to_limit'), ('Newton', 'Newton.solve'), ('line search', 'BackTracking.solve')])

p('I01', 'Models in one process do not influence each other',
  'Building, setting up, running, differentiating and recording one model leaves nothing behind that another model in the same process sees: no default value of an argument, class-wide or module-wide object is changed, and no such object is kept in a model where the model changes it. '
  'Process-wide settings that are changed for an operation (floating-point error handling, print options, random generators, environment) are back to their previous values afterwards, also when the operation fails, unless the user asked for the change.',
  ['histories', 'programs', 'fault_sequences'],
  'every sequence of operations on any number of problems in one process; every way an operation that changes a setting can end',
  'Tests build one model at a time and compare its results; what leaks into the next model shows only for particular pairs and orders of models, and most often only in the second test of a session that happens to look.',
  ['openmdao/core', 'openmdao/solvers', 'openmdao/drivers', 'openmdao/components', 'openmdao/recorders', 'openmdao/surrogate_models', 'openmdao/util'],
  [('options and their lock', 'OptionsDictionary'), ('setup', 'Problem.setup'), ('floating-point settings', 'SrcVecWrapper.distance_along_vector_to_limit'), ('random generators', 'LatinHypercubeDriver._build_runlist')])

p('X01', 'An external command counts as run only if it ended well and left its files',
  'A component that wraps an external command returns normally only if every declared input file existed before the command was started, the command ended by itself with exit status zero, and every declared output file exists after it ended. Otherwise it raises, a hard or a soft error as its fail_hard option asks (always a soft one when the time limit is exceeded), and its return code never claims success. '
  'A command that exceeds its time limit, and only such a command, is stopped together with its children and never its caller; it gets the declared streams and a copy of the environment extended by the declared variables, and files opened for it are closed however its run ends.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every exit status, time limit, set of missing files, combination of options and way of starting or waiting for the command that can fail',
  'Tests run a few commands that succeed, fail or time out in one way; the combinations of options, signals, missing files and failures while starting are not sampled, and a leak or a stale success shows only later.',
  ['openmdao/components/external_code.py', 'openmdao/util/shell_proc.py'],
  [('the run', 'ExternalCode.solve_nonlinear'), ('start', 'ShellProc.__init__'), ('waiting and time limit', 'ShellProc.wait'), ('stopping', 'ShellProc.terminate'), ('checked call', 'shell_proc.check_call')])

# id -> (technique, level note)
TECH = {
    'D01': ('path-sensitive value-numbering dataflow over the source; algebraic comparison of read, write and bound transforms',
            'all paths of the transforms, all scaler kinds; arithmetic is treated as exact real arithmetic'),
    'D02': ('path-sensitive value-numbering dataflow with an axis/index discipline on stored derivatives',
            'all paths of both gradient routines per mode and return format; numpy broadcasting modelled by axis kinds'),
    'D03': ('frame analysis of the abstract heap over normal and exceptional exits', 'one generic element per loop; every model evaluation may raise'),
    'S01': ('frame (typestate) analysis of temporary settings over normal and exceptional exits', 'all functions that override a transient setting; every call may raise'),
    'S02': ('path-sensitive dataflow with symbolic residual norms (current/stale) and branch-condition normal forms',
            'all paths of each solver loop; loop values classified as current or stale, tolerances symbolic'),
    'S03': ('typestate analysis (coordinate set, evaluated, recorded) over every recording routine, helpers inlined',
            'all paths, loops to a fixpoint; single-process mode for the recording manager'),
    'S04': ('symbolic typestate of the working directory over enter/exit histories and call sites (helpers inlined)',
            'all call sites of model code; enter/exit histories of one context up to three deep'),
}
NA = {}
TECH['L01'] = ('path-sensitive event traces of every linear operation, forward against reverse, compared under transposition and role exchange',
               'all paths of every routine of the linear machinery in both directions, one generic variable of interest and subsystem')

TECH['D04'] = ('symbolic replay of the ordered perturbations, evaluations and result updates of every path against the expansion F + D d + E d^2/2',
               'all paths of the approximation routines, one generic input entry and output; exactness decided by polynomial identity')

TECH['R01'] = ('typestate and affine counter analysis of the message protocols (outstanding messages against the counters of the routine), path-sensitive dataflow for case execution and generation',
               'all paths of coordinator, worker, local execution and generator routines; loops analysed for a generic iteration')
TECH['V01'] = ('abstract interpretation of small client programs over every storage configuration, results compared as polynomials; path-sensitive checks of factor application',
               'all storage configurations and paths; arithmetic is exact real arithmetic, one generic variable per loop')

TECH['M01'] = ('path-sensitive traces of transfer construction and execution; index arithmetic compared as polynomials, slice merging against its guards',
               'all paths of the transfer routines for one generic connection; forward and reverse, local variables')

TECH['C01'] = ('decision tables over path conditions: every path of the validating routines complains exactly when the atomic facts of its path demand it; taint of collected errors to the raise',
               'all paths and all completions of their conditions, one generic variable, connection and subsystem')
TECH['P01'] = ('path-sensitive dataflow of recorded values to each store; option and pattern decision tables; writer/reader label agreement; run-before-record order analysis',
               'all paths of every recorder, reader and recording routine; serial execution; one generic recorder and variable per loop')
TECH['C02'] = ('dataflow of declared connections, promoted names and source indices to the run-time connection map; case tables for index composition, sizes and name lookup',
               'all paths of the loops that build, walk and read the connection graph; one generic connection, edge and variable per loop')
TECH['G01'] = ('symbolic evaluation of the functions handed to the optimizer with the arguments they are registered with; case table over kinds of constraint; offset and event-order analysis; failure-path analysis',
               'all paths of the optimizer drivers; one generic design variable, constraint and entry per loop; scipy and pyOptSparse calling conventions as documented')
TECH['U01'] = ('symbolic evaluation of conversions and unit algebra compared as Laurent polynomials; path-sensitive dataflow of name lookup; dimensional analysis of the unit library against standard values',
               'all paths of the units module; exact real arithmetic; every definition of the library')
TECH['T01'] = ('path-sensitive value-numbering dataflow of right-hand sides, solutions and table cells; reason analysis of every path that leaves a cell empty',
               'all paths in both directions and formats; one process, one generic variable and entry per loop; scaling is decided by D02')
TECH['V02'] = ('path-sensitive value-numbering dataflow of the layout loops with an inductive running offset; view/alias analysis of storage',
               'all paths of the layout, view and selection routines of single-process vectors; one generic variable per loop')
TECH['J01'] = ('container-content dataflow (what each set holds, under which path conditions) over the relevance computation; path conditions of every skip',
               'one generic input, output and connection; graph searches of networkx are trusted; all paths of the routines that skip')
TECH['W01'] = ('path-sensitive dataflow for one generic entry with every order of value, bounds, direction and step enumerated; shape discipline; typestate of shortened steps',
               'every ordering of the quantities of an entry; arithmetic is treated as exact')
TECH['I01'] = ('interprocedural effect and escape analysis of module, class, default, memo and interpreter state (alias sets, summaries to a fixpoint)',
               'every function outside the profiler, unit library and command line tools; aliases are flow-insensitive, calls resolved by name')
TECH['X01'] = ('path-sensitive typestate (started, waited, stopped, closed) with the path facts known about exit status, missing files and options',
               'all paths of the component and the process helper on a POSIX platform; waiting loop to a fixpoint; poll, sleep and process start may fail')
