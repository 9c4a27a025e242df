#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

O = "openmdao/"
prop("C01", "Every input sees exactly its source's current value",
 "Whenever a component runs, each of its connected inputs holds the current value of the one output it is connected to, restricted to the declared source entries in the declared order and converted to the input's units; unconnected inputs keep the value they were given. This holds however the connection was made (promotion, explicit connection at any level, chains of inputs), for scalars and arrays of any shape, and for pass-by-object values. After a run the value reported for any variable is the one the model computed from those inputs.",
 ["programs", "inputs", "histories"],
 "all model trees, connection patterns, source-entry selections, units and sequences of set/run operations",
 "Tests use a few hand-made models; the wiring is a product of nesting x promotion x explicit connection x entry selection x units x variable kind, and wrong merges of adjacent transfers only show up for particular layouts.",
 [O+"core/group.py", O+"core/data_transfer.py", O+"core/vec_wrapper.py", O+"core/problem.py", O+"core/basic_impl.py"],
 [("explicit/implicit connection resolution", "core/problem.py:_setup_connections"),
  ("transfer construction and slice merging", "core/data_transfer.py:DataTransfer"),
  ("per-subsystem transfers", "core/group.py:_setup_data_transfer,_transfer_data"),
  ("unit conversion on access", "core/vec_wrapper.py:_get_*_units"),
  ("index translation", "core/group.py:_get_global_idxs")],
 [("unknowns/params vectors", "flat storage of all values", "core/vec_wrapper.py")],
 ["params/unknowns handed to a component's solve_nonlinear", "Problem[name]"])

prop("C02", "Setup accepts exactly the well-formed models and resolves their wiring",
 "Setting up a model succeeds if and only if every input has at most one source, no two outputs share a name at any level, every promotion and connection refers to something that exists and is of the right kind, and connected variables agree in type, size, source entries and unit dimension; otherwise setup fails with an error before any component runs. Inputs joined together without a source behave as one variable: they must start out equal in value and units, and setting one sets all. The connections the model reports are the ones its declarations imply.",
 ["programs", "configurations"],
 "all model trees with arbitrary promotions and connections, including ill-formed ones",
 "Each malformed pattern is tested in one position; whether a bad wiring is caught at every nesting level and in combination with promotion is not.",
 [O+"core/problem.py", O+"core/group.py", O+"core/system.py", O+"core/_checks.py", O+"core/component.py"],
 [("collect and raise setup errors", "core/problem.py:setup"), ("type/shape/index checks", "core/_checks.py"),
  ("promotion checks", "core/system.py:_check_promotes"), ("unit compatibility", "core/problem.py:_setup_units"),
  ("sourceless inputs", "core/problem.py:_check_input_diffs")], None,
 ["Problem.setup outcome", "Problem[name] on sourceless inputs"])

prop("C03", "Execution order respects data dependencies and user-specified order",
 "In one pass over a group every subsystem runs exactly once; when no order was given and the data dependencies among the subsystems contain no cycle, no subsystem runs before one it depends on. When the user gives an order, exactly that order is used, and an order that omits, repeats or invents a subsystem is refused and changes nothing. With cyclic dependencies the automatic order is still a permutation that satisfies every dependency outside the cycles, and the reported cycles, order and out-of-order inputs are the true ones.",
 ["programs", "configurations"],
 "all dependency graphs over nested groups and all declaration orders",
 "Ordering depends on the whole dependency graph and on declaration order; tests sample a handful of small graphs.",
 [O+"core/group.py", O+"util/graph.py", O+"core/relevance.py", O+"core/problem.py"],
 [("automatic ordering", "core/group.py:list_auto_order"), ("cycle breaking", "util/graph.py:break_strongly_connected"),
  ("set_order validation", "core/group.py:set_order"), ("use-before-set detection", "core/problem.py:_get_ubc_vars")],
 None, ["sequence of solve_nonlinear calls", "list_order/list_auto_order", "check_setup report"])

prop("C04", "Total derivatives equal the chain rule in every mode and solver arrangement",
 "The total derivatives a model reports equal the true derivatives of its outputs with respect to its independent inputs, composed from the components' own partial derivatives, including unit conversions, source-entry selections, implicit states and dependency cycles. The result is the same in forward and reverse mode, for every linear solver and nesting of solvers able to solve the system, for matrix-free and explicit partials, and for every execution order.",
 ["programs", "configurations", "inputs"],
 "all models x derivative mode x linear solver per group x way of supplying partials",
 "Tests check selected models in both modes; the product of solver nesting, unit factors, repeated source entries, implicit states and cycles is not sampled.",
 [O+"core/problem.py", O+"core/group.py", O+"core/system.py", O+"core/component.py", O+"solvers/ln_gauss_seidel.py", O+"solvers/ln_direct.py", O+"solvers/scipy_gmres.py", O+"core/data_transfer.py", O+"core/vec_wrapper.py"],
 [("adjoint/direct solution", "core/problem.py:_calc_gradient_ln_solver"), ("linear application and transfer", "core/group.py:_sys_apply_linear"),
  ("linear Gauss-Seidel", "solvers/ln_gauss_seidel.py"), ("GMRES", "solvers/scipy_gmres.py"), ("direct", "solvers/ln_direct.py"),
  ("partials application", "core/system.py:_apply_linear_jac")], None, ["Problem.calc_gradient"])

prop("C05", "Gradient requests return the requested, scaled sub-blocks",
 "Asking for the gradient of any list of outputs with respect to any list of inputs returns, in the requested container and order, exactly the corresponding blocks of the full total-derivative matrix: restricted to the declared entries of each design variable and response, and scaled entry by entry by the declared scalers. The answer for a block does not depend on which other variables are requested, on relevance reduction, on declared sparsity or inactive constraints beyond the blocks they suppress, or on whether variables were declared to the driver.",
 ["inputs", "configurations", "programs"],
 "all lists of variables, index sets, scalar/array scalers and adders, return formats, sparsity declarations",
 "Row/column bookkeeping with partial indices and array scalers is only exercised for single variables.",
 [O+"core/problem.py", O+"core/driver.py", O+"core/relevance.py"],
 [("block assembly", "core/problem.py:_calc_gradient_ln_solver,_calc_gradient_fd"), ("index maps", "core/driver.py:_map_voi_indices"),
  ("relevance reduction", "core/relevance.py")], None, ["Problem.calc_gradient", "Driver.calc_gradient"])

prop("C06", "Numerical differentiation is correct and leaves the model state untouched",
 "Finite-difference and complex-step derivatives, of a component, of a group or of the whole model, use exactly the declared form, step and step scaling at the current point and therefore equal the declared difference quotient. Computing derivatives or residuals in any way never changes the value of any variable of the model: every input and output has the same value afterwards as before, and a following run gives the same result as if no derivative had been requested.",
 ["programs", "configurations", "histories"],
 "all models, difference forms/step settings per variable or system, and interleavings of runs and derivative requests",
 "Restoration of every perturbed entry for every variable kind, form and nesting is not observable from the derivative value the tests compare.",
 [O+"core/system.py", O+"core/component.py", O+"core/problem.py", O+"core/vec_wrapper_complex_step.py"],
 [("finite differencing", "core/system.py:fd_jacobian"), ("complex step", "core/component.py:complex_step_jacobian"),
  ("model-level differencing", "core/problem.py:_calc_gradient_fd"), ("residual evaluation", "core/component.py:apply_nonlinear")],
 None, ["calc_gradient", "values before/after", "points at which components are evaluated"])

prop("C07", "Nonlinear iteration stops exactly when its stopping rule says so",
 "An iterative nonlinear solver keeps iterating while none of its absolute, relative and step tolerances is met and its iteration limit is not reached, and stops at the first iterate at which one is; it never exceeds the iteration limit. If it stops without meeting a tolerance it reports a failure, raising an analysis error exactly when told to do so on hitting the limit, and it never reports a failure for a solve that converged before its last allowed iteration (using up the limit counts as a failure; a limit of one asks Gauss-Seidel for a single pass without a test). The outcome of a solve depends only on the model and the starting point, not on earlier solves.",
 ["histories", "configurations", "fault_sequences"],
 "all sequences of residual norms, tolerances, limits, nested solvers and repeated solves",
 "Which of the stopping conditions fires first, boundary cases at the limit and repeated solves need specific residual sequences the tests do not produce.",
 [O+"solvers/nl_gauss_seidel.py", O+"solvers/newton.py", O+"solvers/run_once.py", O+"solvers/solver_base.py", O+"solvers/backtracking.py"],
 [("Gauss-Seidel loop", "solvers/nl_gauss_seidel.py:solve"), ("Newton loop", "solvers/newton.py:solve")],
 None, ["number and order of component executions", "exception raised or not", "iter_count"])

prop("C08", "Newton steps respect declared bounds and the line search accepts only descent",
 "During a Newton solve no unknown is moved beyond its declared lower or upper bound from a point inside its bounds, while components of the step that do not hit a bound are not reduced. A backtracking line search only ever shortens the step along the Newton direction by the declared factor, evaluates the model at the points it tries, accepts the first that achieves the declared sufficient decrease, and gives up after its iteration limit. Solver and differentiation settings are the same after a solve as before, also when a component raised an error in the middle of it.",
 ["inputs", "histories", "fault_sequences"],
 "all bound/step geometries, residual histories and points at which a component fails",
 "Tests check that a final answer is in bounds for two models; per-iterate bounds, scalar/array bounds and restoration after failures are not observed.",
 [O+"solvers/newton.py", O+"solvers/backtracking.py", O+"core/vec_wrapper.py"],
 [("bounded step", "core/vec_wrapper.py:distance_along_vector_to_limit"), ("Armijo backtracking", "solvers/backtracking.py"),
  ("option save/restore", "solvers/newton.py:solve")], None, ["unknown values at every component evaluation", "deriv_options after solve"])

prop("C09", "Recorders log every iteration once, in order, with its true values",
 "Each recorder attached to a driver or solver receives exactly one record per iteration of that driver or solver, in execution order, with an iteration coordinate that is unique within the run and identifies the nested iteration it belongs to. A record contains exactly the variables selected by the include and exclude patterns and the kinds switched on, each with the value it had at the end of that iteration, and the true success flag and message. What was recorded never changes afterwards because the model kept running.",
 ["histories", "configurations", "fault_sequences"],
 "all nestings of solvers with recorders at any level, include/exclude patterns, run counts and failing iterations",
 "Tests compare a few records of one driver; completeness, uniqueness and later aliasing over whole histories with nested iterations are not checked.",
 [O+"recorders/base_recorder.py", O+"recorders/recording_manager.py", O+"recorders/inmem_recorder.py", O+"util/record_util.py", O+"solvers/solver_base.py", O+"core/driver.py"],
 [("filtering", "recorders/base_recorder.py"), ("coordinates", "util/record_util.py"), ("record dispatch", "recorders/recording_manager.py")],
 None, ["records received by a recorder object"])

prop("C10", "Recorded cases read back exactly as written",
 "Every case written to a case database can be read back, by coordinate or by position in recording order, with exactly the values, flags, message, timestamp, coordinate and derivatives that were recorded, for every supported file format and value type; a run that ends with an error still leaves every case recorded before it readable. Cases written with distinct coordinates never overwrite or shadow each other, and reading does not modify the file.",
 ["histories", "inputs", "crash_points"],
 "all value types/shapes, numbers of cases, recording options, and points at which the run is cut short",
 "Tests read back one or two cases per format; ordering beyond nine iterations, all value kinds and interrupted runs are not covered.",
 [O+"recorders/sqlite_recorder.py", O+"recorders/sqlite_reader.py", O+"recorders/hdf5_recorder.py", O+"recorders/hdf5_reader.py", O+"recorders/case.py", O+"recorders/case_reader.py"],
 [("SQLite store", "recorders/sqlite_recorder.py"), ("HDF5 store", "recorders/hdf5_recorder.py"), ("readers", "recorders/*_reader.py")],
 None, ["CaseReader results", "files on disk"])

prop("C11", "Design-of-experiments drivers run exactly the sample plan they promise",
 "A full-factorial study runs every combination of the evenly spaced levels of all design-variable entries exactly once; a Latin-hypercube study places exactly one sample in each of its equal strata along every design-variable entry; a uniform study stays within bounds; a case study runs the given cases in the given order. Each case is run with exactly its sampled values in model units whatever the scaling, equal seeds give equal plans, and the reported responses correspond one to one, in order, to the cases run, including those that failed.",
 ["inputs", "configurations", "histories"],
 "all numbers of design variables, sizes, bounds, scalers, levels/samples, seeds and failing cases",
 "Tests check a total count or one column; strata, per-entry bounds and per-case correspondence are not checked across configurations.",
 [O+"drivers/predeterminedruns_driver.py", O+"drivers/fullfactorial_driver.py", O+"drivers/latinhypercube_driver.py", O+"drivers/uniform_driver.py", O+"drivers/case_driver.py"],
 [("sample plans", "drivers/*_driver.py:_build_runlist"), ("case execution", "drivers/predeterminedruns_driver.py:_run_serial"),
  ("responses", "drivers/predeterminedruns_driver.py:get_responses")], None, ["design-variable values at each model run", "get_responses"])

prop("C12", "Parallel case distribution completes every case exactly once, under any timing",
 "When cases are farmed out to workers, every case is started at most once and, unless a worker reports a fatal error, its result is collected exactly once and attributed to that case, whatever the relative speed of the workers and whatever the number of cases and workers; an analysis failure in one case affects only that case. After a fatal error no further case is started and the master still terminates, and every worker always terminates.",
 ["schedules", "fault_sequences"],
 "all interleavings of master and workers, all placements of analysis failures and fatal errors, any number of cases/workers",
 "Tests run one timing; lost results, hangs and double execution depend on the interleaving and on where a failure falls.",
 [O+"drivers/predeterminedruns_driver.py", O+"util/concurrent.py"],
 [("multiprocessing worker loop", "drivers/predeterminedruns_driver.py:worker"), ("master loop", "drivers/predeterminedruns_driver.py:_run_lb_multiproc"),
  ("message-passing master/worker", "drivers/predeterminedruns_driver.py:_distrib_lb_build_runlist"), ("concurrent evaluation", "util/concurrent.py")],
 [("task/result queues", "messages in flight", "drivers/predeterminedruns_driver.py")], ["messages sent and received by the real loops under a controlled scheduler"])

prop("C13", "Driver values and bounds are consistently scaled views of the model",
 "For every design variable, objective and constraint the driver-level value is (model value + adder) * scaler on the declared entries, and the bounds given to the optimizer are transformed the same way, so that a model value is within its bounds exactly when the driver-level value is. Setting a design variable changes exactly the declared entries so that reading it back returns what was set, and leaves every other value of the model alone.",
 ["inputs", "configurations"],
 "all scalar/array values, index sets, scalers of either sign, adders, one-sided and equality bounds",
 "Tests use positive scalar scalers and whole variables.",
 [O+"core/driver.py"],
 [("set/get of design variables", "core/driver.py:set_desvar,get_desvars"), ("responses", "core/driver.py:get_objectives,get_constraints"),
  ("bound scaling", "core/driver.py:add_desvar,add_constraint")], None, ["Driver.get_*/set_desvar", "metadata"])

prop("C14", "The optimizer is given functions, gradients, bounds and signs of one problem",
 "The objective, constraint and gradient callbacks handed to the optimizer are those of the declared problem at the point passed in: bounds and initial values in driver units, each constraint entry represented once per active side with non-negative meaning feasible, equality as zero, and each gradient the derivative of the matching function. The best point the optimizer reports is the point left in the model, and success is reported exactly when the optimizer succeeded.",
 ["inputs", "configurations"],
 "all combinations of array design variables, one/two-sided and equality constraints with scaling, and evaluation orders",
 "Tests only look at the final optimum, where sign, offset and row mistakes in inactive constraints are invisible.",
 [O+"drivers/scipy_optimizer.py", O+"core/driver.py"],
 [("callbacks", "drivers/scipy_optimizer.py:_objfunc,_confunc,_gradfunc,_congradfunc"), ("problem assembly", "drivers/scipy_optimizer.py:run")],
 None, ["arguments and return values of the callbacks"])

prop("C15", "Option sets enforce their declared types, ranges and locks",
 "An option can be read or set only if it was declared; an accepted set is what is read back by every means of reading, a rejected set changes nothing, and a value is accepted exactly when it has the declared type, lies within the declared limits or among the declared choices, and the option is not locked by setup. A deprecated name is in every respect an alias of its replacement.",
 ["histories", "inputs"],
 "all sequences of declare/set/get/remove/lock operations over all declarations",
 "Tests try one value per rule; combinations of alias, lock and limit over operation sequences are not tried.",
 [O+"util/options.py"],
 [("checked dictionary", "util/options.py:OptionsDictionary")], [("_options", "declared options", "util/options.py")],
 ["OptionsDictionary API"])

prop("C16", "Setup, set and run can be repeated in any order with the same outcome",
 "After any sequence of setup, value assignments, runs, derivative requests and setting up again, the results are those of a fresh model given the same declarations and the same assignments since the last setup; nothing of an earlier setup or run leaks into it. Operations requested before the model was set up, or declarations made too late, are refused without corrupting the model, and a run interrupted by an error in any component leaves the process working directory and all later operations as they would otherwise be.",
 ["histories", "fault_sequences"],
 "all sequences of lifecycle operations and of component failures at any execution",
 "Tests call setup once and run once; repeated setup, late changes and failure/retry sequences are not sampled.",
 [O+"core/problem.py", O+"core/group.py", O+"core/component.py", O+"core/system.py"],
 [("setup", "core/problem.py:setup"), ("reset of per-setup data", "core/system.py:_reset"), ("directory context", "core/system.py:DirContext")],
 None, ["Problem API"])

prop("C17", "Unit conversion is a consistent, history-independent algebra",
 "Converting a value between two units succeeds exactly when both are valid and have the same dimensions, agrees with the defining factors and offsets of the units for every combination of products, quotients, powers and prefixes, is inverted by the opposite conversion and composes through intermediate units. The meaning of a unit expression never depends on which other expressions were used before.",
 ["inputs", "histories"],
 "all unit expressions over the library, prefixes, and orders in which expressions are first used",
 "Tests check a list of conversions in one fixed order.",
 [O+"units/units.py", O+"units/unit_library.ini"],
 [("expression evaluation and prefix lookup", "units/units.py:_find_unit"), ("conversion", "units/units.py:conversion_tuple_to")],
 [("unit table and cache", "definitions and memo", "units/units.py")], ["convert_units", "get_conversion_tuple"])

prop("C18", "Template generation and file parsing address the intended fields and no others",
 "Writing values into a template changes exactly the addressed fields and leaves every other character of the file alone, wherever the anchor is and whatever was written before; numbers are written so that reading the same fields back yields the same values. Anchors are found at the requested occurrence counted forward from the current position or backward from the end, and a missing anchor is an error that moves nothing.",
 ["inputs", "histories"],
 "all templates, delimiters, anchors, occurrences, fields, value types and sequences of operations",
 "Tests use a handful of fixed templates and values.",
 [O+"util/file_wrap.py"],
 [("template substitution", "util/file_wrap.py:InputFileGenerator"), ("field parser", "util/file_wrap.py:FileParser")],
 None, ["generated file contents", "parsed values"])

prop("C19", "External codes are run under a checked contract",
 "Running an external code succeeds exactly when the required input files exist beforehand, the command ends by itself within the time limit with status zero, and the required output files exist afterwards; every other outcome raises an error of the configured hardness, a time-out always being an analysis failure. The reported return code is that of this run, the environment, streams and working directory given are the ones used, and no process of a run that has timed out survives it.",
 ["fault_sequences", "configurations", "histories"],
 "all combinations of missing files, exit statuses, signals, time limits, stream settings, repeated runs",
 "Tests run each failure once in isolation.",
 [O+"components/external_code.py", O+"util/shell_proc.py"],
 [("contract checks", "components/external_code.py:solve_nonlinear"), ("process handling", "util/shell_proc.py:ShellProc")],
 None, ["exception type", "return_code", "files and processes"])

prop("C20", "A surrogate component always predicts from its current training set",
 "A surrogate component trains before its first prediction after setup and again whenever retraining is requested, exactly once each time, with exactly the training points given, or with all points given so far when told to keep old ones; every input and output, scalar or array, is trained and evaluated with its own columns in declaration order. Predictions and derivatives come from the surrogate assigned to that output, and training sets of unequal length are refused.",
 ["histories", "configurations", "inputs"],
 "all mixes of scalar/array inputs and outputs, surrogates, and sequences of set-training/request/run",
 "Tests use one array input at a time and at most two training rounds.",
 [O+"components/meta_model.py", O+"surrogate_models/surrogate_model.py"],
 [("training", "components/meta_model.py:_train"), ("prediction", "components/meta_model.py:solve_nonlinear"), ("input layout", "components/meta_model.py:_params_to_inputs")],
 [("train flag and kept data", "train, _training_input/_training_output", "components/meta_model.py")], ["arrays handed to the surrogate", "outputs"])

prop("C21", "A model wrapped as a component behaves like the same model inlined",
 "Replacing part of a model by a component wrapping that part as its own problem changes neither the values nor the total derivatives of the enclosing model, at every point and over repeated runs with changed inputs. Exposing as an input something the wrapped model itself computes is refused.",
 ["programs", "histories"],
 "all splits of a model into outer and wrapped part, nesting depth, and run sequences",
 "Tests compare one model at one point.",
 [O+"components/subproblem.py"],
 [("value exchange", "components/subproblem.py:solve_nonlinear"), ("derivatives", "components/subproblem.py:linearize")], None,
 ["values and calc_gradient of both variants"])

prop("C22", "Expression components compute their expressions and exact partials",
 "A component defined by expressions computes, for any scalar or array inputs, the values of those expressions evaluated in the order given on the current inputs, and its partial derivatives are the exact derivatives of those expressions at the current point. Evaluating derivatives changes no value; inputs and outputs are those appearing in the expressions, with the declared initial values and units, and anything else is refused.",
 ["programs", "inputs"],
 "all polynomial/rational expressions over scalar and array variables",
 "Tests use a dozen fixed expressions.",
 [O+"components/exec_comp.py"],
 [("expression evaluation", "components/exec_comp.py:solve_nonlinear"), ("complex-step partials", "components/exec_comp.py:linearize")], None,
 ["outputs and partials"])

prop("C23", "Derivative checking reports true errors of the declared derivatives",
 "Checking partial or total derivatives reports, for every output-input pair of every checked component or of the model, the declared forward and reverse derivatives and the difference quotient at the current point, so a wrong declared derivative shows up as a non-zero error in exactly its own entry and a right one as zero. Checking does not change the model's values.",
 ["programs", "inputs"],
 "all components, placement of a wrong entry, matrix-free or explicit partials, states, source entries",
 "Tests inspect the error norm of one or two wrong derivatives.",
 [O+"core/problem.py"],
 [("partials check", "core/problem.py:check_partial_derivatives"), ("totals check", "core/problem.py:check_total_derivatives")], None,
 ["returned check data"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
