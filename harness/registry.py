import importlib
MODS = {}
for m, ids in (("c_core", "C01 C02 C03 C04 C05 C06"), ("c_options", "C15"), ("c_units", "C17"), ("c_filewrap", "C18"), ("c_dispatch", "C12"), ("c_doe", "C11"), ("c_meta", "C20"), ("c_record", "C09 C10"), ("c_exec", "C22"), ("c_driver", "C13 C14"), ("c_nl", "C07 C08"), ("c_check", "C23"), ("c_life", "C16"), ("c_ext", "C19"), ("c_sub", "C21")):
    for i in ids.split():
        MODS[i] = m


def run(pid, chk):
    m = importlib.import_module(MODS[pid])
    getattr(m, "check_" + pid)(chk)


TV = "TLA+ specification checked with TLC; traces of the real code validated against it"
NOTES = {
 "C01": (TV, "Covers generated models (acyclic and promoted/explicit/chained wiring, units, source entries, shapes)."),
 "C02": (TV, "Covers generated well-formed and mutated declarations; verdict and wiring decided by the specification."),
 "C03": (TV, "Covers generated group trees with automatic and user-given orders."),
 "C04": (TV, "Exact rational chain-rule equations over generated models, both modes, all linear solvers."),
 "C05": (TV, "Sub-blocks, indices, scalers, formats, sparsity and inactive constraints of the gradient, through Problem and driver requests."),
 "C06": (TV, "Exact rational difference quotients of components, groups and whole models; values before and after."),
 "C15": (TV, "Histories of plain option dictionaries and of those of real systems, solvers and drivers before and after setup."),
 "C16": (TV, "Random histories on one Problem: setting up again, extending it, changing solvers and directories, refused operations, components failing at any call; every segment after a setup is validated as a fresh model would be."),
 "C17": (TV, "Exact dimensions; factors to 4e-5 against an independent definition table; temperature scales exactly; histories on fresh libraries."),
 "C18": (TV, "Random templates, delimiters, anchors and values; every write is read back; reads compared with the fields of the file."),
 "C11": (TV, "Full factorial, Latin hypercube (plain and optimized), uniform and case studies over random declarations; also distributed over a faked MPI world; repeated with equal seeds."),
 "C20": (TV, "Histories of training data, training requests and warm restarts of MetaModel and MultiFiMetaModel with stand-in surrogates that log what they are trained with."),
 "C23": (TV, "Reports of partial and total checks of generated models (explicit, matrix-free, implicit and numerically differentiated components; units, entries; wrong, one-sided and missing declarations) compared exactly."),
 "C22": (TV, "Random expression programs over scalars and arrays (colon names, broadcasting, entries, functions) executed and linearized repeatedly."),
 "C21": (TV, "Generated models with groups wrapped as sub-problems (nested, with inputs, units, source entries), run repeatedly and differentiated, judged against the same models inlined."),
 "C19": (TV, "Histories of real shell commands run through an ExternalCode component: missing files, exit statuses, signals, time limits, stubborn processes and helpers, streams, directories."),
 "C13": (TV, "Histories of reading and setting design variables, objectives, constraints and bounds with every combination of entries, shifts and scales (negative ones too)."),
 "C14": (TV, "ScipyOptimizer behind stand-in and real optimizers, pyOptSparseDriver behind a stand-in library; every callback value, gradient, bound and the final point judged exactly."),
 "C07": (TV, "Random systems of explicit and implicit polynomial components under nested Gauss-Seidel (with Aitken) and Newton solvers, also diverging and failing ones; residuals recomputed from the equations decide where each solve has to stop; repeated solves compared with fresh problems."),
 "C08": (TV, "Every Newton step and try of a line search of the same systems against the directions recomputed from the equations, bounds per entry, sufficient decrease; settings before and after each run, also with planned failures."),
 "C09": (TV, "Nested groups with any solvers and line searches under plain, case and optimization drivers; recorders (in memory, text, table, SQLite) on any of them with patterns; failing analyses; aliasing."),
 "C10": (TV, "SQLite files read back at any moment (also while open and after failed runs): keys, order, fields, values by object, derivatives, metadata, file bytes. HDF5 is not installed here and is not exercised."),
 "C12": ("TLA+ protocol model checked exhaustively with TLC; event logs of the real loops under a controlled scheduler validated against it", "Multiprocessing queues (late pickling), MPI master/worker, even MPI distribution, concurrent_eval_lb and serial runs; random, priority and exhaustive schedules of threads running the real code."),
}
