#!/opt/venv/bin/python
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
F = "src/sloth/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [F + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": F + c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": F + b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "Steady-state results satisfy every declared equation, or the run raises",
     "A steady-state run either publishes one finite real value for every variable, such that every equation and connection of the models in the problem (with the parameter values in force at resolve) is satisfied to solver accuracy, or it raises and leaves previously published results untouched. "
     "This holds for every algebraic system, every linear/nonlinear solver and initial-guess choice, and whatever the numerical backend does: fails to converge, stalls while reporting success, finds complex or no roots, hits a singular matrix or raises. A regular linear system given to a direct solver ('sympy', 'scipy') that works is always solved.",
     ["inputs", "configurations", "fault_sequences"],
     "all linear and nonlinear algebraic systems over one or several connected models, all solver/initial-guess settings, all outcomes of the backend solvers (success, failure, false success, exception)",
     "The tests solve four hand-picked well-behaved systems with backends that always succeed; they never see a backend that stalls, fails or reports success at a non-root.",
     ["solvers.py", "simulation.py", "problem.py", "core/equation_block.py", "core/expression_evaluation.py", "core/equation_operators.py"],
     [("LASolver/NLASolver.solve", "solvers.py"), ("Problem.resolve and EquationBlock assembly", "problem.py"), ("Simulation.runSimulation", "simulation.py")],
     ["Simulation.getResults('dict'|'list') after runSimulation", "exceptions of runSimulation"],
     [("Simulation.output", "published steady-state values", "simulation.py")])

prop("C02", "A result depends only on what is currently declared and set",
     "After any history of declaring, setting parameter values, resolving, running, failing, resetting, reporting, reading results and reconfiguring, a run gives the same outcome as a freshly built session holding the same declarations, values, initial conditions and configuration. "
     "Reading results, printing reports and analyses never changes any later outcome, and a problem report lists exactly the equations currently declared.",
     ["histories", "configurations"],
     "all sequences of public operations on a model/problem/simulation, ended by a resolve and a run",
     "The tests build a fresh fixture for each run; leftovers of an earlier run, resolve or report need a multi-step history to matter.",
     ["problem.py", "model.py", "simulation.py", "solvers.py", "core/equation_block.py", "core/domain.py", "analysis.py", "core/quantity.py"],
     [("Problem.resolve re-declares the models and rebuilds the equation block", "problem.py"), ("Simulation.reset", "simulation.py"), ("Quantity.setValue", "core/quantity.py")],
     ["Simulation.getResults", "Simulation.domain contents", "exceptions"],
     [("Problem.equation_block", "the system last resolved", "problem.py"), ("Domain.values", "rows recorded so far", "core/domain.py")])

prop("C03", "A dynamic run records the solution of the declared initial-value problem",
     "A successful ODE run adds to the domain one row per requested time point, in order and starting with the initial condition, in which every column holds, to integrator accuracy, the value at that time of the variable it is named after. "
     "This holds whatever the order in which variables, equations and domain entries were declared, the integrator, the compilation mode, the renaming of columns and the output times; an integration that fails raises and adds no row.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "all explicit ODE systems over one or several models, all declaration orders, both integrators under any schedule of trial steps, compiled or not, any time grid, any failure point of the integration",
     "The tests integrate three systems whose equations happen to be declared in domain order, check two end values, and never let an integration fail.",
     ["solvers.py", "core/domain.py", "core/equation_block.py", "core/equation.py", "core/variable.py", "simulation.py"],
     [("DSolver.solve", "solvers.py"), ("Domain registration", "core/domain.py"), ("EquationBlock compilation", "core/equation_block.py")],
     ["Domain.values / Simulation.getResults after a run", "exceptions of runSimulation"],
     [("Domain.values", "recorded rows", "core/domain.py")])

prop("C04", "The right-hand side given to integrators is a pure function of (t, y)",
     "The function handed to an ODE integrator, and the residual handed to a DAE integrator, returns for each (t, y[, y']) exactly the declared equations evaluated there in the order of the state vector, whatever was evaluated before: repeated, out-of-order, rejected or backward trial points, reused or later overwritten buffers, and evaluations that failed. "
     "Evaluating it changes neither its arguments nor anything the user can observe.",
     ["schedules", "inputs", "histories"],
     "all sequences of evaluations an integrator may make, for all ODE and semi-explicit DAE systems, compiled or interpreted, time-dependent or not",
     "The tests only see the end values produced by one smooth pass of one integrator; an evaluation that depends on earlier ones is invisible there.",
     ["solvers.py", "core/equation_block.py", "core/equation.py"],
     [("ODE right-hand-side closures", "solvers.py"), ("EquationBlock compilation and residual map", "core/equation_block.py"), ("Equation.eval", "core/equation.py")],
     ["calls made by the integrator under simulation"])

prop("C05", "A DAE run starts consistently and integrates the declared residual",
     "For an autonomous differential-algebraic system of index 1, the integrator receives the declared residual, initial values and derivatives matched to their variables and the correct differential/algebraic classification of every variable, so a successful run adds to the domain one row per requested time point on which the algebraic equations hold and the differential variables follow the declared dynamics. "
     "This holds for any number of algebraic variables, any declaration order and any coefficients; a failed integration raises and adds no row.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "all autonomous index-1 DAE systems, semi-explicit or with several derivatives in an equation, all declaration orders, all integrator schedules and failure points",
     "The single DAE test has one algebraic variable, declared last, and cannot even be imported without the external integrator; nothing checks the trajectory.",
     ["solvers.py", "core/equation_block.py", "problem.py"],
     [("DaeSolver.solve", "solvers.py"), ("Residual map and differential flags", "core/equation_block.py")],
     ["arguments given to the implicit integrator", "Domain contents after a run"])

prop("C06", "A domain holds exactly the rows of the successful runs since its last reset",
     "At any time, a domain's table is the concatenation, in order, of the rows of the successful runs recorded on it since it was created or last reset, each once, unmodified and under constant column labels. "
     "A run that fails before its results are recorded, including after integration (for example while printing its table), adds nothing; one that fails while reporting recorded results has added all of them. A reset empties the table and makes the next run behave as the first one.",
     ["histories", "fault_sequences"],
     "all sequences of runs (successful or failing at any point), resets, renamings, continuations from the last state and reads over one or several domains",
     "The tests record at most one run per domain; append, reset-then-append and failure paths are never executed.",
     ["core/domain.py", "solvers.py", "simulation.py"],
     [("Domain registration, reset and renaming", "core/domain.py"), ("Simulation.reset", "simulation.py")],
     ["Domain.values", "Domain.__getitem__", "Simulation.getResults"],
     [("Domain.values", "recorded rows", "core/domain.py")])

prop("C07", "Only square systems reach a solver, and square systems are never refused",
     "With sanity checks on, a run of a system whose number of unknowns (variables and unspecified parameters) differs from its number of equations (plus the time variables a dynamic system uses) raises before any solver is called, and a run whose numbers agree is never refused for its degrees of freedom. "
     "This holds after any history of specifying parameters, declaring again with other (conditional) equations, adding models and connections, and resolving again, and for any names of variables.",
     ["inputs", "histories", "configurations"],
     "all systems (algebraic, ODE, DAE; one or several models and time variables) and all edit/resolve histories leading to them",
     "The tests only run square systems; no test builds an over- or under-specified one, nor changes the count and resolves again.",
     ["analysis.py", "problem.py", "core/equation_block.py", "simulation.py"],
     [("Degrees-of-freedom analysis", "analysis.py"), ("Variable/parameter collection at resolve", "problem.py"), ("Time-variable detection", "core/equation_block.py")],
     ["exceptions of runSimulation", "calls received by the backend solvers"])

prop("C08", "Saved configuration files are replaced atomically",
     "Saving the configuration of a simulation or of an optimization to a file either completes, after which the file holds the whole new configuration even if the machine crashes later, or fails or is interrupted, after which the file still holds what it held before (or, if only the very last step failed, already the whole new configuration). "
     "No crash point, full disk, I/O error, short write or configuration that cannot be serialised ever leaves a truncated, empty or mixed file.",
     ["crash_points", "fault_sequences", "histories"],
     "all crash points and disk faults (error, no space, short/torn/unsynced writes) during any sequence of saves",
     "No test saves a configuration at all, let alone crashes or runs out of disk while doing so.",
     ["simulation.py", "optimization.py"],
     [("Simulation.dumpConfigurations", "simulation.py"), ("Optimization.saveConfigurations", "optimization.py")],
     ["bytes of the file after restart"])

prop("C09", "A saved configuration loads back as the same configuration",
     "A configuration loaded from a file that was saved earlier, or from a dictionary, is the one that was saved, with values not given taking their documented defaults when a dictionary is given, and a run under it equals the run under the original. "
     "A file that is missing, unreadable or damaged makes loading raise and leaves the configuration in force unchanged; neither saving nor loading alters the caller's objects.",
     ["configurations", "histories", "fault_sequences"],
     "all serialisable configurations, all save/load/override sequences, all read faults and damaged files",
     "No test loads a configuration file; the only dictionary override is exercised with one fixed configuration inside the optimization test.",
     ["simulation.py", "optimization.py"],
     [("Simulation.setConfigurations", "simulation.py"), ("Optimization construction", "optimization.py")],
     ["Simulation.configurations", "Optimization.optimization_configuration", "runs under them"])

prop("C10", "An optimization reports a real evaluation, the best it kept, inside the bounds",
     "After a successful optimization, the reported parameters lie within the given bounds, the reported fitness is exactly the value the objective returned for exactly those parameters during that study, and it is not worse than any individual of the initial population. "
     "If the objective or a simulation inside it fails, the study raises and reports no result of its own (reading the results then raises or still gives those of the previous study); clock jumps change nothing but the reported elapsed time.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "all objectives, bounds, optimizers and seeds, any evaluation that fails, any clock behaviour, repeated and interleaved studies",
     "One test runs one optimizer on one objective without faults and compares one number.",
     ["optimization.py", "simulation.py"],
     [("Optimization.runOptimization/getResults", "optimization.py"), ("OptimizationProblem", "optimization.py")],
     ["Optimization.getResults", "recorded objective evaluations"],
     [("Optimization.best_parameters/best_fitness", "reported result", "optimization.py")])

prop("C11", "Dimensional checks are right and never disturb units or operands",
     "Adding, subtracting, equating, raising, taking functions of and setting values of unit-bearing quantities and expressions is accepted exactly when the dimensions agree (functions need dimensionless arguments), and the dimension of every product, quotient, power and derivative is the physically implied one. "
     "No accepted, refused or interrupted operation, in any order or interleaving, changes the dimension, value or expression of its operands or of the shared unit library.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all expressions over all units, all histories of accepted, refused and interrupted operations, in one or several threads",
     "The tests check a handful of sums and products of fixed units one at a time; aliasing of unit objects across operations needs histories.",
     ["core/unit.py", "core/quantity.py", "core/expression_evaluation.py", "core/equation_operators.py", "core/template_units.py", "core/parameter.py", "core/constant.py", "core/variable.py"],
     [("Unit arithmetic and coherence", "core/unit.py"), ("EquationNode operators", "core/expression_evaluation.py"), ("setValue", "core/quantity.py")],
     ["exceptions of the operations", "dimensions of results, operands and unit templates"])

prop("C12", "Independent sessions in different threads do not affect each other",
     "Sessions that share no user object and run in different threads of one process each give exactly the results they give when run alone, under every interleaving.",
     ["schedules", "inputs"],
     "all interleavings, at any point, of two or more sessions that build, resolve, run, report, configure, incorporate and connect their own models",
     "The tests are single-threaded.",
     ["core/equation.py", "problem.py", "model.py", "solvers.py", "simulation.py", "core/equation_block.py", "core/domain.py", "core/unit.py", "core/expression_evaluation.py"],
     [("Automatic names", "core/equation.py"), ("Per-object state of models, problems and simulations", "model.py")],
     ["results and exceptions of every session"])

prop("C13", "Separately created objects never share mutable state",
     "Models, unit operations, problems, simulations, property packages, optimizations and domains that a user creates separately, whether or not optional arguments are given, are independent: no operation on one of them is ever visible through another one that does not refer to it. "
     "Arguments that the user passed are modified only where that is the purpose of the call.",
     ["histories", "inputs", "configurations"],
     "all interleaved operation histories over several separately created objects of every kind, with and without default arguments",
     "The tests use one object of each kind per test process step and would not notice state leaking into the next.",
     ["model.py", "unit_op.py", "problem.py", "simulation.py", "optimization.py", "core/property_package.py", "core/domain.py", "solvers.py", "core/expression_evaluation.py"],
     [("Constructors and default arguments", "model.py"), ("Simulation.setConfigurations defaults", "simulation.py")],
     ["attributes and results of the bystander objects"])

prop("C14", "Every declared equation and connection is in the solved system exactly once",
     "After resolving, the system that is solved contains each equation currently declared by the models of the problem and each connection made, once, and nothing else: no duplicates, no equation of an earlier declaration, none lost. "
     "This holds for named and unnamed equations, any number of resolves, conditional declarations, any connection mode and number of connections between the same models, and declarations made from several threads.",
     ["histories", "inputs", "schedules"],
     "all histories of declaring, connecting, adding models and resolving, in one or several threads",
     "The tests resolve once, name all equations and use few connections.",
     ["model.py", "problem.py", "core/equation.py", "connection.py", "core/equation_block.py"],
     [("Model.__call__ and createEquation", "model.py"), ("Problem.createConnection and resolve", "problem.py"), ("Automatic names", "core/equation.py")],
     ["the equations of the resolved problem", "results of runs"],
     [("Model.equations", "equations of a model by name", "model.py")])

prop("C15", "Incorporating a model is equivalent to declaring its contents, and copies",
     "A model that incorporates another one gives the same results as a model that declares the same variables, parameters, constants and equations itself, and keeps exposure and values of what it incorporated. "
     "The copies are independent: any later operation on the source is invisible in the incorporating model and the reverse, and several incorporations do not affect each other.",
     ["inputs", "histories"],
     "all source models, all incorporation orders and nesting, all later histories on source and copy",
     "The tests incorporate two fixed models once and never touch the source afterwards.",
     ["model.py", "core/equation.py"],
     [("Model.incorporateFromExternalModel", "model.py"), ("Renaming of equation expressions", "core/equation.py")],
     ["results of runs of source and incorporating model"])

prop("C16", "An interrupted or failed operation can be retried",
     "If declaring, resolving, configuring or running is interrupted or fails at any point (keyboard interrupt, out of memory, solver or user-code error), then repeating it, after a reset for a dynamic run, gives the same outcome as in a session where nothing had failed, and an interrupted run has published nothing it had not finished.",
     ["crash_points", "fault_sequences", "histories"],
     "all points at which an exception can strike inside an operation, all operations, single or repeated interruptions",
     "No test makes any operation fail and then goes on with the same objects.",
     ["model.py", "problem.py", "simulation.py", "solvers.py", "core/domain.py", "core/equation_block.py", "core/equation.py"],
     [("Problem.resolve rebuilds from the models", "problem.py"), ("Simulation.runSimulation publishes at its end", "simulation.py"), ("Domain registration", "core/domain.py")],
     ["results after the retry", "Domain contents and Simulation output right after the failure"])

prop("C17", "A saved plot shows exactly the requested data",
     "Each saved time-series plot and optimization graph shows the series asked for in that call, with their data and labels, and nothing else, whatever was plotted before, in whatever session, and whether or not earlier plots or their saving failed.",
     ["histories", "fault_sequences"],
     "all sequences of plots over several simulations and optimizations with failures of data lookup, drawing, saving or showing",
     "The plot test makes one plot and does not look at it.",
     ["plotter.py", "simulation.py", "optimization.py", "core/domain.py"],
     [("Plotter.plotTimeSeries", "plotter.py"), ("Optimization graph", "optimization.py"), ("Domain.__getitem__", "core/domain.py")],
     ["the figure at the moment it is written"])

prop("C18", "Results do not depend on clock, hash seed, addresses or irrelevant order",
     "Running the same declarations again, in another process with another hash seed, at another wall-clock time (including clock jumps), under other model and equation order within the same problem, or with reporting and output options switched on or off, gives the same results up to solver accuracy, and bit-identical ones when only clock, hash seed and output options differ.",
     ["schedules", "configurations", "inputs"],
     "all systems, all clocks, hash seeds, model/equation orders and output options",
     "Each test runs once, in one process, with one hash seed and the real clock.",
     ["problem.py", "core/equation_block.py", "core/equation.py", "solvers.py", "simulation.py", "print_headings.py", "optimization.py"],
     [("Ordered collection of equations, variables and parameters", "problem.py")],
     ["Simulation.getResults"])

prop("C19", "All views of a run's results agree with one another",
     "The list, the dictionary, the domain table, the domain's indexed access, the returned output, the printed table and the printed residuals of a run all show the same values under the same names, in the documented order, for every kind of problem and after every history of runs, renamings and resets.",
     ["histories", "configurations", "inputs"],
     "all problems, all output and renaming options and all histories of runs and resets",
     "The tests read one view per run.",
     ["simulation.py", "core/domain.py", "solvers.py"],
     [("Simulation.getResults/showResults", "simulation.py"), ("Domain.__getitem__ and renaming", "core/domain.py")],
     ["Simulation.getResults('list'|'dict')", "Simulation.output", "Domain.values", "Domain.__getitem__", "standard output"])

prop("C20", "Streams and unit operations of the library keep their balances",
     "After any history of setting values of streams and unit operations, calculating property packages, declaring, resolving and running (also failing or interrupted) flowsheets, the values a resolve and a run publish satisfy the balances of the library with the values last given: "
     "the mass and the molar flux of a material stream agree through the molar mass of its package (the flux that was not given follows the given one, and one that was given is kept) and its declaration brings the package to the temperature and pressure given; mixers, splitters, pumps, heaters, coolers and valves conserve mass, moles and component fractions; pressure changes by Delta_P (rising in a pump, falling in heaters, coolers and valves); "
     "heaters and coolers add Q to the molar enthalpy flow and Q/(mdot*cp_mix) to the temperature, the others leave both unchanged; a valve passes perc_open*mdot/density; branches and merges obey their connections.",
     ["inputs", "histories", "faults"],
     "all flowsheets of the steady unit operations, all values, and all histories of changes, failures and interrupts",
     "The tests of the library cannot even be collected without the integrator, and build one stream each.",
     ["unit_op_library.py", "core/property_package.py", "model.py", "problem.py", "solvers.py"],
     [("Material streams: derived flux", "unit_op_library.py"), ("Equations of Mixer, SimplePump, Heater and Valve", "unit_op_library.py"), ("PropertyPackage.calculate", "core/property_package.py")],
     ["Simulation.getResults('dict')", "exceptions"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
