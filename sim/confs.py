"""Simulation and optimization configurations as plain data, and sessions that only save and load them."""
from . import build, gen as G

SIM_KEYS = ["initial_time", "end_time", "linear_solver", "nonlinear_solver", "differential_solver", "differential_algebraic_solver", "problem_type",
            "is_dynamic", "compile_equations", "initial_guess", "initial_guess_solver", "arg_names", "args", "verbosity_solver", "number_of_time_steps",
            "configuration_args", "print_output", "output_headers", "variable_name_map", "compilation_mechanism", "times_for_solution",
            "time_variable_name", "number_parameters_to_optimize"]


def gen_sim_conf(rng, size=None):
    """JSON-serialisable setConfigurations arguments"""
    c = {}
    if rng.random() < 0.6:
        c["linear_solver"] = rng.choice(["symbolicsys", "sympy", "scipy"])
    if rng.random() < 0.5:
        c["nonlinear_solver"] = rng.choice(["*", "sympy", "symbolicsys"])
    if rng.random() < 0.5:
        c["end_time"] = round(rng.uniform(0, 100), 6)
    if rng.random() < 0.3:
        c["initial_time"] = round(rng.uniform(-5, 5), 6)
    if rng.random() < 0.4:
        c["is_dynamic"] = rng.random() < 0.5
    if rng.random() < 0.4:
        c["number_of_time_steps"] = rng.choice([1, 10, 100, 1000])
    if rng.random() < 0.3:
        c["compile_equations"] = rng.random() < 0.5
    if rng.random() < 0.3:
        c["initial_guess"] = {"v%d_M" % k: round(rng.uniform(-3, 3), 4) for k in range(rng.randint(1, 4))}
    if rng.random() < 0.3:
        c["output_headers"] = ["t", "ü%d" % rng.randint(0, 9), "a \"quoted\" name"][:rng.randint(1, 3)]
    if rng.random() < 0.3:
        c["variable_name_map"] = {"u_M0": "Preys(u)", "t_M0": "time"}
    if rng.random() < 0.2:
        c["time_variable_name"] = rng.choice(["t_M0", ["t_M0"]])
    n = size if size is not None else rng.choice([0, 0, 3, 40, 400, 3000])
    if n:
        c["times_for_solution"] = [round(k * 0.37 + rng.random() * 0.3, 4) for k in range(n)]
    if rng.random() < 0.2:
        c["args"] = [1, 2.5, None, True]
    return c


def gen_opt_conf(rng):
    c = {}
    if rng.random() < 0.7:
        c["number_of_individuals"] = rng.choice([5, 7, 20])
    if rng.random() < 0.7:
        c["number_of_generations"] = rng.randint(1, 50)
    if rng.random() < 0.5:
        c["crossover_rate"] = round(rng.random(), 4)
    if rng.random() < 0.3:
        c["omega_pso"] = round(rng.random(), 6)
    if rng.random() < 0.3:
        c["comment"] = "x" * rng.choice([1, 100, 9000])
    for k, v in (("elitism", 0), ("mutation_rate", 0.0), ("ftol_de", 0.0), ("xtol_de", 0), ("comment", ""), ("verbose", False), ("seed", None)):
        if rng.random() < 0.12:
            c[k] = v
    return c


def tiny_model():
    a = build.api()

    class Tiny(a["Model"]):
        def __init__(self, name):
            super().__init__(name, "one equation")
            self.x = self.createVariable("x", a["tu"].dimless, "x")
            self.p = self.createParameter("p", a["tu"].dimless, "p")
            self.p.setValue(2.0)

        def DeclareEquations(self):
            self.createEquation("e", "e", self.x() - self.p())
    return Tiny


def tiny_session(name="tiny"):
    a = build.api()
    m = tiny_model()("T")
    m()
    p = a["Problem"]("tiny problem", "")
    p.addModels(m)
    p.resolve()
    s = a["Simulation"](name, "")
    s.setProblem(p)
    return m, p, s


def make_optimization(sim, mod, conf, optimizer="de"):
    a = build.api()
    prob = a["OptimizationProblem"](1, "op")
    return a["Optimization"](simulation=sim, optimization_problem=prob, simulation_configuration={}, optimization_parameters=[mod.p],
                             optimizer=optimizer, optimization_configuration=conf)
