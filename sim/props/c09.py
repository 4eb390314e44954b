"""C09 A saved configuration loads back as the same configuration."""
import copy
import json
from decimal import Decimal

import numpy as np
import sympy as sp

from .. import build, confs, gen as G
from ..core import SimCrash, SimInterrupt, SimNoMemory, rng_for, digits
from ..disk import Disk, ROOT
from ..seams import SIM

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded save/load histories on an in-memory disk with read faults and damaged files, round-trip oracle"
NOTE = ("Seeded sampling of save, override and load histories of simulations and optimizations, with open/read errors, short reads, interrupts "
        "and files truncated, overwritten or removed at drawn positions. A damaged file is one that is no longer JSON or no longer text.")
CASES = {"quick": 1000, "thorough": 60000}
RULE = ("seeded histories of setting, saving, loading (file, dictionary, dictionary plus arguments) and damaging configurations of two "
        "simulations and of optimizations; loaded configurations are compared with the saved ones and used for runs. Non-trivial: at least "
        "one load of a saved file and one refused load.")
STATES = "distinct sequences of (operation, damage or fault, outcome)"
REAL = ["capybara setConfigurations/dumpConfigurations/Optimization construction", "json", "Python io stack", "solvers of the runs"]
STUB = ["the disk (in-memory model)", "assimulo (simulated integrators)"]
ASSUMPTIONS = ["disk model of /verif/sim/disk.py", "defaults as documented by the signature of setConfigurations"]

DEFAULTS = dict(initial_time=0.0, end_time=None, linear_solver="symbolicsys", nonlinear_solver="*", differential_solver="ODEINT",
                differential_algebraic_solver="IDA", problem_type=None, is_dynamic=False, compile_equations=True, domain=None,
                time_variable_name=None, initial_guess={}, initial_guess_solver=None, arg_names=[], args=[], verbosity_solver=0,
                number_of_time_steps=100, configuration_args={}, print_output=False, output_headers=None, variable_name_map={},
                compilation_mechanism="numpy", number_parameters_to_optimize=0, times_for_solution=None)
OPT_DEFAULTS = {"number_of_individuals": 100, "number_of_generations": 600, "crossover_rate": 0.6, "mutation_rate": 0.04, "elitism": 1,
                "crossover_type": "exponential", "mutation_type": "gaussian", "selection_type": "tournament", "selection_param": 4,
                "scale_factor": 0.5, "variant_de": 10, "ftol_de": 1e-08, "xtol_de": 1e-08, "omega_pso": 0.7298, "eta1_pso": 2.05,
                "eta2_pso": 2.05, "variant_pso": 5, "max_v_pso": 0.5, "neighborhood_type_pso": 2, "neighborhood_param_pso": 4}
FAULTS = ["EIO", "EACCES", "short", "short", "interrupt", "memory", "EIO_late", "EMFILE"]
DAMAGE = ["truncate", "truncate", "empty", "remove", "binary", "prefix", "byte", "append"]
ODD = {"complex": 1 + 2j, "decimal": Decimal("2.5"), "set": frozenset([1.5]), "bytes": b"3", "range": range(3), "sympy": sp.Rational(1, 3), "numpy": np.int64(4)}
OPTIMIZERS = ["de", "sade", "pso", "ga"]


def gen(rng, i, tier):
    kind = rng.choice(["linear", "linear", "nonlinear", "ode"])
    spec = G.gen_dynamic(rng, "ode", nmodels=1, maxn=2) if kind == "ode" else G.gen_algebraic(rng, kind, nmodels=rng.choice([1, 2]), maxn=2)
    files = ["c.json", ROOT + "/d.json"]
    ops = []
    dumped = []
    for k in range(rng.randint(4, 11)):
        r = rng.random()
        sim = rng.randint(0, 1)
        f = rng.choice(files)
        if k == 1:
            r, sim = 0.3, 0
        if 0.4 <= r < 0.62 and dumped and rng.random() < 0.8:
            f = rng.choice(dumped)
        if 0.2 <= r < 0.4:
            dumped.append(f)
        if r < 0.2 or k == 0:
            sim = 0 if k == 0 else sim
            op = {"op": "set", "sim": sim, "conf": confs.gen_sim_conf(rng, rng.choice([0, 0, 3, 40]))}
            if rng.random() < 0.12:
                op["odd"] = [rng.choice(["args", "end_time", "initial_guess", "configuration_args"]), rng.choice(sorted(ODD))]
        elif r < 0.4:
            op = {"op": "dump", "sim": sim, "file": f}
        elif r < 0.62:
            op = {"op": "load", "sim": sim, "file": f, "fault": None, "npar": rng.choice([0, 0, 0, 0, 2])}
            if rng.random() < 0.45:
                op["fault"] = {"kind": rng.choice(FAULTS), "at": rng.randint(0, 3), "x": round(rng.random(), 3)}
        elif r < 0.74:
            op = {"op": "dict", "sim": sim, "dict": confs.gen_sim_conf(rng, rng.choice([0, 0, 3])), "kw": confs.gen_sim_conf(rng, 0) if rng.random() < 0.4 else {}}
        elif r < 0.84:
            op = {"op": "damage", "file": f, "how": rng.choice(DAMAGE), "x": round(rng.random(), 4)}
        elif r < 0.92:
            op = {"op": "opt", "file": rng.choice([None, f, f, "o.json", "o.json"]), "conf": confs.gen_opt_conf(rng), "save": rng.random() < 0.7,
                  "optimizer": rng.choice(OPTIMIZERS), "simfile": rng.choice([None, None, f]), "none": rng.random() < 0.15}
        else:
            op = {"op": "run", "sim": sim}
        ops.append(op)
    rc = G.gen_conf(rng, spec)
    for k in ("@rename", "@tname"):
        rc.pop(k, None)
    return {"spec": spec, "ops": ops, "runconf": rc, "via": rng.choice(["file", "dict"])}


def norm(x):
    return json.loads(json.dumps(x))


def faulty(f):
    k = f["kind"]
    if k in ("EIO", "EIO_late"):
        return "EIO"
    if k == "short":
        return ("short", f["x"])
    if k == "interrupt":
        return ("raise", SimInterrupt("interrupted (simulated)"))
    if k == "memory":
        return ("raise", SimNoMemory("out of memory (simulated)"))
    return k


def run(plan, ctx):
    spec = plan["spec"]
    state = {"fault": None, "n": 0, "hit": False}

    def decide(op, path, n):
        k = state["n"]
        state["n"] += 1
        f = state["fault"]
        if f is None:
            return None
        if f["kind"] == "short":
            if op == "read":
                state["hit"] = True
                return ("short", f["x"])
            return None
        if k != f["at"]:
            return None
        if f["kind"] in ("EACCES", "EMFILE") and op != "open_r":
            return None
        if op == "close":
            return None
        state["hit"] = True
        return faulty(f)
    disk = Disk(rng_for("d", 0), decide)
    mod, prob, sim0 = confs.tiny_session("one")
    a = build.api()
    sim1 = a["Simulation"]("two", "")
    sim1.setProblem(prob)
    sims = [sim0, sim1]
    now = [None, None]                 # expected configuration
    saved = {}                         # file -> ("sim"|"opt", data) | "damaged" | None
    hist = []
    loaded = refused = False
    SIM.disk = disk

    def key(f):
        return disk.norm(f)

    def unchanged():
        for s, w in zip(sims, now):
            ctx.check(s.configurations == w, "configuration-changed-by-another-operation", lambda: "%s instead of %s" % (s.configurations, w))
    try:
        for k, op in enumerate(plan["ops"]):
            o = op["op"]
            j = op.get("sim", 0)
            outcome = "ok"
            if o == "set":
                if op.get("odd"):
                    w, x = op["odd"][0], ODD[op["odd"][1]]
                    op = {**op, "conf": {**op["conf"], w: {"args": [1, x], "end_time": x, "initial_guess": {"a_M": x}, "configuration_args": {"a": [x]}}[w]}}
                conf = copy.deepcopy(op["conf"])
                sims[j].setConfigurations(**conf)
                ctx.check(conf == op["conf"], "argument-changed", "setConfigurations changed its arguments")
                want = {**copy.deepcopy(DEFAULTS), **op["conf"]}
                got = sims[j].configurations
                if got.get("time_variable_name") is not None and "time_variable_name" not in op["conf"]:
                    want["time_variable_name"] = got["time_variable_name"]
                ctx.check(got == want, "configuration-not-as-set", lambda: "%s instead of %s" % (got, want))
                now[j] = copy.deepcopy(got)
            elif o == "dump":
                if now[j] is None:
                    continue
                try:
                    want = norm(now[j])
                except TypeError:
                    want = None              # no value of JSON: refused, or whatever is written gives the same configuration again
                kd, got = build.attempt(lambda: sims[j].dumpConfigurations(op["file"]))
                if want is None and kd == "err":
                    ctx.probe("unwritable_refused")
                    outcome = "refused"
                elif want is None:
                    kd, got = build.attempt(lambda: sims[1 - j].setConfigurations(configurations_file=op["file"]))
                    ctx.check(kd == "ok" and sims[1 - j].configurations == now[j], "loaded-configuration-differs",
                              lambda: "saved %s, loaded %s" % (now[j], got if kd == "err" else sims[1 - j].configurations))
                    now[1 - j] = copy.deepcopy(now[j])
                    saved[key(op["file"])] = ("sim", copy.deepcopy(now[j]))
                else:
                    ctx.check(kd == "ok", "dump-refused", lambda: repr(got))
                    saved[key(op["file"])] = ("sim", want)
            elif o == "load":
                f = key(op["file"])
                state.update(fault=op["fault"], n=0, hit=False)
                kw = {"number_parameters_to_optimize": op["npar"]} if op["npar"] else {}
                try:
                    sims[j].setConfigurations(configurations_file=op["file"], **kw)
                except SimCrash:
                    raise
                except BaseException as e:
                    outcome = type(e).__name__
                fk = op["fault"]["kind"] if op["fault"] and state["hit"] else None
                state["fault"] = None
                if fk:
                    ctx.fault("read_" + fk)
                s = saved.get(f)
                hist.append(["load", fk, s if isinstance(s, str) or s is None else s[0], outcome])
                ctx.ev("load", k, fk, outcome)
                if outcome == "ok":
                    ctx.check(fk in (None, "short"), "read-fault-ignored", lambda: "configuration loaded although reading failed (%s): %s" % (fk, sims[j].configurations))
                    ctx.check(isinstance(s, tuple), "unusable-file-loaded", lambda: "%s file gave %s" % (s, sims[j].configurations))
                    want = dict(s[1])
                    if op["npar"] and s[0] == "sim":
                        want["number_parameters_to_optimize"] = op["npar"]
                    ctx.check(sims[j].configurations == want, "loaded-configuration-differs",
                              lambda: "saved %s, loaded %s" % (want, sims[j].configurations))
                    now[j] = copy.deepcopy(want)
                    loaded = True
                    ctx.probe("loaded")
                else:
                    if s is not None and isinstance(s, tuple) and fk in (None, "short") and not (op["npar"] and s[0] == "opt"):
                        ctx.fail("good-file-refused", outcome)
                    refused = True
                    ctx.probe("load_refused")
            elif o == "dict":
                d, kw = copy.deepcopy(op["dict"]), copy.deepcopy(op["kw"])
                sims[j].setConfigurations(definition_dict=d, **kw)
                ctx.check(d == op["dict"] and kw == op["kw"], "argument-changed", lambda: "the dictionary given became %s" % d)
                want = {**copy.deepcopy(DEFAULTS), **op["kw"], **op["dict"]}
                ctx.check(sims[j].configurations == want, "dictionary-not-taken", lambda: "%s instead of %s" % (sims[j].configurations, want))
                ctx.check(sims[j].configurations is not d, "dictionary-adopted", "the configuration is the caller's dictionary itself")
                now[j] = copy.deepcopy(want)
                # what the caller does with his dictionary afterwards is his business
                d["end_time"] = "mine"
                d["another"] = 1
            elif o == "damage":
                f = key(op["file"])
                b = disk.peek(f)
                if b is None:
                    continue
                x = op["x"]
                n = len(b)
                if op["how"] == "remove":
                    disk.unlink(f)
                    saved[f] = None
                else:
                    nb = {"truncate": lambda: b[:int(x * n)], "empty": lambda: b"", "binary": lambda: bytes((k * 37 + 129) % 256 for k in range(50)),
                          "prefix": lambda: b"\x00" * max(1, int(x * n)) + b[max(1, int(x * n)):],
                          "byte": lambda: b[:int(x * (n - 1))] + bytes([b[int(x * (n - 1))] ^ 0x80]) + b[int(x * (n - 1)) + 1:] if n else b"",
                          "append": lambda: b + b"{\"end_time\": 3}"}[op["how"]]()
                    disk.put(f, nb)
                    try:
                        saved[f] = ("sim", json.loads(nb.decode("utf-8")))
                        if nb != b:
                            saved[f] = "unclear"
                    except ValueError:
                        saved[f] = "damaged"
                    if nb == b:
                        continue
                if saved[f] == "unclear":
                    disk.put(f, b"")          # still JSON by chance: make it unusable
                    saved[f] = "damaged"
                hist.append(["damage", op["how"]])
                ctx.fault("file_" + op["how"])
            elif o == "opt":
                conf = copy.deepcopy(op["conf"])
                arg = None if op["none"] else conf
                kw = dict(simulation=sims[0], optimization_problem=a["OptimizationProblem"](1, "op"), optimization_parameters=[mod.p],
                          optimizer=op["optimizer"])
                fs = key(op["simfile"]) if op["simfile"] else None
                kw["simulation_configuration"] = op["simfile"] if fs else {}
                opt = None
                kd, got = build.attempt(lambda: a["Optimization"](optimization_configuration=arg, **kw))
                ok_sim = fs is None or isinstance(saved.get(fs), tuple)
                if not ok_sim:
                    ctx.check(kd == "err", "unusable-file-loaded", "simulation_configuration file %s" % (saved.get(fs),))
                    refused = True
                    ctx.probe("optimization_refused_damaged_file")
                else:
                    ctx.check(kd == "ok", "optimization-refused", lambda: repr(got))
                    opt = got
                    ctx.check(conf == op["conf"], "argument-changed", "optimization_configuration was changed")
                    want = {**OPT_DEFAULTS, **({} if op["none"] else op["conf"])}
                    ctx.check(opt.optimization_configuration == want, "optimization-configuration-differs", lambda: repr(opt.optimization_configuration))
                    if fs:
                        ctx.check(opt.simulation_configuration == saved[fs][1], "loaded-configuration-differs", lambda: repr(opt.simulation_configuration))
                    if op["file"] and op["save"]:
                        opt.saveConfigurations(op["file"])
                        saved[key(op["file"])] = ("opt", norm(want))
                    if op["file"] and isinstance(saved.get(key(op["file"])), tuple) and saved[key(op["file"])][0] == "opt":
                        kw["simulation_configuration"] = {}
                        opt2 = a["Optimization"](optimization_configuration=op["file"], **kw)
                        w2 = saved[key(op["file"])][1]
                        ctx.check(opt2.optimization_configuration == w2, "loaded-configuration-differs",
                                  lambda: "saved %s, loaded %s" % (w2, opt2.optimization_configuration))
                        ctx.check(opt.optimization_configuration == want, "configuration-changed-by-another-operation")
                        loaded = True
                        ctx.probe("optimization_loaded")
                    elif op["file"] and not isinstance(saved.get(key(op["file"])), tuple):
                        kw["simulation_configuration"] = {}
                        kd, got = build.attempt(lambda: a["Optimization"](optimization_configuration=op["file"], **kw))
                        ctx.check(kd == "err", "unusable-file-loaded", lambda: repr(got.optimization_configuration))
                        ctx.probe("optimization_refused_damaged_file")
                        refused = True
                hist.append(["opt", kd])
            elif o == "run":
                if now[j] is None or now[j].get("is_dynamic") or now[j].get("problem_type") or "linear_solver" not in now[j] \
                        or now[j].get("initial_guess") or now[j].get("number_parameters_to_optimize"):
                    continue
                kd, got = build.attempt(sims[j].runSimulation, show_output_msg=False, show_final_residuals=False)
                ctx.check(kd == "ok" and abs(float(sims[j].getResults("dict")["x_T"]) - 2.0) < 1e-6, "run-under-configuration", lambda: repr(got))
            ctx.ev(o, k, outcome)
            unchanged()
    finally:
        SIM.disk = None
    same_run(plan, ctx)
    ctx.nontrivial = loaded and refused
    ctx.state(hist)


def same_run(plan, ctx):
    """A run under the loaded configuration equals the run under the original"""
    spec, conf = plan["spec"], plan["runconf"]
    if spec["kind"] != "ode" and not G.valid(spec):
        return
    if spec["kind"] == "ode":
        from .c03 import valid
        if not valid(spec):
            return
    disk = Disk(rng_for("d", 1))
    s1 = build.Session(spec, "original").setup(conf)
    k1, o1 = build.attempt(s1.run, show_output_msg=False, show_final_residuals=False)
    s2 = build.Session(spec, "copy").setup(conf)
    SIM.disk = disk
    try:
        s2.sim.configurations["domain"] = None      # a table cannot be written; it is given again when loading
        s2.sim.dumpConfigurations("run.json")
        s3 = build.Session(spec, "loaded").setup(conf)
        s3.sim.configurations = None
        dom = s3.built.domain
        if plan["via"] == "file":
            s3.sim.setConfigurations(configurations_file="run.json")
            if dom is not None:
                s3.sim.configurations["domain"] = dom
        else:
            d = json.loads(disk.peek("run.json").decode("utf-8"))
            if dom is not None:
                d["domain"] = dom
            keep = dict(d)
            s3.sim.setConfigurations(definition_dict=d)
            ctx.check(d == keep, "argument-changed")
    finally:
        SIM.disk = None
    before = dict(s3.sim.configurations)
    k3, o3 = build.attempt(s3.run, show_output_msg=False, show_final_residuals=False)
    ctx.check(s3.sim.configurations == before, "run-changed-configuration")
    ctx.check(k1 == k3, "run-under-loaded-configuration-differs", lambda: "%r / %r" % (o1, o3))
    if k1 == "ok":
        r1, r3 = s1.results(), s3.results()
        ctx.ev("run", digits(r3, 4))
        ctx.check(build.same_results(r1, r3, 1e-9, 1e-12), "run-under-loaded-configuration-differs", lambda: "%s / %s" % (r1, r3))
        ctx.probe("run_under_loaded_configuration")
        if spec["tvars"]:
            ctx.simtime += r1["rows"][-1][0] - r1["rows"][0][0]
