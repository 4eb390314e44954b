"""C20 Streams and unit operations of the library keep their balances."""
import json

from .. import build, backends, sched
from ..core import SimInterrupt, SimNoMemory, digits

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of flowsheets built from the library (values set, models declared, resolved and run again) with solver faults, refused calls and interrupts at chosen points; results against a closed-form flowsheet model"
NOTE = ("Seeded sampling of flowsheets (one or two feeds, up to five units in series, branching and merging), of histories and faults. After every resolve and clean run all "
        "published values are compared with the reference computed unit by unit (1e-5). Chemicals are simulated; units whose declaration raises in this version (Tank, Flash) are left out.")
CASES = {"quick": 280, "thorough": 30000}
RULE = ("one or two material streams (three classes; mass, molar or both fluxes given) and one beside the flowsheet of which not everything is given, one to five of Mixer, Splitter, SimplePump, Heater, Cooler, Valve connected in series, split and "
        "merged, own or shared property packages of one component (two for Mixer, Splitter and SimplePump); then 2-10 operations: set a value of a stream or a unit, declare a model, calculate a package, "
        "resolve, run (with a backend fault), refused calls, interrupts inside declare, resolve and run, checks. "
        "Non-trivial: at least two checks of the whole flowsheet, at least one after a change.")
STATES = "distinct (units, stream classes, sequence of operation, outcome) histories"
REAL = ["unit_op_library.py", "core/property_package.py", "model, problem, connection, simulation and solver code", "sympy", "scipy", "pyneqsys"]
STUB = ["thermo.chemical.Chemical (closed-form properties)", "backend faults", "points of interruption"]
ASSUMPTIONS = ["closed-form reference of the six unit operations", "values of ordinary size (no flow is zero)"]

KINDS = ["mixer", "splitter", "pump", "heater", "cooler", "valve"]
CLASS = {"mixer": "Mixer", "splitter": "Splitter", "pump": "SimplePump", "heater": "Heater", "cooler": "Cooler", "valve": "Valve"}
PARAMS = {"mixer": [], "splitter": [], "pump": ["Delta_P"], "heater": ["Delta_P", "Q", "cp_mix"], "cooler": ["Delta_P", "Q", "cp_mix"], "valve": ["Delta_P", "perc_open"]}
FLOWS = ["ndot", "mdot", "P", "H", "T"]
STREAMS = ["MaterialStream", "HomogeneousMaterialStream", "MultiphasicMaterialStream"]


class Chemical:
    """Properties of a made-up chemical, in closed form"""
    table = {}

    def __init__(self, ID, T=298.15, P=101325):
        self.ID = ID
        self.MW = self.table[ID]["MW"]
        self.calculate(T, P)

    def calculate(self, T=298.15, P=101325):
        self.Cp, self.rho, self.H = props(self.table[self.ID], T, P)


def props(f, T, P):
    return f["cp"] + 0.01 * (T - 298.15), f["rho"] * (1 + 1e-8 * (P - 101325)) - 0.002 * (T - 298.15), f["cp"] * (T - 298.15)


def r3(x):
    return float("%.3g" % x)


def value(rng, name):
    if name == "Q":
        return r3(rng.uniform(-40, 40)) or 1.0
    if name == "Delta_P":
        return r3(rng.uniform(0.1, 20)) * rng.choice([1, 1, 1, -1])
    if name == "perc_open":
        return r3(rng.uniform(0.05, 1))
    if name == "cp_mix":
        return r3(rng.uniform(0.5, 5))
    if name == "T":
        return r3(rng.uniform(250, 400))
    if name == "P":
        return r3(rng.uniform(20, 200))
    if name == "H":
        return r3(rng.uniform(-50, 50)) or 1.0
    if name == "ndot":
        return r3(rng.uniform(1, 60))
    return r3(rng.uniform(0.2, 30))


def gen(rng, i, tier):
    fluids = {"f%d" % k: {"MW": r3(rng.uniform(15, 500)), "cp": r3(rng.uniform(0.5, 5)), "rho": r3(rng.uniform(2, 30))} for k in range(3)}
    pps = []

    def pp(two=False, share=True):
        same = [k for k, p in enumerate(pps) if len(p) == (2 if two else 1)]
        if share and same and rng.random() < 0.3:
            return rng.choice(same)
        pps.append(rng.sample(sorted(fluids), 2 if two else 1))
        return len(pps) - 1
    two = rng.random() < 0.2
    feeds = []
    for k in range(rng.choice([1, 1, 2])):
        cls = rng.choice(STREAMS)
        has = cls == "MultiphasicMaterialStream" or rng.random() < 0.85
        f = {"cls": cls, "pp": pp(two and rng.random() < 0.5, False) if has else None, "in": rng.random() < 0.7, "init": {}}
        # (of a package of several components the library takes one's molar mass: both fluxes are given then)
        flux = rng.choice([["mdot"], ["ndot"], ["mdot"], ["ndot"], ["mdot", "ndot"]]) if has and len(pps[f["pp"]]) == 1 else ["mdot", "ndot"]
        for n in flux + ["T", "P", "H"]:
            f["init"][n] = value(rng, n)
        if two:
            f["z"], f["w"] = r3(rng.uniform(0.1, 0.9)), r3(rng.uniform(0.1, 0.9))
        feeds.append(f)
    units = []
    n = rng.choice([1, 2, 2, 3, 3, 4, 5]) if not two else rng.choice([1, 2, 2, 3])
    unit_pps = len(pps)
    for k in range(n):
        kind = rng.choice(KINDS[:3] if two else KINDS)
        u = {"kind": kind, "src": [], "init": {p: value(rng, p) for p in PARAMS[kind] if p != "cp_mix" or rng.random() < 0.4}}
        same = [j for j in range(unit_pps, len(pps))]
        u["pp"] = rng.choice(same) if same and rng.random() < 0.3 else None
        if u["pp"] is None:
            pps.append(rng.sample(sorted(fluids), 2) if two else rng.sample(sorted(fluids), 1))
            u["pp"] = len(pps) - 1
        if two and pps[u["pp"]] != pps[unit_pps]:
            pps[u["pp"]] = list(pps[unit_pps])
        # sources: ["f", i] or ["u", j], with fraction; the first one gives P, T, H
        if k == 0:
            u["src"] = [[["f", 0], 1.0]]
        else:
            j = k - 1 if rng.random() < 0.75 else rng.randrange(k)
            u["src"] = [[["u", j], 1.0 if rng.random() < 0.7 else r3(rng.uniform(0.1, 0.9))]]
        units.append(u)
    if len(feeds) == 2:
        rng.choice(units)["src"].append([["f", 1], 1.0 if rng.random() < 0.6 else r3(rng.uniform(0.1, 0.9))])
    order = list(range(len(feeds) + n))
    rng.shuffle(order)
    plan = {"fluids": fluids, "pps": pps, "feeds": feeds, "units": units, "order": order, "one": rng.random() < 0.3, "ops": [], "two": two,
            "loose": loose(rng, fluids), "conf": conf(rng), "conn_order": rng.randint(0, 10 ** 6), "solve": rng.random() < 0.5}
    ops = plan["ops"]
    for _ in range(rng.randint(2, 10)):
        r = rng.random()
        if r < 0.3:
            k = rng.randrange(len(feeds))
            own = feeds[k]["init"]
            names = [x for x in ("mdot", "ndot", "T", "P", "H") if x in own]
            # both or none of two given fluxes
            w = rng.choice(names + [x for x in names if x in ("mdot", "ndot")] * 2)
            if feeds[k]["pp"] is not None and rng.random() < 0.25:
                w = rng.choice(["mdot", "ndot"])        # the derived one, too
            vals = {w: value(rng, w)}
            ops.append({"op": "set", "who": ["f", k], "vals": vals, "q": rng.random() < 0.3})
        elif r < 0.5:
            c = [j for j, u in enumerate(units) if PARAMS[u["kind"]]]
            if c:
                j = rng.choice(c)
                w = rng.choice(PARAMS[units[j]["kind"]])
                ops.append({"op": "set", "who": ["u", j], "vals": {w: value(rng, w)}, "q": rng.random() < 0.3})
        elif r < 0.53 and plan["loose"]:
            w = rng.choice(["T", "T", "P", "P", "mdot", "ndot"])
            ops.append({"op": "set", "who": ["l", 0], "vals": {w: value(rng, w)}, "q": rng.random() < 0.3})
        elif r < 0.57:
            ops.append({"op": "calc", "pp": rng.randrange(unit_pps, len(pps)), "T": value(rng, "T"), "P": value(rng, "P")})
        elif r < 0.66:
            ops.append({"op": "declare", "who": rng.choice([["f", k] for k in range(len(feeds))] + [["u", j] for j in range(n)] + [["l", 0]] * bool(plan["loose"]))})
        elif r < 0.72:
            ops.append({"op": "resolve"})
        elif r < 0.82:
            ops.append({"op": "run", "fault": None})
        elif r < 0.87:
            ops.append({"op": "conf", "conf": conf(rng)})
        elif r < 0.93:
            ops.append({"op": "refused", "what": rng.choice(["unit", "text", "connection", "none"]), "r": rng.randint(0, 99)})
        else:
            ops.append({"op": "check"})
        o = ops[-1] if ops else None
        if o and o["op"] == "run" and rng.random() < 0.6:
            o["fault"] = backends.gen_fault(rng, "nonlinear", {"nonlinear_solver": "sympy" if rng.random() < 0.4 else "*"})
        if o and o["op"] in ("declare", "resolve", "run") and "cut" not in o and rng.random() < 0.25:
            o["cut"] = {"kind": rng.choice(["interrupt", "memory"]), "r": rng.randint(0, 10 ** 9)}
            if o["op"] == "run":
                o["fault"] = None
    return plan


def loose(rng, fluids):
    """A stream beside the flowsheet, of which not everything is given"""
    if rng.random() < 0.4:
        return None
    pp = rng.sample(sorted(fluids), rng.choice([1, 1, 2]))
    names = rng.choice([["T"], ["P"], ["T", "P"], []]) + rng.choice([["mdot"], ["ndot"], ["mdot", "ndot"], []])
    return {"cls": rng.choice(STREAMS), "pp": pp, "init": {n: value(rng, n) for n in names}}


def conf(rng):
    return rng.choice([{"nonlinear_solver": "sympy"}, {"nonlinear_solver": "*", "@near": r3(rng.uniform(0.97, 1.03))}, {"nonlinear_solver": "symbolicsys", "@near": r3(rng.uniform(0.99, 1.01))}])


# ---------------------------------------------------------------- reference

class Reference:
    """The flowsheet in closed form, with the values last given"""

    def __init__(self, plan):
        self.p = plan
        self.feeds = [dict(f["init"]) for f in plan["feeds"]]
        self.units = [dict(u["init"]) for u in plan["units"]]
        self.loose = [dict(plan["loose"]["init"])] if plan.get("loose") else []
        self.at = [(298.15, 101325)] * len(plan["pps"])      # state each package was last calculated at
        for u, mine in zip(plan["units"], self.units):
            if "cp_mix" in PARAMS[u["kind"]] and "cp_mix" not in mine:
                mine["cp_mix"] = self.props(u["pp"])[0]
        self.rho = {}

    def fluid(self, k):
        return self.p["fluids"][self.p["pps"][k][-1]]

    def props(self, k):
        return props(self.fluid(k), *self.at[k])

    def feed(self, k):
        f = dict(self.feeds[k])
        d = self.p["feeds"][k]
        if d["pp"] is not None:
            mw = self.fluid(d["pp"])["MW"] * 1e-3
            if "ndot" not in f:
                f["ndot"] = f["mdot"] / mw
            if "mdot" not in f:
                f["mdot"] = f["ndot"] * mw
        return f

    def declared(self):
        """All models have been declared with the present values"""
        for j, u in enumerate(self.p["units"]):
            if u["kind"] == "valve":
                self.rho[j] = self.props(u["pp"])[1]

    def results(self):
        out = {}
        two = self.p["two"]
        fs = [self.feed(k) for k in range(len(self.feeds))]
        for k, f in enumerate(fs):
            for n in FLOWS:
                out["%s_f_F%d" % (n, k)] = f[n]
            if two and k == 0:
                for w in ("z", "w"):
                    out["%s0_F0" % w], out["%s1_F0" % w] = self.p["feeds"][0][w], 1 - self.p["feeds"][0][w]
        us = []
        for j, u in enumerate(self.p["units"]):
            get = [(fs[s[1]] if s[0] == "f" else us[s[1]], x) for s, x in u["src"]]
            i = {n: sum(x * g[n] for g, x in get) for n in ("ndot", "mdot")}
            for n in ("P", "H", "T"):
                i[n] = get[0][0][n]
            o = dict(i)
            p = self.units[j]
            if u["kind"] == "pump":
                o["P"] += p["Delta_P"]
            elif u["kind"] != "mixer" and u["kind"] != "splitter":
                o["P"] -= p["Delta_P"]
            if u["kind"] in ("heater", "cooler"):
                o["H"] += p["Q"] / o["ndot"]
                o["T"] += p["Q"] / (o["mdot"] * p["cp_mix"])
            name = "U%d" % j
            for n in FLOWS:
                out["%s_in_%s" % (n, name)] = i[n]
                out["%s_out_%s" % (n, name)] = o[n]
            if u["kind"] == "valve":
                out["Qdot_out_" + name] = p["perc_open"] * o["mdot"] / self.rho[j]
            if two:
                f = self.p["feeds"][0]
                a, b = self.p["pps"][u["pp"]]
                for w, x in (("z", f["z"]), ("w", f["w"])):
                    for d in ("in", "out"):
                        out["%s_%s_%s_%s" % (w, a, d, name)] = x
                        out["%s_%s_%s_%s" % (w, b, d, name)] = 1 - x
            us.append(o)
        return out


# ---------------------------------------------------------------- the flowsheet

def feed_class():
    Model = build.api()["Model"]
    tu = build.api()["tu"]

    class Feed(Model):
        """A user's model that hands the values of a stream to the flowsheet"""

        def __init__(self, name, stream, parts):
            self._stream, self._parts = stream, parts
            super().__init__(name, "feed")

        def DeclareVariables(self):
            units = {"ndot": tu.mol / tu.s, "mdot": tu.kg / tu.s, "P": tu.Pa, "H": tu.J / tu.mol, "T": tu.K}
            for n, u in units.items():
                setattr(self, n, self.createVariable(n + "_f", u, n, is_exposed=True, type="output"))
            for n in self._parts:
                setattr(self, n, self.createVariable(n, tu.dimless, n, is_exposed=True, type="output"))

        def DeclareEquations(self):
            for n in FLOWS:
                self.createEquation("give_" + n, "", getattr(self, n)() - getattr(self._stream, n)(), check_equation=False)
            for n, x in self._parts.items():
                self.createEquation("give_" + n, "", getattr(self, n)() - x)
    return Feed


class Flowsheet:
    def __init__(self, plan):
        from src.sloth import unit_op_library as lib
        from src.sloth.core.property_package import PropertyPackage
        a = build.api()
        self.plan = plan
        self.pps = [PropertyPackage(len(p), list(p)) for p in plan["pps"]]
        self.streams, self.feeds, self.units = [], [], []
        Feed = feed_class()
        for k, f in enumerate(plan["feeds"]):
            kw = {"property_package": self.pps[f["pp"]]} if f["pp"] is not None else {}
            st = getattr(lib, f["cls"])("S%d" % k, **kw)
            for n, v in f["init"].items():
                getattr(st, n).setValue(v)
            if f["cls"] == "MultiphasicMaterialStream":
                for ph in plan["pps"][f["pp"]]:
                    getattr(st, "z_" + ph).setValue(0.5)
                    getattr(st, "w_" + ph).setValue(0.5)
            self.streams.append(st)
            self.feeds.append(Feed("F%d" % k, st, {"%s%d" % (w, q): x for w in ("z", "w") for q, x in ((0, f[w]), (1, 1 - f[w]))} if plan["two"] and k == 0 else {}))
        for j, u in enumerate(plan["units"]):
            m = getattr(lib, CLASS[u["kind"]])("U%d" % j, property_package=self.pps[u["pp"]])
            for n, v in u["init"].items():
                getattr(m, n).setValue(v)
            self.units.append(m)
        self.loose = []
        if plan.get("loose"):
            d = plan["loose"]
            st = getattr(lib, d["cls"])("loose", property_package=PropertyPackage(len(d["pp"]), list(d["pp"])))
            for n, v in d["init"].items():
                getattr(st, n).setValue(v)
            self.loose.append(st)
        for m in self.streams + self.loose + self.feeds + self.units:
            m()
        self.prob = a["Problem"]("flowsheet")
        ms = [self.feeds[k] if k < len(self.feeds) else self.units[k - len(self.feeds)] for k in plan["order"]]
        # a stream comes before the model that uses its values
        ms = [st for st, f in zip(self.streams, plan["feeds"]) if f["in"]] + ms
        if plan["one"]:
            for m in ms:
                self.prob.addModels(m)
        else:
            self.prob.addModels(ms)
        for j, u in enumerate(plan["units"]):
            self.connect(j, u)
        self.resolve()
        self.sim = a["Simulation"]("plant")
        self.sim.setProblem(self.prob)

    def port(self, s, n):
        m = self.feeds[s[1]] if s[0] == "f" else self.units[s[1]]
        return m, getattr(m, n if s[0] == "f" else n + "_out")

    def connect(self, j, u):
        m2 = self.units[j]
        for n in FLOWS:
            m1, v = self.port(u["src"][0][0], n)
            more = u["src"] if n in ("ndot", "mdot") else u["src"][:1]
            x = u["src"][0][1] if n in ("ndot", "mdot") else 1.0
            if len(more) == 1 and x == 1.0:
                self.prob.createConnection(m1, m2, v, getattr(m2, n + "_in"))
                continue
            e = None
            for s, x in more:
                t = self.port(s, n)[1]()
                t = t if x == 1.0 else x * t
                e = t if e is None else e + t
            self.prob.createConnection(m1, m2, e, getattr(m2, n + "_in")())
        if self.plan["two"]:
            # a mixer closes its inlet fractions by itself
            a, b = self.plan["pps"][u["pp"]]
            s = u["src"][0][0]
            for w in ("z", "w"):
                for q, ph in ((0, a), (1, b)) if u["kind"] == "pump" else ((0, a),):
                    m1 = self.port(s, "T")[0]
                    v = getattr(m1, "%s%d" % (w, q) if s[0] == "f" else "%s_%s_out" % (w, ph))
                    self.prob.createConnection(m1, m2, v(), getattr(m2, "%s_%s_in" % (w, ph))())

    def resolve(self):
        for st, f in zip(self.streams, self.plan["feeds"]):
            if not f["in"]:
                st()
        self.prob.resolve()

    def configure(self, c, want):
        kw = {k: v for k, v in c.items() if not k.startswith("@")}
        if "@near" in c:
            kw["initial_guess"] = {k: v * c["@near"] for k, v in want.items()}
        self.sim.setConfigurations(**kw)

    def obj(self, who):
        return {"f": self.streams, "u": self.units, "l": self.loose}[who[0]][who[1]]

    def results(self):
        return {str(k): float(v) for k, v in self.sim.getResults("dict").items()}


def run(plan, ctx):
    import thermo
    if not valid(plan):
        return
    Chemical.table = plan["fluids"]
    thermo.chemical.Chemical = Chemical
    ref = Reference(plan)
    fs = Flowsheet(plan)
    ref.declared()
    tu = build.api()["tu"]
    conf_ = plan["conf"]
    hist, checks, changed, dirty = [], 0, False, False

    def check():
        fs.resolve()
        ref.declared()
        want = ref.results()
        fs.configure(conf_, want)
        kind, e = build.attempt(fs.sim.runSimulation, show_output_msg=False, show_final_residuals=False)
        ctx.check(kind == "ok", "regular-flowsheet-refused", lambda: "%s: %s" % (type(e).__name__, e))
        got = fs.results()
        ctx.ev("check", digits(got))
        compare(ctx, got, want)
        for st, d, f in list(zip(fs.streams, plan["feeds"], ref.feeds)) + [(x, plan["loose"], f) for x, f in zip(fs.loose, ref.loose)]:
            if st in fs.loose:
                st()
            stream(ctx, plan, st, d["pp"] if st in fs.loose else plan["pps"][d["pp"]] if d["pp"] is not None else None, f)

    check()
    for op in plan["ops"]:
        what = op["op"]
        out = "ok"
        if what == "set":
            o = fs.obj(op["who"])
            for n, v in op["vals"].items():
                q = getattr(o, n)
                if op["q"]:
                    q.setValue(v, q.units)
                else:
                    q.setValue(v)
            {"f": ref.feeds, "u": ref.units, "l": ref.loose}[op["who"][0]][op["who"][1]].update(op["vals"])
            changed = dirty = True
        elif what == "calc":
            fs.pps[op["pp"]].calculate(T=op["T"], P=op["P"])
            ref.at[op["pp"]] = (op["T"], op["P"])
            changed = dirty = True
        elif what == "conf":
            conf_ = op["conf"]
        elif what == "check":
            check()
            checks += 1
            dirty = False
        elif what == "refused":
            refused(ctx, fs, op, tu)
        else:
            if what == "declare":
                f = fs.obj(op["who"])
            elif what == "resolve":
                f = fs.resolve
            else:
                fs.configure(conf_, ref.results())
                f = lambda: fs.sim.runSimulation(show_output_msg=False, show_final_residuals=False)  # noqa
            if op.get("fault"):
                backends.arm(op["fault"], ctx)
            n = len(ctx.faults)
            before = sum(ctx.faults.values())
            try:
                if op.get("cut"):
                    k = op.get("at")
                    if k is None:
                        k = op["at"] = sched.pick_point(f, op["cut"])
                    if k is None:
                        out = "none"
                    else:
                        with sched.interrupt_at(k, op["cut"]["kind"], ctx):
                            f()
                else:
                    f()
            except (SimInterrupt, SimNoMemory):
                out = "cut"
            except Exception as e:
                out = type(e).__name__
                ctx.check(op.get("cut") or op.get("fault") or (what == "run" and dirty), "regular-operation-refused", lambda: "%s: %s: %s" % (op, out, e))
            fired = sum(ctx.faults.values()) > before
            from ..seams import SIM
            SIM.root = SIM.linsolve = SIM.symsolve = None
            if what == "run" and out == "ok" and not dirty:
                kind, got = build.attempt(fs.results)
                if fired and op.get("cut"):
                    pass
                else:
                    ctx.check(kind == "ok", "results-refused", lambda: str(got))
                    compare(ctx, got, ref.results(), "faulted-" if fired else "")
                    ctx.probe("run_compared")
            if what != "run":
                dirty = True
        hist.append([what, out])
        ctx.ev("op", what, out)
        ctx.probe("%s_%s" % (what, "ok" if out == "ok" else "failed"))
    if changed or dirty:
        check()
        checks += 1
    check()
    ctx.nontrivial = changed
    ctx.state([u["kind"] for u in plan["units"]], [f["cls"] for f in plan["feeds"]], hist)


def compare(ctx, got, want, prefix=""):
    ctx.check(set(got) == set(want), prefix + "wrong-variables", lambda: "%s instead of %s" % (sorted(got), sorted(want)))
    for n in sorted(want):
        ctx.check(abs(got[n] - want[n]) <= 1e-5 * max(abs(want[n]), 1e-3), prefix + "balance-violated",
                  lambda: "%s is %r, the balances of the flowsheet give %r" % (n, got[n], want[n]))
    ctx.probe("values_compared", len(want))


def stream(ctx, plan, st, pp, f):
    """A declared stream has what it was given, the derived flux, and its chemicals in the given state"""
    want = dict(f)
    if pp is not None and len(pp) == 1:
        mw = plan["fluids"][pp[0]]["MW"] * 1e-3
        if "mdot" in f and "ndot" not in f:
            want["ndot"] = f["mdot"] / mw
        if "ndot" in f and "mdot" not in f:
            want["mdot"] = f["ndot"] * mw
    for n, v in sorted(want.items()):
        q = getattr(st, n)
        ctx.check(q.is_specified is True and abs(q.value - v) <= 1e-9 * abs(v), "stream-value-lost", lambda: "%s of %s is %r, not %r" % (n, st.name, q.value, v))
    for c in pp or [] if "T" in f or "P" in f else []:
        chem = st.property_package[c]
        w = props(plan["fluids"][c], f.get("T", 298.15), f.get("P", 101325))
        got = (chem.Cp, chem.rho, chem.H)
        ctx.check(all(abs(a - b) <= 1e-9 * max(1, abs(b)) for a, b in zip(got, w)), "chemical-in-another-state",
                  lambda: "%s of %s has %s, not %s" % (c, st.name, got, w))
    ctx.probe("streams_checked")


def refused(ctx, fs, op, tu):
    """A call that is refused changes nothing"""
    w = op["what"]
    o = fs.streams[op["r"] % len(fs.streams)]
    if w == "unit":
        f = lambda: o.mdot.setValue(3.0, tu.m)                                    # noqa
    elif w == "text":
        f = lambda: o.P.setValue("high")                                          # noqa
    elif w == "none":
        f = lambda: o.ndot.setValue(None)                                         # noqa
    else:
        u = fs.units[op["r"] % len(fs.units)]
        f = lambda: fs.prob.createConnection(u, fs.feeds[0], u.T_out, fs.feeds[0].T)  # noqa
    kind, e = build.attempt(f)
    ctx.ev("refused", w, kind)
    ctx.check(kind == "err", "wrong-call-accepted", w)
    ctx.fault("user_call_" + w)


def valid(plan):
    try:
        n = len(plan["units"])
        if not n or not plan["feeds"] or sorted(plan["order"]) != list(range(n + len(plan["feeds"]))):
            return False
        for j, u in enumerate(plan["units"]):
            if not u["src"] or u["pp"] >= len(plan["pps"]) or set(PARAMS[u["kind"]]) - {"cp_mix"} - set(u["init"]):
                return False
            if len(plan["pps"][u["pp"]]) != (2 if plan["two"] else 1):
                return False
            for (k, i), x in u["src"]:
                if (k == "u" and i >= j) or (k == "f" and i >= len(plan["feeds"])):
                    return False
        for f in plan["feeds"]:
            if not {"mdot", "ndot"} & set(f["init"]) or (f["pp"] is None and not {"mdot", "ndot"} <= set(f["init"])) or not {"T", "P", "H"} <= set(f["init"]):
                return False
        return True
    except (KeyError, IndexError, TypeError):
        return False
