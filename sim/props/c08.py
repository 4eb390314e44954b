"""C08 Saved configuration files are replaced atomically."""
import copy
import json

from .. import build, confs
from ..core import SimCrash, SimInterrupt, SimNoMemory, rng_for
from ..disk import Disk, ROOT
from ..seams import SIM

LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: in-memory disk with page cache, seeded faults and crashes at every system call, old-or-new oracle"
NOTE = ("Seeded sampling of save histories with a fault or crash at a drawn system call, then power loss with a drawn subset of the "
        "un-synced effects surviving. The disk model is that of an ordered-metadata journaling file system (renames durable in order, by "
        "fsync of the directory or later), data durable by fsync of the file.")
CASES = {"quick": 2000, "thorough": 400000}
RULE = ("seeded histories of 1-5 saves (Simulation.dumpConfigurations, Optimization.saveConfigurations) to 1-2 files with earlier contents "
        "(absent, empty, text, older configuration); each save may meet an I/O error, full disk, short or partial write, interrupt, memory "
        "error, crash before/inside/after one drawn system call, or a configuration that cannot be serialised; the history ends with power "
        "loss. Non-trivial: a fault or crash fired, or a completed save was checked after power loss.")
STATES = "distinct (kinds, system call hit, fault kind, outcome, content found: old/new) histories"
REAL = ["capybara dumpConfigurations/saveConfigurations and the code below", "json", "Python io stack"]
STUB = ["the disk (in-memory model with page cache and journal)"]
ASSUMPTIONS = ["disk model of /verif/sim/disk.py", "a new file is recognised by parsing it as JSON equal to the saved configuration"]

KINDS = ["EIO", "ENOSPC", "EINTR", "partial", "short", "short", "interrupt", "memory", "crash", "crash", "crash_after", "torn_crash", "EACCES"]


def gen(rng, i, tier):
    files = [rng.choice(["conf.json", ROOT + "/a/conf.json", "sim-conf.json", ROOT + "/b.json"]) for _ in range(rng.randint(1, 2))]
    init = {}
    for f in files:
        init[f] = rng.choice([None, "", "not a configuration\n", json.dumps({"old": list(range(rng.choice([1, 50, 4000])))}), "{}"])
    steps = []
    for k in range(rng.randint(1, 5)):
        what = rng.choice(["sim", "sim", "opt"])
        st = {"what": what, "file": rng.choice(files), "conf": confs.gen_sim_conf(rng) if what == "sim" else confs.gen_opt_conf(rng), "fault": None}
        if what == "sim" and rng.random() < 0.08:
            st["file"] = None                # default name
        if rng.random() < 0.12:
            st["bad"] = rng.choice(["object", "late_object", "array"])
        if rng.random() < 0.7:
            st["fault"] = {"at": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, rng.randint(0, 14)]), "kind": rng.choice(KINDS), "x": round(rng.random(), 3)}
        steps.append(st)
    return {"init": init, "steps": steps, "seed": rng.randint(0, 10 ** 9)}


def faulty(kind, x):
    if kind == "partial":
        return ("partial_error", x, "ENOSPC")
    if kind == "short":
        return ("short", x)
    if kind == "torn_crash":
        return ("torn_crash", x)
    if kind == "crash_after":
        return ("crash_after",)
    if kind == "interrupt":
        return ("raise", SimInterrupt("interrupted (simulated)"))
    if kind == "memory":
        return ("raise", SimNoMemory("out of memory (simulated)"))
    return kind


def run(plan, ctx):
    rng = rng_for("disk", plan["seed"])
    state = {"n": 0, "fault": None, "ops": []}

    def decide(op, path, n):
        k = state["n"]
        state["n"] += 1
        state["ops"].append(op)
        f = state["fault"]
        if f is None:
            return None
        if f["kind"] in ("short", "partial", "torn_crash"):
            # data faults apply to the first write at or after the drawn call
            if op != "write" or k < f["at"] and state.get("writes_left", 1):
                if not (op == "write" and k >= f["at"]):
                    return None
            state["hit"] = op
            if f["kind"] != "short":
                state["fault"] = None
            return faulty(f["kind"], f["x"])
        if k != f["at"]:
            return None
        state["hit"] = op
        state["fault"] = None
        return faulty(f["kind"], f["x"])
    disk = Disk(rng, decide)
    disk.dirs.add(ROOT + "/a")
    for f, c in plan["init"].items():
        if c is not None:
            disk.put(f, c.encode())
    mod, prob, sim = confs.tiny_session()
    SIM.disk = disk
    allowed = {}                  # file -> list of acceptable contents: None | bytes | ("conf", data)

    def key(f):
        return disk.norm(f)

    def allow(f):
        f = key(f)
        if f not in allowed:
            allowed[f] = [disk.peek(f)]
        return allowed[f]

    def matches(content, a):
        if isinstance(a, tuple):
            if content is None:
                return False
            try:
                return json.loads(content.decode("utf-8")) == a[1]
            except (ValueError, UnicodeDecodeError):
                return False
        return content == a

    def verify(where, f, opts):
        c = disk.peek(f)
        good = [a for a in opts if matches(c, a)]
        ctx.check(good, "damaged-file-" + where,
                  lambda: "%s holds %s, allowed: %s" % (f, None if c is None else repr(c[:80]) + "... (%d bytes)" % len(c), [repr(a)[:80] for a in opts]))
        return good
    hist = []
    try:
        for f in plan["init"]:
            allow(f)
        for k, st in enumerate(plan["steps"]):
            conf = st["conf"]
            fname = st["file"]
            if st["what"] == "sim":
                sim.setConfigurations(**copy.deepcopy(conf))
                if st.get("bad") == "object":
                    sim.configurations["args"] = [object()]
                elif st.get("bad") == "late_object":
                    sim.configurations["zz"] = object()
                elif st.get("bad") == "array":
                    import numpy as np
                    sim.configurations["times_for_solution"] = np.linspace(0, 1, 500)
                want = None if st.get("bad") else json.loads(json.dumps(sim.configurations))
                target = fname if fname is not None else sim.name + "-conf.json"
                call = (lambda: sim.dumpConfigurations(fname)) if fname is not None else sim.dumpConfigurations
            else:
                opt = confs.make_optimization(sim, mod, copy.deepcopy(conf))
                if st.get("bad"):
                    opt.optimization_configuration["zz"] = object()
                want = None if st.get("bad") else json.loads(json.dumps(opt.optimization_configuration))
                target = fname if fname is not None else "o.json"
                call = lambda: opt.saveConfigurations(target)  # noqa: E731
            opts = allow(target)
            others = {f: disk.peek(f) for f in allowed if f != key(target)}
            state.update(n=0, fault=st["fault"], ops=[], hit=None)
            outcome = "ok"
            try:
                call()
            except SimCrash:
                outcome = "crash"
            except BaseException as e:
                outcome = type(e).__name__
                if isinstance(e, (AssertionError,)):
                    raise
            state["fault"] = None
            fk = st["fault"]["kind"] if st["fault"] else None
            ctx.ev("save", k, st["what"], target, outcome, fk, state["hit"], list(state["ops"]))
            if state["hit"] or st.get("bad"):
                ctx.nontrivial = True
                ctx.probe("fault_at_" + str(state["hit"]))
            if outcome == "ok":
                ctx.check(not disk.dead, "crash-swallowed")
                ctx.check(want is not None, "unserialisable-configuration-saved")
                opts[:] = [("conf", want)]
                verify("after-completed-save", target, opts)
                ctx.probe("save_completed")
                if state["hit"] and fk not in ("short", "EINTR"):
                    ctx.probe("save_completed_despite_fault")
            else:
                if st["fault"] is None or not state["hit"]:
                    ctx.check(bool(st.get("bad")), "save-refused", lambda: outcome)
                new = opts + ([("conf", want)] if want is not None else [])
                if outcome == "crash" or disk.dead:
                    lost = disk.reboot()
                    ctx.ev("reboot", lost)
                    opts[:] = new
                    good = verify("after-crash", target, opts)
                    ctx.probe("crash_checked_" + ("new" if good[0] == ("conf", want) else "old"))
                    hist.append("new" if good[0] == ("conf", want) else "old")
                    opts[:] = [disk.peek(target)]
                    for f in others:
                        if f != key(target):
                            verify("of-another-name-after-crash", f, allowed[f])
                            allowed[f][:] = [disk.peek(f)]
                else:
                    good = verify("after-failed-save", target, new)
                    ctx.probe("failed_save_checked")
                    # what is on the disk is one of the two; a later crash may still bring back the old one if the new name was not synced
                    opts[:] = new
            for f, c in others.items():
                if outcome != "crash":
                    ctx.check(disk.peek(f) == c, "another-file-changed", lambda: f)
            hist.append([st["what"], outcome, fk, state["hit"]])
        left = disk.reboot()
        ctx.ev("final power loss", left)
        for f, opts in sorted(allowed.items()):
            verify("after-final-power-loss", f, opts)
        if any(h[1] == "ok" for h in hist if isinstance(h, list)):
            ctx.nontrivial = True
    finally:
        SIM.disk = None
    for k, v in disk.faults.items():
        ctx.fault(k, v)
    ctx.state(hist)
