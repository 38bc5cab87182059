"""Running TLC: instances of the models, trace validation, output parsing."""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = ":".join([
    "/opt/veriftools/tla/tla2tools.jar",
    "/opt/veriftools/tla/CommunityModules-deps.jar",
])


class MachineryError(Exception):
    pass


def java(args, cwd, heap="2g", env=None, timeout=1800):
    gc = ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=4"] if heap == "6g" else ["-XX:+UseSerialGC"]
    cmd = ["java", *gc,
           f"-Xmx{heap}", "-Xss64m", f"-DTLA-Library={SPEC}",
           "-Djava.io.tmpdir=" + cwd,
           "-cp", JARS, "tlc2.TLC", *args]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC did not finish in %d s: %s" % (timeout, args))
    return p.returncode, p.stdout


def printed(out, tag):
    """The JSON values printed by PrintT(tag \\o ToJson(..))."""
    head = '"' + tag + " "
    res = []
    for line in out.splitlines():
        if line.startswith(head):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


def write_instance(work, name, base, consts, invariants=(), properties=(),
                   constraint=None, view=None):
    """A module extending ``base`` that gives its constants their values."""
    with open(os.path.join(work, name + ".tla"), "w") as f:
        f.write(f"---- MODULE {name} ----\nEXTENDS {base}\n")
        for k, v in consts.items():
            f.write(f"K_{k} == {v}\n")
        f.write("====\n")
    with open(os.path.join(work, name + ".cfg"), "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        if consts:
            f.write("CONSTANTS\n")
            for k in consts:
                f.write(f"  {k} <- K_{k}\n")
        if invariants:
            f.write("INVARIANTS " + " ".join(invariants) + "\n")
        if properties:
            f.write("PROPERTIES " + " ".join(properties) + "\n")
        if constraint:
            f.write(f"CONSTRAINT {constraint}\n")
        if view:
            f.write(f"VIEW {view}\n")


def check_model(work, name, mode, num=0, depth=60, seed=1, workers=8,
                timeout=1800):
    """Runs one instance. Returns (scenarios, stats)."""
    if mode == "mc":
        rc, out = java(["-noGenerateSpecTE", "-metadir", os.path.join(work, "meta_" + name),
                        "-workers", str(workers), "-config", name + ".cfg", name + ".tla"],
                       work, heap="6g", timeout=timeout)
        outs = [(rc, out)]
    else:
        procs = 8 if num >= 400 else 4

        def one(i):
            w = os.path.join(work, f"sim_{name}_{i}")
            os.makedirs(w, exist_ok=True)
            return java(["-noGenerateSpecTE", "-metadir", os.path.join(w, "meta"),
                         "-workers", "1", "-simulate", f"num={(num + procs - 1) // procs}",
                         "-seed", str(seed * 1000 + i), "-depth", str(depth),
                         "-config", os.path.join(work, name + ".cfg"),
                         os.path.join(work, name + ".tla")],
                        w, heap="2g", timeout=timeout)
        with ThreadPoolExecutor(procs) as ex:
            outs = list(ex.map(one, range(procs)))
    scen, states, generated, traces = [], 0, 0, 0
    for rc, out in outs:
        if rc != 0:
            raise MachineryError(
                f"TLC failed on {name} (rc {rc}):\n" +
                "\n".join(x for x in out.splitlines() if not x.startswith('"SCEN'))[-6000:])
        scen += printed(out, "SCEN")
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        if m:
            generated += int(m.group(1))
            states += int(m.group(2))
        else:
            for a, b in re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces generated", out)[-1:]:
                generated += int(a.replace(",", ""))
                traces += int(b.replace(",", ""))
    # deterministic order, no duplicates
    seen, res = set(), []
    for key, s in sorted(((json.dumps(s, sort_keys=True), s) for s in scen),
                         key=lambda t: t[0]):
        if key not in seen:
            seen.add(key)
            res.append(s)
    return res, {"module": name, "mode": mode, "distinct_states": states,
                 "states_generated": generated, "simulated_behaviours": traces}


def validate(work, module, trace_files, consts=None, timeout=1800):
    """Checks recorded traces against a trace specification.

    Returns (violations, events, states): violations are (file index, line
    number starting at 0, list of clause names)."""
    name = "TV_" + module
    with open(os.path.join(work, name + ".tla"), "w") as f:
        f.write(f"---- MODULE {name} ----\nEXTENDS {module}\n")
        for k, v in (consts or {}).items():
            f.write(f"K_{k} == {v}\n")
        f.write("====\n")
    with open(os.path.join(work, name + ".cfg"), "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n")
        if consts:
            f.write("CONSTANTS\n" + "".join(f"  {k} <- K_{k}\n" for k in consts))

    def one(arg):
        i, tf = arg
        w = os.path.join(work, f"tv_{module}_{i}")
        os.makedirs(w, exist_ok=True)
        return java(["-noGenerateSpecTE", "-metadir", os.path.join(w, "meta"),
                     "-workers", "1", "-config", os.path.join(work, name + ".cfg"),
                     os.path.join(work, name + ".tla")],
                    w, heap="3g", env={"TRACE": tf}, timeout=timeout)
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, enumerate(trace_files)))
    viols, states = [], 0
    for i, (rc, out) in enumerate(outs):
        if rc != 0:
            # a recorded event the specification cannot even read
            at = re.findall(r"\bl = (\d+)", out)
            if not at:
                raise MachineryError(
                    f"trace validation by {module} failed (rc {rc}):\n" + "\n".join(
                        x for x in out.splitlines() if not x.startswith('"VIOL'))[-6000:])
            viols.append((i, int(at[-1]) - 1, ["unreadable"]))
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        if not m and rc == 0:
            raise MachineryError("unreadable TLC output:\n" + out[-4000:])
        states += int(m.group(2)) if m else 0
        seen = set()
        for v in printed(out, "VIOL"):
            if v["line"] not in seen:
                seen.add(v["line"])
                viols.append((i, v["line"] - 1, v["clauses"]))
    return viols, states
