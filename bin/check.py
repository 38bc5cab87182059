#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--replay FILE]

1. TLC explores the instances of the property's model (bin/instances.py),
   checks the invariants of the model and prints behaviours as scenarios;
2. the harness replays the scenarios on the code in /repo and records what it
   observes;
3. TLC checks the recorded traces against the trace specification.

Exit 0: held on everything explored. Exit 1 and VIOLATION lines: broken.
Exit 2: the machinery itself failed."""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlcrun  # noqa: E402
from instances import CHECKS  # noqa: E402

VERIF = tlcrun.VERIF
PY = "/opt/venv/bin/python"
NPROC = 8


def harness(work, module, scenarios, timeout):
    """Replays the scenarios in parallel.

    Returns [(trace file, index, shard)] and the scenarios lost to a crash or
    a hang of the code under test, outside of what the harness observes."""
    shards = [scenarios[i::NPROC] for i in range(NPROC)]
    shards = [s for s in shards if s]
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="",
               MPLBACKEND="Agg", HOME=work, TMPDIR=work)
    procs = []
    for i, s in enumerate(shards):
        base = os.path.join(work, f"shard_{module}_{i}")
        with open(base + ".scen", "w") as f:
            for x in s:
                f.write(json.dumps(x) + "\n")
        procs.append((base, s, subprocess.Popen(
            [PY, os.path.join(VERIF, "harness", "worker.py"), module, base + ".scen",
             base + ".trace", base + ".index"],
            env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res, lost, deadline = [], [], time.time() + timeout
    try:
        for base, s, p in procs:
            try:
                out, _ = p.communicate(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                raise tlcrun.MachineryError(
                    f"the replay of {module} did not finish in {timeout} s")
            if p.returncode != 0:
                if "instead of" in out or not os.path.exists(base + ".trace"):
                    raise tlcrun.MachineryError(f"harness {module} failed:\n{out[-6000:]}")
                lost.append((s[0], "died", out[-3000:]))
                continue
            with open(base + ".index") as f:
                r = json.load(f)
            res.append((base + ".trace", r["index"], s))
            lost += [(s[i], clause, what) for i, clause, what in r["lost"]]
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
    return res, lost


def known_findings(prop):
    keys = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) >= 4 and w[0] == "known:" and w[1] == f"property={prop}":
                    keys[w[2][len("key="):]] = w[3].strip()
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[a.prop]
    thorough = a.tier == "thorough"
    work = tempfile.mkdtemp(prefix=f"verif_{a.prop}_")
    try:
        rc = run(a, spec, seed, thorough, work, t0)
    except tlcrun.MachineryError as e:
        print(f"ERROR property={a.prop} {e}")
        rc = 2
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return rc


def run(a, spec, seed, thorough, work, t0):
    prop = a.prop
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    times = []
    groups = {}       # (harness, trace module) -> scenarios
    stats = []
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        groups[(r["harness"], r["trace"])] = [r["scenario"]]
    else:
        for inst in spec["runs"]:
            if inst.get("thorough_only") and not thorough:
                continue
            consts = dict(inst.get("consts", {}))
            if thorough:
                consts.update(inst.get("thorough", {}))
            consts["Sampled"] = "TRUE" if inst["mode"] == "sim" else "FALSE"
            tlcrun.write_instance(work, inst["name"], inst["base"], consts,
                                  inst.get("inv", ()), inst.get("props", ()),
                                  inst.get("constraint"), inst.get("view"))
            num = inst.get("num", (0, 0))[1 if thorough else 0]
            scen, st = tlcrun.check_model(work, inst["name"], inst["mode"], num=num,
                                          depth=inst.get("depth", 100), seed=seed)
            st["scenarios"] = len(scen)
            times.append((inst["name"], round(time.time() - t0, 1)))
            stats.append(st)
            key = (inst.get("harness", spec.get("harness")),
                   inst.get("trace", spec.get("trace")))
            groups.setdefault(key, []).extend(scen)
    viols, events, tv_states, nscen, samples = [], 0, 0, 0, []
    limit = 10000 if thorough else 600
    for (hmod, tmod), scen in groups.items():
        if not scen:
            raise tlcrun.MachineryError(f"no scenario for {hmod}")
        nscen += len(scen)
        shards, lost = harness(work, hmod, scen, limit)
        viols += [dict(harness=hmod, trace=tmod, clauses=[clause], scenario=sc,
                       record={"what": what}) for sc, clause, what in lost]
        shards = [s for s in shards if s[1]]
        times.append((hmod, round(time.time() - t0, 1)))
        events += sum(len(s[1]) for s in shards)
        vs, states = tlcrun.validate(work, tmod, [s[0] for s in shards], spec.get("tconsts"))
        tv_states += states
        times.append((tmod, round(time.time() - t0, 1)))
        for i, (tf, idx, sc) in enumerate(shards):
            with open(tf) as f:
                lines = f.readlines()
            if i == 0:
                samples += [json.loads(x) for x in lines[:: max(1, len(lines) // 3)][:3]]
            for fi, ln, clauses in vs:
                if fi == i:
                    viols.append(dict(harness=hmod, trace=tmod, clauses=sorted(clauses),
                                      scenario=sc[idx[ln]], record=json.loads(lines[ln])))
    known = known_findings(prop)
    printed, unknown = {}, 0
    repdir = os.path.join(evdir, "replay")
    if viols:
        os.makedirs(repdir, exist_ok=True)
    for v in viols:
        key = hashlib.sha256(json.dumps([v["clauses"], v["scenario"]], sort_keys=True)
                             .encode()).hexdigest()[:16]
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {known[key]}")
            continue
        unknown += 1
        sig = ",".join(v["clauses"])
        printed[sig] = printed.get(sig, 0) + 1
        if printed[sig] > 2:
            continue
        path = os.path.join(repdir, f"{prop}-{key}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"VIOLATION property={prop} replay={path} clauses={sig}")
    wall = time.time() - t0
    if not a.replay and not a.no_evidence:
        cov = dict(
            states=sum(s["distinct_states"] for s in stats) + tv_states,
            transitions=sum(s["states_generated"] for s in stats) + events,
            traces_validated_against_impl=nscen,
            events_validated=events,
            model_runs=stats,
            samples=samples)
        ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=seed,
                  level="model_checking", coverage=cov, wall_s=round(wall, 2),
                  violations=unknown, assumptions=spec.get("assumptions", []))
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_TIMING"):
        print(times)
    print(f"{prop}: {nscen} scenarios, {events} events, {unknown} violations "
          f"{dict(printed)}, {wall:.1f} s")
    return 1 if unknown else 0


if __name__ == "__main__":
    sys.exit(main())
