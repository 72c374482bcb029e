#!/usr/bin/env python3
"""check.py <property> [--seconds=N]

Builds the simulator against /repo's working tree, runs as many seeded simulations of the property as
fit in the time, and reports.  Exit 0: nothing violated.  Exit 1: a VIOLATION line was printed; the
violation was reproduced from its seed, minimised, and the replay file reproduced it twice, each time in a
fresh process.  Exit 2: the check itself did not work.
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as simbuild
from props import PROPS, COMMON_ASSUMPTIONS


def fail(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def main():
    prop = sys.argv[1]
    seconds = None
    for a in sys.argv[2:]:
        if a.startswith("--seconds="):
            seconds = float(a.split("=", 1)[1])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if seconds is None:
        seconds = PROPS[prop].get("quick_s", 30) if tier == "quick" else PROPS[prop].get("thorough_s", 600)
    jobs = os.cpu_count() or 4
    t0 = time.time()
    exe = simbuild.build()
    tbuild = time.time() - t0
    work = os.path.join(VERIF, "build", "work")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(work, exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    findings = [f for f in known_findings()["findings"] if f["property"] == prop]
    kfile = os.path.join(work, prop + ".known")
    with open(kfile, "w") as f:
        for k in findings:
            f.write(k["class"] + "\n")
    out = os.path.join(work, f"{prop}.json")
    r = subprocess.run([exe, "batch", "--prop=" + prop, f"--seed={seed}", f"--seconds={seconds}", f"--jobs={jobs}",
                        "--known=" + kfile, "--out=" + out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        fail(f"the simulator ended with {r.returncode}: {r.stdout[-2000:]}")
    d = json.load(open(out))
    runs = d["runs"]
    if runs == 0:
        fail("no simulated run was completed")

    violations = d["violations"]
    replay = None
    if violations:
        v = min(violations, key=lambda x: x["run"])
        replay = os.path.join(replays, f"{prop}.{seed}.{v['run']}.json")
        m = subprocess.run([exe, "minimise", "--prop=" + prop, f"--seed={seed}", f"--run={v['run']}", "--seconds=40",
                            "--out=" + replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if m.returncode != 0:
            fail(f"run {v['run']} reported '{v['message'][:300]}' but: {m.stdout[-500:]}")
        mj = json.loads(m.stdout.strip().split("\n")[-1])
        for _ in range(2):
            p = subprocess.run([exe, "replay", "--file=" + replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)
            if p.returncode != 1:
                fail(f"run {v['run']}: the replay file did not reproduce the violation: {p.stdout[-500:]}")
    # Harness trouble must not pass for coverage
    if not violations and d["broken"] > max(3, runs // 200):
        fail(f"{d['broken']} of {runs} runs failed in the harness: {d['broken_example']}")
    if not violations and d["completed"] < runs * PROPS[prop].get("min_completed", 0.5) and not d["known"]:
        fail(f"only {d['completed']} of {runs} runs were completed: {d['discards']}")

    c = d["counters"]
    hours = max(d["wall"], 1e-6) / 3600
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": d["nontrivial"],
        "rule": PROPS[prop]["rule"],
        "samples": d["samples"][:3],
        "completed_runs": d["completed"],
        "discarded_runs": d["discards"],
        "harness_errors": d["broken"],
        "runs_per_hour": round(runs / hours),
        "seeds_per_hour": round(runs / hours),
        "simulated_steps": c.get("simulated steps", 0),
        "simulated_time": PROPS[prop]["time"],
        "distinct_states": d["states"],
        "distinct_states_measure": PROPS[prop]["measure"],
        "faults_injected": {k[len("fault: "):]: v for k, v in c.items() if k.startswith("fault: ")},
        "schedules": {k[len("schedule: "):]: v for k, v in c.items() if k.startswith("schedule: ")},
        "probes": {k: v for k, v in c.items() if not k.startswith(("fault: ", "schedule: "))},
        "known_findings_hit": d["known"],
        "real_components": PROPS[prop]["real"],
        "stub_components": PROPS[prop]["stub"],
        "jobs": jobs,
        "build_s": round(tbuild, 1),
    }
    if violations:
        cov["violation"] = {"class": v["class"], "message": v["message"], "run": v["run"], "replay": replay,
                            "minimised_choices": mj["choices"], "recorded_choices": mj["from"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": COMMON_ASSUMPTIONS + PROPS[prop].get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {k['what']} (met {d['known'].get(k['class'], 0)} times in this run)")
    print(f"{prop}: {runs} runs in {d['wall']:.1f}s (build {tbuild:.1f}s), {d['completed']} completed, "
          f"{d['states']} distinct states, seed {seed}")
    if violations:
        print(f"violation: {v['message'][:1500]}")
        print(f"seed {seed}, run {v['run']}; minimised from {mj['from']} to {mj['choices']} choices; "
              f"replay with: {os.path.relpath(exe, VERIF)} replay --verbose --file={replay}")
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:  # never let trouble in the check look like a verdict
        import traceback
        traceback.print_exc()
        fail(str(e))
