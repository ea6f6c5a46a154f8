#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current working tree.

Two things run side by side:
  * the proof: contracts on the functions of /repo, discharged by Verus or Kani (see proofs/), and
  * the search: a driver linked against /repo's crates that looks for a concrete failing input and can replay it.

Verdict (see DESIGN.md):
  search found a failing input                 -> VIOLATION, exit 1, the replay file holds input, trace and command
  an obligation fails with a counterexample    -> VIOLATION, exit 1 (the replay was run on the real code)
  an obligation definitely fails, no input     -> VIOLATION ... no-failing-input-found, exit 1
  everything else (discharged, or the source is out of the extractor's reach) -> exit 0 as long as the search ran
"""
import json, os, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = "/repo"
EVID = os.path.join(VERIF, "evidence")
WORK = os.path.join(VERIF, "work")

from proofs import kani_run, procs, registry  # noqa: E402
from tools import build      # noqa: E402

DRIVERS = {  # property -> drivers searching for failing inputs
    "C01": ["state"], "C02": ["state"], "C03": ["state"], "C04": ["state"], "C05": ["state", "runtime"],
    "C06": ["runtime"], "C07": ["runtime"], "C08": ["runtime"], "C09": ["runtime"], "C10": ["runtime"],
    "C11": ["gas"], "C12": ["gas"], "C13": ["codec"], "C14": ["codec"], "C15": ["codec"],
    "C16": ["sdk"], "C17": ["sdk"], "C18": ["sdk"], "C19": ["ffi"],
}


def log(*a):
    print(*a, flush=True)


def run_driver(name, prop, seed, tier):
    """-> dict(status=ok|violation|broken, ...)"""
    t0 = time.time()
    binary, err = build.driver(name)
    t_build = time.time() - t0
    if binary is None:
        return {"driver": name, "status": "nobuild", "detail": err, "build_s": t_build}
    shards = 8
    secs = 25 if tier == "quick" else 400
    procs = []
    for i in range(shards):
        cmd = [binary, prop, "--seed", str(seed), "--secs", str(secs), "--shards", str(shards), "--shard", str(i)]
        if tier == "thorough":
            cmd.append("--thorough")
        out = open(os.path.join(WORK, f"drv-{name}-{prop}-{i}.out"), "w+")
        pre = ["taskset", "-c", str(i % (os.cpu_count() or 8))] if os.path.exists("/usr/bin/taskset") else []
        procs.append((subprocess.Popen(pre + cmd, stdout=out, stderr=subprocess.STDOUT, cwd=WORK), out, cmd))
    cases = checks = flaky = 0
    fails, broken = [], []
    deadline = time.time() + secs * 3 + 60
    for p, out, cmd in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        out.seek(0)
        text = out.read()
        out.close()
        if p.returncode == 3:
            fails.append(text)
        elif p.returncode == 0:
            for line in text.splitlines():
                if line.startswith("DONE "):
                    kv = dict(x.split("=", 1) for x in line.split()[1:])
                    cases += int(kv["cases"])
                    checks += int(kv["checks"])
                    flaky += int(kv["not_reproducible"])
        else:
            how = "it does not terminate" if p.returncode == -9 else f"the process dies (exit {p.returncode})"
            case = find_killer(cmd, secs)
            if case:
                fails.append(f"FAIL property={prop}: {how}\n{text[-600:]}\nREPLAY {' '.join(case)}\n")
            else:
                broken.append(f"exit {p.returncode}: " + text[-600:])
    r = {"driver": name, "cases": cases, "checks": checks, "not_reproducible": flaky,
         "build_s": round(t_build, 1), "secs": round(time.time() - t0 - t_build, 1)}
    if fails:
        # a child that dies of a stack overflow or an abort is not a FAIL line: only reproducible cases are
        r.update(status="violation", detail=fails[0], failing_shards=len(fails))
    elif broken:
        r.update(status="broken", detail=broken[0], broken_shards=len(broken))
    else:
        r.update(status="ok")
    return r


def find_killer(cmd, secs):
    """The single case that kills the driver (or hangs it), confirmed twice; None when there is none."""
    def run(c, limit):
        try:
            p = subprocess.run(c, cwd=WORK, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit)
            return p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return "hang", (e.stdout or b"").decode(errors="replace")
    rc, out = run(cmd + ["--announce"], secs + 60)
    last = [x for x in out.splitlines() if x.startswith("CASE ")]
    if rc in (0, 3) or not last:
        return None
    _, part, case = last[-1].split()
    i = cmd.index("--secs")
    single = cmd[:i] + ["--part", part, "--case", case]
    for _ in range(2):
        rc, _ = run(single, 60)
        if rc in (0, 2, 3):
            return None
    return single


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    os.makedirs(WORK, exist_ok=True)

    proof_res = {}

    def prove():
        try:
            proof_res["r"] = registry.prove(prop, tier, WORK)
        except procs.Stopped:
            proof_res["r"] = {"units": [], "stopped": True}
        except Exception:
            proof_res["r"] = {"units": [], "crash": traceback.format_exc()}

    th = threading.Thread(target=prove)
    th.start()
    drv = [run_driver(d, prop, seed, tier) for d in DRIVERS[prop]]
    if any(d["status"] == "violation" for d in drv):
        procs.stop_all()  # decided: the failing input is there
    th.join()
    pr = proof_res["r"]
    units = pr["units"]

    violations = []  # (replay path, note)
    for d in drv:
        if d["status"] == "violation":
            path = os.path.join(EVID, "replays", f"{prop}-{d['driver']}.txt")
            with open(path, "w") as f:
                f.write(f"Property {prop} fails on the real code (driver {d['driver']}).\n\n{d['detail']}\n")
            violations.append((path, ""))
    # obligations
    n_obl = sum(u["obligations"] for u in units)
    n_dis = sum(u["discharged"] for u in units)
    for u in units:
        if u["status"] == "refuted":
            path = os.path.join(EVID, "replays", f"{prop}-{u['name']}.txt")
            if u.get("kind") == "kani" and not violations:
                u["detail"] += kani_run.counterexample(u)
            with open(path, "w") as f:
                f.write(f"Property {prop}: obligation(s) no longer hold: {', '.join(u['failed'])}\n"
                        f"back end: {u['backend']}\ncommand: {u['cmd']}\n\n{u['detail']}\n")
            if not violations:
                violations.append((path, " no-failing-input-found"))

    proved_units = [u for u in units if u["status"] == "proved" and not u.get("bound")]
    bounded_units = [u for u in units if u.get("bound")]
    undecided = [u for u in units if u["status"] in ("undecided", "lost")]
    assumptions = sorted({a for u in units for a in u.get("assumptions", [])})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": registry.level(prop),
        "coverage": {
            "obligations": n_obl, "discharged": n_dis,
            "checker_cmd": f"python3 /verif/run.py {prop} --tier {tier}",
            "back_end_cmds": sorted({u["cmd"] for u in units if u.get("cmd")}),
            "trusted_base": registry.trusted_base(prop),
            "functions_under_contract": sorted({f for u in units for f in u.get("functions", [])}),
            "proved_for_all_inputs": [brief(u) for u in proved_units],
            "bounded": [brief(u) for u in bounded_units],
            "undecided_on_this_tree": [brief(u) for u in undecided],
            "search": [{k: v for k, v in d.items() if k != "detail"} for d in drv],
            "samples": [f"{d['driver']}: {d.get('cases', 0)} cases, {d.get('checks', 0)} checks" for d in drv],
            "evaluations": sum(d.get("cases", 0) for d in drv),
            "distinct_nontrivial": sum(d.get("checks", 0) for d in drv),
            "rule": "evaluations: generated histories or inputs; distinct_nontrivial: comparisons against the oracle made in them",
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    if pr.get("crash"):
        evidence["coverage"]["prover_crash"] = pr["crash"][-2000:]
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for line in known_findings(prop):
        log(line)
    for d in drv:
        log(f"search {d['driver']}: {d['status']} cases={d.get('cases')} checks={d.get('checks')} "
            f"build={d['build_s']:.0f}s" + ("" if d["status"] in ("ok", "violation") else " " + d["detail"][-1500:]))
    for u in units:
        log(f"proof {u['name']}: {u['status']} {u['discharged']}/{u['obligations']} by {u['backend']} in {u.get('secs', 0):.1f}s"
            + (f" (bounded: {u['bound']})" if u.get("bound") else "")
            + ("" if u["status"] == "proved" else " :: " + u.get("detail", "")[-800:]))
    if pr.get("crash"):
        log("prover crashed:", pr["crash"])
    if violations:
        for path, note in violations:
            log(f"VIOLATION property={prop} replay={path}{note}")
        sys.exit(1)
    if any(d["status"] == "ok" for d in drv) and all(d["status"] in ("ok", "nobuild") for d in drv):
        sys.exit(0)
    if all(d["status"] == "nobuild" for d in drv) and proved_units and not undecided:
        sys.exit(0)
    sys.exit(2)


def brief(u):
    return {k: u[k] for k in ("name", "backend", "obligations", "discharged", "secs", "bound", "status", "functions", "failed")
            if u.get(k)}


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line:
                out.append(line.strip())
    return out


if __name__ == "__main__":
    main()
