"""Runs Kani harnesses on the overlay and classifies every failed check.

A harness is (name, mode):
  total     any failed check is a failure: the code must return
  may_abort panics are allowed outcomes (a program may abort), failed postconditions, overflow and invalid memory accesses are not
"""
import os, re, subprocess, time
from . import overlay, procs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env():
    e = dict(os.environ)
    e.update(CARGO_HOME="/opt/svm-env/cargo-home", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints=allow",
             CARGO_TARGET_DIR=os.path.join(VERIF, "work", "kani-target"))
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def classify(desc, mode):
    """-> 'post' (definite), 'panic', 'bound'"""
    if desc.startswith("unwinding assertion"):
        return "bound"
    if desc.startswith("POST"):
        return "post"
    if re.match(r"attempt to .* with overflow|arithmetic overflow|attempt to (add|subtract|multiply|shift|negate)", desc):
        return "post"
    if re.search(r"dereference failure|pointer (NULL|invalid|outside|to)|dead object|deallocated|misaligned|UB|undefined behavior|memcpy|memmove|"
                 r"must be called with a size|assumption|offset_from|precondition|same allocation", desc):
        return "post"
    return "panic"


def parse(text):
    """-> {harness: dict(checks, failed=[(desc, where)], covers=(ok, all), status, secs)}"""
    res, cur, t = {}, {}, None
    pend = None
    for line in text.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            cur[m[1]] = m[2]
            t = m[1]
            res[m[2]] = dict(checks=0, unreachable=0, failed=[], covers=(0, 0), status="none", secs=0.0)
            continue
        m = re.match(r"Thread (\d+): *$", line)
        if m:
            t = m[1]
            continue
        if t not in cur:
            continue
        r = res[cur[t]]
        m = re.match(r" \*\* (\d+) of (\d+) failed(?: \((?:(\d+) unreachable)?)?", line)
        if m:
            r["checks"] = int(m[2])
            r["unreachable"] = int(m[3] or 0)
        m = re.match(r" \*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["covers"] = (int(m[1]), int(m[2]))
        m = re.match(r"Failed Checks: (.*)", line)
        if m:
            pend = m[1]
            r["failed"].append([pend, ""])
        m = re.match(r" File: (.*)", line)
        if m and r["failed"]:
            r["failed"][-1][1] = m[1]
        m = re.match(r"VERIFICATION:- (\w+)", line)
        if m:
            r["status"] = m[1]
        if "timed out" in line.lower() or "CBMC failed" in line or "out of memory" in line.lower():
            r["status"] = "TIMEOUT"
        m = re.match(r"Verification Time: (\S+)s", line)
        if m:
            r["secs"] = float(m[1])
    return res


_overlay = None


def get_overlay():
    global _overlay
    if _overlay is None:
        _overlay = overlay.make(os.path.join(VERIF, "work", "overlay", "crates"))
    return _overlay


def run(crate, harnesses, name, functions, assumptions=(), timeout=300, jobs=8, bound=None):
    """harnesses: {name: mode}. -> unit"""
    t0 = time.time()
    edits = get_overlay()
    d = os.path.join(VERIF, "proofs", "kani", crate)
    cmd = ["cargo", "kani", "-Z", "unstable-options", "--harness-timeout", f"{timeout}s", "-j", str(jobs), "--output-format", "terse", "--exact"]
    for h in harnesses:
        cmd += ["--harness", h]
    out = procs.run(cmd, d, env())
    with open(os.path.join(VERIF, "work", f"kani-{crate}-{name}.log"), "w") as f:
        f.write(out)
    res = parse(out)
    unit = dict(name=name, backend="Kani 0.68 (CBMC 6.11)", cmd="cd /verif/proofs/kani/%s && %s" % (crate, " ".join(cmd[:2] + ["..."])),
                functions=list(functions), obligations=0, discharged=0, failed=[], detail="", status="proved",
                assumptions=list(assumptions) + [f"overlay edits for the newer compiler (see proofs/overlay.py): {', '.join(edits)}"],
                secs=0.0, bound=bound, dir=d, kind="kani", harnesses=len(harnesses))
    if not any(r["status"] != "none" for r in res.values()):
        unit.update(status="lost", detail="not built for the verifier: " + out[-1500:], obligations=len(harnesses))
        return unit
    for h, mode in harnesses.items():
        r = res.get(h)
        if r is None or r["status"] in ("none", "TIMEOUT"):
            unit["obligations"] += 1
            unit["status"] = "undecided" if unit["status"] == "proved" else unit["status"]
            unit["detail"] += f"{h}: no answer\n"
            continue
        unit["secs"] += r["secs"]
        n = r["checks"] - r["unreachable"]
        unit["obligations"] += n
        bad = [(desc, where, classify(desc, mode)) for desc, where in r["failed"]]
        if mode == "may_abort":
            bad = [b for b in bad if b[2] != "panic"]
        definite = [b for b in bad if b[2] != "bound"]
        unit["discharged"] += n - len(bad)
        if r["status"] == "FAILED" and not r["failed"]:
            unit["status"] = "undecided" if unit["status"] == "proved" else unit["status"]
            unit["detail"] += f"{h}: failed without a failed check\n"
        if definite:
            unit["status"] = "refuted"
            for desc, where, _ in definite:
                unit["failed"].append(f"{h}: {desc}")
                unit["detail"] += f"{h}: {desc} at {where}\n"
        elif bad:
            unit["status"] = "undecided" if unit["status"] == "proved" else unit["status"]
            unit["detail"] += f"{h}: bound exceeded\n"
        if not definite and (r["covers"][0] < r["covers"][1] or r["covers"][1] == 0):
            unit["status"] = "undecided" if unit["status"] == "proved" else unit["status"]
            unit["detail"] += f"{h}: vacuous (its end isn't reached)\n"
    unit["wall"] = time.time() - t0
    return unit


def counterexample(unit):
    """The verifier's counterexample as the bytes of the nondeterministic inputs. (The harness crates can't be run natively: the
    allocator the SDK crates install, wee_alloc, hangs in a threaded test binary. The drivers replay on the real code.)"""
    h = unit["failed"][0].split(": ")[0]
    try:
        cmd = ["cargo", "kani", "-Z", "concrete-playback", "--concrete-playback=print", "--output-format", "terse", "--exact", "--harness", h]
        p = subprocess.run(cmd, cwd=unit["dir"], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=150)
        tests = re.findall(r"```\n(.*?)```", p.stdout, re.S)
        return "\nCounterexample of the verifier (inputs of the harness in order):\n" + "\n".join(tests)
    except Exception as e:
        return f"\nno counterexample printed: {e}"
