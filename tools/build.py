"""Builds the drivers against /repo's current working tree."""
import glob, os, shutil, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = "/repo/target"


def repo_env():
    """The environment of /opt/vp/svm-env.sh (toolchain, vendored crates)."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/svm-env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    env = dict(x.split("=", 1) for x in out.decode(errors="replace").split("\0") if "=" in x)
    env.pop("VERIF_TIER", None)
    return env


def driver(name):
    """-> (binary, None) or (None, error text). Path crates are always recompiled."""
    env = repo_env()
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    for pat in ("svm-*", f"drv-{name}-*", "vcommon-*"):
        for d in glob.glob(os.path.join(fp, pat)):
            shutil.rmtree(d, ignore_errors=True)
    d = os.path.join(VERIF, "drivers", name)
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=d, env=env, capture_output=True, text=True)
    b = os.path.join(TARGET, "debug", f"drv-{name}")
    if p.returncode != 0 or not os.path.exists(b):
        return None, p.stdout[-2000:] + p.stderr[-4000:]
    return b, None
