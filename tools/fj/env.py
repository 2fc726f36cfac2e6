"""Scratch directories and builds of the program from /repo's working tree."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")

_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
            shutil.disk_usage("/dev/shm").free > 4 << 30 else None
        _tmp = tempfile.mkdtemp(prefix="fjv-", dir=base)
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def goenv():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["TMPDIR"] = tmp()
    return env


class BuildError(Exception):
    pass


def build(pkg=".", overlay=None, name="flatjsonl", flags=()):
    """Builds a package of the repository, returns the path of the program."""
    out = os.path.join(tmp(), name)
    cmd = ["go", "build", "-o", out, *flags]
    if overlay:
        fn = os.path.join(tmp(), name + ".overlay.json")
        with open(fn, "w") as f:
            json.dump({"Replace": overlay}, f)
        cmd += ["-overlay", fn]
    cmd.append(pkg)
    p = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True)
    if p.returncode != 0:
        raise BuildError(p.stderr.decode("utf-8", "replace"))
    return out


def log(*a):
    print(*a, file=sys.stderr, flush=True)
