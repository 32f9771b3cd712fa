"""Plant bugs: for each spec confirm (scratch copies) that the change applies, the
stable tests pass, the demo passes without it and fails with it; then write
/verif/seeded/<id>/.   usage: plant.py SPECFILE [id ...] [-j N]"""
import json, os, shutil, subprocess, sys, importlib.util
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu",
           MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
SEED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def demo(path, repo):
    env = dict(ENV, PYTHONPATH=repo)
    return sh([PY, "-W", "ignore", path], repo, env, 300)


def plant(spec):
    sid = spec["id"]
    work = f"/tmp/pl/{sid}"
    shutil.rmtree(work, ignore_errors=True)
    sh(["cp", "-a", "/repo", work], "/tmp")
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, f"EDIT: {f}: {s.count(old)} matches for {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], work).stdout
        d = f"/tmp/pl/{sid}.demo.py"
        open(d, "w").write(spec["demo"].lstrip("\n"))
        r = demo(d, "/repo")
        if r.returncode != 0:
            return sid, "DEMO fails on clean tree: " + (r.stderr + r.stdout)[-600:]
        r = demo(d, work)
        if r.returncode == 0:
            return sid, "DEMO passes with the bug"
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], work, dict(ENV, PYTHONPATH=work))
        if t.returncode != 0:
            return sid, "TESTS fail: " + t.stdout[-500:]
        out = f"{SEED}/{sid}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        return sid, "ok"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    n = 6
    if "-j" in a:
        i = a.index("-j"); n = int(a[i + 1]); del a[i:i + 2]
    sp = importlib.util.spec_from_file_location("specs", a[0])
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    specs = [s for s in m.SPECS if not a[1:] or s["id"] in a[1:]]
    os.makedirs("/tmp/pl", exist_ok=True)
    with ThreadPoolExecutor(n) as ex:
        for sid, msg in ex.map(plant, specs):
            print(sid, msg, flush=True)


if __name__ == "__main__":
    main()
