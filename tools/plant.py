"""plant.py SPECS.py [ids]: turns bug specifications into seeded/<id>/, after confirming them in scratch copies of /repo.
A specification is a dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)."""
import concurrent.futures, json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def one(s):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        out = d + "/seed"
        os.mkdir(out)
        open(out + "/demo.py", "w").write(s["demo"].strip() + "\n")
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        p = sh(f"bash {out}/demo.sh", r, timeout=280)
        if p.returncode:
            return s["id"], "demo fails on the unchanged tree: " + (p.stdout + p.stderr)[-400:]
        for f, old, new in s["edits"]:
            t = open(f"{r}/{f}").read()
            if t.count(old) != 1:
                return s["id"], f"{f}: {t.count(old)} matches of {old[:60]!r}"
            open(f"{r}/{f}", "w").write(t.replace(old, new))
        diff = sh("git diff", r).stdout
        open(out + "/patch.diff", "w").write(diff)
        p = sh(f"bash {out}/demo.sh", r, timeout=280)
        if not p.returncode:
            return s["id"], "demo passes with the patch"
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONPATH=r)
        t = sh(f"/opt/venv/bin/python -m pytest -q -n 2 --no-cov --randomly-seed=1 --randomly-dont-reorganize -o cache_dir={d}/cache --timeout=300 bfit/test 2>&1 | tail -8",
               r, env=env)
        if " failed" in t.stdout or "error" in t.stdout.lower() or "127 passed" not in t.stdout:
            return s["id"], "tests: " + t.stdout[-700:]
        dst = f"{V}/seeded/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return s["id"], "kept; demo says: " + (p.stdout + p.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    specs = runpy.run_path(sys.argv[1])["SPECS"]
    want = sys.argv[2:]
    specs = [s for s in specs if not want or s["id"] in want]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, specs):
            print(i, m, flush=True)


main()
