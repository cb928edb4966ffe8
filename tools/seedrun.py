"""seedrun.py [ids]: applies each planted change to a scratch copy of /repo and runs the check of its property on it."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="seedrun-", dir="/tmp")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        p = subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return i, meta["property"], "patch does not apply", 0, ""
        t = time.time()
        p = subprocess.run([sys.executable, "-m", "sa.check", meta["property"], "--root", r], cwd=V, capture_output=True, text=True, timeout=900)
        line = next((l.strip() for l in p.stdout.splitlines() if l.strip().startswith("violated")), "")
        und = next((l.strip() for l in p.stdout.splitlines() if l.strip().startswith("undecided")), "")
        ok = p.returncode == 1 and f"VIOLATION property={meta['property']}" in p.stdout
        return i, meta["property"], "CAUGHT" if ok else f"missed rc={p.returncode}", time.time() - t, (line or und or p.stderr[-300:])[:330]
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
n = 0
with concurrent.futures.ThreadPoolExecutor(7) as ex:
    for i, p, verdict, t, line in ex.map(one, ids):
        n += verdict == "CAUGHT"
        print(f"{i:28} {p} {verdict} {t:.0f}s  {line}", flush=True)
print(n, "of", len(ids))
