"""refrun.py GROUP [ids]: applies a group of behaviour-preserving edits to a scratch copy, runs the stable tests and the checks on it."""
import ast, re, concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from refactors import REF

group, only = sys.argv[1], [a for a in sys.argv[2:] if a != "--notest"]
r = f"/tmp/ref.{group}"
shutil.rmtree(r, ignore_errors=True)
shutil.copytree("/repo", r, symlinks=True)
for e in REF[group]:
    p = f"{r}/{e[0]}"
    s = open(p).read()
    # docstrings etc. stay: the old text has to be present exactly as often as stated
    n = e[3] if len(e) > 3 else 1
    pat = re.compile(r"\n(?:[ \t]*\n)*".join(re.escape(l) for l in e[1].split("\n") if l.strip() or l is e[1].split("\n")[-1]))
    k = len(pat.findall(s))
    if k < 1 or (n > 1 and k != n):
        print("edit not applicable:", e[0], k, repr(e[1][:90])); continue
    if n == -1:      # all but the first occurrence
        cnt = iter(range(99))
        s = pat.sub(lambda m: e[2] if next(cnt) else m.group(0), s)
    else:
        s = pat.sub(lambda m: e[2], s, count=0 if n > 1 else 1)
    ast.parse(s)
    open(p, "w").write(s)
if "--notest" not in sys.argv:
    p = subprocess.run([os.environ.get("PY", "/opt/venv/bin/python"), "-m", "pytest", "-q", "-n", "4", "--no-cov", "--randomly-seed=1", "--randomly-dont-reorganize", "-o", f"cache_dir={r}.cache", "bfit/test"], cwd=r,
                       env=dict(os.environ, PYTHONPATH=r), capture_output=True, text=True)
    print("tests:", (p.stdout.strip() or p.stderr.strip()).split("\n")[-1])
ids = only or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def one(i):
    t = time.time()
    p = subprocess.run([sys.executable, "-m", "sa.check", i, "--root", r], cwd=V, capture_output=True, text=True)
    open(f"/tmp/ref.{group}.{i}.txt", "w").write(p.stdout + p.stderr)
    und = [l for l in p.stdout.splitlines() if l.startswith("  undecided")]
    return i, p.returncode, len(und), time.time() - t, next((l.strip() for l in p.stdout.splitlines() if l.startswith("  violated")), und[0] if und else "")


with concurrent.futures.ThreadPoolExecutor(7) as ex:
    for i, rc, und, t, line in ex.map(one, ids):
        if rc or und or t > 150:
            print(f"{group} {i} rc={rc} undecided={und} {t:.0f}s {line[:420]}", flush=True)
print(group, "done")
