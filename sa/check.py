"""python3 -m sa.check ID [--tier quick|thorough] [--root /repo]"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(12000)


def main(argv, share=(0, 1), send=None, parts=None, started=0.0):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args(argv)
    from sa.rules import RULES, load_all
    from sa.core import Chk, Anchor
    load_all()
    tier = a.tier or "quick"
    c = Chk(a.pid, a.root, tier, a.seed)
    if parts is not None:
        broken = [p["broken"] for p in parts if p.get("broken")]
        if broken:
            print(f"[{a.pid}] analysis broken: {broken[0]}")
            return 2
        c.t0 = started
        c.merge(parts)
        return c.finish()
    c.worker, c.workers = share
    CURRENT.append(c)
    try:
        for r in RULES[a.pid]:
            r(c)
    except Anchor as e:
        send({"broken": str(e)})
        return 2
    send(c.export())
    return 0


CURRENT = []


def watch(t):
    """Interrupt a context that exceeds its time limit."""
    import ctypes
    import time
    from sa.core import TimeUp
    while t.is_alive():
        t.join(0.25)
        d = CURRENT[0].deadline if CURRENT else None
        if d is not None and time.time() > d:
            CURRENT[0].deadline = None
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(TimeUp))


def worker(k, n, out):
    """One of n processes that share the contexts of a check; writes its results to a file."""
    import pickle
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def send(d):
        with open(out + ".part", "wb") as f:
            pickle.dump(d, f)
        os.rename(out + ".part", out)

    def go():
        try:
            res.append(main(sys.argv[1:], share=(k, n), send=send))
        except SystemExit as e:
            res.append(e.code or 0)
        except BaseException:
            traceback.print_exc()
            res.append(4)
    t = threading.Thread(target=go)
    t.start()
    watch(t)
    sys.stdout.flush()
    os._exit(res[0] if res else 5)


def run():
    import pickle
    import shutil
    import tempfile
    import time
    t0 = time.time()
    n = int(os.environ.get("SA_JOBS", "8"))
    d = tempfile.mkdtemp(prefix="sa-check-")
    try:
        pids = []
        for k in range(n):
            p = os.fork()
            if p == 0:
                worker(k, n, os.path.join(d, str(k)))
            pids.append(p)
        bad = 0
        for p in pids:
            st = os.waitstatus_to_exitcode(os.waitpid(p, 0)[1])
            if st not in (0, 2):
                bad = st if st > 0 else 5
        if bad:
            print("analysis broken: a part of it ended without a result")
            return bad
        parts = [pickle.load(open(os.path.join(d, str(k)), "rb")) for k in range(n)]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return main(sys.argv[1:], parts=parts, started=t0)


if __name__ == "__main__":
    r = run()
    sys.stdout.flush()
    os._exit(r)
