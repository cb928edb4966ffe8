"""Compares the analyser's reading of small programs (tools/snippets.py) with what Python computes for them.

Not part of any check: a test of the machinery.  Usage: selftest.py [names]"""
import importlib.util, json, math, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import ast
only = sys.argv[1:]
root = tempfile.mkdtemp()
os.mkdir(root + "/bfit")
SRC = root + "/bfit/snippets.py"
open(root + "/bfit/__init__.py", "w").close()
mod, texts, body = ast.parse(open(V + "/tools/snippets.py").read()), {}, []
for f in mod.body:
    last = f.body[-1] if isinstance(f, ast.FunctionDef) and f.name.startswith("t_") else None
    if last is None or not isinstance(last, ast.Return) or not isinstance(last.value, ast.Tuple) or any(isinstance(e, ast.Starred) for e in last.value.elts):
        if last is None or not only or f.name[2:] in only:
            body.append(f)
        continue
    if only and f.name[2:] not in only:
        continue
    import copy
    for k, e in enumerate(last.value.elts):
        g = ast.FunctionDef(f"{f.name}__{k:02d}", f.args, f.body[:-1] + [ast.Return(e)], [], None, None)
        g.type_params = []
        texts[g.name] = ast.unparse(e)
        body.append(copy.deepcopy(g))
mod.body = body
open(SRC, "w").write(ast.unparse(ast.fix_missing_locations(mod)))

PROG = r'''
import sys, json
sys.path.insert(0, %r)
import numpy as np, snippets
def conv(v):
    if isinstance(v, (list, tuple)): return [conv(x) for x in v]
    if isinstance(v, dict): return [[conv(k), conv(x)] for k, x in v.items()]
    if isinstance(v, np.ndarray): return conv(v.tolist())
    if isinstance(v, (bool, np.bool_)): return float(v)
    if isinstance(v, (int, float, np.number)): return float(v)
    return v if v is None or isinstance(v, str) else "?" + type(v).__name__
out = {}
for n in dir(snippets):
    if n.startswith("t_"):
        try: out[n] = conv(getattr(snippets, n)())
        except Exception as e: out[n] = "!" + type(e).__name__
print(json.dumps(out))
''' % os.path.dirname(SRC)
real = json.loads(subprocess.run([os.environ.get("PY", "/opt/venv/bin/python"), "-c", PROG], capture_output=True, text=True, check=True).stdout)

from sa.core import Chk, World
from sa.interp import AbsRaise, Ref
from sa.arr import Raised, Unknown
from sa import arr as AR
from sa.values import *
from sa.terms import set_facts, Facts, ev, Env


def num(p):
    c = p.const()
    if c is not None:
        return float(c) if not isinstance(c, complex) else c
    try:
        return float(ev(p, Env(1)))
    except Exception as e:
        return f"?{p}"


def conv(I, v):
    if isinstance(v, Sc):
        return num(v.p)
    if isinstance(v, bool) or isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, tuple):
        return [conv(I, x) for x in v]
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ListO):
            return [conv(I, x) for x in I.iterate(v)]
        if isinstance(o, DictO):
            return [[conv(I, I.unkey(k)), conv(I, x)] for k, x in o.items.items()]
        if isinstance(o, ArrO):
            a = I.to_arr(v)
            for d in range(a.ndim):
                a = AR.explode(a, d)
            if a.sel is not None:
                return "?selection"
            def rec(pre):
                if len(pre) == a.ndim:
                    return num(a.cells[pre])
                return [rec(pre + (i,)) for i in range(len(a.ax[len(pre)]))]
            return rec(())
    return f"?{type(v).__name__}" + (f" {v.why}" if isinstance(v, Opq) else "")


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or math.isnan(a) and math.isnan(b) or abs(a - b) <= 1e-9 * max(1, abs(b))
    return a == b


bad = wrong = n = 0
for name, want in sorted(real.items()):
    n += 1
    c = Chk("SELF", root, "quick", 1)
    w = World(c, "x")
    set_facts(w.I.st.facts)
    try:
        o = w.I.run(lambda: w.call(w.ns("snippets", name)))
        if o.exc is not None:
            from sa.core import clsname
            got = "!" + clsname(o.exc)
        else:
            got = conv(w.I, o.value)
    except Exception as e:
        got = f"?{type(e).__name__}: {e}"
        if os.environ.get("TB"):
            import traceback
            traceback.print_exc()
    if not close(got, want):
        vague = "?" in json.dumps(got, default=str)
        bad += 1
        wrong += not vague
        print(("vague " if vague else "WRONG ") + name, texts.get(name, "")[:90], "| computed", str(want)[:90], "| analysed", str(got)[:120])
print(f"{n} programs, {bad} not reproduced, {wrong} wrong")
shutil.rmtree(root)
sys.exit(wrong > 0)
