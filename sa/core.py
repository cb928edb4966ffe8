"""Obligations, verdicts, witnesses, evidence and reporting shared by all rules."""
import ast
import json
import math
import os
import sys
import time
import traceback
from . import terms as T
from . import arr as AR
from .terms import (P, Poly, ONE, ZERO, NAN, INF, PI, Q, aid, atom, deep_atoms, sym, declare, is_zero, ev, Env, EvalError, short, show, TooBig,
                    facts, Facts, set_facts, has_ext, is_nan, ix, syminfo)
from .arr import Arr, Unknown, Raised
from .interp import Interp, Budget, AbsRaise, EXC_BASES
from .values import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Anchor(Exception):
    """A public anchor of a property is gone."""


class TimeUp(BaseException):
    """Raised by the watchdog when a context exceeds its time limit."""


class Give(Exception):
    """The rule cannot decide this context."""


def clsname(exc):
    if exc is None:
        return None
    c = exc.cls
    if isinstance(c, str):
        return c
    return getattr(c, "name", None) or str(c)


def is_sub(name, base):
    if name is None:
        return False
    name = name.split(".")[-1] if name not in EXC_BASES else name
    while name is not None:
        if name == base:
            return True
        name = EXC_BASES.get(name)
    return False


class Chk:
    def __init__(self, pid, root="/repo", tier="quick", seed=1):
        self.pid, self.root, self.tier, self.seed = pid, root, tier, seed
        self.obs = []
        self.funcs = {}
        self.callsites = set()
        self.notes = []
        self.anchors = []
        self.anchor_lines = {}
        self.ctxs = []
        self.t0 = time.time()
        self.worlds = 0
        self.cur = None
        self.deadline = None
        self.path_time = 120 if tier != "thorough" else 600
        self.limit, self.total = (60, 560) if tier != "thorough" else (240, 3000)
        self.worker, self.workers = 0, 1      # units of work (contexts, ladders) are shared out among processes
        self.unit, self.inside = -1, False

    thorough = property(lambda s: s.tier == "thorough")

    # ---------------------------------------------------------- anchors
    def anchor(self, mod, qual):
        """Locate a public definition; error exit if it vanished."""
        key = (mod, qual)
        if key in self.anchor_lines:
            return self.anchor_lines[key]
        path = os.path.join(self.root, "bfit", mod + ".py")
        try:
            tree = ast.parse(open(path).read())
        except (OSError, SyntaxError) as e:
            raise Anchor(f"bfit/{mod}.py: {e}")
        line = self._find(tree, qual.split("."))
        if line is None:
            raise Anchor(f"bfit/{mod}.py: {qual} not found")
        self.anchor_lines[key] = f"bfit/{mod}.py:{line}:{qual}"
        self.anchors.append(self.anchor_lines[key])
        return self.anchor_lines[key]

    def _find(self, tree, parts):
        body, classes = tree.body, {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}
        node = None
        for n in body:
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == parts[0]:
                node = n
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == parts[0] for t in n.targets):
                node = n
            elif isinstance(n, ast.ImportFrom) and any((al.asname or al.name) == parts[0] for al in n.names):
                node = n
        if node is None:
            return None
        if len(parts) == 1:
            return node.lineno
        if not isinstance(node, ast.ClassDef):
            return node.lineno
        seen, todo = set(), [node]
        while todo:
            c = todo.pop(0)
            if c.name in seen:
                continue
            seen.add(c.name)
            for n in ast.walk(c):
                if isinstance(n, ast.FunctionDef) and n.name == parts[1]:
                    return n.lineno
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == parts[1] for t in n.targets):
                    return n.lineno
            for b in c.bases:
                if isinstance(b, ast.Name) and b.id in classes:
                    todo.append(classes[b.id])
                elif isinstance(b, (ast.Name, ast.Attribute)):
                    nm = b.id if isinstance(b, ast.Name) else b.attr
                    if nm not in ("ABC", "object"):
                        return c.lineno
        return None

    # ---------------------------------------------------------- obligations
    def add(self, status, ctx, rule, where, detail="", witness=None):
        if self.worker and not self.inside:
            return      # outside the shared units: recorded by the first process only
        if status != "undecided" and self.cur is not None and self.cur.I.lost:
            status, detail = "undecided", f"after an effect that was not understood ({self.cur.I.lost[0][0]} at {self.cur.I.lost[0][1]}): {detail}"
        if status == "violation" and self.cur is not None and self.cur.I.unknowns:
            status, detail = "undecided", f"on a path through something not understood ({self.cur.I.unknowns[0]}): {detail}"
        if status == "violation" and witness is None and self.cur is not None and self.cur.I.oracle:
            witness = _witness(ONE, ZERO, (), self.seed)      # is the path feasible?
            if witness is None:
                status, detail = "undecided", "on a path that was not shown to be feasible: " + detail
        self.obs.append(dict(status=status, ctx=ctx, rule=rule, where=where, detail=detail, witness=witness, unit=self.unit))
        if os.environ.get("SA_TRACE") and status != "proven":
            print(f"  [{status}] {rule} @ {where} in <{ctx}>: {detail[:1500]}")

    def ok(self, ctx, rule, where, detail=""):
        self.add("proven", ctx, rule, where, detail)

    def bad(self, ctx, rule, where, detail, witness=None):
        self.add("violation", ctx, rule, where, detail, witness)

    def dunno(self, ctx, rule, where, detail=""):
        self.add("undecided", ctx, rule, where, detail)

    def note(self, s):
        if self.worker and not self.inside:
            return
        self.notes.append(s)

    # ---------------------------------------------------------- equality of terms
    def eq(self, ctx, rule, where, got, want, axes=(), what="value", gen=None, ndecide=True, tol=1e-6, domain=None):
        """Obligation got == want for terms (free index atoms range over axes)."""
        try:
            if axes:
                got, want = settle(got, axes), settle(want, axes)
            d = got - want if not (has_ext(got) or has_ext(want)) else None
            if got == want or (d is not None and is_zero(d)):
                self.ok(ctx, rule, where, f"{what} = {short(want, 200)}")
                return True
        except (TooBig, RecursionError):
            d = None
        w = witness(got, want, axes, self.seed, gen=gen, tol=tol, domain=domain, trials=240 if not self.thorough else 1200, limit=6.0 if not self.thorough else 30.0)
        if w is not None:
            self.bad(ctx, rule, where, f"{what}: computed {short(got, 700)} ; required {short(want, 700)}", w)
            return False
        self.dunno(ctx, rule, where, f"{what}: computed {short(got, 500)} ; required {short(want, 500)}")
        return None

    def eq_arr(self, ctx, rule, where, got, want, what="value", gen=None, tol=1e-6, domain=None):
        """Obligation: abstract arrays agree in shape and in every cell."""
        try:
            if got.sel is not None:
                raise Unknown("result length depends on the data")
            if want.ndim != got.ndim:
                self.bad(ctx, rule, where, f"{what}: result has {got.ndim} axes, required {want.ndim}",
                         {"computed_shape": str(got.shape()), "required_shape": str(want.shape())})
                return False
            for d in range(got.ndim):
                x, y = AR.axlen(got.ax[d]), AR.axlen(want.ax[d])
                if not is_zero(x - y):
                    w = witness(x, y, (), self.seed, gen=gen, domain=domain)
                    if w is None:
                        raise Unknown("shapes cannot be compared")
                    self.bad(ctx, rule, where, f"{what}: axis {d} has length {show(x)}, required {show(y)}", w)
                    return False
            dd = AR.diff_arrays(got, want)
        except (Unknown, TooBig, Raised) as e:
            self.dunno(ctx, rule, where, f"{what}: {e}")
            return None
        if dd is None:
            self.bad(ctx, rule, where, f"{what}: shape {got.shape()} instead of {want.shape()}")
            return False
        res = True
        for k, x, y, axs in dd:
            if any(a.const() == 0 for a in axs):
                continue
            r = self.eq(ctx, rule, where, x, y, axs, f"{what}{list(k) if len(dd) > 1 else ''}", gen=gen, tol=tol, domain=domain)
            if r is not True and res is not False:
                res = r
        return res

    def holds(self, ctx, rule, where, cond, what, axes=(), gen=None, domain=None):
        return self.eq(ctx, rule, where, T.b_name(cond) if isinstance(cond, Poly) else P(int(bool(cond))), ONE, axes, what, gen=gen,
                       domain=domain)

    # ---------------------------------------------------------- running a context
    def world(self, ctx, label=""):
        w = World(self, ctx)
        self.worlds += 1
        return w

    def paths(self, ctx, rule, where, fn, most=40):
        """As context, following each path of the analysed code on its own (no joins), nearest to the usual one first."""
        if not self.inside:
            return self.alone(lambda: self.paths(ctx, rule, where, fn, most))
        todo, n, good = [[]], 0, True
        while todo:
            oracle = todo.pop(0)
            if n >= most:
                self.dunno(ctx, rule, where, f"more than {most} paths")
                return None
            n += 1
            k = len(oracle)
            n0 = len(self.obs)
            good = self.context(f"{ctx}, path {n}", rule, where, fn, oracle) and good
            if any(o["status"] == "violation" for o in self.obs[n0:]):
                return False
            todo += [oracle[:i] + [1 - oracle[i]] for i in range(k, len(oracle))]
        return good

    def mine(self):
        """Is the next unit of work this process's?  Units are dealt out in a fixed order, one of each block to each process."""
        self.unit += 1
        if self.workers == 1:
            return True
        import random
        block, k = divmod(self.unit, self.workers)
        return random.Random(f"block {block}").sample(range(self.workers), self.workers)[k] == self.worker

    def alone(self, thunk):
        if not self.mine():
            return None
        self.inside = True
        try:
            return thunk()
        finally:
            self.inside = False

    def export(self):
        """What another process needs to merge this one's results."""
        return {"obs": json.loads(json.dumps(self.obs, default=str)), "funcs": sorted(self.funcs), "callsites": self.callsites, "notes": self.notes,
                "anchors": self.anchors, "ctxs": self.ctxs}

    def merge(self, parts):
        self.obs = sorted((o for p in parts for o in p["obs"]), key=lambda o: o["unit"])
        self.funcs = {k: True for p in parts for k in p["funcs"]}
        self.callsites = {k for p in parts for k in p["callsites"]}
        self.notes = [x for p in parts for x in p["notes"]]
        self.anchors = parts[0]["anchors"]
        self.ctxs = [x for _, x in sorted((u, x) for p in parts for u, x in p["ctxs"])]

    def context(self, ctx, rule, where, fn, oracle=None):
        if not self.inside:
            return self.alone(lambda: self.context(ctx, rule, where, fn, oracle))
        return self.context_(ctx, rule, where, fn, oracle)

    def context_(self, ctx, rule, where, fn, oracle=None):
        """Run fn(World) for one context; anything not understood leaves the context undecided."""
        if time.time() - self.t0 > self.total:
            self.dunno(ctx, rule, where, "not analysed: overall time limit")
            return False
        w = self.world(ctx)
        began = time.time()
        w.I.oracle = oracle
        STRICT[0] = oracle is not None
        n0 = len(self.obs)
        set_facts(w.I.st.facts)
        try:
            self.deadline = time.time() + self.limit
            fn(w)
            self.deadline = None
            if oracle is not None and w.I.impossible():
                # no input follows this path
                del self.obs[n0:]
        except Anchor:
            raise
        except TimeUp:
            self.dunno(ctx, rule, where, f"not decided within {self.limit} s")
        except (Unknown, Give, TooBig, Budget) as e:
            self.dunno(ctx, rule, where, f"{type(e).__name__}: {e}" + (f" [{w.I.unknowns[:3]}]" if w.I.unknowns else ""))
        except (Raised, AbsRaise) as e:
            self.dunno(ctx, rule, where, f"raise in the rule: {e}")
        except RecursionError:
            self.dunno(ctx, rule, where, "recursion limit")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if os.environ.get("SA_TB"):
                traceback.print_exc()
            self.dunno(ctx, rule, where, f"internal: {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        finally:
            self.deadline = None
            set_facts(Facts())
            self.absorb(w)
        if os.environ.get("SA_TIME"):
            print(f"  {time.time() - began:6.1f} s  {rule}: {ctx}", flush=True)
        self.ctxs.append((self.unit, ctx))
        new = self.obs[n0:]
        return all(o["status"] == "proven" for o in new) and bool(new)

    def absorb(self, w):
        for k, v in w.I.visited_funcs.items():
            if not k[0].startswith("<"):
                self.funcs[k] = v
        self.callsites |= w.I.callsites

    def ladder(self, variants, rule, where, fn, smallest=True):
        """variants: list of (ctx, arg). The first one that is fully decided wins (symbolic first); earlier undecided
        obligations of superseded variants are kept only as notes."""
        if not self.inside:
            return self.alone(lambda: self.ladder(variants, rule, where, fn, smallest))
        for i, (ctx, arg) in enumerate(variants):
            n0 = len(self.obs)
            good = self.context(ctx, rule, where, lambda w: fn(w, arg))
            new = self.obs[n0:]
            if good and smallest and arg == "fixed" and not self.smallest(ctx, rule, where, fn):
                return False
            if good and not self.thorough:
                return True
            if any(o["status"] == "violation" for o in new):
                return False
            if good:
                continue
            und = [o for o in new if o["status"] == "undecided"]
            self.notes.append(f"{ctx}: undecided ({und[0]['detail'][:160] if und else 'nothing decided'}), retried "
                              + ("with fixed sizes" if i + 1 < len(variants) else "path by path"))
            if i + 1 == len(variants) and self.path_time > 0:
                t = time.time()
                r = self.paths(ctx, rule, where, lambda w: fn(w, arg))
                self.path_time -= time.time() - t
                if r is None and len(self.obs) > n0 + len(new):
                    del self.obs[n0 + len(new):]
                    return None
                del self.obs[n0:n0 + len(new)]
                return r
            if i + 1 < len(variants):
                del self.obs[n0:]
        return None

    def smallest(self, ctx, rule, where, fn):
        """A statement decided for fixed sizes only is also looked at for one point and for one of each; what is not decided
        there stays with the fixed sizes."""
        for what in ("one point", "one of each"):
            n0 = len(self.obs)
            SIZE[0] = what
            try:
                self.context(f"{ctx}, {what}", rule, where, lambda w: fn(w, "fixed"))
            finally:
                SIZE[0] = None
            new = self.obs[n0:]
            if any(o["status"] == "violation" for o in new):
                return False
            und = [o for o in new if o["status"] == "undecided"]
            if und:
                self.notes.append(f"{ctx}, {what}: undecided ({und[0]['detail'][:160]})")
                del self.obs[n0:]
        return True

    # ---------------------------------------------------------- report
    def finish(self):
        known = load_known()
        n = {s: sum(o["status"] == s for o in self.obs) for s in ("proven", "violation", "undecided")}
        viol, kf = [], []
        for o in self.obs:
            if o["status"] != "violation":
                continue
            k = match_known(known, self.pid, o)
            (kf if k else viol).append((o, k))
        wall = time.time() - self.t0
        decided = n["proven"] + n["violation"]
        print(f"[{self.pid}] {self.tier}: {len(self.ctxs)} contexts, {len(self.obs)} obligations: {n['proven']} proven, "
              f"{n['violation']} violated, {n['undecided']} undecided; {len(self.funcs)} functions of bfit analysed, "
              f"{len(self.callsites)} call sites; {wall:.1f} s")
        for o in self.obs:
            if o["status"] == "undecided":
                print(f"  undecided: {o['rule']} at {o['where']} in <{o['ctx']}>: {o['detail'][:240]}")
        seen = set()
        for o, k in kf:
            if k["key"] not in seen:
                seen.add(k["key"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        replay = os.path.join(HERE, "evidence", f"{self.pid}.violation.json")
        if viol:
            json.dump([o for o, _ in viol], open(replay, "w"), indent=1, default=str)
            for o, _ in viol[:8]:
                print(f"  violated: {o['rule']} at {o['where']} in <{o['ctx']}>: {o['detail'][:420]}"
                      + (f" ; differs e.g. at {json.dumps(o['witness'], default=str)[:260]}" if o["witness"] else ""))
            print(f"VIOLATION property={self.pid} replay={replay}")
        elif os.path.exists(replay):
            os.unlink(replay)
        self.write_evidence(n, viol, kf, wall)
        if viol:
            return 1
        if decided == 0:
            print(f"[{self.pid}] analysis broken: no obligation was decided")
            return 3
        return 0

    def write_evidence(self, n, viol, kf, wall):
        from .meta import META
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o["rule"], {"proven": 0, "violation": 0, "undecided": 0, "sites": set()})
            r[o["status"]] += 1
            r["sites"].add(o["where"])
        doc = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": META[self.pid]["covers"] if self.pid in META else self.pid,
                "engine": "abstract interpretation of the syntax tree of /repo/bfit in a term domain (gated value numbering); "
                          "verdict by comparing the normal form computed by the code with the normal form of the specification",
                "contexts": self.ctxs, "n_contexts": len(self.ctxs),
                "obligations": len(self.obs), "discharged": n["proven"], "not_discharged": {k: v for k, v in n.items() if k != "proven"},
                "rules": {k: {**v, "sites": sorted(v["sites"])} for k, v in rules.items()},
                "functions_analysed": sorted(f"{k}" for k in self.funcs), "n_functions": len(self.funcs),
                "call_sites": len(self.callsites), "public_anchors": self.anchors,
                "undecided": [{k: o[k] for k in ("rule", "where", "ctx", "detail")} for o in self.obs if o["status"] == "undecided"],
                "known_findings_seen": sorted({k["key"] for _, k in kf}),
                "notes": self.notes[:40],
                "sample_obligations": [{k: o[k] for k in ("rule", "where", "ctx", "detail")} for o in self.obs if o["status"] == "proven"][:12],
            },
            "assumptions": ASSUME + META.get(self.pid, {}).get("assumes", []),
            "wall_s": round(wall, 3),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(doc, open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w"), indent=1, default=str)


ASSUME = [
    "Arithmetic is interpreted over the real numbers extended by NaN and infinity; floating-point rounding, overflow and underflow are outside the domain.",
    "Library functions (numpy, scipy, re, the standard library) behave as their documentation says; their models are in sa/npmodel.py.",
    "Functions named by the property are called directly on freshly constructed objects in the enumerated contexts; array sizes and all array elements are symbolic unless a context says otherwise.",
]


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []


def match_known(known, pid, o):
    for k in known:
        if k["property"] == pid and k["rule"] == o["rule"] and o["where"].split(":")[-1] == k["construct"] \
                and (not k.get("ctx") or k["ctx"] in o["ctx"]):
            return k
    return None


SIZE = [None]


def both(ctx):
    return [(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")]


def small(name, default):
    """The fixed size used for an axis: `default`, or one in the contexts with the smallest sizes."""
    return ONE if SIZE[0] == "one of each" or (SIZE[0] == "one point" and name == "N") else P(default)


# -------------------------------------------------------------------- witnesses
def settle(p, axes):
    """Decide the inequality literals of p that follow from the index bounds 0 <= index < axis length."""
    old = facts()
    f = old.copy()
    f.ge += [n - ONE - ix(d) for d, n in enumerate(axes)]
    set_facts(f)
    try:
        p = T.with_facts(p)
        for a in list(T.toplevel_bools(p)):
            t = T.atom(a)
            if t[0] == "iv" and t[1] == ">":
                if T.prove_gt0(t[2]):
                    p = T.restrict(p, a, 1)
                elif T.prove_ge0(-t[2]):
                    p = T.restrict(p, a, 0)
        return p
    finally:
        set_facts(old)


def free_syms(p, acc=None):
    return {a for a in deep_atoms(p) if T.atom(a)[0] == "sym"}


def _facts_ok(env):
    f = facts()
    try:
        for a, v in f.lits.items():
            t = T.atom(a)
            if t[0] == "ivs":
                if bool(T.ev_atom(a, env)) != bool(v):
                    return False
            elif bool(T.ev_atom(a, env)) != bool(v):
                return False
        for g in f.ge:
            if ev(g, env) < -1e-9:
                return False
    except (EvalError, OverflowError):
        return not STRICT[0]
    return True


def repair(env, rng, bound):
    """Move the valuation towards the decisions of the path being followed."""
    lits = [(T.atom(a)[1], T.atom(a)[2], v) for a, v in facts().lits.items() if T.atom(a)[0] == "iv"]
    for k in range(6):
        bad = False
        for op, p, v in lits:
            try:
                x = ev(p, env)
                if (x == 0 if op == "=" else x > 0) == bool(v):
                    continue
                bad = True
                inner = steps_of(deep_atoms(p)) if k % 2 and not (op == "=" and v) else []
                target(rng.choice(inner) if inner else p, env, rng, bound, 0 if op == "=" and v else 6 if inner else None)
                env.memo.clear()
            except (EvalError, OverflowError, ZeroDivisionError, ValueError):
                return
        if not bad:
            return


STRICT = [False]      # facts of a single path: a valuation counts only if every fact can be evaluated


def _witness(*a, **k):
    return witness(*a, **k)


def witness(got, want, axes, seed, gen=None, tol=1e-6, domain=None, trials=240, limit=6.0):
    """A valuation at which the two terms have different values (None if none was found)."""
    import random
    try:
        ivs = steps_of(deep_atoms(got) | deep_atoms(want))
    except RecursionError:
        return None
    t0 = time.time()
    SOLVE[0] = limit / 20
    for t in range(trials):
        if t >= 40 and time.time() - t0 > limit:
            break
        rng = random.Random(f"{seed}/{t}")
        env = Env((seed, t))
        if gen:
            gen(env, rng, t)
        try:
            # index values inside the axes
            bound = {}
            bad = False
            for d, n in enumerate(axes):
                m = T._rint(ev(n, env))
                if m <= 0:
                    bad = True
                    break
                bound[aid(("ix", d))] = rng.randrange(m)
            if bad:
                continue
            env.bound.update(bound)
            if ivs and t % 3:
                for p in rng.sample(ivs, min(len(ivs), 1 + t % 4)):
                    target(p, env, rng, bound)
                env.memo.clear()
            if STRICT[0]:
                repair(env, rng, bound)
            env.shaky = False
            if not _facts_ok(env):
                continue
            if any(not 0 <= env.bound[aid(("ix", d))] < ev(n, env) for d, n in enumerate(axes)):
                continue
            if domain is not None and not domain(env):
                continue
            x, y = ev(got, env), ev(want, env)
            if env.shaky:
                continue
        except EvalError as e:
            if os.environ.get("SA_TRACE"):
                print("   no witness:", e)
            return None
        except (OverflowError, ZeroDivisionError, ValueError, TypeError) as e:
            if os.environ.get("SA_TRACE"):
                print("   no value:", repr(e))
            continue
        x, y = float(x), float(y)
        if math.isnan(x) and math.isnan(y):
            continue
        if x == y:
            continue
        if math.isinf(x) and math.isinf(y):
            continue
        if math.isnan(y) or math.isinf(y):
            if not has_ext(want) and not _definite_ext(want):
                continue      # the specification itself is undefined here
        if math.isnan(x) or math.isinf(x):
            pass
        elif abs(x - y) <= tol * (1 + max(abs(x), abs(y))) and not math.isnan(y) and not math.isinf(y):
            # small: it counts if it is large relative to the values and cannot be explained by rounding
            if abs(x - y) <= max(1e-3 * tol * max(abs(x), abs(y)), 1e-100):
                continue
            try:
                if not abs(x - y) > 1e3 * (T.everr(got, env) + T.everr(want, env)):
                    continue
            except (EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError):
                continue
        syms = {}
        for a in sorted(free_syms(got) | free_syms(want)):
            tt = T.atom(a)
            if not tt[2]:
                syms[tt[1]] = round(float(env.symval(tt[1], ())), 6)
            elif len(syms) < 12:
                try:
                    idx = tuple(T._rint(ev(i, env)) for i in tt[2])
                    syms[f"{tt[1]}[{','.join(map(str, idx))}]"] = float(f"{env.symval(tt[1], idx):.6g}")
                except EvalError:
                    pass
        return {"symbols": syms, "index": {T.show(T.atom_poly(k)): v for k, v in env.bound.items() if k in bound},
                "computed": x, "required": y}
    return None


def _definite_ext(p):
    return is_nan(p)


def steps_of(atoms):
    """Terms whose sign decides something: comparison literals, and the difference of the two sides of a maximum or minimum."""
    out = []
    for a in sorted(atoms):
        t = T.atom(a)
        if t[0] == "iv":
            out.append(t[2])
        elif t[0] == "fn" and t[1] in ("max", "min") and len(t[2]) == 2:
            out.append(t[2][0] - t[2][1])
        elif t[0] == "fn" and t[1] == "abs":
            out.append(t[2][0])
    k = 0
    while k < len(out) < 60:
        for m in out[k].t:
            for a, e in m:
                t = T.atom(a)
                if t[0] == "fn" and t[1] in ("max", "min") and e == 1 and len(m) == 1:
                    for x in t[2]:
                        q = out[k] - Poly({m: out[k].t[m]}) + x * P(out[k].t[m])
                        if q not in out:
                            out.append(q)
        k += 1
    return out


def target(p, env, rng, bound, mode=None):
    """Try to move a term to zero, next to it, or between zero and its present value, by re-solving one symbol."""
    syms = sorted(a for a in deep_atoms(p) if T.atom(a)[0] == "sym" and syminfo(T.atom(a)[1]).gen is None)
    if not syms:
        return
    lin = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in syms:
            lin[m[0][0]] = c
    if not lin and SOLVE[0] <= 0:
        return
    s = rng.choice(sorted(lin)) if lin and (SOLVE[0] <= 0 or rng.random() < 0.85) else rng.choice(syms)
    ts = T.atom(s)
    info = syminfo(ts[1])
    tmp = {}
    for q in (p, *ts[2]):
        for a in deep_atoms(q):
            t = T.atom(a)
            if t[0] in ("bv", "lv", "ix") and a not in env.bound:
                tmp[a] = next(iter(bound.values()), 0)
    env.bound.update(tmp)
    env.memo.clear()

    def put(v):
        if not idx:
            env.sizes[ts[1]] = v
            env.values[(ts[1], ())] = v
        else:
            env.values[(ts[1], idx)] = v

    try:
        idx = tuple(T._rint(ev(i, env)) for i in ts[2])
        rest = p - Poly({((s, 1),): lin[s]}) if s in lin else None
        if rest is not None and s not in deep_atoms(rest):
            v = -ev(rest, env) / float(lin[s])
        else:
            if SOLVE[0] <= 0:
                return
            t1 = time.time()
            try:
                v = solve1(p, env, put, env.symval(ts[1], idx), info, rng)
            finally:
                SOLVE[0] -= time.time() - t1
            if v is None:
                return
    except (EvalError, OverflowError, ZeroDivisionError, ValueError):
        return
    finally:
        for a in tmp:
            env.bound.pop(a, None)
        env.memo.clear()
    if mode is None:
        mode = rng.randrange(7)
    if mode == 1:
        v += rng.random() * max(abs(v), 1e-3)
    elif mode == 2:
        v -= rng.random() * max(abs(v), 1e-3)
    elif mode == 3:
        v += rng.choice((-1, 1)) * (0.3 + rng.random())
    elif mode == 4:
        v *= rng.random()
    elif mode == 5:
        v *= 1 + rng.random()
    elif mode == 6:
        v += rng.choice((-1, 1)) * 10.0 ** rng.uniform(-12, 3)
    if info.integer:
        v = round(v)
    if (info.lo is not None and v < info.lo) or (info.hi is not None and v > info.hi):
        return
    if info.sign == "pos" and v <= 0:
        return
    if info.sign == "nn" and v < 0:
        return
    put(v)


SOLVE = [0.0]      # seconds left for numerical root searches within the present witness search


def solve1(p, env, put, old, info, rng):
    """A value of one symbol at which p changes its sign (None if none was found; the symbol is left as it was)."""
    vals = [old * 2.0 ** k for k in range(-12, 13, 2 if rng.random() < 0.5 else 3)]
    if info.sign not in ("pos", "nn"):
        vals += [-v for v in vals]
    vals += [10.0 ** rng.uniform(-9, 4)]
    vals = sorted(v for v in vals if not info.integer or v == round(v))

    def f(v):
        put(v)
        env.memo.clear()
        return ev(p, env)
    try:
        pts = [(v, f(v)) for v in vals]
        br = [(a, b) for a, b in zip(pts, pts[1:]) if (a[1] > 0) != (b[1] > 0)]
        if not br:
            return None
        (a, fa), (b, fb) = rng.choice(br)
        for _ in range(64):
            m = round((a + b) / 2) if info.integer else (a + b) / 2
            if m in (a, b):
                break
            fm = f(m)
            if (fm > 0) == (fa > 0):
                a, fa = m, fm
            else:
                b, fb = m, fm
        return a if abs(fa) < abs(fb) else b
    finally:
        put(old)
        env.memo.clear()


# -------------------------------------------------------------------- contexts
def integers(names, go):
    """The rule body with the named arguments supplied as integer arrays."""
    def f(w, *a):
        T.INTS.update(names)
        try:
            return go(w, *a)
        finally:
            T.INTS.clear()
    return f


class World:
    """One abstract run: interpreter plus builders of symbolic inputs."""

    def __init__(self, chk, ctx):
        self.chk, self.ctx = chk, ctx
        self.I = Interp(chk.root)
        chk.cur = self
        T.OPQ_SORTED[:] = [self.I.sorted]

    def ns(self, mod, name):
        m = self.I.load("bfit." + mod)
        v = self.I.st.heap[m.frame].vars.get(name)
        if v is None:
            raise Anchor(f"bfit/{mod}.py: {name} not found")
        return v

    def arr(self, name, *shape, dt="float", owner=True):
        if name in T.INTS:
            dt = "int"
        return self.I.arr_new(AR.from_fn([P(s) for s in shape], lambda *i: sym(name, *i), dt), "arg:" + name if owner else None)

    def arrf(self, shape, f, dt="float", owner=None):
        return self.I.arr_new(AR.from_fn([P(s) for s in shape], f, dt), owner)

    def int(self, p):
        return Sc(P(p), "int")

    def flt(self, p):
        return Sc(P(p), "float")

    def bool(self, b):
        return Sc(P(int(b)), "bool")

    def sint(self, name, lo=1, hi=None):
        declare(name, "pos" if lo >= 1 else ("nn" if lo == 0 else "real"), True, lo=lo, hi=hi)
        return sym(name)

    def assume(self, c):
        self.I.st.assume(c)
        set_facts(self.I.st.facts)

    def run(self, thunk):
        o = self.I.run(thunk)
        if isinstance(o.value, Opq):
            raise Give(f"result not understood: {o.value.why}")
        return o

    def probe(self, thunk):
        """As run, on a copy of the state: neither effects nor the assumption that nothing was raised outlive the call."""
        st = self.I.st
        self.I.enter(st.fork())
        try:
            return self.run(thunk)
        finally:
            for a, o in self.I.st.heap.items():
                st.heap.setdefault(a, o)
            self.I.enter(st)

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), dict(kw))

    def new(self, mod, cls, *args, **kw):
        return self.I.call(self.ns(mod, cls), list(args), dict(kw))

    def meth(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), dict(kw))

    def get(self, o, name):
        return self.I.getattr(o, name)

    def A(self, v):
        if v is None:
            raise Give("None instead of an array")
        return self.I.to_arr(v)

    def seq(self, v):
        """Elements of a tuple or list value."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            o = self.I.obj(v)
            if isinstance(o, ListO) and not o.alt:
                return list(o.items)
        return None

    def no_raise(self, rule, where, o, what="valid input"):
        """Obligation: the call neither certainly nor conditionally raises."""
        c = self.chk
        if o.exc is not None:
            n = clsname(o.exc)
            c.bad(self.ctx, rule, where, f"{what} is rejected with {n}: {exc_text(o.exc)}")
            return False
        for g, x, loc in o.raises:
            if is_zero(g):
                continue
            w = witness(g, ZERO, (), c.seed)
            if w is not None:
                c.bad(self.ctx, rule, where, f"{what} raises {clsname(x)} when {short(g, 300)} at {loc}", w)
                return False
            c.dunno(self.ctx, rule, where, f"may raise {clsname(x)} when {short(g, 300)} at {loc}")
        return True

    def must_raise(self, rule, where, o, cls, what):
        c = self.chk
        if o.exc is not None:
            n = clsname(o.exc)
            if any(is_sub(n, k) for k in (cls if isinstance(cls, tuple) else (cls,))):
                c.ok(self.ctx, rule, where, f"{what}: {n}")
                return True
            if self.I.unknowns:
                c.dunno(self.ctx, rule, where, f"{what}: raises {n}")
                return None
            c.bad(self.ctx, rule, where, f"{what}: raises {n} ({exc_text(o.exc)}) instead of {cls}")
            return False
        tot = ONE
        for g, x, loc in o.raises:
            if any(is_sub(clsname(x), k) for k in (cls if isinstance(cls, tuple) else (cls,))):
                tot = tot * (ONE - g)
        tot = T.b_name(tot) if tot.t else tot
        if is_zero(tot):
            c.ok(self.ctx, rule, where, what)
            return True
        if self.I.unknowns or isinstance(o.value, Opq):
            c.dunno(self.ctx, rule, where, f"{what}: {self.I.unknowns[:2]}")
            return None
        w = witness(tot, ZERO, (), c.seed)
        if w is None:
            c.dunno(self.ctx, rule, where, f"{what}: accepted when {short(tot, 200)}")
            return None
        c.bad(self.ctx, rule, where, f"{what}: accepted instead of {cls}", w)
        return False


def exc_text(e):
    try:
        return " ".join(str(a) for a in e.args)[:200]
    except Exception:
        return ""
