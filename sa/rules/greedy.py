"""C24-C27, C30: the greedy search."""
import itertools
from ..core import *
from ..terms import compare, ONE, ZERO
from .model import scalar, basis, at
from .stubs import same
from . import rule


def vec(w, name, n):
    return [sym(name, P(i)) for i in range(n)], w.arr(name, n)


def cells(w, v):
    """Elements of a one-dimensional array of known length."""
    a = w.A(v)
    if a.ndim != 1:
        return None
    n = AR.axlen(a.ax[0]).const()
    if n is None:
        raise Give("length of a result not known")
    return [scalar(w, w.I.call(w.I.getattr(w.I.arr_new(a), "__getitem__"), [w.int(P(i))], {})) if False else
            AR.take_int(a, 0, P(i)).cells[()] for i in range(int(n))]


def insertions(fac, fill, C, E):
    """All ways of inserting one function: list of (gap, coefficients, exponents)."""
    n = len(E)
    out = []
    for g in range(n + 1):
        e = E[0] / fac if g == 0 else E[-1] * fac if g == n else (E[g - 1] + E[g]) / P(2)
        out.append((g, C[:g] + [fill] + C[g:], E[:g] + [e] + E[g:]))
    return out


def twice(fac, fill, C, E):
    out = []
    for _, c1, e1 in insertions(fac, fill, C, E):
        out += [(c2, e2) for _, c2, e2 in insertions(fac, fill, c1, e1)]
    return out


def lose(fac, fill, C, E):
    out = []
    for c2, e2 in twice(fac, fill, C, E):
        for j in range(len(c2)):
            out.append((c2[:j] + c2[j + 1:], e2[:j] + e2[j + 1:]))
    return out


GEN = {
    "get_next_choices": lambda *a: [(c, e) for _, c, e in insertions(*a)],
    "get_two_next_choices": twice,
    "pick_two_lose_one": lose,
}


def key(v):
    return tuple(tuple(sorted(x.t.items())) for x in v)


def dedup(l):
    seen, out = set(), []
    for v in l:
        k = tuple(v)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


@rule("C24")
def c24(c):
    for name, spec in GEN.items():
        where = c.anchor("greedy", name)
        top = {"get_next_choices": 6, "get_two_next_choices": 5, "pick_two_lose_one": 4}[name] + (2 if c.thorough else 0)
        for n in list(range(1, top + 1)) + {"get_next_choices": [12, 25], "get_two_next_choices": [9], "pick_two_lose_one": [6]}[name]:
            for fill in (True, False):
                if not fill and n > 3:
                    continue

                def go(w, n=n, fill=fill):
                    declare("fac", "pos"), declare("fill", "real"), declare("c", "real"), declare("a", "pos")
                    C, co = vec(w, "c", n)
                    E, ex = vec(w, "a", n)
                    args = [w.flt(sym("fac")), co, ex] + ([w.flt(sym("fill"))] if fill else [])
                    o = w.run(lambda: w.call(w.ns("greedy", name), *args))
                    if not w.no_raise("accepts", where, o):
                        return
                    res = w.seq(o.value)
                    if res is None:
                        raise Give("guesses are not a list")
                    got = [cells(w, r) for r in res]
                    wants = [c_ + e_ for c_, e_ in spec(sym("fac"), sym("fill") if fill else P(100), C, E)]
                    if any(g is None for g in got):
                        return c.bad(w.ctx, "guess-form", where, "a guess is not one-dimensional")
                    m = len(wants[0])
                    for k, g in enumerate(got):
                        if len(g) != m:
                            return c.bad(w.ctx, "guess-length", where, f"guess {k} has {len(g)} entries, required {m}", {"n": n})
                    if name == "get_next_choices":
                        if len(got) != len(wants):
                            return c.bad(w.ctx, "guess-count", where, f"{len(got)} guesses for {n} functions, required {len(wants)}", {"n": n})
                        c.ok(w.ctx, "guess-count", where, f"{len(got)} guesses")
                    check_sets(c, w, where, dedup(got), dedup(wants))
                c.context(f"{name}, {n} functions, fill value {'given' if fill else 'default'}", "guesses", where, go)
                if n in (1, 2, 3):
                    for nm, what in (({"c"}, "coefficients"), ({"a"}, "exponents"), ({"c", "a"}, "coefficients and exponents")):
                        c.context(f"{name}, {n} functions, fill value {'given' if fill else 'default'}, integer {what}", "guesses", where, integers(nm, go))


def check_sets(c, w, where, got, wants):
    gs, ws = {tuple(g) for g in got}, {tuple(x) for x in wants}
    for x in wants:
        if tuple(x) in gs:
            c.ok(w.ctx, "guess-present", where, f"guess {[short(v, 40) for v in x]}")
    extra = [g for g in got if tuple(g) not in ws]
    missing = [x for x in wants if tuple(x) not in gs]
    if not extra and not missing:
        return
    from ..core import steps_of, target, _facts_ok
    import random
    ivs = steps_of({a for g in extra for x in g for a in T.deep_atoms(x)})
    for t in range(30):
        env, rng = Env((c.seed, 5 + t)), random.Random(f"{c.seed}/{t}")
        try:
            for p in (rng.sample(ivs, min(len(ivs), 1 + t % 4)) if t else ()):
                target(p, env, rng, {})
            env.memo.clear()
            env.shaky = False
            if not _facts_ok(env):
                continue
            num = lambda v: tuple(float(ev(x, env)) for x in v)
            gn, wn = [num(g) for g in got], [num(x) for x in wants]
        except (T.EvalError, OverflowError, ZeroDivisionError, ValueError):
            continue
        if env.shaky:
            continue
        has = lambda l, v: any(all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(u, v)) for u in l)
        for g in extra:
            if not has(wn, num(g)):
                return c.bad(w.ctx, "guess-unexpected", where, f"guess {[short(v, 60) for v in g]} is no insertion of new functions into the current basis",
                             {"values": num(g)})
        for x in missing:
            if not has(gn, num(x)):
                return c.bad(w.ctx, "guess-missing", where, f"guess {[short(v, 60) for v in x]} is not generated", {"values": num(x)})
    c.dunno(w.ctx, "guess-present", where, "guesses agree numerically, but not in normal form")


def numeric(seed):
    return Env((seed, 5))


def closeness(vals, eps):
    n = len(vals)
    return [[abs(vals[i] - vals[j]) < eps for j in range(n)] for i in range(n)]


def patterns(n, thorough):
    """Exponent vectors (as multiples of the threshold) realising different closeness patterns."""
    steps = (Q(3, 10), Q(6, 10), Q(1), Q(3))
    seen, out = {}, []
    for gaps in itertools.product(steps, repeat=n - 1):
        xs = [Q(0)]
        for g in gaps:
            xs.append(xs[-1] + g)
        for perm in itertools.permutations(range(n)):
            v = [xs[i] for i in perm]
            k = tuple(map(tuple, closeness(v, 1)))
            if k in seen:
                continue
            seen[k] = v
            out.append(v)
    return out


@rule("C25")
def c25(c):
    where = c.anchor("greedy", "remove_redundancies")
    todo = []
    for n in range(0, 5 if not c.thorough else 6):
        for vals in ([[]] if n == 0 else patterns(n, c.thorough)):
            todo.append((n, vals))
    import random
    rng = random.Random("groups")
    for n in list(range(5 if not c.thorough else 6, 9)) + [12, 18]:
        todo += [(n, [Q(0)] * n), (n, [Q(6 * i, 10) for i in range(n)]), (n, [Q(3 * i, 10) for i in reversed(range(n))])]
        for _ in range((8 if n < 9 else 3) if not c.thorough else 40):
            xs = [Q(0)]
            for _ in range(n - 1):
                xs.append(xs[-1] + rng.choice((Q(0), Q(3, 10), Q(6, 10), Q(1), Q(3))))
            rng.shuffle(xs)
            todo.append((n, xs))
    for n, vals in todo:
            for given in (True, False):
                if not given and n > 3:
                    continue

                def go(w, n=n, vals=vals, given=given):
                    declare("c", "real"), declare("base", "pos"), declare("eps", "pos")
                    eps = sym("eps") if given else P(Q(1, 1000))
                    C = [sym("c", P(i)) for i in range(n)]
                    E = [sym("base") + P(v) * eps for v in vals]
                    co = w.arr("c", n)
                    ex = w.I.arr_new(w.I.stack([AR.lift(e) for e in E]) if n else AR.from_fn([ZERO], lambda i: sym("a", i)), "arg:exponents")
                    before = (w.A(co), w.A(ex))
                    args = [co, ex] + ([w.flt(eps)] if given else [])
                    o = w.run(lambda: w.call(w.ns("greedy", "remove_redundancies"), *args))
                    if not w.no_raise("accepts", where, o):
                        return
                    xs = w.seq(o.value)
                    if xs is None or len(xs) != 2:
                        return c.bad(w.ctx, "merge-form", where, "the result is not a pair")
                    nc, ne = cells(w, xs[0]), cells(w, xs[1])
                    if nc is None or ne is None or len(nc) != len(ne):
                        return c.bad(w.ctx, "merge-lengths", where, f"{len(nc or [])} coefficients but {len(ne or [])} exponents")
                    c.ok(w.ctx, "merge-lengths", where, f"{len(nc)} functions")
                    tot = lambda l: sum(l, ZERO)
                    c.eq(w.ctx, "merge-total", where, tot(nc), tot(C), (), "sum of the coefficients")
                    near = closeness(vals, 1)
                    any_close = any(near[i][j] for i in range(n) for j in range(i))
                    if not any_close:
                        if len(nc) != n:
                            return c.bad(w.ctx, "merge-nothing", where, f"{n - len(nc)} functions removed although none are close", {"exponents": list(map(str, vals))})
                        for i in range(n):
                            c.eq(w.ctx, "merge-nothing", where, ne[i], E[i], (), "exponent")
                            c.eq(w.ctx, "merge-nothing", where, nc[i], C[i], (), "coefficient")
                    else:
                        left, used = [], set()
                        for e in ne:
                            hit = [i for i in range(n) if i not in used and is_zero(e - E[i])]
                            if not hit:
                                return c.bad(w.ctx, "merge-exponents", where, f"exponent {short(e, 100)} is not one of the given", {"exponents": list(map(str, vals))})
                            # of several equal exponents take the one whose coefficient is reported
                            at_ = len(left)
                            hit.sort(key=lambda i: not (nc[at_].diff(i) if False else contains(nc[at_], C[i])))
                            used.add(hit[0])
                            left.append(hit[0])
                        c.ok(w.ctx, "merge-exponents", where, f"survivors {left}")
                        for a in range(len(left)):
                            for b in range(a):
                                if near[left[a]][left[b]]:
                                    return c.bad(w.ctx, "merge-close", where, "two surviving exponents are closer than the threshold", {"exponents": list(map(str, vals))})
                        c.ok(w.ctx, "merge-close", where, "survivors are not close")
                        for k, i in enumerate(left):
                            # a survivor keeps its own coefficient, plus those of removed functions it is connected to
                            rest = nc[k] - C[i]
                            parts = [j for j in range(n) if j not in left and contains(rest, C[j])]
                            if not is_zero(rest - tot([C[j] for j in parts])):
                                c.bad(w.ctx, "merge-coefficient", where, f"survivor {i} has coefficient {short(nc[k], 200)}", {"exponents": list(map(str, vals))})
                            else:
                                c.ok(w.ctx, "merge-coefficient", where, f"{short(nc[k], 100)}")
                            comp = connected(near, i)
                            for j in parts:
                                if j not in comp:
                                    c.bad(w.ctx, "merge-coefficient", where, f"function {j} is merged into the distant function {i}", {"exponents": list(map(str, vals))})
                    for a, b, t in ((co, before[0], "coefficients"), (ex, before[1], "exponents")):
                        c.eq_arr(w.ctx, "merge-inputs", where, w.A(a), b, f"caller's {t}")
                if n in (2, 3) and given:
                    c.context(f"exponents base + eps*({', '.join(map(str, vals))}), integer coefficients", "merge", where, integers({"c"}, go))
                c.context(f"exponents base + eps*({', '.join(map(str, vals))}), threshold {'given' if given else 'default'}", "merge", where, go)


def contains(p, q):
    """Does the linear term p contain the atom q?"""
    (m, _), = q.t.items()
    return m in p.t


def connected(near, i):
    seen, todo = {i}, [i]
    while todo:
        k = todo.pop()
        for j in range(len(near)):
            if near[k][j] and j not in seen:
                seen.add(j)
                todo.append(j)
    return seen


# ------------------------------------------------------------------------------------------------ the search itself
CHOICE = {"pick-one": ("get_next_choices", 1), "pick-two": ("get_two_next_choices", 2), "pick-two-lose-one": ("pick_two_lose_one", 1)}
FIT = {"GreedyLeastSquares": "ScipyFit", "GreedyKLFPI": "KLDivergenceFPI"}
L_MAX, G_MAX = 7, 9
RANK0 = 100          # objective ranks: the first basis has rank RANK0, accepted ones get smaller ranks


def count_guesses(gen, n):
    v = GEN[gen](P(2), P(100), [P(Q(7 * i + 1, 3)) for i in range(n)], [P(Q(1000 + 11 * i * i)) for i in range(n)])
    return len(dedup([c + e for c, e in v]))


class Call:
    """One run of the underlying fit as seen during the search."""


class Search:
    """Unknown underlying fits for a greedy search on a two-point grid. Each fit returns unknown coefficients and marked
    exponents; its objective has the rank the plan prescribes. A plan is a list of (winner type, winner index, outcome)."""

    def __init__(self, w, cls, choice, plans, scale=1, nan_locals="none", disp=False, **kw):
        self.w, self.cls, self.choice = w, cls, choice
        self.gen, self.inc = CHOICE[choice]
        self.plans, self.scale, self.nan_locals = plans, scale, nan_locals
        self.log, self.known, self.problems = [], [], []
        declare("x", "pos"), declare("c", "pos"), declare("a", "pos")
        self.N = P(2)
        one = AR.from_fn([self.N], lambda i: ONE)
        self.pts = w.arr("x", self.N)
        from .stubs import make
        self.grid = make(w, "Grid", self.pts, w.I.arr_new(one))
        self.dens = w.I.arr_new(one, "arg:density")
        w.I.func_over[f"bfit.fit.{FIT[cls]}.run"] = self.fit_run
        w.I.func_over["bfit.model.AtomicGaussianDensity.evaluate"] = self.evaluate
        w.I.ext["scipy.optimize.nnls"] = self.nnls
        self.nn = 0
        args = {"choice": choice, "l_maxiter": w.int(P(L_MAX)), "g_maxiter": w.int(P(G_MAX))}
        args.update(kw)
        self.obj = w.new("greedy", cls, self.grid, self.dens, **args)
        self.begin(plans)

    def begin(self, plans):
        self.plans, self.it, self.ns, self.np, self.best = plans, 0, 1, 0, RANK0
        self.log, self.problems = [], []
        self.seen = {"s": 0, "p": 0}
        self.first = None

    # -- stand-ins
    def nnls(self, I, args, kw):
        A = I.to_arr(args[0])
        n = AR.axlen(A.ax[1])
        self.nn += 1
        nm = f"nn{self.nn}"
        declare(nm, "nn"), declare("rn", "nn")
        return (I.arr_new(AR.from_fn([n], lambda i: sym(nm, i))), Sc(sym("rn"), "float"))

    def values(self, rank):
        if rank is None:
            return [NAN, NAN]
        s = P(rank * self.scale)
        return [ONE - s, ONE] if self.cls == "GreedyLeastSquares" else [ONE / (ONE + s), ONE]

    def objective(self, rank):
        if rank is None:
            return NAN
        s = P(rank * self.scale)
        return s * s if self.cls == "GreedyLeastSquares" else T.fn_log(ONE + s)

    def m_arr(self, rank):
        v = self.values(rank)
        return self.w.I.stack([AR.lift(x) for x in v])

    def counts(self):
        m = self.w.get(self.obj, "model")
        out = []
        for n in ("num_s", "num_p"):
            k = scalar(self.w, self.w.get(m, n)).const()
            if k is None:
                raise Give(f"{n} of the model not known")
            out.append(int(k))
        return out

    def rank(self, co, ex):
        for a, b, r in self.known:
            if same(a, co) and same(b, ex):
                return r
        n = AR.axlen(co.ax[0]).const()
        if n == 1:
            self.known.append((co, ex, RANK0))
            return RANK0
        raise Give("objective of parameters that no fit returned")

    def evaluate(self, I, f, args, kw):
        b = I.bind_args(f, list(args), kw)
        names = [x.arg for x in f.node.args.args]
        self_, co, ex = b[names[0]], I.to_arr(b[names[1]]), I.to_arr(b[names[2]])
        from ..interp import AbsRaise
        nb = scalar(self.w, I.getattr(self_, "nbasis"))
        for a in (co, ex):
            if a.ndim != 1 or not is_zero(AR.axlen(a.ax[0]) - nb):
                raise AbsRaise(ExcV("ValueError", ("parameters do not fit the model",)))
        return I.arr_new(self.m_arr(self.rank(co, ex)))

    def marks(self, k, ns, np_, close=None):
        """Exponents returned by the k-th fit: distinct rationals, or a close pair in one block."""
        e = [Q(1000 * (k + 1) + 10 * i) for i in range(ns + np_)]
        if close == "s" and ns > 1:
            e[ns - 1] = e[ns - 2] + Q(1, 10 ** 5)
        if close == "p" and np_ > 1:
            e[ns + np_ - 1] = e[ns + np_ - 2] - Q(1, 10 ** 5)
        return e

    def fit_run(self, I, f, args, kw):
        b = I.bind_args(f, list(args), kw)
        names = [x.arg for x in f.node.args.args]
        r = Call()
        r.args = b
        r.c0, r.e0 = I.to_arr(b["c0"]), I.to_arr(b["e0"])
        r.ns, r.np = self.counts()
        r.loc = I.loc
        mi = scalar(self.w, b["maxiter"]).const()
        r.local = True if mi == L_MAX else False if mi == G_MAX else None
        k = len(self.log)
        r.k = k
        self.log.append(r)
        n = r.ns + r.np
        from ..interp import AbsRaise
        for a in (r.c0, r.e0):
            if a.ndim != 1 or not is_zero(AR.axlen(a.ax[0]) - P(n)):
                self.problems.append(("guess-matches-model", r.loc, f"guess of shape {a.shape()} for a model of {r.ns} s- and {r.np} p-type functions"))
                raise AbsRaise(ExcV("ValueError", ("guess does not fit the model",)))
        plan = self.plans[self.it] if self.it < len(self.plans) else ("s", 0, "E")
        r.it = self.it
        close, rank = None, None
        if r.local is None:
            raise Give("cannot tell screening from refinement")
        if r.local:
            r.kind = "s" if (r.ns, r.np) == (self.ns + self.inc, self.np) else "p" if (r.ns, r.np) == (self.ns, self.np + self.inc) else None
            if r.kind is None:
                self.problems.append(("screening-counts", r.loc, f"candidate screened with {r.ns} s- and {r.np} p-type functions, current basis {self.ns} and {self.np}"))
                raise AbsRaise(ExcV("ValueError", ("wrong counts",)))
            i = self.seen[r.kind]
            self.seen[r.kind] += 1
            r.win = (r.kind, i) == (plan[0], plan[1] % self.choices(plan[0]))
            rank = RANK0 * 5 if r.win else (RANK0 * 6 + k % 7 if self.nan_locals == "none" else None)
            if self.nan_locals == "all":
                rank, r.win = None, False
            if r.win:
                self.winner = r
        else:
            w_ = getattr(self, "winner", None) if self.nan_locals != "all" else self.log[k - 1]
            kind = plan[0]
            if self.nan_locals == "all":
                kind = "s" if r.ns > self.ns else "p"
            out = plan[2]
            ns, np_ = (self.ns + self.inc, self.np) if kind == "s" else (self.ns, self.np + self.inc)
            r.kind, r.out, r.winner = kind, out, w_
            if (r.ns, r.np) != (ns, np_):
                self.problems.append(("refinement-counts", r.loc, f"winner refined with {r.ns} s- and {r.np} p-type functions, required {ns} and {np_}"))
                raise AbsRaise(ExcV("ValueError", ("wrong counts",)))
            rank = {"A": self.best - 5, "E": self.best, "W": self.best + 3, "N": None, "Rs": self.best - 5, "Rp": self.best - 5}[out]
            close = {"Rs": "s", "Rp": "p"}.get(out)
            r.rank = rank
            if out in ("A", "E"):
                self.best, self.ns, self.np = rank, ns, np_
            self.it += 1
            self.seen = {"s": 0, "p": 0}
        nm = f"q{len(self.known)}"
        declare(nm, "pos")
        r.co = AR.from_fn([P(n)], lambda i: sym(nm, i))
        r.ex = I.stack([AR.lift(P(e)) for e in self.marks(len(self.known), r.ns, r.np, close)])
        self.known.append((r.co, r.ex, rank))
        perf = I.stack([AR.lift(x) for x in [ONE] * 5])
        res = {"coeffs": I.arr_new(r.co), "exps": I.arr_new(r.ex), "success": Sc(ONE, "bool"), "performance": I.arr_new(perf), "time": Sc(ONE, "float")}
        if self.cls == "GreedyLeastSquares":
            res.update(fun=Sc(self.objective(rank), "npfloat"), message="optimiser message", jacobian=I.arr_new(AR.from_fn([P(2 * n)], lambda i: sym("jac", i))))
        else:
            res["fun"] = I.arr_new(I.stack([AR.lift(self.objective(rank))]))
        return I.new(DictO(res))

    def choices(self, kind):
        n = self.ns if kind == "s" else self.np
        if n == 0:
            return 3
        return count_guesses(self.gen, n)

    def run(self, factor=P(Q(5, 2)), **kw):
        w = self.w
        self.factor = factor
        return w.run(lambda: w.meth(self.obj, "run", w.flt(factor), **kw))


def split(v, ns, np_):
    return v[:ns], v[ns:]


def acells(a):
    n = AR.axlen(a.ax[0]).const()
    return [AR.take_int(a, 0, P(i)).cells[()] for i in range(int(n))]


def guess_ok(s, co, ex, kind, ns, np_, base, got_c, got_e, redum):
    """Is the guess the current basis with new functions inserted in the block of its kind?"""
    C, E = base
    n0 = ns + np_
    lo, hi = (0, ns) if kind == "s" else (ns, n0)
    m = hi - lo + s.inc
    block_c, block_e = got_c[lo:lo + m], got_e[lo:lo + m]
    rest_c, rest_e = got_c[:lo] + got_c[lo + m:], got_e[:lo] + got_e[lo + m:]
    if not all(is_zero(x - y) for x, y in zip(rest_e, E[:lo] + E[hi:])) or len(rest_e) != n0 - (hi - lo):
        return "the exponents of the other type are not those of the current basis"
    if co and not all(is_zero(x - y) for x, y in zip(rest_c, C[:lo] + C[hi:])):
        return "the coefficients of the other type are not those of the current basis"
    if hi == lo:
        return None
    for fac in [s.factor * P(2 ** k) for k in range(0, redum + 1)]:
        for c_, e_ in GEN[s.gen](fac, P(100), C[lo:hi], E[lo:hi]):
            if all(is_zero(x - y) for x, y in zip(block_e, e_)) and (not co or all(is_zero(x - y) for x, y in zip(block_c, c_))):
                return None
    return "the new functions are not insertions into the current basis"


def acceptance(c, w, s, where, o, limit, max_funcs, thr_plan=None):
    """Compare the recorded search with the acceptance rules; returns the accepted history or None."""
    for rl, loc, txt in s.problems:
        c.bad(w.ctx, rl, where, f"{txt} at {loc}")
    if s.problems:
        return None
    if not w.no_raise("search-runs", where, o, "the search"):
        return None
    P0 = s.start
    ns, np_, best = 1, 0, RANK0
    acc = [(P0, 1, 0, RANK0)]
    redum, k = 0, 0
    log = s.log
    co = s.cls == "GreedyKLFPI"
    while k < len(log):
        screened = {"s": [], "p": []}
        while k < len(log) and log[k].local:
            screened[log[k].kind].append(log[k])
            k += 1
        C, E = acells(acc[-1][0][0]), acells(acc[-1][0][1])
        for kind in "sp":
            n = ns if kind == "s" else np_
            want = 1 if n == 0 else count_guesses(s.gen, n)
            if len(screened[kind]) < want:
                c.bad(w.ctx, "candidates-screened", where, f"{len(screened[kind])} {kind}-type candidates screened, required at least {want}", {"iteration": len(acc)})
                return None
            for r in screened[kind]:
                why = guess_ok(s, co, True, kind, ns, np_, (C, E), acells(r.c0), acells(r.e0), redum)
                if why:
                    c.bad(w.ctx, "candidate-extends-basis", where, f"{kind}-type candidate: {why}", {"guess": [short(v, 40) for v in acells(r.e0)]})
                    return None
            c.ok(w.ctx, "candidate-extends-basis", where, f"{want} {kind}-type candidates extend the current basis")
        if k >= len(log):
            c.bad(w.ctx, "winner-refined", where, "the best candidate is not refined", {})
            return None
        g = log[k]
        k += 1
        win = g.winner
        if s.nan_locals != "all":
            for got, want_, t in ((g.e0, win.ex, "exponents"),) + (((g.c0, win.co, "coefficients"),) if co else ()):
                c.eq_arr(w.ctx, "winner-refined", where, got, want_, f"{t} of the candidate that is refined")
        n2 = ns + np_ + s.inc
        if n2 > max_funcs:
            c.bad(w.ctx, "at-most-maximum", where, f"a basis of {n2} functions is refined, at most {max_funcs} are allowed", {})
            return None
        if g.out in ("A", "E"):
            if g.kind == "s":
                ns += s.inc
            else:
                np_ += s.inc
            acc.append(((g.co, g.ex), ns, np_, g.rank))
            redum = 0
        else:
            redum += 1
    s.redum = redum
    s.consumed = s.it
    return acc


def goodness_rows(w, s, rank):
    f = [ONE, ONE]
    m = s.values(rank)
    d = [T.fn_abs(x - y) for x, y in zip(f, m)]
    kl = [T.fn_log(x / y) if not (y.const() is not None and y.const() <= 0) else None for x, y in zip(f, m)]
    return [m[0] + m[1], d[0] + d[1], T.fn_max(d[0], d[1]) if hasattr(T, "fn_max") else None, d[0] * d[0] + d[1] * d[1], kl]


def start_of(w, s):
    """Parameters of the one-function start."""
    if not s.known:
        raise Give("the one-function start was never evaluated")
    a, b, _ = s.known[0]
    return a, b


def results_agree(c, w, s, where, d, acc):
    par, ns, np_, rank = acc[-1]
    for n, want in (("num_s", ns), ("num_p", np_)):
        if n not in d:
            c.bad(w.ctx, "result-entries", where, f"entry {n} is missing")
            continue
        c.eq(w.ctx, "result-counts", where, scalar(w, d[n]), P(want), (), n)
        c.eq(w.ctx, "state-counts", where, scalar(w, w.get(s.obj, n)), P(want), (), f"{n} of the search object")
        c.eq(w.ctx, "state-counts", where, scalar(w, w.get(w.get(s.obj, "model"), n)), P(want), (), f"{n} of the model")
    for n, want in (("coeffs", par[0]), ("exps", par[1])):
        if n in d:
            c.eq_arr(w.ctx, "result-parameters", where, w.A(d[n]), want, n)
        else:
            c.bad(w.ctx, "result-entries", where, f"entry {n} is missing")
    if "fun" in d:
        c.eq(w.ctx, "result-objective", where, scalar(w, d["fun"]), s.objective(rank), (), "objective")
    else:
        c.bad(w.ctx, "result-entries", where, "entry fun is missing")
    if "parameters_iteration" in d:
        it = w.seq(d["parameters_iteration"])
        if it is None:
            raise Give("parameters_iteration is not a list")
        if len(it) != len(acc):
            c.bad(w.ctx, "result-history", where, f"{len(it)} parameter vectors for {len(acc)} accepted bases", {})
        else:
            for v, (p, a, b, r) in zip(it, acc):
                c.eq_arr(w.ctx, "result-history", where, w.A(v), AR.concat([p[0], p[1]], 0), "parameters of an accepted basis")
    else:
        c.bad(w.ctx, "result-entries", where, "entry parameters_iteration is missing")
    if "performance" in d:
        a = w.A(d["performance"])
        if a.ndim != 2:
            c.bad(w.ctx, "result-performance", where, f"performance has shape {a.shape()}", {})
        else:
            n = AR.axlen(a.ax[0]).const()
            if n != len(acc):
                c.bad(w.ctx, "result-performance", where, f"{n} performance records for {len(acc)} accepted bases", {})
            else:
                for i, (p, _, _, r) in enumerate(acc):
                    m = s.values(r)
                    row = AR.take_int(a, 0, P(i))
                    c.eq(w.ctx, "result-performance", where, AR.take_int(row, 0, ZERO).cells[()], m[0] + m[1], (), "model integral of a performance record")
                    q = ONE - m[0]
                    c.eq(w.ctx, "result-performance", where, AR.take_int(row, 0, P(3)).cells[()], q * q, (), "squared error of a performance record")
    else:
        c.bad(w.ctx, "result-entries", where, "entry performance is missing")


def plan_text(plan):
    names = {"A": "better", "E": "equal", "W": "worse", "N": "NaN", "Rs": "redundant s", "Rp": "redundant p"}
    return "; ".join(f"{k}-type candidate {i} wins, {names[o]}" for k, i, o in plan)


def long_plans(thorough):
    """Searches of many iterations: the basis grows to a dozen functions, with rejected candidates in between."""
    import random
    rng = random.Random("long searches")
    out = [(None, [("s" if i % 3 else "p", i % 2, "A") for i in range(11)]), (13, [("p" if i % 4 == 1 else "s", 0, "A") for i in range(14)])]
    for k in range(2 if not thorough else 12):
        plan = []
        for i in range(14 if not thorough else 24):
            plan.append((rng.choice("sp"), rng.randrange(2), rng.choice("AAW") if i % 4 else "A"))
        out.append(((None, 9)[k % 2], plan))
    return out


def search_contexts(c):
    """(class, choice, plan, keyword arguments of run, driver options)"""
    A, E, W, N = "A", "E", "W", "N"
    end = [("s", 0, "E")]
    out = []
    for cls in FIT:
        for first in ("s", "p"):
            for idx in (0, -1):
                for o in (A, W, N):
                    out.append((cls, "pick-one", [(first, idx, o)] + end, {}, {}))
        two = [[("s", 0, "Rs")], [("s", 1, A), ("s", 2, "Rs")], [("p", 0, A), ("p", 1, "Rp")], [("p", 0, A), ("s", 1, "Rs"), ("p", 0, A)],
               [("p", 0, A), ("s", 0, W), ("p", 1, A)], [("s", 0, W), ("s", 1, A)], [("s", 0, N), ("p", 1, A)], [("p", 2, N), ("s", 1, A)],
               [("s", 1, A), ("p", 0, A), ("s", 2, A), ("p", 1, W)], [("p", 1, W), ("p", 1, W), ("p", 1, A), ("p", 0, W), ("s", 0, A)],
               [("s", 0, W)] * 5, [("s", 0, W)] * 4 + [("s", 0, A)] + [("p", 0, W)] * 5]
        for p in two:
            out.append((cls, "pick-one", p + end, {}, {}))
        for mx in (1, 2, 3, 4):
            out.append((cls, "pick-one", [("s", 0, A), ("p", 0, A), ("p", 1, A), ("s", 1, A)] + end, {"max_numb_funcs": mx}, {}))
        for mx in (1, 2, 3, 4, 5, 6):
            if mx > 4 and not c.thorough:
                continue
            out.append((cls, "pick-two", [("s", 0, A), ("p", 0, A), ("s", 1, A)] + end, {"max_numb_funcs": mx}, {}))
        for first in ("s", "p"):
            for o in (A, W, N):
                out.append((cls, "pick-two", [(first, -1, o)] + end, {"max_numb_funcs": 3 if o == A else 4}, {}))
                out.append((cls, "pick-two-lose-one", [(first, -1, o)] + end, {"max_numb_funcs": 2 if o == A else 3}, {}))
        out.append((cls, "pick-two", [("p", 0, "Rp")] + end, {"max_numb_funcs": 3}, {}))
        for n_, plan_ in long_plans(c.thorough):
            out.append((cls, "pick-one", plan_ + end, {} if n_ is None else {"max_numb_funcs": n_}, {}))
        out.append((cls, "pick-one", [("s", 1, A), ("p", 1, A)] + end, {}, {"scale": 10 ** 4}))
        out.append((cls, "pick-one", [("s", 1, A), ("p", 1, A)] + end, {}, {"nan_locals": "losers"}))
        out.append((cls, "pick-one", [("s", 0, N)] + end, {"max_numb_funcs": 2}, {"nan_locals": "all"}))
        out.append((cls, "pick-one", [("s", 1, A), ("p", 1, W)] + end, {"disp": True}, {}))
    return out


def search(c, cls, choice, plan, kw, opts, fn_, where):
    txt = f"{cls}, {choice}, {plan_text(plan)}" + "".join(f", {k}={v}" for k, v in kw.items()) + "".join(f", {k}={v}" for k, v in opts.items())

    def go(w):
        s = Search(w, cls, choice, plan, **opts)
        k = {n: (w.bool(v) if isinstance(v, bool) else w.int(P(v))) for n, v in kw.items()}
        o = s.run(**k)
        s.start = start_of(w, s) if s.known else None
        fn_(w, s, o, kw.get("max_numb_funcs", 30), k)
    c.context(txt, "search-runs", where, go)


def dict_of(w, v):
    if isinstance(v, Ref) and isinstance(w.I.obj(v), DictO):
        return dict(w.I.obj(v).items)
    raise Give("the result is not a dictionary")


@rule("C26")
def c26(c):
    for cls, choice, plan, kw, opts in search_contexts(c):
        where = c.anchor("greedy", cls + ".run")

        def check(w, s, o, mx, k, plan=plan):
            acc = acceptance(c, w, s, where, o, None, mx)
            if acc is None:
                return
            d = dict_of(w, o.value)
            par, ns, np_, rank = acc[-1]
            for n, want in (("num_s", ns), ("num_p", np_)):
                c.eq(w.ctx, "state-counts", where, scalar(w, w.get(s.obj, n)), P(want), (), f"{n} of the search object")
                c.eq(w.ctx, "state-counts", where, scalar(w, w.get(w.get(s.obj, "model"), n)), P(want), (), f"{n} of the model")
            for n, want in (("coeffs", par[0]), ("exps", par[1])):
                c.eq_arr(w.ctx, "stored-parameters", where, w.A(d[n]), want, n)
            # why did it stop?
            nf = ns + np_
            stop = [nf + s.inc > mx, s.redum >= 5, len(acc) > 1 and acc[-1][3] == acc[-2][3]]
            if any(stop):
                c.ok(w.ctx, "stops-for-a-reason", where, f"{nf} functions, {s.redum} rejected in a row")
            else:
                c.bad(w.ctx, "stops-for-a-reason", where, f"the search stops at {nf} of at most {mx} functions with the objective still changing after {s.redum} rejected iterations", {})
        search(c, cls, choice, plan, kw, opts, check, where)


@rule("C27")
def c27(c):
    for cls, choice, plan, kw, opts in search_contexts(c):
        where = c.anchor("greedy", cls + ".run")

        def check(w, s, o, mx, k, plan=plan):
            acc = acceptance(c, w, s, where, o, None, mx)
            if acc is None:
                return
            results_agree(c, w, s, where, dict_of(w, o.value), acc)
            # start again on the same object
            s.begin(plan)
            s.known[:] = s.known[:1] if False else s.known
            o = s.run(**k)
            acc2 = acceptance(c, w, s, where, o, None, mx)
            if acc2 is None:
                return
            if len(acc2) != len(acc) or [a[1:] for a in acc2] != [a[1:] for a in acc]:
                c.bad(w.ctx, "second-run", where, f"a second run accepts {[a[1:3] for a in acc2]} instead of {[a[1:3] for a in acc]}", {})
                return
            c.ok(w.ctx, "second-run", where, "second run goes through the same bases")
            results_agree(c, w, s, where, dict_of(w, o.value), acc2)
        search(c, cls, choice, plan, kw, opts, check, where)


# ------------------------------------------------------------------------------------------------ wiring of options
def wired(c):
    """(class, keyword arguments)"""
    for sph in (True, False, None):
        for given in (True, False):
            for third in (0, 1, 2):
                for mx in (True, False):
                    yield "GreedyLeastSquares", dict(spherical=sph, given=given, third=third, limits=mx)
            for mask in (True, False):
                for mx in (True, False):
                    yield "GreedyKLFPI", dict(spherical=sph, given=given, mask=mask, limits=mx)


LS_THIRD = [dict(), dict(method="trust-constr", with_constraint=True), dict(method="SLSQP", with_constraint=True, normalize=True)]
KL_T = ("eps_coeff", "eps_exp", "eps_obj")
KL_DEFAULT = {"g_eps_coeff": Q(1, 10 ** 4), "g_eps_exp": Q(1, 10 ** 5), "g_eps_obj": Q(1, 10 ** 10),
              "l_eps_coeff": Q(1, 10 ** 2), "l_eps_exp": Q(1, 10 ** 3), "l_eps_obj": Q(1, 10 ** 8)}


@rule("C30")
def c30(c):
    from .stubs import setup, Optimiser
    from .fit import check_objective, check_constraints, check_options, check_bounds, measure_of, kl
    for cls, o_ in wired(c):
        where = c.anchor("greedy", cls)
        wrun = c.anchor("greedy", cls + ".get_optimization_routine")
        ls = cls == "GreedyLeastSquares"
        ctx = f"{cls}, spherical={o_['spherical']}, target {'given' if o_['given'] else 'default'}, limits {'given' if o_['limits'] else 'default'}" + \
            (f", {LS_THIRD[o_['third']]}" if ls else f", mask {'given' if o_['mask'] else 'default'}")

        def go(w, md, cls=cls, o_=o_, ls=ls, where=where, wrun=wrun):
            extra = LS_THIRD[o_["third"]] if ls else {}
            normalized = extra.get("normalize", False) if ls else True
            s = setup(w, md, "atomic, s and p", normalized, o_["spherical"], opaque=True)
            kw = {k: (v if isinstance(v, str) else w.bool(v)) for k, v in extra.items()}
            if o_["spherical"] is not None:
                kw["spherical"] = w.bool(o_["spherical"])
            for n in ("lt", "gt", "mask"):
                declare(n, "pos")
            if o_["given"]:
                kw["integral_dens"] = w.flt(sym("T"))
            lim = {"l": P(1000), "g": P(2500)}
            tol = {"l": P(Q(1, 10 ** 5)), "g": P(Q(1, 10 ** 8))}
            thr = {k: P(v) for k, v in KL_DEFAULT.items()}
            if o_["limits"]:
                for k in "lg":
                    lim[k] = w.sint(k + "mx")
                    kw[k + "_maxiter"] = w.int(lim[k])
                if ls:
                    for k, n in (("l", "local_tol"), ("g", "global_tol")):
                        tol[k] = sym(k + "t")
                        kw[n] = w.flt(tol[k])
                else:
                    for k in thr:
                        declare("th" + k, "pos")
                        thr[k] = sym("th" + k)
                        kw[k] = w.flt(thr[k])
            mask = P(Q(1, 10 ** 12))
            if not ls and o_["mask"]:
                mask = sym("mask")
                kw["mask_value"] = w.flt(mask)
            tot = s.integral(s.f)
            w.assume(compare(">", tot, ZERO))
            target = sym("T") if o_["given"] else tot
            o = w.run(lambda: w.new("greedy", cls, s.grid, s.dens, **kw))
            if not w.no_raise("constructor-accepts", where, o, "valid options"):
                return
            g = o.value
            c.eq(w.ctx, "wired-target", where, scalar(w, w.get(g, "integral_dens")), target, (), "target normalisation")
            c.eq_arr(w.ctx, "wired-density", where, w.A(w.get(g, "density")), s.f, "density")
            m = w.get(g, "model")
            c.eq_arr(w.ctx, "wired-grid", where, w.A(w.get(w.get(g, "grid"), "points")), s.x, "grid points")
            c.eq_arr(w.ctx, "wired-grid", where, w.A(w.get(m, "points")), s.x, "points of the model")
            for n, want in (("num_s", ONE), ("num_p", ZERO)):
                c.eq(w.ctx, "one-function-model", where, scalar(w, w.get(m, n)), want, (), f"{n} of the new model")
            w.meth(m, "change_numb_s_and_numb_p", *[w.int(x) for x in s.counts[0]])
            # the objective is the integral of the measure
            dv = (lambda a: a[0])
            mk = s.model_arr()
            want = s.integral(AR.mapn(lambda f, v: (f - v) * (f - v), [s.f, mk]) if ls else kl(mask, s.f, mk)[0])
            params = w.I.arr_new(AR.concat([w.A(s.co), w.A(s.ex)], 0))
            wo = c.anchor("greedy", cls + ".eval_obj_function")
            o = w.run(lambda: w.meth(g, "eval_obj_function", params))
            if w.no_raise("objective-evaluates", wo, o, "the objective at given parameters"):
                c.eq(w.ctx, "wired-objective", wo, scalar(w, o.value), want, (), "objective of given parameters")
            if ls:
                opt, calls = Optimiser(w), []
                declare("nn", "nn"), declare("rn", "nn")

                def nnls(I, a, k):
                    calls.append([I.to_arr(v) for v in a])
                    n = AR.axlen(calls[-1][0].ax[1])
                    return (I.arr_new(AR.from_fn([n], lambda i: sym("nn", i))), Sc(sym("rn"), "float"))
                w.I.ext["scipy.optimize.nnls"] = nnls
                for k in "lg":
                    opt.problems.clear()
                    calls.clear()
                    # number the unknown results from zero for each problem
                    o = w.run(lambda: w.meth(g, "get_optimization_routine", params, local=w.bool(k == "l")))
                    if not w.no_raise("fit-runs", wrun, o, "screening" if k == "l" else "refining"):
                        continue
                    if len(opt.problems) != 1:
                        raise Give(f"{len(opt.problems)} optimisation problems")
                    p = opt.problems[0]
                    n2 = P(2) * s.nb
                    check_options(w, wrun, p, extra.get("method", "SLSQP"), tol[k], lim[k])
                    check_constraints(w, s, wrun, p, "both", extra.get("with_constraint", False), target)
                    c.eq(w.ctx, "both-groups-optimised", wrun, AR.axlen(p["x0_content"].ax[0]), n2, (), "number of optimised parameters")
                    x0 = p["x0_content"]
                    c.eq_arr(w.ctx, "start-of-fit", wrun, AR.take_slice(x0, 0, s.nb, n2), s.params(None, None)[1], "starting exponents")
                    if len(calls) == 1:
                        c.eq_arr(w.ctx, "start-of-fit", wrun, AR.take_slice(x0, 0, ZERO, s.nb), AR.from_fn([s.nb], lambda i: sym("nn", i)), "starting coefficients")
                        A, b = calls[0]
                        blk = s.blks
                        cols = [AR.from_fn([s.N, n], lambda i, j, kd=kd, off=off, r2=r2: basis(kd, sym("a", off + j), at(r2, i), False)) for kd, n, off, r2 in blk]
                        if not normalized:
                            c.eq_arr(w.ctx, "nnls-basis", wrun, A, AR.concat(cols, 1), "matrix of the linear fit of the coefficients")
                        c.eq_arr(w.ctx, "nnls-density", wrun, b, s.f, "right-hand side of the linear fit of the coefficients")
                    measure = measure_of(w, "SquaredDifference")[1]
                    check_objective(w, s, wrun, "both", p, measure, AR.from_fn([s.N], lambda i: ONE), "wired-problem-objective")
                    xr = AR.from_fn([n2], lambda i: sym("xr0", i))
                    c.eq_arr(w.ctx, "fit-result", wrun, w.A(o.value), xr, "optimised parameters")
            else:
                seen = []

                def over(I, f, args, k):
                    b = I.bind_args(f, list(args), k)
                    seen.append({n: v for n, v in b.items()})
                    n = len(seen)
                    for t in ("rc", "re"):
                        declare(f"{t}{n}", "pos")
                    res = {"coeffs": I.arr_new(AR.from_fn([s.nb], lambda i: sym(f"rc{n}", i))), "exps": I.arr_new(AR.from_fn([s.nb], lambda i: sym(f"re{n}", i))),
                           "fun": I.arr_new(AR.from_fn([ONE], lambda i: sym("fu", i))), "success": Sc(ONE, "bool")}
                    return I.new(DictO(res))
                w.I.func_over["bfit.fit.KLDivergenceFPI.run"] = over
                for k in "lg":
                    seen.clear()
                    o = w.run(lambda: w.meth(g, "get_optimization_routine", params, local=w.bool(k == "l")))
                    if not w.no_raise("fit-runs", wrun, o, "screening" if k == "l" else "refining"):
                        continue
                    if len(seen) != 1:
                        raise Give(f"{len(seen)} fits")
                    b = seen[0]
                    for n, t in zip(("c_threshold", "e_threshold", "d_threshold"), KL_T):
                        c.eq(w.ctx, "wired-threshold", wrun, scalar(w, b[n]), thr[f"{k}_{t}"], (), n)
                    c.eq(w.ctx, "wired-limit", wrun, scalar(w, b["maxiter"]), lim[k], (), "iteration limit")
                    for n in ("opt_coeffs", "opt_expons"):
                        c.eq(w.ctx, "both-groups-optimised", wrun, w.I.truth(b[n]), ONE, (), n)
                    c.eq_arr(w.ctx, "start-of-fit", wrun, w.A(b["c0"]), w.A(s.co), "starting coefficients")
                    c.eq_arr(w.ctx, "start-of-fit", wrun, w.A(b["e0"]), w.A(s.ex), "starting exponents")
                    both = AR.concat([AR.from_fn([s.nb], lambda i: sym("rc1", i)), AR.from_fn([s.nb], lambda i: sym("re1", i))], 0)
                    c.eq_arr(w.ctx, "fit-result", wrun, w.A(o.value), both, "optimised parameters")
        c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "wiring", where, go)
    # normalisation flag of the model
    for cls, flags in (("GreedyLeastSquares", (True, False, None)), ("GreedyKLFPI", (None,))):
        where = c.anchor("greedy", cls)
        for fl in flags:
            def norm(w, md, cls=cls, fl=fl, where=where):
                normalized = (fl or False) if cls == "GreedyLeastSquares" else True
                s = setup(w, md, "atomic, s and p", normalized, False, opaque=False)
                kw = {} if fl is None else {"normalize": w.bool(fl)}
                w.assume(compare(">", s.integral(s.f), ZERO))
                g = w.new("greedy", cls, s.grid, s.dens, **kw)
                m = w.get(g, "model")
                w.meth(m, "change_numb_s_and_numb_p", *[w.int(x) for x in s.counts[0]])
                o = w.run(lambda: w.meth(m, "evaluate", s.co, s.ex))
                if w.no_raise("model-evaluates", where, o):
                    c.eq_arr(w.ctx, "wired-normalisation", where, w.A(o.value), s.model_arr(), "model values")
            ctx = f"{cls}, normalize {'default' if fl is None else fl}"
            c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "wiring", where, norm)
    # extra guesses of the caller are tried
    for cls in FIT:
        where = c.anchor("greedy", cls + ".run")

        def extra(w, cls=cls, where=where):
            s = Search(w, cls, "pick-one", [("s", 0, "A"), ("s", 0, "E")])
            gs = [Q(7), Q(9), Q(777), Q(888)]
            f = PyFn(lambda I, a, k: I.new(ListO([I.arr_new(I.stack([AR.lift(P(x)) for x in gs]))])), "extra")
            o = s.run(max_numb_funcs=w.int(P(2)), add_extra_choices=f)
            if not w.no_raise("extra-choices-run", where, o, "a search with extra guesses"):
                return
            hit = [r for r in s.log if r.local and any(is_zero(x - P(777)) for x in acells(r.e0))]
            if hit:
                c.ok(w.ctx, "extra-choices", where, "the extra guess is screened")
            else:
                c.bad(w.ctx, "extra-choices", where, "an extra guess supplied through add_extra_choices is never screened", {"guess": [str(x) for x in gs], "screened": len(s.log)})
        c.context(f"{cls}, extra guesses", "extra-choices", where, extra)


@rule("C36")
def c36(c):
    from .stubs import setup, declare_fit
    for cls in FIT:
        where = c.anchor("greedy", cls + ".get_best_one_function_solution")
        for sph in (True, False):
            if cls == "GreedyKLFPI":
                for given in (True, False):
                    def kl_(w, md, sph=sph, given=given):
                        s = setup(w, md, "atomic, one s", True, sph, opaque=True, fsign="pos")
                        tot = s.integral(s.f)
                        kw = {"integral_dens": w.flt(sym("T"))} if given else {}
                        w.assume(compare(">", tot, ZERO))
                        g = w.new("greedy", "GreedyKLFPI", s.grid, s.dens, spherical=w.bool(sph), **kw)
                        o = w.run(lambda: w.meth(g, "get_best_one_function_solution"))
                        if not w.no_raise("start-accepts", where, o, "a positive density"):
                            return
                        t = sym("T") if given else tot
                        mom = AR.reduce_axis(AR.mapn(lambda f, x, u: f * x ** 4 * u, [s.f, s.x, s.wts]), 0, "sum").cells[()]
                        got = cells(w, o.value)
                        if got is None or len(got) != 2:
                            return c.bad(w.ctx, "start-form", where, "the start is not one coefficient and one exponent")
                        c.eq(w.ctx, "start-coefficient", where, got[0], t, (), "coefficient of the starting function")
                        c.eq(w.ctx, "start-exponent", where, got[1], P(3) * t / (P(8) * T.PI * mom), (), "exponent of the starting function")
                    ctx = f"{cls}, spherical={sph}, target {'given' if given else 'default'}"
                    c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "start", where, kl_)
                    for nm, what in ((("f",), "density"), (("x",), "points")):
                        t = ctx + ", integer " + what
                        c.ladder([(t, "symbolic"), (t + ", fixed sizes", "fixed")], "start", where, integers(nm, kl_))
                continue
            for order in itertools.permutations((1, 2, 3)):
                def ls(w, md, sph=sph, order=order):
                    s = setup(w, md, "atomic, one s", False, sph, opaque=True, fsign="pos")
                    sum_ = lambda f: AR.reduce_axis(AR.mapn(f, [s.f, s.x]), 0, "sum").cells[()]
                    spec = []
                    for k in range(3):
                        W = lambda f, k=k: f ** k if k else ONE
                        S0, S2, S4 = [sum_(lambda f, x, q=q: W(f) * x ** q) for q in (0, 2, 4)]
                        L0, L2 = [sum_(lambda f, x, q=q: W(f) * x ** q * T.fn_log(f)) for q in (0, 2)]
                        det = S2 * S2 - S0 * S4
                        A_ = (S2 * L2 - L0 * S4) / det
                        B_ = (S0 * L2 - L0 * S2) / (-det)
                        spec.append((T.fn_exp(A_), -B_))
                    tags, obj = [], []
                    for a, b in spec:
                        k = s.op.tag(w.I.stack([AR.lift(a)]), w.I.stack([AR.lift(b)]))
                        tags.append(k)
                        obj.append(s.integral(AR.mapn(lambda f, v: (f - v) * (f - v), [s.f, s.op.m(k)])))
                    n0 = len(s.op.known)
                    for i, j in ((0, 1), (1, 2), (0, 2)):
                        w.assume(compare("<", obj[order[i] - 1], obj[order[j] - 1]))
                    g = w.new("greedy", cls, s.grid, s.dens, spherical=w.bool(sph))
                    o = w.run(lambda: w.meth(g, "get_best_one_function_solution"))
                    if not w.no_raise("start-accepts", where, o, "a positive density"):
                        return
                    # functions tried that are not one of the three
                    env = numeric(c.seed)
                    for co, ex in s.op.known[n0:]:
                        try:
                            v = [float(ev(acells(x)[0], env)) for x in (co, ex)]
                            near = any(all(abs(float(ev(q, env)) - y) < 1e-6 * (1 + abs(y)) for q, y in zip(sp, v)) for sp in spec)
                        except (EvalError, OverflowError, ZeroDivisionError, ValueError):
                            raise Give("starting function cannot be compared")
                        if near:
                            raise Give("starting function agrees only numerically")
                        return c.bad(w.ctx, "start-candidates", where, f"a starting function is no weighted logarithmic least-squares fit: exponent {short(acells(ex)[0], 200)}", {"values": v})
                    got = cells(w, o.value)
                    if got is None or len(got) != 2:
                        return c.bad(w.ctx, "start-form", where, "the start is not one coefficient and one exponent")
                    best = spec[order[0] - 1]
                    c.eq(w.ctx, "start-coefficient", where, got[0], best[0], (), "coefficient of the best starting function")
                    c.eq(w.ctx, "start-exponent", where, got[1], best[1], (), "exponent of the best starting function")
                ctx = f"{cls}, spherical={sph}, objectives of the three starts ordered {order}"
                c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "start", where, ls, smallest=False)      # three starts need two points
