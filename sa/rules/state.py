"""C28: evaluations and fits leave the caller's data and the objects as they were."""
from ..core import *
from ..terms import compare, ONE, ZERO
from .model import mat, scalar
from .stubs import setup, make, Optimiser, same
from .fit import mkfit, measure_of, mkfpi, MODES
from .density import ORBS, declare_slater, stub_data, points as slater_points, atom
from . import rule


def attrs(w, o, names, of):
    """Public attributes the object has."""
    out = {}
    for n in names:
        try:
            out[f"{n} of the {of}"] = w.get(o, n)
        except AbsRaise as e:
            if clsname(e.exc) != "AttributeError":
                raise
    return out


# ------------------------------------------------------------------ values as they are now
def freeze(w, v, depth=0):
    if depth > 8:
        raise Give("nested too deeply")
    if v is None or isinstance(v, (str, bool, int, float)):
        return ("raw", v)
    if isinstance(v, Sc):
        return ("num", v.p)
    if isinstance(v, tuple):
        return ("seq", [freeze(w, x, depth + 1) for x in v])
    if isinstance(v, Ref):
        o = w.I.obj(v)
        if isinstance(o, ArrO):
            return ("arr", w.A(v))
        if isinstance(o, ListO):
            if o.alt or any(not isinstance(x, (Ref, Sc, tuple, str)) and x is not None for x in o.items):
                return ("arr", w.A(v))
            return ("seq", [freeze(w, x, depth + 1) for x in o.items])
        if isinstance(o, DictO):
            return ("map", {k if isinstance(k, str) else str(k): freeze(w, x, depth + 1) for k, x in o.items.items() if k != "time"})
        if isinstance(o, InstO):
            return ("obj", o.clsname if hasattr(o, "clsname") else "object")
    if isinstance(v, (Ite, Opq)):
        raise Give("value not understood")
    return ("other", type(v).__name__)


def agree(c, w, rl, where, was, now, what):
    """Obligation: a value read now is the one read before."""
    if was[0] != now[0]:
        if {was[0], now[0]} == {"num", "arr"}:
            a, b = [x[1] if x[0] == "arr" else AR.lift(x[1]) for x in (was, now)]
            return c.eq_arr(w.ctx, rl, where, b, a, what)
        return c.bad(w.ctx, rl, where, f"{what}: {now[0]} instead of {was[0]}", {})
    k = was[0]
    if k == "num":
        c.eq(w.ctx, rl, where, now[1], was[1], (), what)
    elif k == "arr":
        c.eq_arr(w.ctx, rl, where, now[1], was[1], what)
    elif k == "seq":
        if len(was[1]) != len(now[1]):
            return c.bad(w.ctx, rl, where, f"{what}: {len(now[1])} entries instead of {len(was[1])}", {})
        for i, (x, y) in enumerate(zip(was[1], now[1])):
            agree(c, w, rl, where, x, y, f"{what}[{i}]")
    elif k == "map":
        if set(was[1]) != set(now[1]):
            return c.bad(w.ctx, rl, where, f"{what}: keys {sorted(now[1])} instead of {sorted(was[1])}", {})
        for n in was[1]:
            agree(c, w, rl, where, was[1][n], now[1][n], f"{what}[{n!r}]")
    elif was[1] != now[1]:
        c.bad(w.ctx, rl, where, f"{what}: {now[1]!r} instead of {was[1]!r}", {})
    else:
        c.ok(w.ctx, rl, where, what)


def scenario(c, w, ops, watch, repeat="pairs"):
    """ops: list of (name, anchor, thunk); watch: thunk giving {description: value} of what must stay as it is.

    The reference result of every operation is that of a call on the untouched objects. After every operation the watched
    values are compared; then every operation is called after every other one and must give its reference result, and
    results handed out before must not have changed."""
    I = w.I
    before = {k: freeze(w, v) for k, v in watch().items()}
    ref = []
    for name, where, f in ops:
        got = []

        def once():
            v = f()
            got.append((freeze(w, v), {k: freeze(w, x) for k, x in watch().items()}))
            return v
        o = w.probe(once)
        if not w.no_raise("runs", where, o, name) or not got:
            ref.append(None)
            continue
        ref.append(got[0][0])
        for k, now in got[0][1].items():
            agree(c, w, "unchanged", where, before[k], now, f"{k} after {name}")
    n = len(ops)
    pairs = [(i, j) for i in range(n) for j in range(n)] if repeat == "pairs" else [(i, i) for i in range(n)]
    for i, j in pairs:
        if ref[i] is None or ref[j] is None:
            continue
        got = []

        def both():
            u = ops[i][2]()
            v = ops[j][2]()
            got.append((freeze(w, u), freeze(w, v)))
            return v
        o = w.probe(both)
        where = ops[j][1]
        if not w.no_raise("runs", where, o, f"{ops[j][0]} after {ops[i][0]}") or not got:
            continue
        agree(c, w, "repeatable", where, ref[j], got[0][1], f"{ops[j][0]} after {ops[i][0]}")
        agree(c, w, "result-kept", where, ref[i], got[0][0], f"result of {ops[i][0]} after {ops[j][0]}")


# ------------------------------------------------------------------ models
@rule("C28")
def models(c):
    where = {k: c.anchor("model", k + ".evaluate") for k in ("AtomicGaussianDensity", "MolecularGaussianDensity")}
    cases = [(n, norm) for n in ("atomic, s only", "atomic, p only", "atomic, s and p", "atomic on 3-d points, s and p", "two centres, s and p each",
                                 "two centres, s only and p only", "two centres, one-dimensional points") for norm in (False, True)]
    for name, norm in cases:
        cls = "AtomicGaussianDensity" if name.startswith("atomic") else "MolecularGaussianDensity"
        wh = where[cls]

        def go(w, md):
            s = setup(w, md, name, norm, False, opaque=False)
            for n, sg in (("c2", "real"), ("a2", "pos")):
                declare(n, sg)
            c2, e2 = w.arr("c2", s.nb), w.arr("a2", s.nb)
            f = lambda co, ex, d=None: w.meth(s.model, "evaluate", co, ex, *(() if d is None else (w.bool(d),)))
            ops = [("evaluate", wh, lambda: f(s.co, s.ex)), ("evaluate at other parameters", wh, lambda: f(c2, e2)),
                   ("evaluate at other coefficients", wh, lambda: f(c2, s.ex)),
                   ("evaluate with derivatives", wh, lambda: f(s.co, s.ex, True)),
                   ("evaluate with derivatives at other parameters", wh, lambda: f(c2, e2, True))]

            def watch():
                return {"points passed by the caller": s.points, "coefficients": s.co, "exponents": s.ex, "other coefficients": c2,
                        "other exponents": e2, **attrs(w, s.model, ("points", "radii", "num_s", "num_p", "nbasis", "prefactor", "natoms", "basis",
                                                                    "assigned_basis", "coordinates"), "model")}
            scenario(c, w, ops, watch)

            # the caller reuses its own array for the next parameters
            got = []

            def reuse():
                f(s.co, s.ex)
                w.I.write(s.co, w.A(c2), "caller")
                w.I.write(s.ex, w.A(e2), "caller")
                v = f(s.co, s.ex)
                got.append(freeze(w, v))
                return v

            def fresh():
                v = f(c2, e2)
                got.append(freeze(w, v))
                return v
            if w.no_raise("runs", wh, w.probe(fresh)) and w.no_raise("runs", wh, w.probe(reuse)) and len(got) == 2:
                agree(c, w, "repeatable", wh, got[0], got[1], "evaluation after the caller's arrays have been refilled")
        ctx = f"model: {name}, normalize={norm}"
        c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "unchanged", wh, go)

    # changing the basis and back
    wh = where["AtomicGaussianDensity"]

    def change(w, md):
        s = setup(w, md, "atomic, s and p", False, False, opaque=False)
        k = w.sint("K", 0) if md == "symbolic" else P(1)
        m2 = w.sint("K2") if md == "symbolic" else P(3)
        declare("c2", "real"), declare("a2", "pos")
        c2, e2 = w.arr("c2", k + m2), w.arr("a2", k + m2)
        got = []

        def once():
            v = w.meth(s.model, "evaluate", s.co, s.ex, w.bool(True))
            got.append(freeze(w, v))
            return v

        def back():
            w.meth(s.model, "change_numb_s_and_numb_p", w.int(k), w.int(m2))
            w.meth(s.model, "evaluate", c2, e2, w.bool(True))
            w.meth(s.model, "change_numb_s_and_numb_p", *[w.int(x) for x in s.counts[0]])
            v = w.meth(s.model, "evaluate", s.co, s.ex, w.bool(True))
            got.append(freeze(w, v))
            return v
        if w.no_raise("runs", wh, w.probe(once)) and w.no_raise("runs", wh, w.probe(back)) and len(got) == 2:
            agree(c, w, "repeatable", wh, got[0], got[1], "evaluation after the numbers of functions were changed and restored")
    c.ladder([("model: basis changed and restored", "symbolic"), ("model: basis changed and restored, fixed sizes", "fixed")], "repeatable", wh, change)


# ------------------------------------------------------------------ measures
@rule("C28")
def measures(c):
    for name in ("SquaredDifference", "KLDivergence", "TsallisDivergence"):
        where = c.anchor("measure", name + ".evaluate")
        for sign in ("positive", "any"):
            if sign == "any" and name == "TsallisDivergence":
                continue

            def go(w):
                N = w.sint("N")
                for k in ("f", "h"):
                    declare(k, "nn" if name != "SquaredDifference" else "real")
                for k in ("g", "q"):
                    declare(k, "nn" if sign == "positive" else "real")
                f, g, h, q = [w.arr(k, N) for k in "fghq"]
                m = w.new("measure", name)
                ev_ = lambda a, b, d: w.meth(m, "evaluate", a, b, w.bool(d))
                ops = [("evaluate", where, lambda: ev_(f, g, False)), ("evaluate with derivative", where, lambda: ev_(f, g, True)),
                       ("evaluate on other arrays", where, lambda: ev_(h, q, False)),
                       ("evaluate with derivative on other arrays", where, lambda: ev_(h, q, True)),
                       ("evaluate a density against itself", where, lambda: ev_(f, f, True))]
                scenario(c, w, ops, lambda: {"density": f, "model": g, "other density": h, "other model": q})
            c.context(f"measure: {name}, model values {sign}", "unchanged", where, go)


# ------------------------------------------------------------------ grids
@rule("C28")
def grids(c):
    from .grid import make_radial
    for kind in ("Uniform", "Clenshaw extra=None", "Clenshaw extra=2"):
        where = c.anchor("grid", kind.split()[0] + "RadialGrid.integrate")

        def go(w, md):
            mk, _ = make_radial(w, kind, md)
            g = mk()
            n = AR.axlen(w.A(w.get(g, "points")).ax[0])
            declare("y", "real"), declare("z", "real")
            y, z = w.arr("y", n), w.arr("z", n)
            ops = [("integrate", where, lambda: w.meth(g, "integrate", y)), ("integrate something else", where, lambda: w.meth(g, "integrate", z))]
            scenario(c, w, ops, lambda: {"integrand": y, "other integrand": z, "points": w.get(g, "points")})
        c.ladder([(f"grid: {kind}", "symbolic"), (f"grid: {kind}, fixed sizes", "fixed")], "unchanged", where, go)
    where = c.anchor("grid", "CubicGrid.integrate")

    def cubic(w, md):
        declare("o", "real"), declare("ax", "real"), declare("y", "real"), declare("z", "real")
        og, axs = w.arr("o", P(3)), w.arr("ax", P(3), P(3))
        sh = w.arrf([3], lambda i: P(2), "int", "arg:shape")
        g = w.new("grid", "CubicGrid", og, axs, sh)
        n = AR.axlen(w.A(w.get(g, "points")).ax[0])
        y, z = w.arr("y", n), w.arr("z", n)
        ops = [("integrate", where, lambda: w.meth(g, "integrate", y)), ("integrate something else", where, lambda: w.meth(g, "integrate", z))]
        scenario(c, w, ops, lambda: {"integrand": y, "other integrand": z, "points": w.get(g, "points"), "origin passed": og, "axes passed": axs,
                                     "shape passed": sh, **attrs(w, g, ("origin", "axes", "shape"), "grid")})
    c.context("grid: cubic, two points per axis", "unchanged", where, lambda w: cubic(w, "fixed"))


# ------------------------------------------------------------------ Slater densities
@rule("C28")
def slater(c):
    where = {k: c.anchor("density", "SlaterAtoms." + k) for k in
             ("atomic_density", "derivative_density", "positive_definite_kinetic_energy", "phi_matrix")}
    KEYS = ("orbitals", "orbitals_occupation", "orbitals_exp", "orbitals_coeff", "orbitals_energy", "basis_numbers", "orbitals_cusp",
            "energy", "potential_energy", "kinetic_energy", "configuration")
    for name, labels in ORBS.items():
        if len(labels) > 6 and not c.thorough:
            continue

        def go(w, md):
            declare_slater()
            stub_data(w, labels, md)
            pts, a, N, M = slater_points(w, md)
            at = atom(w)
            call = lambda n, *x, **k: w.meth(at, n, pts, *x, **k)
            ops = [("total density", where["atomic_density"], lambda: call("atomic_density")),
                   ("core density", where["atomic_density"], lambda: call("atomic_density", "core")),
                   ("valence density", where["atomic_density"], lambda: call("atomic_density", "valence")),
                   ("density derivative", where["derivative_density"], lambda: call("derivative_density")),
                   ("kinetic energy density", where["positive_definite_kinetic_energy"], lambda: call("positive_definite_kinetic_energy")),
                   ("orbitals", where["phi_matrix"], lambda: call("phi_matrix")),
                   ("orbital derivatives", where["phi_matrix"], lambda: call("phi_matrix", deriv=w.bool(True)))]
            scenario(c, w, ops, lambda: {"points": pts, **{k: w.get(at, k) for k in KEYS}})
        c.ladder([(f"atom: {name}", "symbolic"), (f"atom: {name}, fixed sizes", "fixed")], "unchanged", where["atomic_density"], go)


# ------------------------------------------------------------------ fits
@rule("C28")
def fits(c):
    wi = {k: c.anchor("fit", k + ".run") for k in ("ScipyFit", "KLDivergenceFPI")}
    wg = {k: c.anchor("fit", k + ".goodness_of_fit") for k in wi}
    wn = {k: c.anchor("fit", k + ".integrate") for k in wi}
    cases = []
    for name in ("atomic, s and p", "two centres, s and p each") + (("atomic, s only", "atomic on 3-d points, s and p") if c.thorough else ()):
        for sph in ((True, False) if name.startswith("atomic, ") else (False,)):
            for cls in wi:
                cases.append((cls, name, sph))
    for cls, name, sph in cases:
        for meth in (("SLSQP", "trust-constr") if cls == "ScipyFit" else (None,)):
            def go(w, md):
                s = setup(w, md, name, False, sph, opaque=True)
                s.grid_w = w.get(s.grid, "_weights")
                declare("h", "real"), declare("c2", "pos"), declare("a2", "pos"), declare("y", "pos"), declare("y2", "pos")
                h, c2, e2 = w.arr("h", s.N), w.arr("c2", s.nb), w.arr("a2", s.nb)
                extra = {}
                if cls == "ScipyFit":
                    opt = Optimiser(w, constant=True)
                    m, mspec = measure_of(w, "AnyMeasure")
                    declare("wt", "pos")
                    wt = w.arr("wt", s.N)
                    o = w.run(lambda: mkfit(w, s, cls, measure=m, method=meth, weights=wt, integral_dens=w.flt(sym("T"))))
                    if not w.no_raise("fit-accepts", wi[cls], o):
                        return
                    fit = o.value
                    extra["weights"] = wt

                    def run(mode, co, ex):
                        oc, oe = MODES[mode]
                        v = w.meth(fit, "run", co, ex, w.bool(oc), w.bool(oe))
                        return (v, opt.problems[-1]["x0"])
                    w.meth(fit, "run", s.co, s.ex)
                    p = opt.problems[-1]
                    y, y2 = w.arr("y", P(2) * s.nb), w.arr("y2", P(2) * s.nb)
                    extra["trial vector"], extra["other trial vector"] = y, y2
                    ar = p.get("args", ())
                    ar = list(ar) if isinstance(ar, tuple) else (w.seq(ar) or [ar])
                    obj = lambda v: w.call(p["fun"], v, *ar)
                else:
                    fit, lam = mkfpi(w, s, wi[cls], True)
                    if fit is None:
                        return

                    def run(mode, co, ex):
                        oc, oe = MODES[mode]
                        return w.meth(fit, "run", co, ex, w.bool(oc), w.bool(oe), maxiter=w.int(1))
                A, G, N_ = wi[cls], wg[cls], wn[cls]
                ops = [("goodness_of_fit", G, lambda: w.meth(fit, "goodness_of_fit", s.co, s.ex)),
                       ("goodness_of_fit at other parameters", G, lambda: w.meth(fit, "goodness_of_fit", c2, e2)),
                       ("integrate", N_, lambda: w.meth(fit, "integrate", h)),
                       ("run", A, lambda: run("both", s.co, s.ex)), ("run from another start", A, lambda: run("both", c2, e2)),
                       ("run on the coefficients", A, lambda: run("coefficients", s.co, s.ex)),
                       ("run on the exponents", A, lambda: run("exponents", s.co, s.ex))]
                if cls == "ScipyFit":
                    ops += [("objective", A, lambda: obj(y)), ("objective at another vector", A, lambda: obj(y2))]

                def watch():
                    return {"initial coefficients": s.co, "initial exponents": s.ex, "other initial coefficients": c2, "other initial exponents": e2,
                            "density": s.dens, "density of the fit": w.get(fit, "density"), "points": s.points, "weights of the grid": s.grid_w,
                            "points of the grid": w.get(s.grid, "points"), "integrand": h, "points of the model": w.get(s.model, "points"),
                            "target normalisation": w.get(fit, "integral_dens"), **{k + " passed": v for k, v in extra.items()}}
                scenario(c, w, ops, watch)
            ctx = f"fit: {cls}{', ' + meth if meth else ''}, {name}, spherical={sph}"
            c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "unchanged", wi[cls], go)


# ------------------------------------------------------------------ guesses and searches
@rule("C28")
def guesses(c):
    from .greedy import vec, GEN
    for name in GEN:
        where = c.anchor("greedy", name)
        for n in (1, 2, 3) + ((4,) if c.thorough else ()):
            def go(w, n=n):
                declare("fac", "pos"), declare("c", "real"), declare("a", "pos"), declare("c2", "real"), declare("a2", "pos")
                C, co = vec(w, "c", n)
                E, ex = vec(w, "a", n)
                C2, co2 = vec(w, "c2", n + 1)
                E2, ex2 = vec(w, "a2", n + 1)
                f = w.ns("greedy", name)
                ops = [(name, where, lambda: w.call(f, w.flt(sym("fac")), co, ex)),
                       (name + " for other functions", where, lambda: w.call(f, w.flt(sym("fac")), co2, ex2))]
                scenario(c, w, ops, lambda: {"coefficients": co, "exponents": ex, "other coefficients": co2, "other exponents": ex2})
            c.context(f"guesses: {name}, {n} functions", "unchanged", where, go)
    where = c.anchor("greedy", "remove_redundancies")
    for n in (2, 3):
        for close in (True, False):
            def red(w, n=n, close=close):
                declare("c", "pos"), declare("eb", "pos")
                C, co = vec(w, "c", n)
                step = P(5) if not close else P(Q(1, 10 ** 5))
                ex = w.I.arr_new(w.I.stack([AR.lift(sym("eb") + step * P(k)) for k in range(n)]), "arg:exponents")
                f = w.ns("greedy", "remove_redundancies")
                ops = [("remove_redundancies", where, lambda: w.call(f, co, ex))]
                scenario(c, w, ops, lambda: {"coefficients": co, "exponents": ex})
            c.context(f"guesses: remove_redundancies, {n} functions {'close together' if close else 'apart'}", "unchanged", where, red)


@rule("C28")
def searches(c):
    from .greedy import Search, FIT
    for cls in FIT:
        where = c.anchor("greedy", cls + ".run")
        for choice, plan in (("pick-one", [("s", 1, "A"), ("p", 0, "W"), ("p", 1, "A"), ("s", 0, "E")]), ("pick-two", [("p", 0, "A"), ("s", 0, "E")])):
            def go(w, choice=choice, plan=plan):
                s = Search(w, cls, choice, plan)
                look = lambda: {"density": s.dens, "density of the search": w.get(s.obj, "density"), "points": s.pts,
                                "points of the grid": w.get(s.grid, "points"), "weights of the grid": w.get(s.grid, "_weights"),
                                "points of the model": w.get(w.get(s.obj, "model"), "points"),
                                "target normalisation": w.get(s.obj, "integral_dens")}
                before = {k: freeze(w, v) for k, v in look().items()}
                o = s.run(max_numb_funcs=w.int(4))
                if not w.no_raise("runs", where, o, "a search"):
                    return
                for k, v in look().items():
                    agree(c, w, "unchanged", where, before[k], freeze(w, v), f"{k} after the search")
            c.context(f"search: {cls}, {choice}", "unchanged", where, go)
