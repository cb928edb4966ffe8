"""C29: rejection of invalid arguments, for every combination of the other arguments."""
import itertools

from ..core import *
from ..terms import compare, fn, ONE, ZERO
from . import rule
from .stubs import make, setup, MODELS, Optimiser

MEAS = ("SquaredDifference", "KLDivergence", "TsallisDivergence")


def values(w):
    """Things that are not arrays."""
    I = w.I
    declare("s", "real")
    return {"a list": I.new(ListO([w.flt(sym("s"))])), "a tuple": (w.flt(sym("s")), w.flt(sym("s"))), "a float": w.flt(sym("s")), "an integer": w.int(3),
            "None": None, "a string": "abc", "a dictionary": I.new(DictO({}))}


@rule("C29")
def measures(c):
    for cls in MEAS:
        ws = c.anchor("measure", f"{cls}.evaluate")

        def params(w, default):
            if default or cls == "SquaredDifference":
                return {}
            declare("mask", "pos"), declare("par", "pos")
            if cls == "KLDivergence":
                return {"mask_value": w.flt(sym("mask")), "negative_val": w.flt(sym("par"))}
            w.assume(compare(">", fn("abs", sym("par") - ONE), P(Q(1, 10))))
            return {"mask_value": w.flt(sym("mask")), "alpha": w.flt(sym("par"))}

        def go(w, default):
            m = w.new("measure", cls, **params(w, default))
            N, K, D = w.sint("N"), w.sint("K"), w.sint("D")
            declare("f", "nn"), declare("g", "real")
            good = w.arr("f", N)
            dens = {"a vector": good, "a matrix": w.arr("f", N, D), "a column": w.arr("f", N, P(1)), "a 3-d array": w.arr("f", N, D, P(2)),
                    "a 0-d array": w.arr("f")}
            bad = values(w)
            model = {"of the same shape": w.arr("g", N), "longer": w.arr("g", N + K), "a matrix": w.arr("g", N, D), "a column": w.arr("g", N, P(1)),
                     "a row": w.arr("g", P(1), N), "a 0-d array": w.arr("g")}
            flags = {"default": {}, "deriv=False": {"deriv": w.bool(False)}, "deriv=True": {"deriv": w.bool(True)}}
            for fl, kw in flags.items():
                for a, x in list(dens.items()) + list(bad.items()):
                    for b, y in bad.items():
                        o = w.probe(lambda: w.meth(m, "evaluate", x, y, **kw))
                        w.must_raise("model-not-array", ws, o, "ValueError", f"density {a}, model {b}, {fl}")
                for a, x in list(dens.items())[1:] + list(bad.items()):
                    for b, y in model.items():
                        o = w.probe(lambda: w.meth(m, "evaluate", x, y, **kw))
                        w.must_raise("density-not-vector", ws, o, "ValueError", f"density {a}, model {b}, {fl}")
                for b, y in list(model.items())[1:]:
                    o = w.probe(lambda: w.meth(m, "evaluate", good, y, **kw))
                    w.must_raise("shape-mismatch", ws, o, "ValueError", f"density a vector, model {b}, {fl}")
            st = w.I.st
            w.I.enter(st.fork())
            L = w.sint("L", 0)
            w.assume(compare("!=", L, N))
            for fl, kw in flags.items():
                o = w.probe(lambda: w.meth(m, "evaluate", good, w.arr("g", L), **kw))
                w.must_raise("shape-mismatch", ws, o, "ValueError", f"model of any other length, {fl}")
            w.I.enter(st)
            for what, v in (("0", w.int(0)), ("1", w.int(1)), ("1.0", w.flt(1)), ("None", None), ("a string", "True"), ("an array", w.arr("g", N)),
                            ("a list", w.I.new(ListO([])))):
                for sgn in ("real", "pos", "mixed"):
                    declare("gp", "pos"), declare("gn", "pos")
                    y = {"real": lambda: w.arr("g", N), "pos": lambda: w.arr("gp", N), "mixed": lambda: w.arrf([N], lambda i: -sym("gn", i))}[sgn]()
                    o = w.probe(lambda: w.meth(m, "evaluate", good, y, deriv=v))
                    w.must_raise("flag-not-boolean", ws, o, "TypeError", f"deriv = {what}, model values {sgn}")
        for default in (True, False):
            if cls == "SquaredDifference" and not default:
                continue
            c.context(f"{cls}, {'default' if default else 'symbolic'} parameters", "model-not-array", ws, lambda w, d=default: go(w, d))
    wt = c.anchor("measure", "TsallisDivergence.__init__")

    def alpha(w):
        declare("par", "pos"), declare("mask", "pos")
        for kw in ({}, {"mask_value": w.flt(sym("mask"))}):
            o = w.probe(lambda: w.new("measure", "TsallisDivergence", w.flt(-sym("par")), **kw))
            w.must_raise("alpha-negative", wt, o, "ValueError", "negative alpha")
            for one in (w.flt(1), w.int(1), w.flt(Q(10 ** 12 + 1, 10 ** 12)), w.flt(Q(10 ** 12 - 1, 10 ** 12))):
                o = w.probe(lambda: w.new("measure", "TsallisDivergence", one, **kw))
                w.must_raise("alpha-one", wt, o, "ValueError", "alpha equal to one")
    c.context("Tsallis alpha", "alpha-negative", wt, alpha)


@rule("C29")
def models(c):
    wi = c.anchor("model", "AtomicGaussianDensity.__init__")
    we = c.anchor("model", "AtomicGaussianDensity.evaluate")
    wc = c.anchor("model", "AtomicGaussianDensity.change_numb_s_and_numb_p")
    mi = c.anchor("model", "MolecularGaussianDensity.__init__")
    me = c.anchor("model", "MolecularGaussianDensity.evaluate")
    new = lambda w, *a, **k: w.probe(lambda: w.new("model", "AtomicGaussianDensity", *a, **k))
    mol = lambda w, *a, **k: w.probe(lambda: w.new("model", "MolecularGaussianDensity", *a, **k))

    def sizes(w):
        N, D, S = w.sint("N"), w.sint("D"), w.sint("S", 0)
        declare("x", "real"), declare("R", "real"), declare("c", "real"), declare("a", "pos")
        return N, D

    def atomic(w):
        N, D = sizes(w)
        pts = {"1-d": (w.arr("x", N), w.arr("R", P(1))), "2-d": (w.arr("x", N, D), w.arr("R", D))}
        s, p = w.sint("S"), w.sint("Pn")
        for (k, (x, R)), cen, nrm in itertools.product(pts.items(), (False, True), (False, True)):
            kw = {"normalize": w.bool(nrm)}
            if cen:
                kw["center"] = R
            what = f"{k} points, {'given' if cen else 'default'} centre, normalize={nrm}"
            for t, v in values(w).items():
                o = new(w, v, num_s=w.int(s), num_p=w.int(p), **kw)
                w.must_raise("points-not-array", wi, o, "TypeError", f"points {t}, {what}")
            for t, v in (("a negative integer", w.int(-s)), ("a float", w.flt(2)), ("a fraction", w.flt(Q(5, 2))), ("None", None), ("a string", "2"),
                         ("a list", w.I.new(ListO([w.int(1)])))):
                for o_ in (w.int(p), w.int(0)):
                    o = new(w, x, num_s=v, num_p=o_, **kw)
                    w.must_raise("count-type", wi, o, "TypeError", f"num_s {t}, num_p {show(o_.p)}, {what}")
                    o = new(w, x, num_s=o_, num_p=v, **kw)
                    w.must_raise("count-type", wi, o, "TypeError", f"num_p {t}, num_s {show(o_.p)}, {what}")
            # counts of opposite sign that sum to something positive
            o = new(w, x, num_s=w.int(s + p), num_p=w.int(-p), **kw)
            w.must_raise("count-type", wi, o, "TypeError", f"negative num_p, {what}")
            o = new(w, x, num_s=w.int(-p), num_p=w.int(s + p), **kw)
            w.must_raise("count-type", wi, o, "TypeError", f"negative num_s, {what}")
            o = new(w, x, num_s=w.int(0), num_p=w.int(0), **kw)
            w.must_raise("empty-basis", wi, o, "ValueError", f"no functions, {what}")
        for (k, (x, R)), nrm, (ns, np_) in itertools.product(pts.items(), (False, True), ((s, p), (s, ZERO), (ZERO, p))):
            kw = {"normalize": w.bool(nrm), "num_s": w.int(ns), "num_p": w.int(np_)}
            for t, v in values(w).items():
                if v is None:
                    continue
                o = new(w, x, v, **kw)
                w.must_raise("centre-not-vector", wi, o, "ValueError", f"centre {t}, {k} points, normalize={nrm}")
            for t, v in (("a row", w.arr("R", P(1), D)), ("a matrix", w.arr("R", D, D)), ("a 0-d array", w.arr("R"))):
                o = new(w, x, v, **kw)
                w.must_raise("centre-not-vector", wi, o, "ValueError", f"centre {t}, {k} points, normalize={nrm}")
            K = w.sint("K")
            st = w.I.st
            w.I.enter(st.fork())
            w.assume(compare("!=", K, D if k == "2-d" else ONE))
            o = new(w, x, w.arr("R", K), **kw)
            w.must_raise("centre-dimension", wi, o, "ValueError", f"centre with another number of coordinates, {k} points, normalize={nrm}")
            w.I.enter(st)
    c.context("constructor of the atomic model", "points-not-array", wi, atomic)

    def counts(w):
        N, D = sizes(w)
        s, p = w.sint("S"), w.sint("Pn")
        m = w.new("model", "AtomicGaussianDensity", w.arr("x", N), num_s=w.int(s), num_p=w.int(p))
        for t, v in (("a float", w.flt(2)), ("None", None), ("a string", "2"), ("a list", w.I.new(ListO([w.int(1)])))):
            for ok in (0, 1):
                o = w.probe(lambda: w.meth(m, "change_numb_s_and_numb_p", v, w.int(ok)))
                w.must_raise("new-count-type", wc, o, "TypeError", f"new number of s functions {t}")
                o = w.probe(lambda: w.meth(m, "change_numb_s_and_numb_p", w.int(ok), v))
                w.must_raise("new-count-type", wc, o, "TypeError", f"new number of p functions {t}")
            for n, want in (("num_s", s), ("num_p", p)):
                c.eq(w.ctx, "counts-kept", wc, w.I.to_arr(w.get(m, n)).cells[()], want, (), f"{n} after a rejected change")
    c.context("changing the counts", "new-count-type", wc, counts)

    def evaluate(w, m, nb, where, what):
        K = w.sint("K")
        good = lambda n: w.arr(n, nb)
        flags = ({}, {"deriv": w.bool(False)}, {"deriv": w.bool(True)})
        for kw in flags:
            d = f"{what}, {kw and show(kw['deriv'].p) or 'default'}"
            for t, f in (("a column", lambda n: w.arr(n, nb, P(1))), ("a row", lambda n: w.arr(n, P(1), nb)), ("a matrix", lambda n: w.arr(n, nb, K)),
                         ("a 0-d array", lambda n: w.arr(n))):
                for x, y, u in ((f("c"), good("a"), "coefficients"), (good("c"), f("a"), "exponents"), (f("c"), f("a"), "both")):
                    o = w.probe(lambda: w.meth(m, "evaluate", x, y, **kw))
                    w.must_raise("parameters-not-vectors", where, o, "ValueError", f"{u} {t}, deriv: {d}")
            st = w.I.st
            w.I.enter(st.fork())
            L = w.sint("L", 0)
            w.assume(compare("!=", L, nb))
            for x, y, u in ((w.arr("c", L), good("a"), "coefficients"), (good("c"), w.arr("a", L), "exponents"), (w.arr("c", L), w.arr("a", L), "both"),
                            (w.arr("c", L), w.arr("a", L + K), "both, different"), (w.arr("c", nb + K), w.arr("a", nb - ONE), "both, opposite")):
                o = w.probe(lambda: w.meth(m, "evaluate", x, y, **kw))
                w.must_raise("parameter-length", where, o, "ValueError", f"{u} of another length, deriv: {d}")
            w.I.enter(st)

    def ev_atomic(w):
        N, D = sizes(w)
        s, p = w.sint("S"), w.sint("Pn")
        for k, x in (("1-d", w.arr("x", N)), ("2-d", w.arr("x", N, D))):
            for ns, np_ in ((s, p), (s, ZERO), (ZERO, p), (ONE, ZERO), (ZERO, ONE), (P(2), P(1))):
                for nrm in (False, True):
                    m = w.new("model", "AtomicGaussianDensity", x, num_s=w.int(ns), num_p=w.int(np_), normalize=w.bool(nrm))
                    evaluate(w, m, ns + np_, we, f"{k} points, {show(ns)} s, {show(np_)} p, normalize={nrm}")
    c.context("evaluation of the atomic model", "parameter-length", we, ev_atomic)

    from .model import mat

    def molecular(w):
        N, D = sizes(w)
        pts = {"1-d": (w.arr("x", N), ONE), "2-d": (w.arr("x", N, D), D)}
        for (k, (x, d)), nrm in itertools.product(pts.items(), (False, True)):
            b1, b2, b3 = (mat(w, r, "int") for r in ([[1, 0]], [[2, 1], [0, 1]], [[1, 1], [2, 0], [0, 3]]))
            t0 = f"{k} points, normalize={nrm}"
            n = w.bool(nrm)
            for t, v in list(values(w).items()) + [("a vector", w.arr("R", d)), ("a 3-d array", w.arr("R", P(2), d, P(1))), ("a 0-d array", w.arr("R"))]:
                for b in (b1, b2):
                    w.must_raise("coords-not-matrix", mi, mol(w, x, v, b, n), "ValueError", f"coords {t}, {t0}")
            for t, v in (("a vector", w.arrf([P(2)], lambda i: ONE, "int")), ("three columns", mat(w, [[1, 1, 1], [1, 1, 1]], "int")), ("one column", mat(w, [[1], [1]], "int")),
                         ("a 3-d array", w.arrf([P(2), P(2), P(1)], lambda i, j, q: ONE, "int"))):
                w.must_raise("basis-shape", mi, mol(w, x, w.arr("R", P(2), d), v, n), "ValueError", f"basis {t}, {t0}")
            for m, b in ((1, b2), (3, b2), (2, b1), (2, b3), (1, b3)):
                w.must_raise("atoms-mismatch", mi, mol(w, x, w.arr("R", P(m), d), b, n), "ValueError", f"{m} centres and another number of basis rows, {t0}")
            K = w.sint("K")
            st = w.I.st
            w.I.enter(st.fork())
            w.assume(compare("!=", K, d))
            for m, b in ((1, b1), (2, b2), (3, b3)):
                w.must_raise("coords-dimension", mi, mol(w, x, w.arr("R", P(m), K), b, n), "ValueError", f"{m} centres in another dimension, {t0}")
            w.I.enter(st)
            for rows in ([[0, 0]], [[1, 0], [0, 0]], [[0, 0], [1, 1]], [[1, 0], [0, 0], [0, 1]]):
                w.must_raise("empty-basis", mi, mol(w, x, w.arr("R", P(len(rows)), d), mat(w, rows, "int"), n), "ValueError", f"basis {rows}, {t0}")
    c.context("constructor of the molecular model", "coords-not-matrix", mi, molecular)

    def ev_mol(w):
        N, D = sizes(w)
        for k, x, d in (("1-d", w.arr("x", N), ONE), ("2-d", w.arr("x", N, D), D)):
            for rows in ([[1, 0]], [[2, 1], [0, 1]], [[1, 0], [1, 0]], [[1, 1], [2, 0], [0, 3]]):
                for nrm in (False, True):
                    m = w.new("model", "MolecularGaussianDensity", x, w.arr("R", P(len(rows)), d), mat(w, rows, "int"), w.bool(nrm))
                    evaluate(w, m, P(sum(map(sum, rows))), me, f"{k} points, basis {rows}, normalize={nrm}")
    c.context("evaluation of the molecular model", "parameter-length", me, ev_mol)


@rule("C29")
def grids(c):
    wu = c.anchor("grid", "UniformRadialGrid.__init__")
    wc = c.anchor("grid", "ClenshawRadialGrid.__init__")

    def notint(w):
        n = w.sint("S")
        return (("a float", w.flt(sym("s"))), ("an integral float", w.flt(3)), ("None", None), ("a string", "5"), ("a list", w.I.new(ListO([w.int(3)]))),
                ("an array", w.arrf([P(2)], lambda i: ONE, "int")))

    def uniform(w):
        declare("s", "real"), declare("lo", "real"), declare("len", "pos")
        n = w.sint("S")
        ranges = ({}, {"min_radii": w.flt(sym("lo")), "max_radii": w.flt(sym("lo") + sym("len"))}, {"max_radii": w.int(7)})
        new = lambda *a, **k: w.probe(lambda: w.new("grid", "UniformRadialGrid", *a, **k))
        for kw in ranges:
            for t, v in notint(w) + (("zero", w.int(0)), ("a negative integer", w.int(-n))):
                w.must_raise("num-points", wu, new(v, **kw), "TypeError", f"num_pts {t}, {sorted(kw)}")
        for t, v in (("a string", "1"), ("None", None), ("a list", w.I.new(ListO([w.flt(1)]))), ("an array", w.arr("x", P(2)))):
            w.must_raise("radius-type", wu, new(w.int(n), v, w.flt(sym("len"))), "TypeError", f"min_radii {t}")
            w.must_raise("radius-type", wu, new(w.int(n), max_radii=v), "TypeError", f"max_radii {t}")
            w.must_raise("radius-type", wu, new(w.int(n), w.flt(sym("lo")), v), "TypeError", f"max_radii {t}, min_radii given")
            w.must_raise("radius-type", wu, new(w.int(n), v), "TypeError", f"min_radii {t}, max_radii default")
        for m in (w.int(n), w.int(1), w.int(2)):
            for lo, hi in ((sym("lo"), sym("lo")), (sym("lo") + sym("len"), sym("lo"))):
                w.must_raise("radius-order", wu, new(m, w.flt(lo), w.flt(hi)), "ValueError", f"radii {show(lo)}, {show(hi)}")
            w.must_raise("radius-order", wu, new(m, max_radii=w.flt(-sym("len"))), "ValueError", "negative upper radius")
            w.must_raise("radius-order", wu, new(m, w.flt(P(100) + sym("len"))), "ValueError", "lower radius above the default upper radius")
            w.must_raise("radius-order", wu, new(m, w.int(5), w.int(5)), "ValueError", "equal integer radii")
    c.context("uniform radial grid", "num-points", wu, uniform)

    def clenshaw(w):
        declare("s", "real"), declare("xtra", "pos")
        n, Z, k = w.sint("S"), w.sint("Z"), w.sint("K")
        new = lambda *a, **kw: w.probe(lambda: w.new("grid", "ClenshawRadialGrid", *a, **kw))
        lst = w.I.new(ListO([w.flt(sym("xtra"))]))
        for kw in ({}, {"include_origin": w.bool(False)}, {"extra_pts": lst}, {"extra_pts": lst, "include_origin": w.bool(False)}):
            t0 = f"options {sorted(kw)}"
            for t, v in notint(w):
                w.must_raise("atomic-number", wc, new(v, w.int(n), w.int(k), **kw), "TypeError", f"atomic number {t}, {t0}")
                w.must_raise("core-points", wc, new(w.int(Z), v, w.int(k), **kw), "TypeError", f"num_core_pts {t}, {t0}")
                w.must_raise("diffuse-points", wc, new(w.int(Z), w.int(n), v, **kw), "TypeError", f"num_diffuse_pts {t}, {t0}")
            for v in (w.int(0), w.int(-Z)):
                w.must_raise("atomic-number", wc, new(v, w.int(n), w.int(k), **kw), "TypeError", f"atomic number {show(v.p)}, {t0}")
            w.must_raise("core-points", wc, new(w.int(Z), w.int(-n), w.int(k), **kw), "TypeError", f"negative num_core_pts, {t0}")
            w.must_raise("diffuse-points", wc, new(w.int(Z), w.int(n), w.int(-k), **kw), "TypeError", f"negative num_diffuse_pts, {t0}")
        for org in ({}, {"include_origin": w.bool(False)}):
            for t, v in (("a string", "50, 60"), ("an integer", w.int(5)), ("a float", w.flt(sym("xtra")))):
                w.must_raise("extra-points", wc, new(w.int(Z), w.int(n), w.int(k), v, **org), "TypeError", f"extra_pts {t}")
        for ex in ({}, {"extra_pts": lst}):
            for t, v in (("an integer", w.int(1)), ("zero", w.int(0)), ("None", None), ("a string", "True"), ("a float", w.flt(1)), ("a list", w.I.new(ListO([])))):
                w.must_raise("origin-flag", wc, new(w.int(Z), w.int(n), w.int(k), include_origin=v, **ex), "TypeError", f"include_origin {t}")
    c.context("Clenshaw radial grid", "atomic-number", wc, clenshaw)


@rule("C29")
def fits(c):
    wb = c.anchor("fit", "_BaseFit.__init__")
    ws = c.anchor("fit", "ScipyFit.__init__")
    wr = c.anchor("fit", "KLDivergenceFPI.run")
    cls_ = lambda w, n: w.ns("fit", n)
    NAMES = [n for n in MODELS if n != "two centres, s only and p only"]

    def opts(w, cls):
        """Option combinations of a fit constructor."""
        declare("T", "pos"), declare("mk", "pos")
        for sph, tgt, msk in itertools.product((False, True), (False, True), (False, True)):
            kw = {"spherical": w.bool(sph)}
            if tgt:
                kw["integral_dens"] = w.flt(sym("T"))
            if msk:
                kw["mask_value"] = w.flt(sym("mk"))
            yield f"spherical={sph}, target {'given' if tgt else 'default'}, mask {'given' if msk else 'default'}", sph, kw

    def grids_(w, cls):
        s = setup(w, "symbolic", "atomic, s and p", False, False)
        what = {"without points": make(w, "NoPoints"), "without integrate": make(w, "PointsOnly", s.points),
                "whose integrate is no method": make(w, "IntegrateNotCallable", s.points)}
        for (t, g), (u, sph, kw) in itertools.product(what.items(), opts(w, cls)):
            o = w.probe(lambda: w.call(cls_(w, cls), g, s.dens, s.model, **kw))
            w.must_raise("grid-interface", wb, o, "AttributeError", f"{cls}, grid {t}, {u}")
    for cls in ("KLDivergenceFPI", "ScipyFit"):
        c.context(f"{cls}: grids without points or integration", "grid-interface", wb, lambda w, k=cls: grids_(w, k))

    def mismatch(w, name):
        s = setup(w, "symbolic", name, False, False)
        N = s.N
        declare("eps", "pos")
        one = s.kind in ("1d", "mol1")
        shifted = []
        # one coordinate of the first or of the last point differs, by any amount in either direction
        w.assume(compare(">", N, ONE))
        if not one:
            w.assume(compare(">", s.D, ONE))
        for sgn in (1, -1):
            for first in (True, False):
                d = P(sgn) * (P(Q(1, 10 ** 6)) + sym("eps"))
                k = N - ONE
                if one:
                    row = AR.from_fn([ONE], lambda i: sym("x", ZERO if first else k) + d)
                    rest = AR.from_fn([k], lambda i: sym("x", i + ONE if first else i))
                else:
                    col = lambda r: AR.concat([AR.from_fn([ONE, ONE], lambda i, j: sym("x", r, ZERO) + d),
                                               AR.from_fn([ONE, s.D - ONE], lambda i, j: sym("x", r, j + ONE))], 1)
                    row = col(ZERO if first else k)
                    rest = AR.from_fn([k, s.D], lambda i, j: sym("x", i + ONE if first else i, j))
                shifted.append(w.I.arr_new(AR.concat([row, rest] if first else [rest, row], 0)))
        W = w.I.arr_new(s.wts)
        for u, sph, kw in opts(w, "ScipyFit"):
            if sph and not one:
                continue
            for meth in ("SLSQP", "trust-constr"):
                for p in shifted:
                    o = w.probe(lambda: w.call(cls_(w, "ScipyFit"), make(w, "Grid", p, W), s.dens, s.model, method=meth, **kw))
                    w.must_raise("points-mismatch", ws, o, "ValueError", f"model on other points, {u}, {meth}")
                o = w.probe(lambda: w.call(cls_(w, "ScipyFit"), s.grid, w.arr("f", N + w.sint("K")), s.model, method=meth, **kw))
                w.must_raise("density-length", ws, o, "ValueError", f"longer density, {u}, {meth}")
    for name in ("atomic, s and p", "atomic, p only", "atomic on 3-d points, s and p"):
        c.context(f"ScipyFit, {name}: grid and density that do not match", "points-mismatch", ws, lambda w, n=name: mismatch(w, n))

    def choices(w, name):
        s = setup(w, "symbolic", name, False, False)
        one = s.kind in ("1d", "mol1")
        ms = {"a string": "kl", "None": None, "a class": w.ns("measure", "KLDivergence"), "a number": w.flt(1), "another object": make(w, "NotMeasure")}
        for u, sph, kw in opts(w, "ScipyFit"):
            if sph and not one:
                continue
            for meth in ("BFGS", "", "slsqp ", "trust", "COBYLA", "trust_constr", "constr"):
                o = w.probe(lambda: w.call(cls_(w, "ScipyFit"), s.grid, s.dens, s.model, method=meth, **kw))
                w.must_raise("method", ws, o, "ValueError", f"method {meth!r}, {u}")
            for meth in ("SLSQP", "trust-constr"):
                for t, m in ms.items():
                    o = w.probe(lambda: w.call(cls_(w, "ScipyFit"), s.grid, s.dens, s.model, measure=m, method=meth, **kw))
                    w.must_raise("measure-type", ws, o, "TypeError", f"measure {t}, {u}, {meth}")
    for name in ("atomic, s and p", "atomic on 3-d points, s and p"):
        c.context(f"ScipyFit, {name}: unknown methods and measures", "method", ws, lambda w, n=name: choices(w, n))

    def starts(w, name):
        s = setup(w, "symbolic", name, False, False)
        nb, K = s.nb, w.sint("K")
        fit = w.call(cls_(w, "KLDivergenceFPI"), s.grid, s.dens, s.model)
        good = lambda n: w.arr(n, nb)
        for oc, oe in ((True, True), (True, False), (False, True)):
            for more in ({}, {"maxiter": w.int(1)}, {"maxiter": w.int(0)}, {"disp": w.bool(True)}):
                kw = {"opt_coeffs": w.bool(oc), "opt_expons": w.bool(oe), **more}
                u = f"coefficients {'optimised' if oc else 'fixed'}, exponents {'optimised' if oe else 'fixed'}, {sorted(more)}"
                for t, v in values(w).items():
                    for x, y in ((v, good("a")), (good("c"), v), (v, v)):
                        o = w.probe(lambda: w.meth(fit, "run", x, y, **kw))
                        w.must_raise("start-type", wr, o, "TypeError", f"start {t}, {u}")
                st = w.I.st
                w.I.enter(st.fork())
                L = w.sint("L", 0)
                w.assume(compare("!=", L, nb))
                for t, f in (("of another length", lambda n: w.arr(n, L)), ("a column", lambda n: w.arr(n, nb, P(1))), ("a row", lambda n: w.arr(n, P(1), nb)),
                             ("a 0-d array", lambda n: w.arr(n))):
                    for x, y in ((f("c"), good("a")), (good("c"), f("a")), (f("c"), f("a"))):
                        o = w.probe(lambda: w.meth(fit, "run", x, y, **kw))
                        w.must_raise("start-shape", wr, o, "ValueError", f"start {t}, {u}")
                w.I.enter(st)
    for name in ("atomic, s and p", "atomic, s only", "two centres, s and p each"):
        c.context(f"KLDivergenceFPI, {name}: starting vectors", "start-shape", wr, lambda w, n=name: starts(w, n))


@rule("C29")
def others(c):
    wg = c.anchor("greedy", "GreedyStrategy.run")
    wn = c.anchor("greedy", "GreedyStrategy.__init__")
    wa = c.anchor("density", "SlaterAtoms.atomic_density")

    def greedy(w, cls, choice):
        from .stubs import declare_fit
        s = setup(w, "fixed", "atomic, one s", False, True, fixed={})
        kw = {"spherical": w.bool(True)}
        o = w.run(lambda: w.new("greedy", cls, s.grid, s.dens, choice, **kw))
        if o.exc is not None:
            w.no_raise("greedy-accepts", wn, o)
            return
        for opt in ({}, {"disp": w.bool(True)}, {"max_numb_funcs": w.int(3)}):
            for t, v in (("an integer", w.int(2)), ("None", None), ("a string", "2.0"), ("a list", w.I.new(ListO([w.flt(2)])))):
                r = w.probe(lambda: w.meth(o.value, "run", v, **opt))
                w.must_raise("factor-type", wg, r, "TypeError", f"{cls}, factor {t}")
            declare("fac", "nn")
            for v in (w.flt(-sym("fac")), w.flt(0), w.flt(-2)):
                r = w.probe(lambda: w.meth(o.value, "run", v, **opt))
                w.must_raise("factor-sign", wg, r, "ValueError", f"{cls}, factor {show(v.p)}")
    for cls in ("GreedyLeastSquares", "GreedyKLFPI"):
        for choice in ("pick-one", "pick-two", "pick-two-lose-one"):
            c.context(f"{cls}, {choice}: factor", "factor-type", wg, lambda w, k=cls, ch=choice: greedy(w, k, ch))

        def choices(w, cls=cls):
            s = setup(w, "fixed", "atomic, one s", False, True)
            for ch in ("pick", "pick_one", "pick-three", "", "Pick-One ", "pick-two-lose", "pick-two-lose-two"):
                for sph in (False, True):
                    o = w.run(lambda: w.new("greedy", cls, s.grid, s.dens, ch, spherical=w.bool(sph)))
                    w.must_raise("choice-function", wn, o, "ValueError", f"{cls}, choice function {ch!r}")
        c.context(f"{cls}: unknown choice functions", "choice-function", wn, choices)
