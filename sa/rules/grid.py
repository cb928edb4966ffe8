"""C07-C10: radial and cubic grids."""
from ..core import *
from ..terms import compare, blend, fn, power, mk_sum, fn_exp, fn_sqrt, ONE, ZERO, PI, rawmul
from .model import H, mat, scalar, at
from . import rule
import itertools


def el(a, i):
    """Element i of a 1-D Arr."""
    return AR.getitem(a, [P(i)]).cells[()]


def trapz_spec(xa, ya):
    """Sum of the trapezoid areas over the stored points."""
    n = AR.axlen(xa.ax[0])
    hi = lambda v: AR.take_slice(v, 0, ONE, None)
    lo = lambda v: AR.take_slice(v, 0, None, n - 1)
    d = AR.mapn(lambda p, q, r, s: (p - q) * (r + s) / P(2), [hi(xa), lo(xa), hi(ya), lo(ya)])
    return AR.reduce_all(d, "sum")


def radial_variants():
    for n in ("symbolic", "fixed"):
        yield "Uniform", n
    for e in (None, 1, 2):
        for n in ("symbolic", "fixed"):
            yield f"Clenshaw extra={e}", n


def make_radial(w, kind, mode, origin=None, dtype=None, small=(4, 2, 3)):
    I = w.I
    if SIZE[0]:
        small = (2, 1, 1)
    if kind == "Uniform":
        N = w.sint("N", 2) if mode == "symbolic" else P(small[0])
        declare("lo", "real"), declare("width", "pos")
        lo, hi = sym("lo"), sym("lo") + sym("width")
        kw = {} if dtype is None else {"dtype": dtype}
        return (lambda: w.new("grid", "UniformRadialGrid", w.int(N), w.flt(lo), w.flt(hi), **kw)), dict(N=N, lo=lo, hi=hi)
    e = kind.split("=")[1]
    ne = 0 if e == "None" else int(e)
    Z = w.sint("Z")
    m = w.sint("m") if mode == "symbolic" else P(small[1])
    n = w.sint("n") if mode == "symbolic" else P(small[2])
    declare("xtra", "nonneg")
    kw = {} if dtype is None else {"dtype": dtype}
    if origin is not None:
        kw["include_origin"] = w.bool(origin)
    if ne:
        kw["extra_pts"] = I.new(ListO([w.flt(sym("xtra", P(k))) for k in range(ne)]))
    return (lambda: w.new("grid", "ClenshawRadialGrid", w.int(Z), w.int(m), w.int(n), **kw)), dict(Z=Z, m=m, n=n, ne=ne)


@rule("C07")
def c07(c):
    any_points(c, c.anchor("grid", "UniformRadialGrid.integrate"))
    for kind in ("Uniform", "Clenshaw extra=None", "Clenshaw extra=1", "Clenshaw extra=2"):
        cls = kind.split()[0] + "RadialGrid"
        where = c.anchor("grid", cls + ".integrate")

        def go(w, mode):
            mk, q = make_radial(w, kind, mode, small=(5, 2, 3) if "1" not in kind else (5, 2, 2))
            declare("y", "real"), declare("z", "real"), declare("al", "real"), declare("be", "real")
            g = [None]
            o = w.run(lambda: g.__setitem__(0, mk()))
            if not w.no_raise("construct", where, o):
                return
            g = g[0]
            pts = w.get(g, "points")
            xa = w.A(pts)
            n = AR.axlen(xa.ax[0])
            y = w.arr("y", n)
            # another integrand before, in a buffer that is refilled
            from .stubs import scratch, refill
            declare("y1", "real")
            buf = scratch(w, w.arr("y1", n))
            w.run(lambda: w.meth(g, "integrate", buf))
            refill(w, buf, y)
            o = w.run(lambda: w.meth(g, "integrate", buf))
            if w.no_raise("integrate-accepts", where, o):
                c.eq(w.ctx, "trapezoid", where, scalar(w, o.value), trapz_spec(xa, AR.from_fn([n], lambda i: sym("y", i))), (), "integral of a refilled array")
            o = w.run(lambda: w.meth(g, "integrate", y))
            if not w.no_raise("integrate-accepts", where, o):
                return
            ya = AR.from_fn([n], lambda i: sym("y", i))
            want = trapz_spec(xa, ya)
            c.eq(w.ctx, "trapezoid", where, scalar(w, o.value), want, (), "integral")
            lin = w.arrf([n], lambda i: sym("al") * sym("y", i) + sym("be") * sym("z", i))
            o = w.run(lambda: w.meth(g, "integrate", lin))
            if w.no_raise("integrate-accepts", where, o):
                za = AR.from_fn([n], lambda i: sym("z", i))
                c.eq(w.ctx, "linear", where, scalar(w, o.value), sym("al") * want + sym("be") * trapz_spec(xa, za), (), "integral of a combination")
            K = w.sint("K", 0)
            st = w.I.st
            w.I.enter(st.fork())
            w.assume(compare("!=", K, n))
            bad = w.arr("y", K)
            o = w.probe(lambda: w.meth(g, "integrate", bad))
            w.must_raise("shape-check", where, o, "ValueError", "integrand of another length")
            w.I.enter(st)
            for sh, what in (((n, ONE), "a column"), ((ONE, n), "a row"), ((n, n), "a square"), ((P(2), n), "two rows"), ((n, P(3)), "three columns")):
                o = w.probe(lambda: w.meth(g, "integrate", w.arr("y2", *sh)))
                w.must_raise("shape-check", where, o, "ValueError", "two-dimensional integrand, " + what)
        variants = [(kind, "symbolic"), (kind + ", fixed sizes", "fixed")]
        c.ladder(variants, "trapezoid", where, go)
        c.context(kind + ", fixed sizes", "trapezoid", where, lambda w: go(w, "fixed"))
        for bad in ("NAN", "INF"):
            for at in (0, 2, -1):
                c.context(f"{kind}, fixed sizes, integrand {bad} at point {at}", "trapezoid", where, lambda w, kind=kind, bad=bad, at=at: not_finite(c, w, where, kind, bad, at))
        c.ladder([(v + ", integer integrand", m) for v, m in variants], "trapezoid", where, integers({"y"}, go))


def not_finite(c, w, where, kind, bad, at):
    """An integrand with one value that is not finite: the integral is not finite either."""
    mk, q = make_radial(w, kind, "fixed", small=(5, 2, 3) if "1" not in kind else (5, 2, 2))
    declare("y", "real")
    g = mk()
    n = AR.axlen(w.A(w.get(g, "points")).ax[0])
    if n.const() is None:
        raise Give("number of points not known")
    k = at % int(n.const())
    y = w.arrf([n], lambda i: (T.NAN if bad == "NAN" else T.INF) if i.const() == k else sym("y", i))
    a = w.A(y)
    if not any(is_special(v) for v in a.cells.values()):
        y = w.I.arr_new(w.I.stack([AR.lift((T.NAN if bad == "NAN" else T.INF) if i == k else sym("y", P(i))) for i in range(int(n.const()))]))
    o = w.run(lambda: w.meth(g, "integrate", y))
    if not w.no_raise("integrate-accepts", where, o):
        return
    v = scalar(w, o.value)
    if is_special(v):
        c.ok(w.ctx, "not-finite", where, f"integral is {short(v, 60)}")
    elif w.I.unknowns:
        c.dunno(w.ctx, "not-finite", where, "integral not understood")
    else:
        c.bad(w.ctx, "not-finite", where, f"an integrand with a {bad} value has the integral {short(v, 160)}", {})


def is_special(v):
    """Is the value surely NaN or infinite: every term carries one?"""
    return any(T.atom(a) in (("ext", "NAN"), ("ext", "INF")) for m in v.t for a, _ in m)


POINTS = {"tiny spacing": [0, Q(1, 10**9), Q(3, 10**9), Q(4, 10**9), Q(9, 10**9)], "nearly equal spacing": [0, 1, Q(2) + Q(1, 10**7), 3, 4],
          "equal spacing": [0, 1, 2, 3, 4], "decreasing": [9, 4, 2, 1, 0], "unordered": [3, 0, 1, 7, 2], "repeated": [0, 1, 1, 1, 5],
          "huge spacing": [0, 10**9, 10**10, 10**12, 10**13], "one point": [3], "two points": [Q(1, 4), 2], "negative": [-5, -2, 0, 1, 8]}


def any_points(c, where):
    """Trapezoid rule on the class that holds arbitrary points."""
    def at(w, pts, owner="arg:points"):
        b = w.ns("grid", "UniformRadialGrid")
        while getattr(b, "bases", None) and hasattr(b.bases[0], "bases") and w.I.getattr(b.bases[0], "integrate") is not None:
            b = b.bases[0]
        g = [None]
        o = w.run(lambda: g.__setitem__(0, w.call(b, pts)))
        if o.exc is not None or g[0] is None:
            raise Give("no class takes the points themselves")
        return g[0]

    def check(w, x, n):
        declare("y", "real")
        g = at(w, x)
        y = w.arr("y", n)
        o = w.run(lambda: w.meth(g, "integrate", y))
        if not w.no_raise("integrate-accepts", where, o):
            return
        want = trapz_spec(w.A(x), AR.from_fn([n], lambda i: sym("y", i)))
        c.eq(w.ctx, "trapezoid", where, scalar(w, o.value), want, (), "integral over arbitrary points")

    def free(w, mode):
        declare("x", "real")
        n = w.sint("N", 2) if mode == "symbolic" else P(5)
        check(w, w.arr("x", n), n)
    c.ladder([("arbitrary points", "symbolic"), ("arbitrary points, fixed sizes", "fixed")], "trapezoid", where, free)
    for name, vals in POINTS.items():
        c.context(f"points: {name}", "trapezoid", where,
                  lambda w, vals=vals: check(w, w.I.arr_new(w.I.stack([AR.lift(P(Q(v))) for v in vals])), P(len(vals))))


def seg_multiset(a):
    return sorted((T.show(s), T.show(a.cells[(i,)])) for i, s in enumerate(a.ax[0]) if s.const() != 0)


def sorted_source(w, a):
    """The array whose sorted version a is, or None."""
    if len(a.cells) != 1:
        return None
    (k, v), = a.cells.items()
    if len(v.t) != 1:
        return None
    (m, co), = v.t.items()
    if co != 1 or len(m) != 1:
        return None
    t = T.atom(m[0][0])
    if t[0] != "opq" or t[1] != "sorted" or t[2][1] != ix(0):
        return None
    return w.I.sorted[int(t[2][0].const())][1]


def same_elements(a, b):
    """The two 1-D arrays have provably the same multiset of elements (segment-wise, then element-wise)."""
    if seg_multiset(a) == seg_multiset(b):
        return True
    na, nb = AR.axlen(a.ax[0]).const(), AR.axlen(b.ax[0]).const()
    if na is not None and na == nb:
        la, lb = [el(a, i) for i in range(int(na))], [el(b, i) for i in range(int(nb))]
        for x in la:
            k = next((k for k, y in enumerate(lb) if is_zero(x - y)), None)
            if k is None:
                return False
            del lb[k]
        return True
    return False


def exact(go, dt):
    """The analysis without the rounding of the requested floating-point type, which is allowed to change the precision."""
    def f(w, mode):
        T.ROUND[0] = dt != "numpy.float32"
        try:
            return go(w, mode)
        finally:
            T.ROUND[0] = True
    return f


@rule("C08")
def c08(c):
    where = c.anchor("grid", "UniformRadialGrid")
    DT = (None, "numpy.float64", "numpy.float32")
    for dt in DT:
        def go(w, mode):
            mk, q = make_radial(w, "Uniform", mode, dtype=None if dt is None else Ext(dt))
            h = [None]
            o = w.run(lambda: h.__setitem__(0, mk()))
            if not w.no_raise("construct", where, o):
                return
            N = q["N"]
            want = AR.from_fn([N], lambda i: q["lo"] + (q["hi"] - q["lo"]) * i / (N - ONE))
            c.eq_arr(w.ctx, "uniform-nodes", where, w.A(w.get(h[0], "points")), want, "points")
        c.ladder([(f"uniform grid, dtype {dt or 'default'}", "symbolic"), (f"uniform grid, dtype {dt or 'default'}, fixed sizes", "fixed")],
                 "uniform-nodes", where, exact(go, dt))

    def dflt(w):
        N = w.sint("N", 2)
        o = w.run(lambda: w.get(w.new("grid", "UniformRadialGrid", w.int(N)), "points"))
        if w.no_raise("construct", where, o):
            c.eq_arr(w.ctx, "uniform-nodes", where, w.A(o.value), AR.from_fn([N], lambda i: P(100) * i / (N - ONE)), "points")
    c.context("uniform grid, default bounds", "uniform-nodes", where, dflt)

    def one(w):
        declare("lo", "real"), declare("width", "pos")
        o = w.run(lambda: w.get(w.new("grid", "UniformRadialGrid", w.int(1), w.flt(sym("lo")), w.flt(sym("lo") + sym("width"))), "points"))
        if w.no_raise("construct", where, o):
            c.eq_arr(w.ctx, "uniform-nodes", where, w.A(o.value), AR.from_fn([ONE], lambda i: sym("lo")), "points")
    c.context("uniform grid, one point", "uniform-nodes", where, one)

    where2 = c.anchor("grid", "ClenshawRadialGrid")
    for origin in (None, True, False):
        for extra in ("None", "1", "2", "3"):
            for dt in DT if extra in ("None", "2") else (None,):
                kind = f"Clenshaw extra={extra}"
                ctx = f"Clenshaw grid, include_origin={origin}, {extra} extra points, dtype {dt or 'default'}"

                def go(w, mode):
                    mk, q = make_radial(w, kind, mode, origin, None if dt is None else Ext(dt))
                    h = [None]
                    o = w.run(lambda: h.__setitem__(0, mk()))
                    if not w.no_raise("construct", where2, o):
                        return
                    a = w.A(w.get(h[0], "points"))
                    m, n, Z = q["m"], q["n"], q["Z"]
                    off = ONE if origin is False else ZERO
                    parts = [AR.from_fn([m], lambda i: (ONE - fn("cos", PI * (i + off) / (P(2) * m))) / (P(2) * Z)),
                             AR.from_fn([n], lambda i: P(25) * (ONE - fn("cos", PI * (i + ONE) / (P(2) * n))))]
                    if q["ne"]:
                        parts.append(AR.from_cells1([(ONE, sym("xtra", P(k))) for k in range(q["ne"])]))
                    want = AR.concat(parts, 0)
                    src = sorted_source(w, a)
                    if src is not None and same_elements(src, want):
                        c.ok(w.ctx, "clenshaw-nodes", where2, "sorted union of core, diffuse and extra nodes: " + str(seg_multiset(want))[:300])
                        return
                    ref = w.I.arr_new(want)
                    ws = w.A(w.I.call(Ext("numpy.sort"), [ref], {}))
                    c.eq_arr(w.ctx, "clenshaw-nodes", where2, a, ws, "points")
                c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "clenshaw-nodes", where2, exact(go, dt))


# ------------------------------------------------------------------ cubic
def cubic(w, mode, shape_kind):
    declare("o", "real"), declare("ax", "real")
    if mode == "symbolic":
        n = [w.sint(f"n{k}") for k in range(3)]
    else:
        n = [P(v) for v in mode]
    origin = w.arr("o", 3)
    axes = w.arr("ax", 3, 3)
    if shape_kind == "array":
        shape = w.I.arr_new(AR.from_cells1([(ONE, v) for v in n], "int"), "arg:shape")
    elif shape_kind == "tuple":
        shape = tuple(w.int(v) for v in n)
    else:
        shape = w.I.new(ListO([w.int(v) for v in n]))
    return (lambda: w.new("grid", "CubicGrid", origin, axes, shape)), n


def det3():
    s = lambda i, j: sym("ax", P(i), P(j))
    d = ZERO
    for (i, j, k), sg in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((2, 1, 0), -1), ((1, 0, 2), -1), ((0, 2, 1), -1)):
        d = d + P(sg) * s(0, i) * s(1, j) * s(2, k)
    return d


@rule("C09")
def c09(c):
    wp = c.anchor("grid", "CubicGrid.points")
    wi = c.anchor("grid", "CubicGrid.integrate")
    shapes = [(2, 3, 4), (1, 2, 3), (3, 1, 2)] + ([(3, 2, 1), (2, 2, 2), (4, 3, 2), (1, 1, 1), (5, 2, 3)] if c.thorough else [])
    for sk in ("array", "tuple", "list"):
        def go(w, mode):
            mk, n = cubic(w, mode, sk)
            h = [None]
            o = w.run(lambda: h.__setitem__(0, mk()))
            if not w.no_raise("construct", wp, o):
                return
            g = h[0]
            a = w.A(w.get(g, "points"))
            tot = n[0] * n[1] * n[2]
            if AR.cmp(AR.axlen(a.ax[0]), tot) != 0 or len(a.cells) > 1 or mode != "symbolic":
                def cell(p, d):
                    k, r = p % int(n[2].const()), p // int(n[2].const())
                    return sum((sym("ax", P(t), P(d)) * P(v) for t, v in ((0, r // int(n[1].const())), (1, r % int(n[1].const())), (2, k))), sym("o", P(d)))
                if mode == "symbolic":
                    raise Give("layout of the points")
                N = int(tot.const())
                want = w.I.stack([AR.from_cells1([(ONE, cell(p, d)) for d in range(3)]) for p in range(N)])
                c.eq_arr(w.ctx, "lattice", wp, a, want, "points")
            else:
                # substitute p = (i n1 + j) n2 + k with 0 <= j < n1, 0 <= k < n2
                declare("i0", "nonneg", True, lo=0), declare("j0", "nonneg", True, lo=0), declare("k0", "nonneg", True, lo=0)
                i, j, k = sym("i0"), sym("j0"), sym("k0")
                st = w.I.st
                w.I.enter(st.fork())
                w.assume(compare("<", i, n[0])), w.assume(compare("<", j, n[1])), w.assume(compare("<", k, n[2]))
                p = (i * n[1] + j) * n[2] + k
                for d in range(3):
                    got = AR.getitem(a, [None] * 0 + [p, P(d)]).cells[()]
                    want = sym("o", P(d)) + i * sym("ax", ZERO, P(d)) + j * sym("ax", ONE, P(d)) + k * sym("ax", P(2), P(d))
                    c.eq(w.ctx, "lattice", wp, got, want, (), f"component {d} of point ({show(i)}, {show(j)}, {show(k)})")
                w.I.enter(st)
            declare("y", "real")
            y = w.arr("y", tot)
            from .stubs import scratch, refill
            declare("y1", "real")
            buf = scratch(w, w.arr("y1", tot))
            w.run(lambda: w.meth(g, "integrate", buf))
            refill(w, buf, y)
            o = w.run(lambda: w.meth(g, "integrate", buf))
            if w.no_raise("integrate-accepts", wi, o):
                s = AR.reduce_all(AR.from_fn([tot], lambda i: sym("y", i)), "sum")
                c.eq(w.ctx, "cell-volume", wi, scalar(w, o.value), fn("abs", det3()) * s, (), "integral of a refilled array")
            o = w.run(lambda: w.meth(g, "integrate", y))
            if w.no_raise("integrate-accepts", wi, o):
                s = AR.reduce_all(AR.from_fn([tot], lambda i: sym("y", i)), "sum")
                c.eq(w.ctx, "cell-volume", wi, scalar(w, o.value), fn("abs", det3()) * s, (), "integral")
            if P(tot).const() is not None:
                for special, t in ((T.NAN, "NaN"), (T.INF, "infinite")):
                    m = int(P(tot).const())
                    bad = w.I.arr_new(w.I.stack([AR.lift(special if i == m - 1 else sym("y", P(i))) for i in range(m)]))
                    o = w.run(lambda: w.meth(g, "integrate", bad))
                    if w.no_raise("integrate-accepts", wi, o):
                        v = scalar(w, o.value)
                        if is_special(v):
                            c.ok(w.ctx, "not-finite", wi, f"{t} value")
                        elif w.I.unknowns:
                            c.dunno(w.ctx, "not-finite", wi, "integral not understood")
                        else:
                            c.bad(w.ctx, "not-finite", wi, f"an integrand with a value that is {t} has the integral {short(v, 160)}", {})
            K = w.sint("K", 0)
            st = w.I.st
            w.I.enter(st.fork())
            w.assume(compare("!=", K, tot))
            o = w.probe(lambda: w.meth(g, "integrate", w.arr("y", K)))
            w.must_raise("shape-check", wi, o, "ValueError", "integrand of another length")
            w.I.enter(st)
            for sh, what in (((tot, ONE), "a column"), ((ONE, tot), "a row"), ((tot, tot), "a square")):
                o = w.probe(lambda: w.meth(g, "integrate", w.arr("y2", *sh)))
                w.must_raise("shape-check", wi, o, "ValueError", "two-dimensional integrand, " + what)
        c.ladder([(f"shape given as {sk}", "symbolic")] + [(f"shape {s} given as {sk}", s) for s in shapes], "lattice", wp, go)
        for nm, what in (({"o"}, "integer origin"), ({"ax"}, "integer axes"), ({"o", "ax"}, "integer origin and axes"), ({"y"}, "integer integrand")):
            c.ladder([(f"shape given as {sk}, {what}", "symbolic"), (f"shape {shapes[0]} given as {sk}, {what}", shapes[0])], "lattice", wp, integers(nm, go))
        for s in shapes[:3 if c.thorough else 1]:
            c.context(f"shape {s} given as {sk}", "lattice", wp, lambda w: go(w, s))


# ------------------------------------------------------------------ from_molecule
def quaternion(fixed=None):
    for n in ("qw", "qx", "qy", "qz"):
        declare(n, "real")
    w_, x, y, z = [P(v) for v in fixed] if fixed else (sym(n) for n in ("qw", "qx", "qy", "qz"))
    s = power(w_ * w_ + x * x + y * y + z * z, P(-1))
    two = P(2)
    return [[(w_ * w_ + x * x - y * y - z * z) * s, two * (x * y - w_ * z) * s, two * (x * z + w_ * y) * s],
            [two * (x * y + w_ * z) * s, (w_ * w_ - x * x + y * y - z * z) * s, two * (y * z - w_ * x) * s],
            [two * (x * z - w_ * y) * s, two * (y * z + w_ * x) * s, (w_ * w_ - x * x - y * y + z * z) * s]]


GEOMETRIES = {
    "one atom off the origin": [(8, (1, -2, 3))],
    "two atoms on an axis": [(1, (0, 0, 0)), (9, (0, 0, 2))],
    "three atoms in a line": [(6, (0, 0, 0)), (8, (1, 1, 0)), (8, (-1, -1, 0))],
    "four atoms in a plane": [(6, (0, 0, 0)), (1, (1, 2, 0)), (1, (-2, 1, 0)), (8, (1, -1, 0))],
    "five atoms in space": [(7, (0, 0, 1)), (1, (1, 2, 0)), (1, (-2, 1, 0)), (1, (1, -1, -3)), (3, (2, 0, 5))],
}


@rule("C10")
def c10(c):
    where = c.anchor("grid", "CubicGrid.from_molecule")
    nats = ("K", 1, 2, 3) + ((4, 5) if c.thorough else ()) + tuple(GEOMETRIES)
    for rotate in (None, True, False):
        for nat in nats:
            def go(w, nat):
                I = w.I
                declare("Z", "pos"), declare("X", "real"), declare("h", "pos"), declare("ext", "pos")
                geo = GEOMETRIES.get(nat)
                K = P(len(geo)) if geo else w.sint("K") if nat == "K" else P(nat)
                if geo:
                    col = lambda f: AR.from_cells1([(ONE, P(Q(f(g)))) for g in geo])
                    Zs, Xs = col(lambda g: g[0]), [col(lambda g, d=d: g[1][d]) for d in range(3)]
                    Z = I.arr_new(Zs, "arg:charges")
                    X = I.arr_new(I.stack([AR.from_cells1([(ONE, P(Q(v))) for v in g[1]]) for g in geo]), "arg:coordinates")
                else:
                    Z, X = w.arr("Z", K), w.arr("X", K, 3)
                    Zs = AR.from_fn([K], lambda a: sym("Z", a))
                    Xs = [AR.from_fn([K], lambda a, d=d: sym("X", a, P(d))) for d in range(3)]
                rot = quaternion((2, 1, -1, 3) if geo else None)
                mats = []

                def eigh(I, args, kw):
                    m = I.to_arr(args[0])
                    mats.append(m)
                    v = I.stack([AR.from_cells1([(ONE, e) for e in r]) for r in rot])
                    declare("eval", "real")
                    return (w.arr("eval", 3, owner=False), I.arr_new(v))
                I.ext["numpy.linalg.eigh"] = I.ext["scipy.linalg.eigh"] = I.ext["numpy.linalg.eig"] = eigh
                made = []

                def over(I, f, args, kw):
                    made.append((args, kw))
                    return NotImplemented
                kw = {} if rotate is None else {"rotate": w.bool(rotate)}
                f = w.get(w.ns("grid", "CubicGrid"), "from_molecule")
                rec = {}
                cls = w.ns("grid", "CubicGrid")
                init = None

                def handler(I, fv, args, kw2):
                    names = [a.arg for a in fv.node.args.args][1:]
                    d = dict(zip(names, args[1:]))
                    d.update(kw2)
                    rec.update(d)
                    rec["n"] = rec.get("n", 0) + 1
                    return None
                I.func_over["bfit.grid.CubicGrid.__init__"] = handler
                o = w.run(lambda: w.call(f, Z, X, w.flt(sym("h")), w.flt(sym("ext")), **kw))
                if not w.no_raise("from-molecule-accepts", where, o):
                    return
                if not {"origin", "axes", "shape"} <= set(rec):
                    raise Give("constructor call not seen")
                org, axes, shape = w.A(rec["origin"]), w.A(rec["axes"]), w.A(rec["shape"])
                ax = [[AR.getitem(axes, [P(i), P(j)]).cells[()] for j in range(3)] for i in range(3)]
                h, ext = sym("h"), sym("ext")
                if rotate is False:
                    want = [[h if i == j else ZERO for j in range(3)] for i in range(3)]
                else:
                    want = [[h * rot[j][i] for j in range(3)] for i in range(3)]
                # axes: each a (signed) spacing times a distinct principal direction
                used = []
                for i in range(3):
                    hit = None
                    for j in range(3):
                        for sg in (1, -1):
                            if j not in used and all(is_zero(ax[i][d] - P(sg) * want[j][d]) for d in range(3)):
                                hit = j
                                break
                        if hit is not None:
                            break
                    if hit is None:
                        for d in range(3):
                            c.eq(w.ctx, "axes", where, ax[i][d], want[i][d], (), f"component {d} of axis {i}")
                        return
                    used.append(hit)
                    c.ok(w.ctx, "axes", where, f"axis {i} is the spacing times direction {hit}")
                if rotate is not False:
                    if len(mats) != 1:
                        raise Give("eigenvectors of several matrices")
                    inertia_check(c, w, where, mats[0], Zs, Xs)
                # extent along every axis
                for i in range(3):
                    u = [ax[i][d] / h for d in range(3)]
                    n = el(shape, i)
                    lo = sum((el(org, d) * u[d] for d in range(3)), ZERO)
                    hi = lo + (n - ONE) * h
                    proj = AR.mapn(lambda *v: sum((v[d] * u[d] for d in range(3)), ZERO), Xs)
                    mx, mn = AR.reduce_all(proj, "max"), AR.reduce_all(proj, "min")
                    # low end: lo <= min - ext + h ; high end: hi >= max + ext - h ; not more than a cell too far either
                    below = mn - ext + h - lo
                    above = hi - (mx + ext - h)
                    for nm, p in (("low end", below), ("high end", above), ("low end, at most a cell beyond", P(2) * h - below),
                                  ("high end, at most a cell beyond", P(2) * h - above)):
                        prove_extent(c, w, where, p, f"{nm} of axis {i}", h)
            variants = [(f"rotate={rotate}, {nat if nat in GEOMETRIES else str(nat if nat != 'K' else 'any number of') + ' atoms'}", nat)]
            c.ladder(variants, "extent", where, go)
            if nat in ("K", 2):
                for nm, what in (({"Z"}, "charges"), ({"X"}, "coordinates"), ({"Z", "X"}, "charges and coordinates")):
                    c.ladder([(v + ", integer " + what, m) for v, m in variants], "extent", where, integers(nm, go))


def prove_extent(c, w, where, p, what, h):
    """p >= 0 with every ceil(y) replaced by y + eps, 0 <= eps < 1."""
    mp = {}
    k = 0
    for a in sorted(deep_atoms(p)):
        t = T.atom(a)
        if t[0] == "fn" and t[1] == "ceil":
            declare(f"eps{k}", "nonneg", lo=0, hi=1)
            mp[a] = t[2][0] + sym(f"eps{k}")
            k += 1
    q = T.subst(p, mp) if mp else p
    try:
        ok = T.prove_ge0(q)
        if not ok and 0 < k < 4:
            # affine in every eps: the corners decide
            ids = [T.aid(("sym", f"eps{i}", ())) for i in range(k)]
            if all(sum(1 for a, e in m if a in ids) <= 1 and all(e == 1 for a, e in m if a in ids) for m in q.t):
                ok = all(T.prove_ge0(T.subst(q, dict(zip(ids, [P(x) for x in v])))) for v in itertools.product((0, 1), repeat=k))
        if not ok:
            # what cancels identically: is q = (al + sum be_i eps_i) h ?
            ids = [T.aid(("sym", f"eps{i}", ())) for i in range(k)]

            def rate(v):
                env = Env((c.seed, 3))
                env.sizes["K"] = 3
                x = ev(T.subst(q, dict(zip(ids, [P(e) for e in v]))) / h, env)
                r = Q(round(x * 4), 4)
                return r if abs(x - r) < 1e-6 else None
            rates = [rate([0] * k)] + [rate([int(i == j) for j in range(k)]) for i in range(k)]
            if None not in rates:
                al, be = rates[0], [r - rates[0] for r in rates[1:]]
                if al + sum(min(b, 0) for b in be) >= 0:
                    ok = is_zero(q - (P(al) + sum((P(b) * sym(f"eps{i}") for i, b in enumerate(be)), ZERO)) * h)
        if ok:
            c.ok(w.ctx, "extent", where, f"{what}: margin {short(q, 200)} >= 0")
            return
    except (TooBig, RecursionError, EvalError, OverflowError, ZeroDivisionError, ValueError):
        pass
    cond = compare(">=", p + P(Q(1, 10 ** 9)), ZERO)
    wt = witness(cond, ONE, (), c.seed, gen=lambda env, rng, t: env.sizes.__setitem__("ext", (0.3 + rng.random() * 3) * (0.01 if t % 4 == 3 else 1)), trials=80)
    if wt is not None:
        c.bad(w.ctx, "extent", where, f"{what}: the end of the grid is more than one spacing away from the requested margin: {short(p, 300)} < 0", wt)
    else:
        c.dunno(w.ctx, "extent", where, f"{what}: {short(q, 300)} >= 0")


def inertia_check(c, w, where, m, Zs, Xs):
    s = lambda f, *a: AR.reduce_all(AR.mapn(f, list(a)), "sum")
    tz = s(lambda z: z, Zs)
    com = [s(lambda z, x: z * x, Zs, Xs[d]) / tz for d in range(3)]
    C = [[s(lambda z, x, y, i=i, j=j: z * (x - com[i]) * (y - com[j]), Zs, Xs[i], Xs[j]) for j in range(3)] for i in range(3)]
    M = [[AR.getitem(m, [P(i), P(j)]).cells[()] for j in range(3)] for i in range(3)]
    tr = C[0][0] + C[1][1] + C[2][2]
    T1 = [[(tr if i == j else ZERO) - C[i][j] for j in range(3)] for i in range(3)]
    for ref, nm in ((T1, "inertia tensor of the nuclear charges"), (C, "second moment of the nuclear charges")):
        if all(is_zero(M[i][j] - ref[i][j]) for i in range(3) for j in range(3)):
            c.ok(w.ctx, "principal-axes", where, f"axes are eigenvectors of the {nm}")
            return
    # same eigenvectors iff the matrices commute
    for i in range(3):
        for j in range(3):
            a = sum((M[i][k] * C[k][j] for k in range(3)), ZERO)
            b = sum((C[i][k] * M[k][j] for k in range(3)), ZERO)
            c.eq(w.ctx, "principal-axes", where, a, b, (), f"commutator of the diagonalised matrix with the charge distribution, element {i}{j}", tol=1e-5)
