"""C18-C20: Slater densities from the tabulated orbitals."""
from ..core import *
from ..terms import compare, blend, fn, power, mk_sum, fn_exp, fn_sqrt, ONE, ZERO, PI
from .model import H, mat, scalar, at
from . import rule

ORBS = {
    "one 1S orbital": ["1S"],
    "S and P shells": ["1S", "2S", "2P"],
    "S, P and D shells": ["1S", "2S", "3S", "2P", "3P", "3D"],
    "S, P, D and F shells": ["1S", "2S", "3S", "4S", "2P", "3P", "3D", "4F"],
}
L = {"S": 0, "P": 1, "D": 2, "F": 3}


def declare_slater():
    declare("occ", "pos"), declare("eps", "real"), declare("ze", "pos"), declare("cf", "real")
    declare("r", "pos", lo=Q(11, 10 ** 11))
    declare("pn", "pos", True, lo=1, hi=7)


def stub_data(w, labels, mode, sfx="", table=None):
    """Orbital data of one atom; table: element -> data already supplied."""
    I = w.I
    shells = [s for s in "SPDF" if any(o[1] == s for o in labels)]
    cnt = {s: (w.sint("n" + s) if mode == "symbolic" else small("n", 2)) for s in shells}
    n = len(labels)
    code = {s: k for k, s in enumerate("SPDF")}

    def d(items):
        return I.new(DictO(dict(items)), "state:atom")
    colv = lambda name, k: w.arrf([n, 1], lambda i, j: ZERO)
    occ = mat(w, [[sym("occ" + sfx, P(i))] for i in range(n)], "float", "state:atom")
    en = mat(w, [[sym("eps" + sfx, P(i))] for i in range(n)], "float", "state:atom")
    ex = d({s: w.arrf([cnt[s], 1], lambda i, j, s=s: sym("ze" + sfx, P(code[s]), i), "float", "state:atom") for s in shells})
    bn = d({s: w.arrf([cnt[s], 1], lambda i, j, s=s: sym("pn" + sfx, P(code[s]), i), "int", "state:atom") for s in shells})
    co = d({o: w.arrf([cnt[o[1]], 1], lambda i, j, k=k: sym("cf" + sfx, P(k), i), "float", "state:atom") for k, o in enumerate(labels)})
    data = {"configuration": "1S(2)", "energy": w.flt(sym("E0")), "potential_energy": w.flt(sym("V0")), "kinetic_energy": w.flt(sym("T0")),
            "orbitals": I.new(ListO(list(labels))), "orbitals_occupation": occ, "orbitals_basis": d({}), "basis_numbers": bn,
            "orbitals_exp": ex, "orbitals_coeff": co, "orbitals_energy": en, "orbitals_cusp": en}
    table = {} if table is None else table
    table["yy" if sfx else "xx"] = data

    def load(I, f, a, k):
        e = a[0] if a else k.get("element")
        return d(table[e.lower() if isinstance(e, str) and e.lower() in table else "xx"])
    I.func_over["bfit._slater.load_slater_wfn"] = load
    return cnt, code


def norm(z, n):
    return power(P(2) * z, n) * fn_sqrt(P(2) * z / fn("factorial", P(2) * n))


def slater_term(z, n, r):
    return norm(z, n) * power(r, n - ONE) * fn_exp(-(z * r))


def points(w, mode):
    """Points: positive radii followed by points at the nucleus."""
    N = w.sint("N") if mode == "symbolic" else small("N", 2)
    M = w.sint("M") if mode == "symbolic" else ONE
    a = AR.concat([AR.from_fn([N], lambda i: sym("r", i)), AR.from_fn([M], lambda i: ZERO)], 0)
    if "r" in T.INTS:
        a = Arr(a.ax, a.cells, "int")
    return w.I.arr_new(a, "arg:points"), a, N, M


METHODS = (("phi_matrix", {}), ("phi_matrix", {"deriv": True}), ("atomic_density", {}), ("atomic_density", {"mode": "valence"}),
           ("atomic_density", {"mode": "core"}), ("derivative_density", {}), ("positive_definite_kinetic_energy", {}))


def history(w, labels, mode, pts, table):
    """Calls of a longer session: another atom with other data, the same atom at other points, neighbouring points and in every
    other mode; the buffer of the points is refilled in place. Returns (atom, points) to check."""
    from .stubs import refill, scratch, nearby
    for n, sg in (("occ2", "pos"), ("eps2", "real"), ("ze2", "pos"), ("cf2", "real")):
        declare(n, sg)
    declare("pn2", "pos", True, lo=1, hi=7)
    declare("rr", "pos", lo=Q(11, 10 ** 11))
    stub_data(w, labels, mode, "2", table)
    n = AR.axlen(w.A(pts).ax[0])
    pt2 = w.arr("rr", n)
    w.assume(compare("!=", sym("rr", ZERO), sym("r", ZERO)))

    def call(obj, p, own):
        for m, kw in METHODS:
            w.run(lambda: w.meth(obj, m, p, **{k: w.bool(v) if isinstance(v, bool) else v for k, v in kw.items()}))
    one, two = w.new("density", "SlaterAtoms", "xx"), w.new("density", "SlaterAtoms", "yy")
    buf = scratch(w, pt2)
    call(one, buf, True)
    call(two, pts, False)
    refill(w, buf, nearby(w, pts))
    call(one, buf, True)
    call(one, pts, True)
    call(two, pts, False)
    call(one, pt2, True)
    refill(w, buf, pts)
    return one, buf


def phi(a, cnt, code, k, o):
    """Orbital k on the points as an Arr."""
    n = cnt[o[1]]
    s = P(code[o[1]])

    def f(r):
        body = sym("cf", P(k), ix(5)) * slater_term(sym("ze", s, ix(5)), sym("pn", s, ix(5)), r)
        return mk_sum(n, body, ("ix", 5))
    return a.map(f)


def dphi(a, cnt, code, k, o):
    n = cnt[o[1]]
    s = P(code[o[1]])

    def f(r):
        if not r.t:
            return ZERO
        z, m = sym("ze", s, ix(5)), sym("pn", s, ix(5))
        return mk_sum(n, sym("cf", P(k), ix(5)) * ((m - ONE) / r - z) * slater_term(z, m, r), ("ix", 5))
    return a.map(f)


def atom(w):
    return w.new("density", "SlaterAtoms", "xx")


def addup(arrs):
    tot = arrs[0]
    for b in arrs[1:]:
        tot = AR.mapn(lambda x, y: x + y, [tot, b])
    return tot


def run_atom(c, where, rl, fn_):
    for name, labels in ORBS.items():
        def go(w, mode, warm=False):
            declare_slater()
            table = {}
            cnt, code = stub_data(w, labels, mode, table=table)
            pts, a, N, M = points(w, mode)
            obj = lambda: atom(w)
            if warm:
                one, pts = history(w, labels, mode, pts, table)
                obj = lambda: one
            fn_(w, labels, cnt, code, pts, a, obj)
        c.ladder([(name, "symbolic"), (name + ", fixed sizes", "fixed")], rl, where, go)
        if name == "S and P shells" or c.thorough:
            c.ladder([(name + ", after other calls", "symbolic"), (name + ", after other calls, fixed sizes", "fixed")], rl, where, lambda w, md: go(w, md, True))
            c.ladder([(name + ", integer radii", "symbolic"), (name + ", integer radii, fixed sizes", "fixed")], rl, where, integers({"r"}, go))


@rule("C18")
def c18(c):
    where = c.anchor("density", "SlaterAtoms.atomic_density")
    wphi = c.anchor("density", "SlaterAtoms.phi_matrix")

    def go(w, labels, cnt, code, pts, a, atom_):
        n = len(labels)
        phis = [phi(a, cnt, code, k, o) for k, o in enumerate(labels)]
        # orbitals
        o = w.run(lambda: w.meth(atom_(), "phi_matrix", pts))
        if w.no_raise("phi-accepts", wphi, o):
            want = AR.transpose(w.I.stack(phis))
            c.eq_arr(w.ctx, "orbitals", wphi, w.A(o.value), want, "orbital values")
        homo = sym("eps", ZERO)
        for k in range(1, n):
            homo = fn("max", homo, sym("eps", P(k)))
        for m in (None, "total", "valence", "core"):
            o = w.run(lambda: w.meth(atom_(), "atomic_density", pts, *(() if m is None else (m,))))
            if not w.no_raise("density-accepts", where, o):
                continue
            ws = []
            for k in range(n):
                e = sym("eps", P(k)) - homo
                g = fn_exp(-(e * e))
                ws.append(sym("occ", P(k)) * {"valence": g, "core": ONE - g}.get(m, ONE) / (P(4) * PI))
            want = addup([p.map(lambda v, k=k: v * v * ws[k]) for k, p in enumerate(phis)])
            c.eq_arr(w.ctx, f"density-{m or 'default'}", where, w.A(o.value), want, "density")
        for m in ("", "Total", "all"):
            o = w.run(lambda: w.meth(atom_(), "atomic_density", pts, m))
            w.must_raise("density-mode", where, o, "ValueError", f"mode {m!r}")
    run_atom(c, where, "density-total", go)


@rule("C19")
def c19(c):
    wd = c.anchor("density", "SlaterAtoms.derivative_density")
    wk = c.anchor("density", "SlaterAtoms.positive_definite_kinetic_energy")

    def go(w, labels, cnt, code, pts, a, atom_):
        phis = [phi(a, cnt, code, k, o) for k, o in enumerate(labels)]
        dphis = [dphi(a, cnt, code, k, o) for k, o in enumerate(labels)]
        o = w.run(lambda: w.meth(atom_(), "derivative_density", pts))
        if w.no_raise("derivative-accepts", wd, o):
            want = addup([AR.mapn(lambda p, q, k=k: P(2) * sym("occ", P(k)) * p * q / (P(4) * PI), [phis[k], dphis[k]]) for k in range(len(labels))])
            c.eq_arr(w.ctx, "density-derivative", wd, w.A(o.value), want, "density derivative")
        o = w.run(lambda: w.meth(atom_(), "phi_matrix", pts, deriv=w.bool(True)))
        wp = c.anchor("density", "SlaterAtoms.phi_matrix")
        if w.no_raise("phi-accepts", wp, o):
            c.eq_arr(w.ctx, "orbital-derivatives", wp, w.A(o.value), AR.transpose(w.I.stack(dphis)), "orbital derivatives")
        o = w.run(lambda: w.meth(atom_(), "positive_definite_kinetic_energy", pts))
        if w.no_raise("kinetic-accepts", wk, o):
            parts = []
            for k, lab in enumerate(labels):
                l = L[lab[1]]

                def f(p, q, r, k=k, l=l):
                    ang = ZERO if not r.t else P(l * (l + 1)) * p * p / (r * r)
                    return sym("occ", P(k)) * (q * q + ang) / (P(8) * PI)
                parts.append(AR.mapn(f, [phis[k], dphis[k], a]))
            c.eq_arr(w.ctx, "kinetic-density", wk, w.A(o.value), addup(parts), "kinetic energy density")
    run_atom(c, wd, "density-derivative", go)


@rule("C20")
def c20(c):
    ws = c.anchor("density", "SlaterAtoms.radial_slater_orbital")
    wd = c.anchor("density", "SlaterAtoms.derivative_radial_slater_type_orbital")

    def go(w, mode, warm=False):
        declare_slater()
        n = w.sint("n") if mode == "symbolic" else small("n", 2) if mode == "fixed" else ONE
        pts, a, N, M = points(w, mode)
        ze = w.arrf([n, 1], lambda i, j: sym("ze", i), "int" if "ze" in T.INTS else "float", "arg:exponent")
        pn = w.arrf([n, 1], lambda i, j: sym("pn", i), "int", "arg:number")
        cls = w.ns("density", "SlaterAtoms")

        def spec(f):
            return AR.transpose(AR.from_fn([n, AR.axlen(a.ax[0])], lambda i, j: ZERO)) if False else \
                AR.concat([AR.from_fn([sz, n], lambda i, j, cell=cell: f(T.subst(cell, {aid(("ix", 0)): i}), sym("ze", j), sym("pn", j)))
                           for (k,), cell in sorted(a.cells.items()) for sz in [a.ax[0][k]]], 0)
        if warm:
            # other exponents, numbers and points before; buffers refilled
            from .stubs import refill, scratch, nearby
            declare("ze2", "pos"), declare("pn2", "pos", True, lo=1, hi=7), declare("rr", "pos", lo=Q(11, 10 ** 11))
            ze2 = w.arrf([n, 1], lambda i, j: sym("ze2", i), "float", "arg:exponent")
            pn2 = w.arrf([n, 1], lambda i, j: sym("pn2", i), "int", "arg:number")
            pt2 = w.arr("rr", AR.axlen(a.ax[0]))
            for x, y in (("rr", "r"), ("ze", "ze2"), ("pn", "pn2")):
                w.assume(compare("!=", sym(x, ZERO), sym(y, ZERO)))
            bufs = [scratch(w, v) for v in (ze2, pn2, pt2)]

            def call(*v):
                for nm in ("radial_slater_orbital", "derivative_radial_slater_type_orbital"):
                    w.run(lambda: w.call(w.get(cls, nm), *v))
            call(*bufs), call(ze, pn, pt2), call(ze, pn2, pts), call(ze2, pn, pts)
            refill(w, bufs[0], nearby(w, ze)), refill(w, bufs[1], pn), refill(w, bufs[2], nearby(w, pts))
            call(*bufs)
            refill(w, bufs[0], ze), refill(w, bufs[2], pts)
            ze, pn, pts = bufs
        o = w.run(lambda: w.call(w.get(cls, "radial_slater_orbital"), ze, pn, pts))
        if w.no_raise("slater-accepts", ws, o):
            c.eq_arr(w.ctx, "slater-function", ws, w.A(o.value), spec(lambda r, z, m: slater_term(z, m, r)), "Slater functions")
        o = w.run(lambda: w.call(w.get(cls, "derivative_radial_slater_type_orbital"), ze, pn, pts))
        if w.no_raise("slater-accepts", wd, o):
            c.eq_arr(w.ctx, "slater-derivative", wd, w.A(o.value),
                     spec(lambda r, z, m: ZERO if not r.t else ((m - ONE) / r - z) * slater_term(z, m, r)), "Slater derivatives")
        for wh, nm in ((ws, "radial_slater_orbital"), (wd, "derivative_radial_slater_type_orbital")):
            for shp in ((N, P(1)), (N, P(3)), (ONE, N)):
                o = w.run(lambda: w.call(w.get(cls, nm), ze, pn, w.arr("r2", *shp)))
                w.must_raise("slater-shape-check", wh, o, "ValueError", f"points of shape {[show(s) for s in shp]}")
    c.ladder([("any number of functions", "symbolic"), ("two functions, fixed sizes", "fixed")], "slater-function", ws, go)
    c.context("one function, fixed sizes", "slater-function", ws, lambda w: go(w, "one"))
    c.ladder([("any number of functions, after other calls", "symbolic"), ("two functions, fixed sizes, after other calls", "fixed")], "slater-function", ws,
             lambda w, md: go(w, md, True))
    for nm, what in (({"r"}, "integer radii"), ({"ze"}, "integer exponents"), ({"r", "ze"}, "integer radii and exponents")):
        c.ladder([("any number of functions, " + what, "symbolic"), ("two functions, fixed sizes, " + what, "fixed")], "slater-function", ws, integers(nm, go))
