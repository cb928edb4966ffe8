"""C01-C04: atomic and molecular Gaussian models."""
from ..core import *
from ..terms import compare, blend, fn, power, mk_sum, fn_exp, fn_sqrt, ONE, ZERO, PI
from . import rule

H = lambda a, b=2: P(Q(a, b))


def declare_model():
    declare("c", "real"), declare("a", "pos"), declare("x", "real"), declare("R", "real")


def mat(w, rows, dt="float", owner=None):
    return w.I.arr_new(w.I.stack([w.I.stack([AR.lift(P(x), dt) for x in r]) for r in rows]), owner)


def pts(w, kind, N, D=None, atom=None):
    """(points, centre, radius^2 term at point ix(0)) for the kind of points."""
    if kind.startswith("1d"):
        p = w.arr("x", N)
        if kind == "1d":
            return p, w.I.const(None), sym("x", ix(0)) * sym("x", ix(0))
        c = w.arr("R", 1)
        d = sym("x", ix(0)) - sym("R", ZERO)
        return p, c, d * d
    p = w.arr("x", N, D)
    if kind == "2d":
        return p, w.I.const(None), AR.reduce_axis(AR.from_fn([N, D], lambda i, j: sym("x", i, j) ** 2), 1, "sum").cells[(0,)]
    c = w.arr("R", D)
    return p, c, AR.reduce_axis(AR.from_fn([N, D], lambda i, j: (sym("x", i, j) - sym("R", j)) ** 2), 1, "sum").cells[(0,)]


def norm_const(kind, a, normalized):
    if not normalized:
        return ONE
    return power(a / PI, H(3)) if kind == "s" else H(2, 3) * power(a, H(5)) / power(PI, H(3))


def dnorm_const(kind, a, normalized):
    if not normalized:
        return ZERO
    return H(3) * power(a, H(1)) / power(PI, H(3)) if kind == "s" else H(5, 3) * power(a, H(3)) / power(PI, H(3))


def basis(kind, a, r2, normalized):
    g = fn_exp(-(a * r2)) * norm_const(kind, a, normalized)
    return g if kind == "s" else g * r2


def dbasis(kind, a, r2, normalized):
    """d basis / d exponent."""
    e = fn_exp(-(a * r2))
    g = (dnorm_const(kind, a, normalized) - r2 * norm_const(kind, a, normalized)) * e
    return g if kind == "s" else g * r2


def blocks(ns, np_, off=ZERO):
    return [("s", ns, off), ("p", np_, off + ns)]


CO = lambda i: sym("c", i)
EX = lambda i: sym("a", i)


def value_arr(N, r2, blks, normalized, cf=CO, af=EX):
    """Array over the points of the spec value; r2 uses ix(0)."""
    tot = AR.from_fn([N], lambda i: ZERO)
    for kind, n, off, rr in blks:
        if n.const() == 0:
            continue
        a2 = AR.from_fn([N, n], lambda i, j, kind=kind, off=off, rr=rr: cf(off + j) * basis(kind, af(off + j), at(rr, i), normalized))
        tot = AR.mapn(lambda u, v: u + v, [tot, AR.reduce_axis(a2, 1, "sum")])
    return tot


def at(r2, i):
    return T.subst(r2, {aid(("ix", 0)): i})


def deriv_arr(N, blks, normalized, cf=CO, af=EX):
    parts = []
    for kind, n, off, rr in blks:
        if n.const() == 0:
            continue
        parts.append(AR.from_fn([N, n], lambda i, j, kind=kind, off=off, rr=rr: basis(kind, af(off + j), at(rr, i), normalized)))
    for kind, n, off, rr in blks:
        if n.const() == 0:
            continue
        parts.append(AR.from_fn([N, n], lambda i, j, kind=kind, off=off, rr=rr:
                                cf(off + j) * dbasis(kind, af(off + j), at(rr, i), normalized)))
    return AR.concat(parts, 1)


BASES = (("s only", "S", 0), ("p only", 0, "Pn"), ("s and p", "S", "Pn"), ("one s", 1, 0), ("one p", 0, 1), ("1 s 1 p", 1, 1), ("2 s 3 p", 2, 3))
SMALL = dict(N=3, D=2, S=2, Pn=2)


def sizes(w, mode, b):
    declare_model()
    g = (lambda n: w.sint(n)) if mode == "symbolic" else (lambda n: small(n, SMALL[n]))
    f = lambda v: P(v) if isinstance(v, int) else g(v)
    return g("N"), g("D"), f(b[1]), f(b[2])


def warm_evaluate(w, m, co, ex, n, deriv):
    """Earlier evaluations: other flags, each parameter array changed in turn, neighbouring parameters, and the caller's
    arrays refilled. Returns the arrays to evaluate at."""
    from .stubs import refill, scratch, nearby, distinct, declare_others
    declare_others()
    c2, a2 = w.arr("c2", n), w.arr("a2", n)
    distinct(w, "c", "c2", "a", "a2")
    call = lambda c_, a_, d: w.run(lambda: w.meth(m, "evaluate", c_, a_, w.bool(d)))
    want = bool(deriv)
    bc, ba = scratch(w, c2), scratch(w, a2)
    for c_, a_, d in ((co, ex, not want), (co, a2, not want), (c2, ex, want), (co, a2, want), (bc, ba, want)):
        call(c_, a_, d)
    refill(w, bc, nearby(w, co)), refill(w, ba, nearby(w, ex))
    call(bc, ba, want)
    refill(w, bc, co), refill(w, ba, ex)
    return bc, ba


def warm_kinds(c, b, kind, normalized):
    return c.thorough or (b[0] in ("s only", "p only", "s and p") and kind in ("1d", "2d centred") and (not normalized or b[0] == "s and p"))


def atom_run(w, mode, b, kind, normalized, deriv, rl, where, warm=False):
    N, D, S, Pn = sizes(w, mode, b)
    points, cen, r2 = pts(w, kind, N, D)
    co, ex = w.arr("c", S + Pn), w.arr("a", S + Pn)
    args = [points] if w.I.const(None) is cen or cen is None else [points, cen]
    kw = dict(num_s=w.int(S), num_p=w.int(Pn), normalize=w.bool(normalized))
    h = []

    def made():
        h.append(w.call(w.ns("model", "AtomicGaussianDensity"), *args, **kw))
        return h[0]
    if warm:
        # another model: other points, other counts, the other normalisation, at the same parameters
        declare("x2", "real")
        pt2 = w.arr("x2", *([N] if kind.startswith("1d") else [N, D]))
        for ns, np_, nz in ((S, Pn, normalized), (Pn, S, normalized), (S, Pn, not normalized)):
            w.run(lambda: w.meth(w.call(w.ns("model", "AtomicGaussianDensity"), pt2 if nz == normalized else points, *args[1:], num_s=w.int(ns), num_p=w.int(np_),
                                        normalize=w.bool(nz)), "evaluate", co, ex, w.bool(bool(deriv))))
        o = w.run(made)
        if not w.no_raise(rl + "-accepts", where, o):
            return None
        co, ex = warm_evaluate(w, h[0], co, ex, S + Pn, deriv)
        made = lambda: h[0]
    o = w.run(lambda: w.meth(made(), "evaluate", co, ex, *(() if deriv is None else (w.bool(deriv),))))
    if not w.no_raise(rl + "-accepts", where, o):
        return None
    blks = [(k, n, off, r2) for k, n, off in blocks(S, Pn)]
    return o.value, N, blks


def atom_contexts():
    for b in BASES:
        for kind in ("1d", "1d centred", "2d", "2d centred"):
            for normalized in (False, True):
                yield b, kind, normalized


def int_kinds(c, b, kind, deriv):
    """Arguments given as integer arrays."""
    if b[0] not in ("s only", "p only", "s and p") or not (c.thorough or (kind.endswith("centred") and deriv is not False)):
        return
    for nm in ("c", "a", "x", "R", "ca", "caxR"):
        if "R" not in nm or kind.endswith("centred"):
            yield set(nm), ", integer " + " and ".join(INT_NAMES[k] for k in nm)


INT_NAMES = {"c": "coefficients", "a": "exponents", "x": "points", "R": "centre", "f": "density", "g": "model", "w": "grid weights"}


@rule("C01")
def c01(c):
    where = c.anchor("model", "AtomicGaussianDensity.evaluate")
    for b, kind, normalized in atom_contexts():
        for deriv in (None, False, True):
            ctx = f"{b[0]}, points {kind}, normalize={normalized}, deriv={deriv}"

            def go(w, mode, warm=False):
                r = atom_run(w, mode, b, kind, normalized, deriv, "value", where, warm)
                if r is None:
                    return
                v, N, blks = r
                if deriv:
                    xs = w.seq(v)
                    if xs is None or len(xs) != 2:
                        raise Give("no (value, derivative) pair")
                    v = xs[0]
                c.eq_arr(w.ctx, "value", where, w.A(v), value_arr(N, None, blks, normalized))
            c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "value", where, go)
            if warm_kinds(c, b, kind, normalized):
                t = ctx + ", after other evaluations"
                c.ladder([(t, "symbolic"), (t + ", fixed sizes", "fixed")], "value", where, lambda w, md: go(w, md, True))
            for nm, what in int_kinds(c, b, kind, deriv):
                c.ladder([(ctx + what, "symbolic"), (ctx + what + ", fixed sizes", "fixed")], "value", where, integers(nm, go))
    # defaults: one s-type function, not normalised, centred at the origin
    def dflt(w):
        declare_model()
        N = w.sint("N")
        D = w.sint("D")
        points, _, r2 = pts(w, "2d", N, D)
        o = w.run(lambda: w.meth(w.new("model", "AtomicGaussianDensity", points), "evaluate", w.arr("c", 1), w.arr("a", 1)))
        if w.no_raise("value-accepts", where, o):
            c.eq_arr(w.ctx, "value", where, w.A(o.value), value_arr(N, None, [("s", ONE, ZERO, r2)], False))
    c.context("default constructor arguments", "value", where, dflt)


@rule("C02")
def c02(c):
    where = c.anchor("model", "AtomicGaussianDensity.evaluate")
    for b, kind, normalized in atom_contexts():
        ctx = f"{b[0]}, points {kind}, normalize={normalized}, deriv=True"

        def go(w, mode, warm=False):
            r = atom_run(w, mode, b, kind, normalized, True, "derivative", where, warm)
            if r is None:
                return
            v, N, blks = r
            xs = w.seq(v)
            if xs is None or len(xs) != 2:
                if w.I.unknowns or isinstance(v, (Ite, Opq)):
                    raise Give("no (value, derivative) pair")
                c.bad(w.ctx, "derivative-pair", where, "deriv=True does not return a (value, derivative) pair")
                return
            c.eq_arr(w.ctx, "derivative-value-part", where, w.A(xs[0]), value_arr(N, None, blks, normalized), "value part")
            c.eq_arr(w.ctx, "derivative", where, w.A(xs[1]), deriv_arr(N, blks, normalized), "derivative matrix")
        c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "derivative", where, go)
        if warm_kinds(c, b, kind, normalized):
            t = ctx + ", after other evaluations"
            c.ladder([(t, "symbolic"), (t + ", fixed sizes", "fixed")], "derivative", where, lambda w, md: go(w, md, True))
        for nm, what in int_kinds(c, b, kind, True):
            c.ladder([(ctx + what, "symbolic"), (ctx + what + ", fixed sizes", "fixed")], "derivative", where, integers(nm, go))


# ------------------------------------------------------------------ molecular
def mol_bases(thorough):
    K = ("S{k}", 0), (0, "P{k}"), ("S{k}", "P{k}")
    out = []
    for a in K:
        out.append((a,))
    for a in K:
        for b in K:
            out.append((a, b))
    three = [(K[2], K[2], K[2]), (K[0], K[1], K[2]), (K[1], K[2], K[0]), (K[2], K[0], K[1])]
    if thorough:
        three = [(a, b, d) for a in K for b in K for d in K]
    out += three
    out.append(((1, 0), (1, 0)))
    out.append(((1, 1), (2, 1), (1, 2)))
    return out


def mol_setup(w, mode, basis_, kind, normalized):
    declare_model()
    nat = len(basis_)
    N = w.sint("N") if mode == "symbolic" else small("N", 3)
    D = (w.sint("D") if mode == "symbolic" else small("D", 2)) if kind == "2d" else P(1)
    bs = []
    for k, (s, p) in enumerate(basis_):
        row = []
        for v in (s, p):
            if isinstance(v, int):
                row.append(P(v))
            elif mode == "symbolic":
                row.append(w.sint(v.format(k=k)))
            else:
                row.append(small("n", 1 + (k + len(row)) % 3))
        bs.append(row)
    points = w.arr("x", N, D) if kind == "2d" else w.arr("x", N)
    coords = w.arr("R", nat, D)
    bas = mat(w, bs, "int", "arg:basis")
    blks, off = [], ZERO
    for k, (s, p) in enumerate(bs):
        if kind == "2d":
            rr = AR.reduce_axis(AR.from_fn([N, D], lambda i, j: (sym("x", i, j) - sym("R", P(k), j)) ** 2), 1, "sum").cells[(0,)]
        else:
            rr = (sym("x", ix(0)) - sym("R", P(k), ZERO)) ** 2
        blks += [(kd, n, o, rr) for kd, n, o in blocks(s, p, off)]
        off = off + s + p
    obj = lambda: w.call(w.ns("model", "MolecularGaussianDensity"), points, coords, bas, w.bool(normalized))
    return obj, N, D, off, blks, bs


def mol_name(b):
    return "; ".join(f"({s.format(k=k) if isinstance(s, str) else s},{p.format(k=k) if isinstance(p, str) else p})" for k, (s, p) in enumerate(b))


@rule("C03")
def c03(c):
    where = c.anchor("model", "MolecularGaussianDensity.evaluate")
    for b in mol_bases(c.thorough):
        for kind in ("2d",) + (("1d",) if len(b) == 2 else ()):
            for normalized in (False, True):
                for deriv in (None, True):
                    ctx = f"{len(b)} centres with (s,p) counts {mol_name(b)}, points {kind}, normalize={normalized}, deriv={deriv}"

                    def go(w, mode, warm=False):
                        obj, N, D, tot, blks, bs = mol_setup(w, mode, b, kind, normalized)
                        co, ex = w.arr("c", tot), w.arr("a", tot)
                        if warm:
                            declare("x2", "real")
                            pt2 = w.arr("x2", N, D) if kind == "2d" else w.arr("x2", N)
                            for p_, rows, nz in ((pt2, bs, normalized), (w.arr("x", N, D) if kind == "2d" else w.arr("x", N), [r[::-1] for r in bs], normalized)):
                                w.run(lambda: w.meth(w.call(w.ns("model", "MolecularGaussianDensity"), p_, w.arr("R", len(bs), D), mat(w, rows, "int", "arg:basis"),
                                                            w.bool(nz)), "evaluate", co, ex, w.bool(bool(deriv))))
                            h = []
                            o = w.run(lambda: h.append(obj()))
                            if not w.no_raise("molecular-accepts", where, o):
                                return
                            co, ex = warm_evaluate(w, h[0], co, ex, tot, deriv)
                            obj = lambda: h[0]
                        o = w.run(lambda: w.meth(obj(), "evaluate", co, ex, *(() if deriv is None else (w.bool(deriv),))))
                        if not w.no_raise("molecular-accepts", where, o):
                            return
                        v = o.value
                        if deriv:
                            xs = w.seq(v)
                            if xs is None or len(xs) != 2:
                                raise Give("no (value, derivative) pair")
                            c.eq_arr(w.ctx, "molecular-derivative", where, w.A(xs[1]), deriv_arr(N, blks, normalized), "derivative matrix")
                            v = xs[0]
                        c.eq_arr(w.ctx, "molecular-value", where, w.A(v), value_arr(N, None, blks, normalized))
                    c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "molecular-value", where, go)
                    if len(b) == 2 and (c.thorough or (b[0][1] != 0 and b[1][0] != 0)):
                        t = ctx + ", after other evaluations"
                        c.ladder([(t, "symbolic"), (t + ", fixed sizes", "fixed")], "molecular-value", where, lambda w, md: go(w, md, True))
                        for nm in ("c", "a", "x", "R", "caxR"):
                            what = ", integer " + " and ".join(INT_NAMES[k] for k in nm)
                            c.ladder([(ctx + what, "symbolic"), (ctx + what + ", fixed sizes", "fixed")], "molecular-value", where,
                                     integers(set(nm), go))


# ------------------------------------------------------------------ bookkeeping
def prefactor_spec(bs):
    parts = []
    for s, p in bs:
        for n, v in ((s, H(3)), (p, H(5))):
            if n.const() != 0:
                parts.append(AR.from_fn([n], lambda i, v=v: v))
    return AR.concat(parts, 0)


def scalar(w, v):
    a = w.A(v)
    if a.ndim:
        raise Give("array instead of a number")
    return a.cells[()]


@rule("C04")
def c04(c):
    cls = "AtomicGaussianDensity"
    wh = {n: c.anchor("model", f"{cls}.{n}") for n in ("nbasis", "prefactor", "radii", "natoms", "change_numb_s_and_numb_p", "points", "num_s", "num_p")}
    for b in BASES:
        for kind in ("1d", "1d centred", "2d", "2d centred"):
            ctx = f"atomic, {b[0]}, points {kind}"

            def go(w, mode):
                N, D, S, Pn = sizes(w, mode, b)
                points, cen, r2 = pts(w, kind, N, D)
                args = [points] if cen is None else [points, cen]
                holder = []

                def mk():
                    m = w.call(w.ns("model", cls), *args, num_s=w.int(S), num_p=w.int(Pn))
                    holder.append(m)
                    return m
                o = w.run(mk)
                if not w.no_raise("construct", wh["nbasis"], o):
                    return
                m = holder[0]
                for n, want in (("nbasis", S + Pn), ("natoms", ONE), ("num_s", S), ("num_p", Pn)):
                    c.eq(w.ctx, n, wh[n], scalar(w, w.get(m, n)), want, (), n)
                c.eq_arr(w.ctx, "prefactor", wh["prefactor"], w.A(w.get(m, "prefactor")), prefactor_spec([(S, Pn)]), "prefactor")
                c.eq_arr(w.ctx, "radii", wh["radii"], w.A(w.get(m, "radii")), AR.from_fn([N], lambda i: fn_sqrt(at(r2, i))), "radii")
                # after a change of the counts everything follows the new counts
                for nb in (("T", "U"), ("T", 0), (0, "U")):
                    T_, U_ = [(P(v) if isinstance(v, int) else (w.sint(v) if mode == "symbolic" else P(2))) for v in nb]
                    o = w.run(lambda: w.meth(m, "change_numb_s_and_numb_p", w.int(T_), w.int(U_)))
                    if not w.no_raise("change-counts", wh["change_numb_s_and_numb_p"], o):
                        continue
                    for n, want in (("nbasis", T_ + U_), ("num_s", T_), ("num_p", U_)):
                        c.eq(w.ctx, n + "-after-change", wh["change_numb_s_and_numb_p"], scalar(w, w.get(m, n)), want, (), n)
                    c.eq_arr(w.ctx, "prefactor-after-change", wh["change_numb_s_and_numb_p"], w.A(w.get(m, "prefactor")),
                             prefactor_spec([(T_, U_)]), "prefactor")
                    o = w.run(lambda: w.meth(m, "evaluate", w.arr("c", T_ + U_), w.arr("a", T_ + U_)))
                    if w.no_raise("evaluate-after-change", wh["change_numb_s_and_numb_p"], o):
                        blks = [(k, n, off, r2) for k, n, off in blocks(T_, U_)]
                        c.eq_arr(w.ctx, "evaluate-after-change", wh["change_numb_s_and_numb_p"], w.A(o.value), value_arr(N, None, blks, False))
            c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "bookkeeping", wh["nbasis"], go)
    cls2 = "MolecularGaussianDensity"
    wm = {n: c.anchor("model", f"{cls2}.{n}") for n in ("nbasis", "prefactor", "radii", "natoms", "assign_basis_to_center", "points")}
    for b in mol_bases(c.thorough):
        for kind in ("2d", "1d"):
            ctx = f"molecular, (s,p) counts {mol_name(b)}, points {kind}"

            def go2(w, mode):
                obj, N, D, tot, blks, bs = mol_setup(w, mode, b, kind, False)
                holder = []
                o = w.run(lambda: holder.append(obj()))
                if not w.no_raise("construct", wm["nbasis"], o):
                    return
                m = holder[0]
                c.eq(w.ctx, "nbasis", wm["nbasis"], scalar(w, w.get(m, "nbasis")), tot, (), "nbasis")
                c.eq(w.ctx, "natoms", wm["natoms"], scalar(w, w.get(m, "natoms")), P(len(b)), (), "natoms")
                c.eq_arr(w.ctx, "prefactor", wm["prefactor"], w.A(w.get(m, "prefactor")), prefactor_spec(bs), "prefactor")
                want = w.I.stack([AR.from_fn([N], lambda i, k=k: fn_sqrt(at(blks[2 * k][3], i))) for k in range(len(b))])
                c.eq_arr(w.ctx, "radii", wm["radii"], w.A(w.get(m, "radii")), want, "radii")
                # every index inside block k belongs to centre k, indices past the end are rejected
                declare("q", "real", True, lo=0)
                off = ZERO
                for k, (s, p) in enumerate(bs):
                    n = s + p
                    q = sym(f"q{k}") if declare(f"q{k}", "nn", True, lo=0) is None else sym(f"q{k}")
                    st = w.I.st
                    w.I.enter(st.fork())
                    w.assume(compare("<", q, n))
                    idx = off + q
                    o = w.run(lambda: w.meth(m, "assign_basis_to_center", w.int(idx)))
                    if w.no_raise("centre-of-basis", wm["assign_basis_to_center"], o, f"index in block {k}"):
                        c.eq(w.ctx, "centre-of-basis", wm["assign_basis_to_center"], scalar(w, o.value), P(k), (),
                             f"centre of parameter {show(idx)} (block {k} of {show(n)} functions)")
                    w.I.enter(st)
                    off = off + n
                e = sym("qe") if declare("qe", "nn", True, lo=0) is None else sym("qe")
                o = w.run(lambda: w.meth(m, "assign_basis_to_center", w.int(tot + e)))
                w.must_raise("centre-of-basis-past-end", wm["assign_basis_to_center"], o, "ValueError", f"index {show(tot + e)} of {show(tot)} functions")
            c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "bookkeeping", wm["nbasis"], go2)
