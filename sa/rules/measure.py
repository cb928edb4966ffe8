"""C05, C06: deviation measures."""
from ..core import *
from ..terms import compare, blend, fn, power, mk_red, fn_log, b_or, b_and, b_not, ONE, ZERO
from . import rule

MEAS = {"SquaredDifference": "measure", "KLDivergence": "measure", "TsallisDivergence": "measure"}


def inputs(w, fkind, split=False, mode="symbolic"):
    """density/model pair; fkind: which density values occur."""
    N = w.sint("N") if mode == "symbolic" else small("N", 3)
    declare("f", "pos"), declare("fr", "real"), declare("g", "real")
    if fkind == "pos":
        f = w.arr("f", N)
        fa = AR.from_fn([N], lambda i: sym("f", i))
        ga = AR.from_fn([N], lambda i: sym("g", i))
    elif fkind == "real":
        f = w.arr("fr", N)
        fa = AR.from_fn([N], lambda i: sym("fr", i))
        ga = AR.from_fn([N], lambda i: sym("g", i))
    else:                       # positive points followed by points of zero density
        M = w.sint("M") if mode == "symbolic" else small("M", 2)
        fa = AR.concat([AR.from_fn([N], lambda i: sym("f", i)), AR.from_fn([M], lambda i: ZERO)], 0)
        f = w.I.arr_new(fa, "arg:density")
        ga = AR.from_fn([N + M], lambda i: sym("g", i))
        if split:
            ga = AR.concat([AR.from_fn([N], lambda i: sym("g", i)), AR.from_fn([M], lambda i: sym("g", N + i))], 0)
    if "g" in T.INTS:
        ga = Arr(ga.ax, ga.cells, "int")
    if "f" in T.INTS and fkind == "zero":
        f = w.I.arr_new(Arr(fa.ax, fa.cells, "int"), "arg:density")
    g = w.I.arr_new(ga, "arg:model")
    return f, g, fa, ga


def params(w, name, default):
    """Constructor keywords and the values the specification uses."""
    if name == "SquaredDifference":
        return {}, {}
    if name == "KLDivergence":
        if default:
            return {}, {"mu": P(Q(1, 10 ** 12)), "neg": P(100000)}
        declare("mask", "pos"), declare("neg", "pos")
        return {"mask_value": w.flt(sym("mask")), "negative_val": w.flt(sym("neg"))}, {"mu": sym("mask"), "neg": sym("neg")}
    if default:
        return {}, {"mu": P(Q(1, 10 ** 12)), "alpha": P(Q(1001, 1000))}
    declare("mask", "pos"), declare("alpha", "pos")
    # |alpha - 1| well away from zero
    w.assume(compare(">", fn("abs", sym("alpha") - ONE), P(Q(1, 10))))
    return {"alpha": w.flt(sym("alpha")), "mask_value": w.flt(sym("mask"))}, {"mu": sym("mask"), "alpha": sym("alpha")}


def spec(name, q, fa, ga):
    """(value, derivative) arrays."""
    if name == "SquaredDifference":
        return (AR.mapn(lambda f, g: (f - g) * (f - g), [fa, ga]), AR.mapn(lambda f, g: P(2) * (g - f), [fa, ga]))
    mu = q["mu"]
    if name == "KLDivergence":
        n = AR.axlen(ga.ax[0])
        neg = AR.reduce_all(AR.mapn(lambda g: compare("<", g, ZERO), [ga], "bool"), "any")
        def val(f, g):
            inner = ZERO if not f.t else f * (fn_log(f) - fn_log(g))
            return blend(neg, q["neg"], blend(compare(">", g, mu), inner, ZERO))
        def der(f, g):
            return blend(neg, q["neg"], blend(compare(">", g, mu), -(f / g), -ONE))
        return AR.mapn(val, [fa, ga]), AR.mapn(der, [fa, ga])
    a = q["alpha"]

    def ratio(f, g):
        return blend(compare(">", g, mu), f / g, ZERO)

    def val(f, g):
        inner = ZERO if not f.t else f * power(f / g, a - ONE)
        return (blend(compare(">", g, mu), inner, ZERO) - f) / (a - ONE)

    def der(f, g):
        return blend(compare(">", g, mu), ZERO if not f.t else -power(f / g, a), ZERO)
    return AR.mapn(val, [fa, ga]), AR.mapn(der, [fa, ga])


def gen(env, rng, t):
    if t % 5 == 0:
        env.values["g"] = lambda i: -env.rnd("gneg", i)
    elif t % 2 == 0:
        env.values["g"] = lambda i: 0.1 + env.rnd("gpos", i) * 2
    if t % 3 == 0:
        env.values[("mask", ())] = 0.5 + env.rnd("mask")


def gen_pos(env, rng, t):
    gen(env, rng, t)
    al = 0.3 + env.rnd("alpha") * 1.5
    env.values[("alpha", ())] = al if abs(al - 1) > 0.15 else 1.4


def contexts():
    for name in ("SquaredDifference", "KLDivergence", "TsallisDivergence"):
        for default in (True, False):
            if name == "SquaredDifference" and not default:
                continue
            for fk in (("real",) if name == "SquaredDifference" else ("pos", "zero")):
                yield name, default, fk


def warm_measure(w, name, m, f, g, fa, ga, deriv):
    """Earlier evaluations: other densities and models, the other flag, a measure with other parameters, neighbouring values and
    buffers refilled in place. Returns the arrays to evaluate."""
    from .stubs import refill, scratch, nearby
    declare("f2", "pos"), declare("g2", "pos")
    f2, g2 = [w.I.arr_new(AR.mapn(lambda _, v: v, [fa, AR.from_fn([AR.axlen(ga.ax[0])], lambda i, n=n: sym(n, i))]) if AR.axlen(fa.ax[0]) == AR.axlen(ga.ax[0])
                          else AR.from_fn([AR.axlen(ga.ax[0])], lambda i, n=n: sym(n, i)), "arg:other") for n in ("f2", "g2")]
    for x, y in (("f2", "f"), ("f2", "fr"), ("g2", "g")):
        w.assume(compare("!=", sym(x, ZERO), sym(y, ZERO)))
    kw2 = {"KLDivergence": {"mask_value": w.flt(P(Q(1, 7)))}, "TsallisDivergence": {"alpha": w.flt(P(3)), "mask_value": w.flt(P(Q(1, 7)))}}.get(name, {})
    m2 = w.new("measure", name, **kw2)
    want = bool(deriv)
    call = lambda m_, x, y, d: w.run(lambda: w.meth(m_, "evaluate", x, y, w.bool(d)))
    bf, bg = scratch(w, f2), scratch(w, g2)
    for m_, x, y, d in ((m, f, g, not want), (m, f2, g, want), (m, f, g2, want), (m2, f, g, want), (m, bf, bg, want)):
        call(m_, x, y, d)
    refill(w, bf, nearby(w, f)), refill(w, bg, nearby(w, g))
    call(m, bf, bg, want)
    refill(w, bf, f), refill(w, bg, g)
    return bf, bg


def run(w, name, default, fk, deriv, rl, where, mode, warm=False):
    f, g, fa, ga = inputs(w, fk, warm, mode)
    kw, q = params(w, name, default)
    m = w.new("measure", name, **kw)
    if warm:
        f, g = warm_measure(w, name, m, f, g, fa, ga, deriv)
    o = w.run(lambda: w.meth(m, "evaluate", f, g, *(() if deriv is None else (w.bool(deriv),))))
    if not w.no_raise(rl + "-accepts", where, o):
        return None
    return o.value, spec(name, q, fa, ga)


INTS = (({"f", "fr"}, ", integer density"), ({"g"}, ", integer model"), ({"f", "fr", "g"}, ", integer density and model"))


@rule("C05")
def c05(c):
    for name, default, fk in contexts():
        where = c.anchor("measure", name + ".evaluate")
        for deriv in (None, False):
            ctx = f"{name}, {'default' if default else 'symbolic'} parameters, density {fk}, deriv {'default' if deriv is None else deriv}"

            def go(w, mode, warm=False):
                r = run(w, name, default, fk, deriv, "integrand", where, mode, warm)
                if r is None:
                    return
                v, (val, der) = r
                if isinstance(v, tuple):
                    c.bad(w.ctx, "integrand", where, "a tuple is returned although derivatives were not requested")
                    return
                c.eq_arr(w.ctx, "integrand", where, w.A(v), val, "integrand", gen=gen_pos)
            c.ladder(both(ctx), "integrand", where, go)
            c.ladder(both(ctx + ", after other evaluations"), "integrand", where, lambda w, md: go(w, md, True))
            for nm, what in INTS:
                c.ladder(both(ctx + what), "integrand", where, integers(nm, go))


@rule("C06")
def c06(c):
    for name, default, fk in contexts():
        where = c.anchor("measure", name + ".evaluate")
        ctx = f"{name}, {'default' if default else 'symbolic'} parameters, density {fk}, deriv True"

        def go(w, mode, warm=False):
            r = run(w, name, default, fk, True, "derivative", where, mode, warm)
            if r is None:
                return
            v, (val, der) = r
            xs = w.seq(v)
            if xs is None or len(xs) != 2:
                if w.I.unknowns or isinstance(v, (Ite, Opq)):
                    raise Give("result pair not understood")
                c.bad(w.ctx, "derivative-pair", where, "deriv=True does not return a (value, derivative) pair")
                return
            c.eq_arr(w.ctx, "derivative-value-part", where, w.A(xs[0]), val, "value part", gen=gen_pos)
            c.eq_arr(w.ctx, "derivative", where, w.A(xs[1]), der, "derivative", gen=gen_pos)
        c.ladder(both(ctx), "derivative", where, go)
        c.ladder(both(ctx + ", after other evaluations"), "derivative", where, lambda w, md: go(w, md, True))
        for nm, what in INTS:
            c.ladder(both(ctx + what), "derivative", where, integers(nm, go))
