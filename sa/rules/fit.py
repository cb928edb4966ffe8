"""C11-C17: fits."""
from ..core import *
from ..terms import compare, blend, fn, power, mk_sum, fn_exp, fn_sqrt, fn_log, fn_abs, ONE, ZERO, PI
from .model import scalar, at, INT_NAMES
from .measure import spec as measure_spec
from .stubs import setup, make, MODELS, declare_fit, Optimiser, prim, same, refill, scratch, others, distinct, nearby, NEAR, rebasis
from . import rule

CLS = {"ScipyFit": "ScipyFit", "KLDivergenceFPI": "KLDivergenceFPI"}


def kl(mask, f, m):
    return measure_spec("KLDivergence", {"mu": mask, "neg": P(100000)}, f, m)


def mkfit(w, s, cls, **kw):
    k = {}
    if s.sph is not None:
        k["spherical"] = w.bool(s.sph)
    if cls == "ScipyFit" and "measure" not in kw:
        kw["measure"] = w.new("measure", "SquaredDifference")
    k.update(kw)
    return w.new("fit", cls, s.grid, s.dens, s.model, **k)


def fits(name):
    """(spherical) flags possible for a model."""
    return (True, False, None) if MODELS[name][0] in ("1d", "1dc", "mol1") else (False,)


def goodness_spec(s, mask):
    m = s.model_arr()
    diff = AR.mapn(lambda f, g: fn_abs(f - g), [s.f, m])
    return [s.integral(m), s.integral(diff), AR.reduce_axis(diff, 0, "max").cells[()],
            s.integral(AR.mapn(lambda f, g: (f - g) * (f - g), [s.f, m])), s.integral(kl(mask, s.f, m)[0])]


def int_text(ints):
    return ", integer " + " and ".join(INT_NAMES[k] for k in ints) if ints else ""


def warm_goodness(w, s, fit):
    """Earlier calls: each parameter array changed in turn, and the caller's arrays refilled in place."""
    c2, a2 = others(w, s)
    distinct(w, "c", "c2", "a", "a2")
    bc, ba = scratch(w, c2), scratch(w, a2)
    call = lambda c_, a_: w.run(lambda: w.meth(fit, "goodness_of_fit", c_, a_))
    for c_, a_ in ((s.co, a2), (c2, s.ex), (bc, ba)):
        call(c_, a_)
    refill(w, bc, nearby(w, s.co)), refill(w, ba, nearby(w, s.ex))
    call(bc, ba)
    refill(w, bc, s.co), refill(w, ba, s.ex)
    s.co, s.ex = bc, ba


DEFMASK = {"ScipyFit": P(Q(1, 10 ** 18)), "KLDivergenceFPI": ZERO}
GNAMES = ("integral of the model", "integrated absolute error", "maximum absolute error", "integrated squared error", "Kullback-Leibler divergence")


def goodness_contexts(c):
    for name in MODELS:
        for sph in fits(name):
            for cls in CLS:
                for normalized in (False, True):
                    if name not in ("atomic, s and p",) and normalized and not c.thorough:
                        continue
                    yield name, sph, cls, normalized


@rule("C12")
def c12(c):
    for name, sph, cls, normalized in goodness_contexts(c):
        where = c.anchor("fit", cls + ".goodness_of_fit")
        kinds = [(None, None, ()), ("mask", None, ())]
        if name in ("atomic, s only", "atomic, s and p") and sph and not normalized or c.thorough:
            kinds += [(None, "real", ()), (None, "warm", ()), (None, None, ("c", "a")), (None, None, ("f", "x"))]
            if MODELS[name][0] != "mol" and MODELS[name][0] != "mol1" and name != "atomic, s only":
                kinds.append((None, "counts", ()))
        for mask, var, ints in kinds:
            if mask and name not in ("atomic, s and p", "two centres, s and p each"):
                continue
            ctx = f"{cls}, {name}, spherical={sph}, normalize={normalized}, mask {'symbolic' if mask else 'default'}" \
                + {"real": ", coefficients of any sign", "warm": ", after other evaluations", "counts": ", numbers of functions changed later", None: ""}[var] + int_text(ints)

            def go(w, mode, mask=mask, var=var):
                s = setup(w, mode, name, normalized, sph)
                kw = {"integral_dens": w.flt(sym("T"))}
                declare("c", "real" if var == "real" else "pos")
                mk = DEFMASK[cls]
                if mask:
                    declare("mask", "pos")
                    mk = sym("mask")
                    kw["mask_value"] = w.flt(mk)
                for meas in ((None,) if cls != "ScipyFit" else ("SquaredDifference", "KLDivergence")):
                    k2 = dict(kw)
                    if meas:
                        k2["measure"] = w.new("measure", meas)
                    o = w.run(lambda: mkfit(w, s, cls, **k2))
                    if o.exc is not None:
                        w.no_raise("fit-accepts", where, o)
                        continue
                    fit = o.value
                    if var == "warm":
                        warm_goodness(w, s, fit)
                    elif var == "counts":
                        rebasis(w, s)
                    o = w.run(lambda: w.meth(fit, "goodness_of_fit", s.co, s.ex))
                    if not w.no_raise("goodness-accepts", where, o):
                        continue
                    xs = w.seq(o.value)
                    if xs is None:
                        a = w.A(o.value)
                        if a.ndim != 1 or AR.axlen(a.ax[0]).const() is None:
                            raise Give("goodness of fit is not a list of known length")
                        xs = [Sc(AR.take_int(a, 0, P(k)).cells[()], "float") for k in range(int(AR.axlen(a.ax[0]).const()))]
                    if len(xs) != 5:
                        c.bad(w.ctx, "goodness-entries", where, f"{len(xs)} entries instead of 5")
                        continue
                    for g, x, want in zip(GNAMES, xs, goodness_spec(s, mk)):
                        c.eq(w.ctx, "goodness-" + g.split()[0] + "-" + g.split()[1], where, scalar(w, x), want, (), g)
            c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "goodness", where, integers(ints, go))


# ------------------------------------------------------------------ optimiser fits
MODES = {"both": (True, True), "coefficients": (True, False), "exponents": (False, True)}


def trial(w, s, mode, names=("yc", "ye")):
    """Trial vector of the optimiser and the parameters it stands for."""
    yc, ye = names
    declare(yc, "real")
    declare(ye, "pos")
    n = s.nb * (P(2) if mode == "both" else ONE)
    parts = [AR.from_fn([s.nb], (lambda i, k=k: sym(k, i))) for k in {"both": (yc, ye), "coefficients": (yc,), "exponents": (ye,)}[mode]]
    y = w.I.arr_new(AR.concat(parts, 0) if len(parts) > 1 else parts[0], "arg:trial vector")
    cf = (lambda i: sym(yc, i)) if mode != "exponents" else None
    af = (lambda i: sym(ye, i)) if mode != "coefficients" else None
    return y, n, cf, af


WARM = {False: "", True: ", after other runs", "counts": ", numbers of functions changed after the fit was made"}


def warm_runs(w, s, fit, opt, mode):
    """Earlier runs of the same fit: the other modes, other parameters, other options."""
    c2, a2 = others(w, s)
    distinct(w, "c", "c2", "a", "a2")
    declare("tol2", "pos"), declare("mit2", "pos", True, lo=1)
    w.assume(compare("!=", sym("mit2"), P(1000)))
    w.assume(compare("!=", sym("mit2"), sym("mit")))
    w.assume(compare("!=", sym("tol2"), sym("tol")))
    for k, (co, ex, md2) in enumerate([(s.co, s.ex, m_) for m_ in MODES if m_ != mode] + [(c2, a2, mode), (c2, s.ex, mode), (s.co, a2, mode)]):
        oc, oe = MODES[md2]
        w.run(lambda: w.meth(fit, "run", co, ex, opt_coeffs=w.bool(oc), opt_expons=w.bool(oe), with_constraint=w.bool(k % 2), disp=w.bool(k % 3 == 0),
                             tol=w.flt(sym("tol2")), maxiter=w.int(sym("mit2"))))
        if len(opt.problems) != k + 1:
            raise Give("optimiser calls not understood")


def problem(w, s, where, rl, mode, method, fitkw=None, runkw=None, explicit=True, warm=False, **optkw):
    """Fit object and the problem handed to the optimiser by its run method."""
    c = w.chk
    opt = Optimiser(w, **optkw)
    o = w.run(lambda: mkfit(w, s, "ScipyFit", **({"method": method} if method else {}), **(fitkw or {})))
    if o.exc is not None or o.raises:
        if not w.no_raise("fit-accepts", where, o):
            return None
    fit = o.value
    if warm == "counts":
        rebasis(w, s)
    elif warm:
        warm_runs(w, s, fit, opt, mode)
    before = len(opt.problems)
    oc, oe = MODES[mode]
    kw = {} if mode == "both" and not explicit else {"opt_coeffs": w.bool(oc), "opt_expons": w.bool(oe)}
    kw.update(runkw or {})
    n0, g0 = len(w.I.calls), len(w.I.st.guards)
    o = w.run(lambda: w.meth(fit, "run", s.co, s.ex, **kw))
    if not w.no_raise(rl + "-accepts", where, o, "a valid starting guess"):
        return None
    warns = [x for x in w.I.calls[n0:] if x[0] == "warnings.warn"]
    for k, x in enumerate(warns):
        g = ONE
        for y in x[4][g0:]:
            g = T.b_name(T.mul(g, y))
        warns[k] = x[:4] + (g,)
    if len(opt.problems) != before + 1:
        if w.I.unknowns:
            raise Give("optimiser calls not understood")
        c.bad(w.ctx, rl, where, f"the optimiser is called {len(opt.problems) - before} times")
        return None
    return fit, opt.problems[-1], o.value, warns


def extra(w, p):
    a = p.get("args", ())
    xs = w.seq(a) if not isinstance(a, tuple) else list(a)
    if xs is None:
        if isinstance(a, (Ite, Opq)):
            raise Give("optimiser args not understood")
        return [a]
    return xs


def objective(w, p, y):
    """(objective, gradient) of the problem at the trial vector."""
    args = extra(w, p)
    jac = p.get("jac")
    o = w.run(lambda: w.call(p["fun"], y, *args))
    return o, (jac if not (isinstance(jac, Sc) and jac.p.const() == 1) else True), args


MEASURES = ("AnyMeasure", "SquaredDifference", "KLDivergence", "TsallisDivergence")


def measure_of(w, name):
    """Measure object and spec (value, derivative) arrays builder."""
    if name == "AnyMeasure":
        return make(w, "AnyMeasure"), lambda f, g: (AR.mapn(lambda x, y: fn("u:mu", x, y), [f, g]), AR.mapn(lambda x, y: fn("u:dmu", x, y), [f, g]))
    q = {"mu": P(Q(1, 10 ** 12)), "neg": P(100000), "alpha": P(Q(1001, 1000))}
    return w.new("measure", name), lambda f, g: measure_spec(name, q, f, g)


def check_objective(w, s, where, mode, p, mspec, wt, rl="objective", at_=None):
    c = w.chk
    y, n, cf, af = at_ or trial(w, s, mode)
    o, jac, args = objective(w, p, y)
    if not w.no_raise(rl + "-accepts", where, o):
        return
    v = o.value
    if jac is True:
        xs = w.seq(v)
        if xs is None or len(xs) != 2:
            if isinstance(v, (Ite, Opq)) or w.I.unknowns:
                raise Give("objective result not understood")
            c.bad(w.ctx, rl, where, "the optimiser is told to expect (objective, gradient) but the function does not return a pair")
            return
        val, grad = xs
    else:
        val = v
        if jac is None or isinstance(jac, (str, Sc)):
            c.ok(w.ctx, rl + "-gradient", where, "numerical gradient requested")
            grad = None
        else:
            o = w.run(lambda: w.call(jac, y, *args))
            if not w.no_raise(rl + "-accepts", where, o):
                return
            grad = o.value
    m = s.model_arr(cf, af)
    k, dk = mspec(s.f, m)
    mul = lambda *a: AR.mapn(lambda *v: T.mul(v[0], v[1]) if len(v) == 2 else T.mul(T.mul(v[0], v[1]), v[2]), list(a))
    c.eq(w.ctx, rl, where, scalar(w, val), s.integral(mul(wt, k)), (), "objective")
    if grad is None:
        return
    dm = s.deriv_arr(cf, af)
    parts = []
    todo = {"both": [(ZERO, P(2) * s.nb)], "coefficients": [(ZERO, s.nb)], "exponents": [(s.nb, s.nb)]}[mode]
    ga = w.A(grad)
    if ga.ndim != 1:
        c.bad(w.ctx, rl + "-gradient", where, f"gradient has {ga.ndim} axes")
        return
    lo, cnt = todo[0]
    cols = AR.take_slice(dm, 1, lo, lo + cnt)
    wd = mul(wt, dk)
    if s.sph:
        wd = AR.mapn(lambda v, r: v * P(4) * PI * r * r, [wd, s.x])
    wd = AR.mapn(lambda v, g: v * g, [wd, s.wts])
    col = AR.newaxis(wd, 1)
    want = AR.reduce_axis(AR.mapn(lambda a_, b_: T.mul(a_, b_), [col, cols]), 0, "sum")
    c.eq_arr(w.ctx, rl + "-gradient", where, ga, want, "gradient")


def objective_contexts(c):
    names = list(MODELS) if c.thorough else ["atomic, s only", "atomic, p only", "atomic, s and p", "atomic on 3-d points, s and p", "two centres, s and p each"]
    for name in names:
        for sph in fits(name):
            if sph is None:
                continue
            for mode in MODES:
                for meas in MEASURES:
                    if meas != "AnyMeasure" and name not in ("atomic, s and p", "two centres, s and p each") and not c.thorough:
                        continue
                    for wt in (False, True):
                        if wt and meas not in ("AnyMeasure", "SquaredDifference"):
                            continue
                        yield name, sph, mode, meas, wt


@rule("C15")
def c15(c):
    where = c.anchor("fit", "ScipyFit.func")
    for name, sph, mode, meas, wt in objective_contexts(c):
        for method in (("SLSQP", "trust-constr") if (meas == "AnyMeasure" and name == "atomic, s and p") or c.thorough else ("SLSQP",)):
            ctx = f"{name}, spherical={sph}, optimising {mode}, {meas}, weights {'given' if wt else 'default'}, {method}"

            def go(w, md):
                s = setup(w, md, name, False, sph, fsign="pos" if meas == "TsallisDivergence" else "nn")
                m, mspec = measure_of(w, meas)
                kw = {"measure": m, "integral_dens": w.flt(sym("T"))}
                wa = AR.from_fn([s.N], lambda i: ONE)
                if wt:
                    declare("wt", "real")
                    kw["weights"] = w.arr("wt", s.N)
                    wa = AR.from_fn([s.N], lambda i: sym("wt", i))
                r = problem(w, s, where, "objective", mode, method, kw)
                if r is None:
                    return
                check_objective(w, s, where, mode, r[1], mspec, wa)
            c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "objective", where, go)
            if name in ("atomic, s and p", "two centres, s and p each") and meas == "AnyMeasure" and (sph or name.startswith("two")) and method == "SLSQP":
                for ints in ((("f",), ("x",)) if name.startswith("atomic") else ()) + (("c", "a"),):
                    t = ctx + int_text(ints)
                    c.ladder([(t, "symbolic"), (t + ", fixed sizes", "fixed")], "objective", where, integers(ints, go))
    # the same fit used several times
    for name in ("atomic, s and p", "two centres, s and p each") + (tuple(MODELS) if c.thorough else ()):
        for mode in MODES:
            for sph in fits(name)[:1]:
                for method in ("SLSQP", "trust-constr"):
                    ctx = f"{name}, spherical={sph}, optimising {mode}, {method}, fit used before"

                    def again(w, md):
                        s = setup(w, md, name, False, sph)
                        m, mspec = measure_of(w, "AnyMeasure")
                        opt = Optimiser(w)
                        o = w.run(lambda: mkfit(w, s, "ScipyFit", measure=m, method=method, integral_dens=w.flt(sym("T"))))
                        if not w.no_raise("fit-accepts", where, o):
                            return
                        fit = o.value
                        c2, a2 = others(w, s)
                        y = trial(w, s, mode)
                        z = trial(w, s, mode, ("zc", "ze"))
                        wa = AR.from_fn([s.N], lambda i: ONE)

                        def pose(co, ex, md2, con=True):
                            oc, oe = MODES[md2]
                            n0 = len(opt.problems)
                            w.run(lambda: w.meth(fit, "run", co, ex, opt_coeffs=w.bool(oc), opt_expons=w.bool(oe), with_constraint=w.bool(con)))
                            if len(opt.problems) != n0 + 1:
                                raise Give("optimiser calls not understood")
                            return opt.problems[-1]
                        # another run with other fixed values, and runs in the other modes; their objectives are evaluated
                        distinct(w, "yc", "zc", "ye", "ze", "c", "c2", "a", "a2")
                        for co, ex, md2 in (*[(s.co, s.ex, k) for k in MODES if k != mode], (c2, a2, mode)):
                            p = pose(co, ex, md2, md2 == mode)
                            t = trial(w, s, md2)
                            objective(w, p, t[0])
                        p = pose(s.co, s.ex, mode)
                        check_objective(w, s, where, mode, p, mspec, wa, at_=y)
                        check_objective(w, s, where, mode, p, mspec, wa, at_=z)
                        # a trial vector next to the last one
                        nb = nearby(w, z[0]), z[1], z[2] and (lambda i: z[2](i) * NEAR), z[3] and (lambda i: z[3](i) * NEAR)
                        check_objective(w, s, where, mode, p, mspec, wa, at_=nb)
                        # the trial vector re-used as a buffer
                        buf = scratch(w, y[0])
                        objective(w, p, buf)
                        refill(w, buf, z[0])
                        check_objective(w, s, where, mode, p, mspec, wa, at_=(buf,) + z[1:])
                        check_constraints(w, s, where, p, mode, True, sym("T"))
                        check_objective(w, s, where, mode, p, mspec, wa, at_=y)
                    c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "objective", where, again)


def dict_of(w, v, what):
    if isinstance(v, Ref) and isinstance(w.I.obj(v), DictO):
        return w.I.obj(v).items
    if v is None:
        return {}
    raise Give(f"{what} not understood")


def check_bounds(w, s, where, p, n):
    c = w.chk
    b = p.get("bounds")
    if b is None:
        c.bad(w.ctx, "bounds", where, "no bounds are passed to the optimiser")
        return
    from .stubs import Con
    if isinstance(b, Con):
        lo, hi = [AR.mapn(lambda x, _: x, [w.A(b.b[k]), AR.from_fn([n], lambda i: ZERO)]) for k in ("lb", "ub")]
    else:
        a = w.A(b)
        if a.ndim != 2 or AR.axlen(a.ax[1]).const() != 2:
            c.bad(w.ctx, "bounds", where, f"bounds have shape {a.shape()}")
            return
        lo, hi = AR.take_int(a, 1, ZERO), AR.take_int(a, 1, ONE)
    ln = AR.axlen(lo.ax[0])
    if not c.eq(w.ctx, "bounds-count", where, ln, n, (), "number of bounds"):
        return
    for (k,), v in lo.cells.items():
        c.holds(w.ctx, "bounds-below", where, compare(">", v, ZERO), f"lower bound {show(v)} is positive", (lo.ax[0][k],))
    for (k,), v in hi.cells.items():
        if v == T.INF:
            c.ok(w.ctx, "bounds-above", where, "no upper bound")
        else:
            c.bad(w.ctx, "bounds-above", where, f"upper bound {show(v)}")


def constraint_list(w, p):
    v = p.get("constraints")
    if v is None:
        return []
    if isinstance(v, Ref) and isinstance(w.I.obj(v), DictO):
        return [v]
    xs = w.seq(v)
    if xs is None:
        if isinstance(v, (Ite, Opq)):
            raise Give("constraints not understood")
        return [v]
    return xs


def check_constraints(w, s, where, p, mode, with_constraint, target):
    """The problem contains exactly the normalisation equality, or nothing."""
    from .stubs import Con
    c = w.chk
    xs = constraint_list(w, p)
    if not with_constraint:
        if xs:
            c.bad(w.ctx, "constraint-off", where, f"{len(xs)} constraints although none was requested")
        else:
            c.ok(w.ctx, "constraint-off", where, "no constraint")
        return
    if len(xs) != 1:
        c.bad(w.ctx, "constraint-on", where, f"{len(xs)} constraints instead of one")
        return
    y, n, cf, af = trial(w, s, mode)
    k = xs[0]
    if isinstance(k, Con):
        o = w.run(lambda: w.call(k.b["fun"], y))
        lb, ub = scalar(w, k.b["lb"]), scalar(w, k.b["ub"])
        if not is_zero(lb - ub):
            c.bad(w.ctx, "constraint-equality", where, f"constraint allows the interval {show(lb)}..{show(ub)}")
            return
    else:
        d = dict_of(w, k, "constraint")
        ty = d.get("type")
        if ty != "eq":
            c.bad(w.ctx, "constraint-equality", where, f"constraint type {ty!r} instead of an equality")
            return
        a = d.get("args", ())
        o = w.run(lambda: w.call(d["fun"], y, *(list(a) if isinstance(a, tuple) else w.seq(a))))
        lb = ZERO
    if not w.no_raise("constraint-evaluates", where, o, "the constraint at a trial vector"):
        return
    g = scalar(w, o.value) - lb
    want = target - s.integral(s.model_arr(cf, af))
    if not is_zero(g - want) and is_zero(g + want):
        g = -g
    c.eq(w.ctx, "constraint-equality", where, g, want, (), "target normalisation minus model integral")


def check_options(w, where, p, method, tol, maxiter):
    c = w.chk
    o = dict_of(w, p.get("options"), "options")
    m = p.get("method")
    if isinstance(m, str):
        (c.ok if m.lower() == method.lower() else c.bad)(w.ctx, "method", where, f"method {m!r} for the requested {method!r}")
    else:
        raise Give("method not understood")
    if "maxiter" not in o:
        c.bad(w.ctx, "iteration-limit", where, "the iteration limit is not passed on")
    else:
        c.eq(w.ctx, "iteration-limit", where, scalar(w, o["maxiter"]), maxiter, (), "iteration limit")
    keys = ("ftol",) if method.lower() == "slsqp" else ("xtol",)      # as documented for run
    got = [o[k] for k in keys if k in o] + ([p["tol"]] if p.get("tol") is not None else [])
    if not got:
        c.bad(w.ctx, "tolerance", where, f"the tolerance is not passed on (options {sorted(map(str, o))})")
    for g in got:
        c.eq(w.ctx, "tolerance", where, scalar(w, g), tol, (), "tolerance")


PROBLEM_MODELS = ("atomic, s and p", "atomic, s only", "two centres, s and p each")


def problem_contexts(c, disps=(False, True)):
    for name in (PROBLEM_MODELS if not c.thorough else MODELS):
        for sph in fits(name):
            if sph is None:
                continue
            for method in ("SLSQP", "trust-constr"):
                for mode in MODES:
                    for disp in disps:
                        yield name, sph, method, mode, disp


@rule("C16")
def c16(c):
    where = c.anchor("fit", "ScipyFit.run")
    for name, sph, method, mode, disp in problem_contexts(c):
        kinds = [(con, False, ()) for con in (None, True, False) if not (con is True and disp)]
        if not disp and name != "atomic, s only":
            if name == "atomic, s and p":
                kinds.append((None, "counts", ()))
            kinds += [(True, True, ()), (False, True, ()), (None, False, ("c", "a")), (None, False, ("f", "x"))]
        for con, warm, ints in kinds:
            ctx = f"{name}, spherical={sph}, {method}, optimising {mode}, with_constraint={'default' if con is None else con}, disp={disp}" \
                + WARM[warm] + int_text(ints)

            def go(w, md, con=con, warm=warm):
                s = setup(w, md, name, False, sph)
                m, mspec = measure_of(w, "AnyMeasure")
                declare("tol", "pos"), declare("mit", "pos", True, lo=1)
                rk = {"maxiter": w.int(sym("mit")), "tol": w.flt(sym("tol"))}
                if con is not None:
                    rk["with_constraint"] = w.bool(con)
                if disp:
                    rk["disp"] = w.bool(True)
                r = problem(w, s, where, "problem", mode, method, {"measure": m, "integral_dens": w.flt(sym("T"))}, rk,
                            explicit=con is not None, warm=warm)
                if r is None:
                    return
                fit, p, res, warns = r
                n = s.nb * (P(2) if mode == "both" else ONE)
                start = {"both": AR.concat([w.A(s.co), w.A(s.ex)], 0), "coefficients": w.A(s.co), "exponents": w.A(s.ex)}[mode]
                c.eq_arr(w.ctx, "starting-vector", where, p["x0_content"], start, "starting vector")
                check_bounds(w, s, where, p, n)
                check_options(w, where, p, method, sym("tol"), sym("mit"))
                check_constraints(w, s, where, p, mode, con is not False, sym("T"))
                if con is None:
                    check_objective(w, s, where, mode, p, mspec, AR.from_fn([s.N], lambda i: ONE), "problem-objective")
                cb = p.get("callback")
                if cb is not None:
                    y, _, _, _ = trial(w, s, mode)
                    o = w.run(lambda: w.call(cb, y, *([] if method == "SLSQP" else [w.I.new(DictO({}))])))
                    if w.no_raise("callback", where, o, "the progress callback"):
                        t = w.I.truth(o.value) if o.value is not None else ZERO
                        c.eq(w.ctx, "callback", where, t, ZERO, (), "stop request of the progress callback")
            c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "problem", where, integers(ints, go))
    # the default target of the constraint is the integral of the density
    for sph in (True, False):
        ctx = f"default target normalisation, spherical={sph}"

        def dflt(w, md):
            s = setup(w, md, "atomic, s and p", False, sph)
            r = problem(w, s, where, "problem", "both", "SLSQP", {"measure": measure_of(w, "AnyMeasure")[0]})
            if r is not None:
                check_constraints(w, s, where, r[1], "both", True, s.integral(s.f))
        c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "problem", where, dflt)
    # the documented default measure is usable
    def dm(w):
        s = setup(w, "fixed", "atomic, s and p", False, True)
        o = w.run(lambda: w.new("fit", "ScipyFit", s.grid, s.dens, s.model))
        wi = c.anchor("fit", "ScipyFit")
        if w.no_raise("default-measure", wi, o, "a fit without an explicit measure"):
            c.ok(w.ctx, "default-measure", wi, "accepted")
    c.context("fit created without naming a measure", "default-measure", where, dm)


@rule("C17")
def c17(c):
    where = c.anchor("fit", "ScipyFit.run")
    for name, sph, method, mode, disp, warm, ints in ((*k, wm, nt) for k in problem_contexts(c) for wm, nt in
                                                      ([(False, ())] + ([(True, ()), (False, ("c", "a")), (False, ("f", "x"))] if not k[4] and k[0] != "atomic, s only" else [])
                                                       + ([("counts", ())] if not k[4] and k[0] == "atomic, s and p" else []))):
        ctx = f"{name}, spherical={sph}, {method}, optimising {mode}, disp={disp}" + WARM[warm] + int_text(ints)

        def go(w, md, name=name, sph=sph, method=method, mode=mode, disp=disp, warm=warm, **optkw):
            s = setup(w, md, name, False, sph)
            m, mspec = measure_of(w, "SquaredDifference")
            r = problem(w, s, where, "result", mode, method, {"measure": m, "integral_dens": w.flt(sym("T"))},
                        {"disp": w.bool(True)} if disp else {}, warm=warm, **optkw)
            if r is None:
                return
            fit, p, res, warns = r
            d = dict_of(w, res, "result")
            for k in ("coeffs", "exps", "fun", "success", "message", "jacobian", "performance", "time"):
                if k not in d:
                    c.bad(w.ctx, "result-entries", where, f"entry {k!r} is missing")
                else:
                    c.ok(w.ctx, "result-entries", where, k)
            k0 = p["index"]
            xr = lambda i: sym(f"xr{k0}", i)
            cf = xr if mode != "exponents" else None
            af = {"both": lambda i: sym(f"xr{k0}", s.nb + i), "coefficients": None, "exponents": xr}[mode]
            co, ex = s.params(cf, af)
            if "coeffs" in d:
                c.eq_arr(w.ctx, "result-coefficients", where, w.A(d["coeffs"]), co, "coefficients")
            if "exps" in d:
                c.eq_arr(w.ctx, "result-exponents", where, w.A(d["exps"]), ex, "exponents")
            if "fun" in d:
                c.eq(w.ctx, "result-objective", where, scalar(w, d["fun"]), sym(f"fr{k0}"), (), "objective")
            if "success" in d:
                ok = p["result"]["success"].p
                c.eq(w.ctx, "result-success", where, w.I.truth(d["success"]), ok, (), "success flag")
                tot = ONE
                for x in warns:
                    tot = T.b_name(T.mul(tot, ONE - x[4]))
                c.eq(w.ctx, "result-warning", where, ONE - tot, ONE - ok, (), "warning raised")
            if "message" in d:
                if d["message"] == optkw.get("message", "optimiser message"):
                    c.ok(w.ctx, "result-message", where, "message")
                elif isinstance(d["message"], (str, int)) or d["message"] is None:
                    c.bad(w.ctx, "result-message", where, f"message is {d['message']!r}")
                else:
                    c.dunno(w.ctx, "result-message", where, "message not understood")
            if "jacobian" in d:
                n = s.nb * (P(2) if mode == "both" else ONE)
                c.eq_arr(w.ctx, "result-gradient", where, w.A(d["jacobian"]), AR.from_fn([n], lambda i: sym(f"jr{k0}", i)), "gradient")
            if "performance" in d:
                mk = P(Q(1, 10 ** 18))
                m_ = s.model_arr(cf, af)
                diff = AR.mapn(lambda f, g: fn_abs(f - g), [s.f, m_])
                want = [s.integral(m_), s.integral(diff), AR.reduce_axis(diff, 0, "max").cells[()],
                        s.integral(AR.mapn(lambda f, g: (f - g) * (f - g), [s.f, m_])), s.integral(kl(mk, s.f, m_)[0])]
                c.eq_arr(w.ctx, "result-performance", where, w.A(d["performance"]), w.I.stack([AR.lift(v) for v in want]), "performance")
        c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "result", where, integers(ints, go))
        if not warm and not ints and not disp and name in ("atomic, s and p", "two centres, s and p each"):
            for kw, t in (({"message": ""}, "empty message"), ({"message": "Iteration limit reached"}, "iteration limit"), ({"sign": "real"}, "optimised values of any sign")):
                c.ladder([(f"{ctx}, {t}", "symbolic"), (f"{ctx}, {t}, fixed sizes", "fixed")], "result", where,
                         lambda w, md, kw=kw, go=go: go(w, md, **kw))



# ------------------------------------------------------------------ fixed point
def step_spec(s, mask, lam, oc, oe, cf=None, af=None):
    """Parameters after one fixed-point step."""
    m = s.model_arr(cf, af)
    _, dk = kl(mask, s.f, m)
    dm = AR.take_slice(s.deriv_arr(cf, af), 1, ZERO, s.nb)
    wd = dk
    if s.sph:
        wd = AR.mapn(lambda v, r: v * P(4) * PI * r * r, [wd, s.x])
    wd = AR.mapn(lambda v, g: -(v * g), [wd, s.wts])
    col = AR.newaxis(wd, 1)
    a1 = AR.reduce_axis(AR.mapn(T.mul, [col, dm]), 0, "sum")
    rows, pre, off = [], [], ZERO
    for k, (a, b) in enumerate(s.counts):
        for n, v in ((a, Q(3, 2)), (b, Q(5, 2))):
            if n.const() == 0:
                continue
            rows.append(AR.from_fn([s.N, n], lambda i, j, k=k: at(s.rr[k], i)))
            pre.append(AR.from_fn([n], lambda i, v=v: P(v)))
    r2 = AR.concat(rows, 1)
    a2 = AR.reduce_axis(AR.mapn(T.mul, [AR.mapn(T.mul, [col, dm]), r2]), 0, "sum")
    co, ex = s.params(cf, af)
    if oc:
        co2 = AR.mapn(lambda c_, v: T.mul(c_, v) / lam, [co, a1])
    else:
        co2 = co
    ex2 = AR.mapn(lambda p_, x, y: T.mul(T.mul(p_, x), power(y, P(-1))), [AR.concat(pre, 0), a1, a2]) if oe else ex
    return co2, ex2


def mkfpi(w, s, where, given, mask=None):
    kw = {}
    tot = s.integral(s.f)
    if given:
        kw["integral_dens"] = w.flt(sym("T"))
        lam = tot / sym("T")
    else:
        lam = ONE
    w.assume(compare(">", tot, ZERO))
    if mask is not None:
        kw["mask_value"] = w.flt(mask)
    o = w.run(lambda: mkfit(w, s, "KLDivergenceFPI", **kw))
    if not w.no_raise("fit-accepts", where, o, "a density with positive integral"):
        return None, None
    return o.value, lam


def fpi_run(w, s, fit, where, mode, rl, co=None, ex=None, explicit=True, **kw):
    oc, oe = MODES[mode]
    k = {"opt_coeffs": w.bool(oc), "opt_expons": w.bool(oe)} if explicit else {}
    k.update(kw)
    o = w.run(lambda: w.meth(fit, "run", co or s.co, ex or s.ex, **k))
    if not w.no_raise(rl + "-accepts", where, o, "a valid starting guess"):
        return None
    return dict_of(w, o.value, "result")


def warm_steps(w, s, fit, mode):
    """Earlier runs: every mode, each parameter array changed in turn, a neighbouring point, and the caller's arrays refilled."""
    c2, a2 = others(w, s)
    distinct(w, "c", "c2", "a", "a2")
    bc, ba = scratch(w, c2), scratch(w, a2)

    def call(co, ex, md2):
        oc, oe = MODES[md2]
        w.run(lambda: w.meth(fit, "run", co, ex, opt_coeffs=w.bool(oc), opt_expons=w.bool(oe), maxiter=w.int(1)))
    for co, ex, md2 in [(s.co, s.ex, k) for k in MODES if k != mode] + [(c2, s.ex, mode), (s.co, a2, mode), (bc, ba, mode)]:
        call(co, ex, md2)
    refill(w, bc, nearby(w, s.co)), refill(w, ba, nearby(w, s.ex))
    call(bc, ba, mode)
    refill(w, bc, s.co), refill(w, ba, s.ex)
    s.co, s.ex = bc, ba


STEP_MODELS = tuple(MODELS)


def step_contexts(c):
    for name in STEP_MODELS:
        for sph in fits(name):
            if sph is None and name != "atomic, s and p":
                continue
            for mode in MODES:
                for given, mask in ((True, False), (False, False), (True, True)):
                    if mask and name not in ("atomic, s and p", "two centres, s and p each"):
                        continue
                    for normalized in (False, True):
                        if normalized and (mask or name not in ("atomic, s and p", "atomic, s only")):
                            continue
                        kinds = [(False, ())]
                        if not mask and not normalized and given:
                            if name in ("atomic, s and p", "two centres, s and p each", "atomic, s only") or c.thorough:
                                kinds += [(True, ()), (False, ("c", "a")), (False, ("f",)), (False, ("x",))]
                            if MODELS[name][0] in ("1d", "2d", "1dc", "2dc") and name.endswith("s and p"):
                                kinds += [("counts", ()), ("counts, later", ())]
                        for warm, ints in kinds:
                            yield name, sph, mode, given, mask, normalized, warm, ints


@rule("C13")
def c13(c):
    where = c.anchor("fit", "KLDivergenceFPI.run")
    for name, sph, mode, given, mask, normalized, warm, ints in step_contexts(c):
        ctx = f"{name}, spherical={sph}, normalize={normalized}, updating {mode}, target {'given' if given else 'default'}, mask {'symbolic' if mask else 'default'}" \
            + {**WARM, "counts, later": ", numbers of functions changed after a first run"}[warm] + int_text(ints)

        def go(w, md):
            s = setup(w, md, name, normalized, sph, opaque=not (name == "atomic, s only"), fixed={"S": 2, "P": 1})
            if mask:
                declare("mask", "pos")
            fit, lam = mkfpi(w, s, where, given, sym("mask") if mask else None)
            if fit is None:
                return
            if warm is True:
                warm_steps(w, s, fit, mode)
            if warm == "counts, later":
                fpi_run(w, s, fit, where, mode, "step", maxiter=w.int(1))
            if warm in ("counts", "counts, later"):
                rebasis(w, s)
            d = fpi_run(w, s, fit, where, mode, "step", maxiter=w.int(1), explicit=mode != "both")
            if d is None:
                return
            co, ex = step_spec(s, sym("mask") if mask else ZERO, lam, *MODES[mode])
            c.eq_arr(w.ctx, "step-coefficients", where, w.A(d["coeffs"]), co, "updated coefficients")
            c.eq_arr(w.ctx, "step-exponents", where, w.A(d["exps"]), ex, "updated exponents")
        c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "step", where, integers(ints, go))


def special(c, w, rule_, where, v, what):
    """The integral v of an integrand that is not finite is not finite."""
    if any(T.atom(a) in (("ext", "NAN"), ("ext", "INF")) for m in v.t for a, _ in m):
        c.ok(w.ctx, rule_, where, f"not finite for {what}")
    elif w.I.unknowns:
        c.dunno(w.ctx, rule_, where, "integral not understood")
    else:
        c.bad(w.ctx, rule_, where, f"{what} has the integral {short(v, 160)}", {})


@rule("C11")
def c11(c):
    for cls in CLS:
        wi = c.anchor("fit", cls + ".integrate")
        wd = c.anchor("fit", cls + ".integral_dens")
        wg = c.anchor("fit", cls + ".goodness_of_fit")
        wr = c.anchor("fit", cls + ".run")
        wc = c.anchor("fit", cls)
        for name in ("atomic, s and p", "atomic, p only", "atomic on 3-d points, s and p", "atomic off the origin, s and p",
                     "atomic off the origin on 3-d points, s only", "one centre as a molecule", "two centres, s and p each", "two centres, one-dimensional points"):
            for sph in fits(name):
                for given in (False, True) + (("zero",) if cls == "ScipyFit" else ()):
                    ctx = f"{cls}, {name}, spherical={sph}, target {'zero' if given == 'zero' else 'given' if given else 'default'}"

                    def go(w, md):
                        s = setup(w, md, name, False, sph, opaque=True)
                        tot = s.integral(s.f)
                        target = ZERO if given == "zero" else sym("T") if given else tot
                        kw = {"integral_dens": w.flt(target)} if given else {}
                        opt = Optimiser(w)
                        if cls == "ScipyFit":
                            m, mspec = measure_of(w, "AnyMeasure")
                            kw["measure"] = m
                        else:
                            w.assume(compare(">", tot, ZERO))
                        o = w.run(lambda: mkfit(w, s, cls, **kw))
                        if not w.no_raise("fit-accepts", wc, o, "a non-negative density"):
                            return
                        fit = o.value
                        c.eq(w.ctx, "target-normalisation", wd, scalar(w, w.get(fit, "integral_dens")), target, (), "target normalisation")
                        declare("h", "real")
                        if s.N.const() is not None:
                            for v, t in ((T.NAN, "NaN"), (T.INF, "infinite")):
                                m_ = int(s.N.const())
                                bad = w.I.arr_new(w.I.stack([AR.lift(v if i == m_ - 1 else sym("h", P(i))) for i in range(m_)]))
                                o = w.run(lambda: w.meth(fit, "integrate", bad))
                                if w.no_raise("integrate-accepts", wi, o):
                                    special(c, w, "integral", wi, scalar(w, o.value), f"an integrand with a value that is {t}")
                        o = w.run(lambda: w.meth(fit, "integrate", w.arr("h", s.N)))
                        if w.no_raise("integrate-accepts", wi, o):
                            c.eq(w.ctx, "integral", wi, scalar(w, o.value), s.integral(AR.from_fn([s.N], lambda i: sym("h", i))), (), "integral")
                        o = w.run(lambda: w.meth(fit, "goodness_of_fit", s.co, s.ex))
                        if w.no_raise("goodness-accepts", wg, o):
                            xs = w.seq(o.value)
                            if xs is not None and len(xs) == 5:
                                for g, x, want in zip(GNAMES, xs, goodness_spec(s, DEFMASK[cls])):
                                    c.eq(w.ctx, "goodness-integrals", wg, scalar(w, x), want, (), g)
                        if cls == "KLDivergenceFPI":
                            wl = c.anchor("fit", cls + ".lagrange_multiplier")
                            c.eq(w.ctx, "multiplier", wl, scalar(w, w.get(fit, "lagrange_multiplier")), tot / target, (), "multiplier")
                            d = fpi_run(w, s, fit, wr, "both", "step", maxiter=w.int(1))
                            if d is not None:
                                co, ex = step_spec(s, ZERO, tot / target, True, True)
                                c.eq_arr(w.ctx, "update-averages", wr, w.A(d["coeffs"]), co, "updated coefficients")
                                c.eq_arr(w.ctx, "update-averages", wr, w.A(d["exps"]), ex, "updated exponents")
                        else:
                            o = w.run(lambda: w.meth(fit, "run", s.co, s.ex))
                            if w.no_raise("run-accepts", wr, o) and len(opt.problems) == 1:
                                p = opt.problems[0]
                                check_constraints(w, s, wr, p, "both", True, target)
                                check_objective(w, s, wr, "both", p, mspec, AR.from_fn([s.N], lambda i: ONE))
                    c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "integral", wi, go)
                    if name in ("atomic, s and p", "two centres, s and p each") and not given:
                        c.context(ctx + ", fixed sizes, values that are not finite", "integral", wi, lambda w, go=go: go(w, "fixed"))
                    if name in ("atomic, s and p", "two centres, s and p each"):
                        for nm in (("f",), ("x",), ("h",), ("c", "a")):
                            tx = ctx + ", integer " + " and ".join({**INT_NAMES, "h": "integrand"}[k] for k in nm)
                            c.ladder([(tx, "symbolic"), (tx + ", fixed sizes", "fixed")], "integral", wi, integers(nm, go))
        # rejections
        for what in ("negative", "negative at the first point", "spherical on 3-d points"):
            for sph in ((False, True, None) if what != "spherical on 3-d points" else (True,)):
                for given in (False, True):
                    def rej(w, what=what, sph=sph, given=given):
                        s = setup(w, "symbolic", "atomic, s and p" if what != "spherical on 3-d points" else "atomic on 3-d points, s and p", False, sph)
                        if what.startswith("negative"):
                            declare("neg", "pos")
                            bad_ = AR.lift(-sym("neg"))
                            one = AR.from_fn([ONE], lambda i: -sym("neg"))
                            rest = AR.from_fn([s.N - ONE], lambda i: sym("f", i))
                            w.assume(compare(">", s.N, ONE))
                            s.dens = w.I.arr_new(AR.concat([one, rest] if "first" in what else [rest, one], 0), "arg:density")
                        kw = {"integral_dens": w.flt(sym("T"))} if given else {}
                        if cls == "ScipyFit":
                            kw["measure"] = measure_of(w, "AnyMeasure")[0]
                        o = w.run(lambda: mkfit(w, s, cls, **kw))
                        w.must_raise("rejects-" + what.split()[0], wc, o, "ValueError", what)
                    c.context(f"{cls}, {what}, spherical={sph}, target {'given' if given else 'default'}", "rejects", wc, rej)


def maxabs(a, b):
    return AR.reduce_axis(AR.mapn(lambda x, y: fn_abs(x - y), [a, b]), 0, "max").cells[()]


def stop_patterns(M, thorough):
    """Truth values of (coefficients moved, exponents moved, objective moved) after each step, up to the stop or M steps.
    After the first step the objective has no predecessor (None)."""
    def rest(k):
        if k > M:
            return [[]]
        out = []
        for dc in (1, 0):
            for de in (1, 0):
                for do in ((1, 0) if k > 1 else (None,)):
                    go_on = (dc or de) and do in (1, None)
                    if go_on and k < M:
                        if not thorough and k > 1 and (dc, de) != (1, 1):
                            continue
                        out += [[(dc, de, do)] + r for r in rest(k + 1)]
                    else:
                        out.append([(dc, de, do)])
        return out
    return rest(1)


def reference_steps(w, s, fit, where, mode, M):
    """Parameters and performance record after each of M steps (single-step runs chained)."""
    co, ex = s.co, s.ex
    out = []
    for k in range(M):
        d = fpi_run(w, s, fit, where, mode, "history", co, ex, maxiter=w.int(1))
        if d is None:
            return None
        a, b = w.A(d["coeffs"]), w.A(d["exps"])
        co, ex = w.I.arr_new(a), w.I.arr_new(b)
        o = w.run(lambda: w.meth(fit, "goodness_of_fit", co, ex))
        xs = w.seq(o.value)
        if xs is None:
            raise Give("goodness of fit is not a list")
        out.append((a, b, [scalar(w, x) for x in xs]))
    return out


@rule("C14")
def c14(c):
    where = c.anchor("fit", "KLDivergenceFPI.run")
    cases = [("atomic, s and p", True, "both"), ("atomic, s and p", False, "both"), ("atomic, s and p", True, "coefficients"),
             ("atomic, s and p", True, "exponents"), ("two centres, s and p each", False, "both")]
    for name, sph, mode in cases:
        top = 3 if (mode == "both" and sph and name == "atomic, s and p") or c.thorough else 2
        for M in range(1, top + 1):
            for pat in stop_patterns(M, c.thorough):
                if mode == "coefficients" and any(p[1] for p in pat) or mode == "exponents" and any(p[0] for p in pat):
                    continue
                for disp in ((False, True) if M == 2 and name == "atomic, s and p" and sph and mode == "both" else (False,)):
                    txt = ", ".join("".join("c" if p[0] else "-") + ("e" if p[1] else "-") + ("" if p[2] is None else "o" if p[2] else "-") for p in pat)
                    ctx = f"{name}, spherical={sph}, updating {mode}, at most {M} steps, changes above threshold per step: {txt}{', disp' if disp else ''}"

                    def go(w, md):
                        s = setup(w, md, name, False, sph, opaque=True)
                        for t in ("cth", "eth", "dth"):
                            declare(t, "pos")
                        fit, lam = mkfpi(w, s, where, True)
                        if fit is None:
                            return
                        ref = reference_steps(w, s, fit, where, mode, len(pat))
                        if ref is None:
                            return
                        prev = (w.A(s.co), w.A(s.ex), None)
                        for (a, b, g), (dc, de, do) in zip(ref, pat):
                            for v, x, t in ((dc, maxabs(a, prev[0]), "cth"), (de, maxabs(b, prev[1]), "eth")):
                                q = compare(">", x, sym(t))
                                if q.const() is None:
                                    w.assume(q if v else ONE - q)
                                elif q.const() != v:
                                    return c.ok(w.ctx, "history", where, "excluded combination")
                            if do is not None:
                                q = compare(">", fn_abs(g[4] - prev[2][4]), sym("dth"))
                                if q.const() is None:
                                    w.assume(q if do else ONE - q)
                            prev = (a, b, g)
                        kw = dict(maxiter=w.int(M), c_threshold=w.flt(sym("cth")), e_threshold=w.flt(sym("eth")), d_threshold=w.flt(sym("dth")))
                        if disp:
                            kw["disp"] = w.bool(True)
                        d = fpi_run(w, s, fit, where, mode, "history", **kw)
                        if d is None:
                            return
                        n = len(pat)
                        want = w.I.stack([w.I.stack([AR.lift(v) for v in g]) for _, _, g in ref])
                        c.eq_arr(w.ctx, "history-performance", where, w.A(d["performance"]), want, "performance records")
                        c.eq_arr(w.ctx, "history-objective", where, w.A(d["fun"]), w.I.stack([AR.lift(g[4]) for _, _, g in ref]), "objective history")
                        c.eq_arr(w.ctx, "history-parameters", where, w.A(d["coeffs"]), ref[-1][0], "coefficients of the last record")
                        c.eq_arr(w.ctx, "history-parameters", where, w.A(d["exps"]), ref[-1][1], "exponents of the last record")
                        ok = w.I.truth(d["success"])
                        dc, de, do = pat[-1]
                        if n == M and do in (1, None):
                            if do == 1:
                                c.eq(w.ctx, "success-used-up", where, ok, ZERO, (), "success of a run whose objective still changes")
                        elif not (do == 1 and n == M):
                            c.eq(w.ctx, "success-converged", where, ok, ONE, (), "success of a run that met its thresholds")
                    c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "history", where, go)
    # runs that break down
    for kind in ("parameters", "objective"):
        for at_step in (1, 2, 3):
            for M in sorted({at_step, at_step + 1, 500}):
                for mode in (("both", "coefficients", "exponents") if kind == "parameters" and at_step == 1 else ("both",)):
                    ctx = f"{kind} become NaN at step {at_step} of at most {M}, updating {mode}"

                    def nan(w, md, kind=kind, at_step=at_step, M=M, mode=mode):
                        s = setup(w, md, "atomic, s and p", False, True, opaque=True)
                        for t in ("cth", "eth", "dth"):
                            declare(t, "pos")
                        fit, lam = mkfpi(w, s, where, True)
                        if fit is None:
                            return
                        ref = reference_steps(w, s, fit, where, mode, at_step if kind == "objective" else at_step - 1)
                        prev = (w.A(s.co), w.A(s.ex), None)
                        for k, (a, b, g) in enumerate(ref):
                            w.assume(compare(">", maxabs(a, prev[0]), sym("cth")))
                            w.assume(compare(">", maxabs(b, prev[1]), sym("eth")))
                            if k and k < at_step - 1:
                                w.assume(compare(">", fn_abs(g[4] - prev[2][4]), sym("dth")))
                            prev = (a, b, g)
                        k0 = s.op.tag(prev[0], prev[1])
                        if kind == "parameters":
                            s.op.nan_d.add(k0)
                        else:
                            def over(I, f, args, kw):
                                b = I.bind_args(f, list(args), kw)
                                m = list(b.values())[2]
                                if isinstance(m, Ref):
                                    a = I.to_arr(m)
                                    if same(a, s.op.m(k0)) and not (len(b) > 3 and I.truth(list(b.values())[3]).const() == 1):
                                        return I.arr_new(AR.mapn(lambda v: T.NAN, [a]))
                                return NotImplemented
                            w.I.func_over["bfit.measure.KLDivergence.evaluate"] = over
                        d = fpi_run(w, s, fit, where, mode, "success-nan", maxiter=w.int(M), c_threshold=w.flt(sym("cth")),
                                    e_threshold=w.flt(sym("eth")), d_threshold=w.flt(sym("dth")))
                        if d is None:
                            return
                        last = w.A(d["coeffs"]) if mode != "exponents" else w.A(d["exps"])
                        if kind == "parameters" and not any(is_nan(v) for v in last.cells.values()):
                            raise Give("parameters did not become NaN")
                        if kind == "objective" and not any(is_nan(v) for v in w.A(d["fun"]).cells.values()):
                            raise Give("objective did not become NaN")
                        c.eq(w.ctx, "success-nan", where, w.I.truth(d["success"]), ZERO, (), "success")
                    c.ladder([(ctx, "symbolic"), (ctx + ", fixed sizes", "fixed")], "success-nan", where, nan)
    for kind in LONG:
        for mode in (("both", "coefficients", "exponents") if kind == "never settles" else ("both",) if kind != "to the default limit" or c.thorough else ()):
            for disp in ((False, True) if kind == "objective settles" else (False,)):
                c.context(f"long run: {kind}, updating {mode}{', disp' if disp else ''}", "long-run", where, lambda w: long_run(c, w, where, kind, mode, disp))


LONG = {"never settles": 210, "objective settles": 110, "coefficients settle": 90, "exponents settle": 90, "slow, all steps used": 60, "to the default limit": 500}


def long_course(kind, K, mode):
    """Parameters (two functions) and objective of a prescribed course of K steps and a few more."""
    out, c1, e1, r = [], Q(2), Q(1, 2), Q(3)
    tiny = Q(1, 500000)
    for k in range(K + 12):
        if kind in ("never settles", "to the default limit"):
            out.append(((2 + k % 2 + Q(k, 1000), 1 + Q(k, 999)), (Q(1, 2) + Q(k % 2, 4) + Q(k, 10000), Q(3, 4) + Q(k, 9999)), 3 + k % 2 + Q(k, 1000)))
            continue
        out.append(((c1, Q(5)), (e1, Q(2, 3)), r))
        # what changes in the step from k to k + 1; the step K is the first one with a small change
        last = k + 1 >= K and kind != "slow, all steps used"
        slow = tiny * Q(3, 4) if kind != "slow, all steps used" else tiny
        c1 += 0 if kind == "exponents settle" else (slow / 10 if last and kind == "coefficients settle" else slow)
        e1 += 0 if kind == "coefficients settle" else (slow / 10 if last and kind == "exponents settle" else slow)
        r += slow / 10 if last and kind == "objective settles" else slow
    if mode == "coefficients":
        out = [(a, out[0][1], r) for a, b, r in out]
    if mode == "exponents":
        out = [(out[0][0], b, r) for a, b, r in out]
    return out


def long_run(c, w, where, kind, mode, disp):
    """A run of many steps whose course is prescribed: a model of two functions at two points, with m = (exp(r), 1)."""
    K = LONG[kind]
    w.I.WHILE_KNOWN = 600
    course = long_course(kind, K, mode)
    vec = lambda v: AR.from_cells1([(ONE, P(Q(x))) for x in v])
    I = w.I
    pts = I.arr_new(vec((1, 2)), "arg:points")
    grid = make(w, "Grid", pts, I.arr_new(vec((1, 1)), "state:grid weights"))
    model = w.new("model", "AtomicGaussianDensity", pts, num_s=w.int(1), num_p=w.int(1))
    strange = []

    def over(I, f, args, kw):
        b = I.bind_args(f, list(args), kw)
        names = [x.arg for x in f.node.args.args]
        co, ex = [[v.const() for v in AR.explode(I.to_arr(b[n]), 0).cells.values()] for n in names[1:3]]
        deriv = I.truth(b[names[3]]).const()
        k = next((k for k, (a, e, _) in enumerate(course) if list(a) == co and list(e) == ex), None)
        if k is None:
            strange.append((co, ex))
            k = len(course) - 1
        a, e, r = course[k]
        m = I.arr_new(AR.from_cells1([(ONE, T.fn_exp(P(r))), (ONE, ONE)]))
        if not deriv:
            return m
        if k + 1 < len(course):
            a2, e2 = course[k + 1][:2]
        else:
            a2, e2 = a, e
        rows = [[None] * 4, [None] * 4]
        for i, pre in enumerate((Q(3, 2), Q(5, 2))):
            R = a2[i] / a[i] if mode != "exponents" else Q(1)
            v = (pre * R / e2[i] - R) / 3 if mode != "coefficients" else R / 2
            rows[0][i], rows[1][i] = T.fn_exp(P(r)) * P(R - v), P(v)
            rows[0][2 + i], rows[1][2 + i] = P(7), P(-9)
        return (m, I.arr_new(I.stack([AR.from_cells1([(ONE, x) for x in row]) for row in rows])))
    I.func_over["bfit.model.AtomicGaussianDensity.evaluate"] = over
    o = w.run(lambda: w.new("fit", "KLDivergenceFPI", grid, I.arr_new(vec((1, 1)), "arg:density"), model))
    if not w.no_raise("fit-accepts", where, o, "a density with positive integral"):
        return
    kw = {"opt_coeffs": w.bool(mode != "exponents"), "opt_expons": w.bool(mode != "coefficients")}
    if kind in ("never settles", "slow, all steps used"):
        kw["maxiter"] = w.int(K)
    if kind == "never settles":
        for t in ("c_threshold", "e_threshold", "d_threshold"):
            kw[t] = w.flt(P(Q(1, 10 ** 4)))
    if disp:
        kw["disp"] = w.bool(True)
    o = w.run(lambda: w.meth(o.value, "run", I.arr_new(vec(course[0][0]), "arg:c"), I.arr_new(vec(course[0][1]), "arg:e"), **kw))
    if not w.no_raise("long-run-accepts", where, o, "a valid starting guess"):
        return
    d = dict_of(w, o.value, "result")
    if d is None:
        return
    if w.I.unknowns:
        raise Give("run not understood")
    fun, perf = w.A(d["fun"]), w.A(d["performance"])
    want = [(T.fn_exp(P(r)) + ONE, P(-r)) for _, _, r in course[1:K + 1]]
    if fun.ndim != 1 or perf.ndim != 2:
        raise Give("histories of another form")
    for n, a in (("objective values", fun), ("performance records", perf)):
        c.eq(w.ctx, "long-run-steps", where, AR.axlen(a.ax[0]), P(K), (), f"number of {n}")
    if AR.axlen(fun.ax[0]).const() != K or AR.axlen(perf.ax[0]).const() != K:
        return
    c.eq_arr(w.ctx, "long-run-objective", where, fun, AR.from_cells1([(ONE, x) for _, x in want]), "objective history")
    for j, t in ((0, "integral"), (4, "Kullback-Leibler")):
        col = AR.from_cells1([(ONE, AR.getitem(perf, [P(k), P(j)]).cells[()]) for k in range(K)])
        c.eq_arr(w.ctx, "long-run-performance", where, col, AR.from_cells1([(ONE, x[j and 1]) for x in want]), f"{t} of the records")
    for n, v in (("coeffs", course[K][0]), ("exps", course[K][1])):
        c.eq_arr(w.ctx, "long-run-parameters", where, w.A(d[n]), vec(v), n + " returned")
    good = kind in ("objective settles", "coefficients settle", "exponents settle")
    c.eq(w.ctx, "long-run-success", where, w.I.truth(d["success"]), P(good), (), "success")
