"""Stand-ins for the objects a caller supplies: a grid, a measure, a model with unknown values."""
from ..core import *
from ..terms import fn, ONE, ZERO, PI
from .model import CO, EX, value_arr, deriv_arr, blocks, at, mat

SRC = '''
import numpy as np
from bfit.measure import Measure


class Grid:
    def __init__(self, points, weights):
        self._points = points
        self._weights = weights

    @property
    def points(self):
        return self._points

    def integrate(self, arr):
        if arr.shape != self._weights.shape:
            raise ValueError("wrong shape")
        return np.sum(arr * self._weights)


class PointsOnly:
    def __init__(self, points):
        self.points = points


class NoPoints:
    def integrate(self, arr):
        return np.sum(arr)


class IntegrateNotCallable:
    def __init__(self, points):
        self.points = points
        self.integrate = 1.0


class AnyMeasure(Measure):
    def __init__(self):
        pass

    def evaluate(self, density, model, deriv=False):
        if deriv:
            return prim_u(density, model), prim_du(density, model)
        return prim_u(density, model)


def refill(a, b):
    a[...] = b


class NotMeasure:
    def evaluate(self, density, model, deriv=False):
        if deriv:
            return prim_u(density, model), prim_du(density, model)
        return prim_u(density, model)
'''


RESULT = '''
class Result:
    def __init__(self, x, fun, success, message, jac):
        self.x = x
        self.fun = fun
        self.success = success
        self.message = message
        self.jac = jac
        self.status = 0
        self.nit = 3

    def __getitem__(self, k):
        if k == "x":
            return self.x
        if k == "fun":
            return self.fun
        if k == "success":
            return self.success
        if k == "message":
            return self.message
        if k == "jac":
            return self.jac
        if k == "status":
            return self.status
        if k == "nit":
            return self.nit
        raise KeyError(k)

    def __setitem__(self, k, v):
        setattr(self, k, v)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def keys(self):
        return ["x", "fun", "success", "message", "jac", "status", "nit"]

    def __contains__(self, k):
        return k in self.keys()

    def __iter__(self):
        return iter(self.keys())
'''
MIN_ARGS = ("fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options")
CON_ARGS = ("fun", "lb", "ub", "jac", "hess", "keep_feasible")


class Con(Stub):
    clsname = "NonlinearConstraint"

    def __init__(self, b):
        self.b = b

    def get(self, I, name):
        return self.b[name]


class Optimiser:
    """Stand-in for scipy.optimize.minimize: records the problem posed and returns unknown results."""

    def __init__(self, w, constant=False, sign="pos", message="optimiser message"):
        self.w, self.problems, self.constant, self.sign, self.message = w, [], constant, sign, message
        w.I.ext["scipy.optimize.minimize"] = self.minimize
        w.I.ext["scipy.optimize.NonlinearConstraint"] = lambda I, a, k: Con({**dict(zip(CON_ARGS, a)), **k})
        w.I.ext["scipy.optimize.Bounds"] = lambda I, a, k: Con({**dict(zip(("lb", "ub"), a)), **k, "is": "bounds"})
        m = w.I.modules.get("optres") or w.I.load_source("optres", RESULT)
        self.cls = w.I.st.heap[m.frame].vars["Result"]

    def minimize(self, I, args, kw):
        b = dict(zip(MIN_ARGS, args))
        b.update(kw)
        b["x0_content"] = I.to_arr(b["x0"])
        b["loc"] = I.loc
        n = 0 if self.constant else len(self.problems)
        b["index"] = n
        self.problems.append(b)
        declare(f"xr{n}", self.sign), declare(f"fr{n}", "real"), declare(f"jr{n}", "real"), declare(f"ok{n}", "nn", True, lo=0, hi=1)
        N = AR.axlen(b["x0_content"].ax[0])
        x = I.arr_new(AR.from_fn([N], lambda i: sym(f"xr{n}", i)))
        jac = I.arr_new(AR.from_fn([N], lambda i: sym(f"jr{n}", i)))
        ok = Sc(T.compare("==", sym(f"ok{n}"), ONE), "bool")
        b["result"] = dict(x=x, fun=Sc(sym(f"fr{n}"), "npfloat"), success=ok, message=self.message, jac=jac)
        r = b["result"]
        return I.call(self.cls, [r["x"], r["fun"], r["success"], r["message"], r["jac"]], {})


def prim(name):
    def f(I, args, kw):
        a, b = [I.to_arr(v) for v in args]
        return I.arr_new(AR.mapn(lambda x, y: fn(name, x, y), [a, b]))
    return PyFn(f, name)


def module(w):
    m = w.I.modules.get("stubs")
    return m or w.I.load_source("stubs", SRC, {"prim_u": prim("u:mu"), "prim_du": prim("u:dmu")})


def make(w, cls, *args):
    m = module(w)
    return w.I.call(w.I.st.heap[m.frame].vars[cls], list(args), {})


def refill(w, a, b):
    """Overwrite the content of array a in place, as a caller re-using a buffer does."""
    m = module(w)
    o = w.run(lambda: w.I.call(w.I.st.heap[m.frame].vars["refill"], [a, b], {}))
    if o.exc is not None:
        raise Give("buffer not refilled")


def scratch(w, like):
    """An array of the caller that holds the content of another one."""
    return w.I.arr_new(w.A(like), "arg:buffer")


NEAR = P(Q(1000005, 1000000))


def nearby(w, y):
    """The vector with every entry changed by a few parts in a million."""
    return w.I.arr_new(AR.mapn(lambda v: v * NEAR, [w.A(y)]), "arg:nearby vector")


def rebasis(w, s):
    """The numbers of s- and p-type functions of an atomic model changed after the fit object was made: the specification
    follows the new numbers."""
    b, a = s.counts[0]
    o = w.run(lambda: w.meth(s.model, "change_numb_s_and_numb_p", w.int(a), w.int(b)))
    if o.exc is not None or o.raises:
        raise Give("numbers of functions not changed")
    s.counts = [(a, b)]
    k0, n0, o0, r2 = s.blks[0]
    s.blks = [(k, n, o0, r2) if k == "s" else (k, n, a, r2) for k, n, _ in blocks(a, b)]


def declare_others():
    declare("c2", "nn"), declare("a2", "pos")


def distinct(w, *names):
    """The vectors of these names are different (already in the first entry)."""
    for k, a in enumerate(names):
        for b in names[:k]:
            w.assume(T.compare("!=", sym(a, ZERO), sym(b, ZERO)))


def others(w, s):
    declare_others()
    return w.arr("c2", s.nb), w.arr("a2", s.nb)


class Setup:
    """Grid, density and model of a fit, with the terms the specification is written in."""

    def integral(self, arr):
        """Spec integral of an array over the points."""
        x = self.x
        if self.sph:
            arr = AR.mapn(lambda v, r: v * P(4) * PI * r * r, [arr, x])
        return AR.reduce_axis(AR.mapn(lambda v, g: v * g, [arr, self.wts]), 0, "sum").cells[()]

    def params(self, cf, af):
        return AR.from_fn([self.nb], cf or CO), AR.from_fn([self.nb], af or EX)

    def model_arr(self, cf=None, af=None):
        k = {}
        if cf:
            k["cf"] = cf
        if af:
            k["af"] = af
        if self.op:
            return self.op.m(self.op.tag(*self.params(cf, af)))
        return value_arr(self.N, None, self.blks, self.normalized, **k)

    def deriv_arr(self, cf=None, af=None):
        k = {}
        if cf:
            k["cf"] = cf
        if af:
            k["af"] = af
        if self.op:
            return self.op.d(self.op.tag(*self.params(cf, af)))
        return deriv_arr(self.N, self.blks, self.normalized, **k)


class Opaque:
    """Model whose values are unknown: evaluations at equal parameters give the same unknown values."""

    def __init__(self, w, s):
        self.w, self.s, self.known = w, s, []
        self.nan_m, self.nan_d = set(), set()
        for cls in ("AtomicGaussianDensity", "MolecularGaussianDensity"):
            w.I.func_over[f"bfit.model.{cls}.evaluate"] = self.evaluate

    def tag(self, co, ex):
        for k, (a, b) in enumerate(self.known):
            if same(a, co) and same(b, ex):
                return k
        self.known.append((co, ex))
        k = len(self.known) - 1
        if any(is_nan(v) for a in (co, ex) for v in a.cells.values()):
            self.nan_m.add(k), self.nan_d.add(k)
        declare(f"m{k}", "pos"), declare(f"d{k}", "pos")
        return k

    def m(self, k):
        f = NAN if k in self.nan_m else None
        return AR.from_fn([self.s.N], lambda i: f or sym(f"m{k}", i))

    def d(self, k):
        f = NAN if k in self.nan_d else None
        return AR.from_fn([self.s.N, P(2) * self.s.nb], lambda i, j: f or sym(f"d{k}", i, j))

    def evaluate(self, I, f, args, kw):
        b = I.bind_args(f, list(args), kw)
        names = [x.arg for x in f.node.args.args]
        self_, co, ex = b[names[0]], I.to_arr(b[names[1]]), I.to_arr(b[names[2]])
        deriv = I.truth(b[names[3]]).const() if len(names) > 3 else 0
        if deriv is None:
            raise Give("unknown derivative flag")
        for a in (co, ex):
            if a.ndim != 1 or not is_zero(AR.axlen(a.ax[0]) - self.s.nb):
                from ..interp import AbsRaise
                raise AbsRaise(ExcV("ValueError", ("wrong number of parameters",)))
        k = self.tag(co, ex)
        if deriv:
            return (I.arr_new(self.m(k)), I.arr_new(self.d(k)))
        return I.arr_new(self.m(k))


def same(a, b):
    if a is b:
        return True
    if a.ndim != b.ndim or a.sel is not None or b.sel is not None:
        return False
    dd = AR.diff_arrays(a, b)
    if dd is None:
        return False
    for k, x, y, axs in dd:
        if has_ext(x) or has_ext(y):
            if not x == y:
                return False
        elif not is_zero(x - y):
            return False
    return True


def declare_fit():
    declare("c", "nn"), declare("a", "pos"), declare("x", "real"), declare("R", "real"), declare("w", "pos"), declare("f", "nn")
    declare("T", "pos")


MODELS = {
    "atomic, s only": ("1d", [("S", 0)]),
    "atomic, p only": ("1d", [(0, "P")]),
    "atomic, s and p": ("1d", [("S", "P")]),
    "atomic, one s": ("1d", [(1, 0)]),
    "atomic on 3-d points, s and p": ("2d", [("S", "P")]),
    "two centres, s and p each": ("mol", [("S0", "P0"), ("S1", "P1")]),
    "two centres, s only and p only": ("mol", [("S0", 0), (0, "P1")]),
    "two centres, one-dimensional points": ("mol1", [("S0", "P0"), ("S1", 0)]),
    "atomic off the origin, s and p": ("1dc", [("S", "P")]),
    "atomic off the origin on 3-d points, s only": ("2dc", [("S", 0)]),
    "one centre as a molecule": ("mol", [("S0", "P0")]),
    "three centres, mixed": ("mol", [("S0", 0), ("S1", "P1"), (0, "P2")]),
}


def setup(w, mode, name, normalized, sph, fixed=None, opaque=None, fsign="nn"):
    kind, counts = MODELS[name]
    declare_fit()
    declare("f", fsign)
    s = Setup()
    s.sph, s.normalized, s.kind = sph, normalized, kind
    sizes = dict(S=2, P=2, S0=2, P0=1, S1=1, P1=2, P2=1)
    sizes.update(fixed or {})
    v = lambda n: P(n) if isinstance(n, int) else (w.sint(n) if mode == "symbolic" else small("n", sizes[n]))
    s.N = w.sint("N") if mode == "symbolic" else small("N", 2)
    s.counts = [(v(a), v(b)) for a, b in counts]
    s.D = w.sint("D") if mode == "symbolic" and kind in ("2d", "2dc", "mol") else small("D", 2)
    one = kind in ("1d", "1dc", "mol1")
    pts = w.arr("x", s.N) if one else w.arr("x", s.N, s.D)
    s.points = pts
    s.x = w.A(pts)
    s.wts = AR.from_fn([s.N], lambda i: sym("w", i))
    s.f = AR.from_fn([s.N], lambda i: sym("f", i))
    s.dens = w.arr("f", s.N)
    s.grid = make(w, "Grid", pts, w.I.arr_new(s.wts, "state:grid weights"))
    s.blks, off = [], ZERO
    if kind in ("1d", "2d", "1dc", "2dc"):
        off0 = kind.endswith("c")
        cen = {"center": w.arr("R", P(1) if one else s.D)} if off0 else {}
        s.model = w.new("model", "AtomicGaussianDensity", pts, **cen, num_s=w.int(s.counts[0][0]), num_p=w.int(s.counts[0][1]), normalize=w.bool(normalized))
        o = (lambda j: sym("R", j)) if off0 else (lambda j: ZERO)
        r2 = (sym("x", ix(0)) - o(ZERO)) ** 2 if one else \
            AR.reduce_axis(AR.from_fn([s.N, s.D], lambda i, j: (sym("x", i, j) - o(j)) ** 2), 1, "sum").cells[(0,)]
        s.rr = [r2]
        s.blks = [(k, n, o, r2) for k, n, o in blocks(*s.counts[0])]
        off = s.counts[0][0] + s.counts[0][1]
    else:
        D = P(1) if one else s.D
        s.rr = []
        for k, (a, b) in enumerate(s.counts):
            r2 = (sym("x", ix(0)) - sym("R", P(k), ZERO)) ** 2 if one else \
                AR.reduce_axis(AR.from_fn([s.N, D], lambda i, j: (sym("x", i, j) - sym("R", P(k), j)) ** 2), 1, "sum").cells[(0,)]
            s.rr.append(r2)
            s.blks += [(kd, n, o, r2) for kd, n, o in blocks(a, b, off)]
            off = off + a + b
        s.model = w.new("model", "MolecularGaussianDensity", pts, w.arr("R", len(counts), D), mat(w, s.counts, "int", "arg:basis"), w.bool(normalized))
    s.nb = off
    s.co, s.ex = w.arr("c", off), w.arr("a", off)
    s.op = None
    if (kind == "mol") if opaque is None else opaque:
        s.op = Opaque(w, s)
        s.op.tag(w.A(s.co), w.A(s.ex))
    return s
