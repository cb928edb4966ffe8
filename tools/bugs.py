"""Specifications of the planted bugs (input of plant.py)."""
SPECS = []
M, F, G, D, ME, GR, S, U = ("bfit/" + x + ".py" for x in ("model", "fit", "grid", "density", "measure", "greedy", "_slater", "parse_ugbs"))


def bug(id, prop, needs, breaks, edits, demo):
    SPECS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


HEAD = "import numpy as np\n"
bug("c01-negative-centre", "C01", "one-dimensional points with a centre at a negative coordinate",
    "radii of one-dimensional points are measured from the mirrored centre",
    [(M, "radii = np.abs(points - self.coord)", "radii = np.abs(points - np.abs(self.coord))")], HEAD + """
from bfit.model import AtomicGaussianDensity
x = np.linspace(-2, 3, 11)
m = AtomicGaussianDensity(x, center=np.array([-0.7]), num_s=1, num_p=1, normalize=False)
r = np.abs(x + 0.7)
assert np.allclose(m.evaluate(np.array([2.0, 3.0]), np.array([0.5, 1.5])), 2 * np.exp(-0.5 * r**2) + 3 * r**2 * np.exp(-1.5 * r**2))
""")
bug("c03-skip-zero-centre", "C03", "a molecular model in which all coefficients of one centre are zero, with derivatives",
    "the derivative with respect to the (zero) coefficients of that centre is reported as zero",
    [(M, """            es = expons[count: count + center.nbasis]
            if deriv:""", """            es = expons[count: count + center.nbasis]
            if not np.any(cs):
                # nothing to add for this center
                count += center.nbasis
                continue
            if deriv:""")], HEAD + """
from bfit.model import MolecularGaussianDensity
x = np.linspace(-2, 3, 9)
m = MolecularGaussianDensity(x, np.array([[0.0], [1.0]]), np.array([[1, 1], [1, 0]]))
c, e = np.array([0.0, 0.0, 2.0]), np.array([0.5, 0.6, 0.7])
g, dg = m.evaluate(c, e, deriv=True)
assert np.allclose(dg[:, 0], np.exp(-0.5 * x**2)) and np.allclose(dg[:, 1], x**2 * np.exp(-0.6 * x**2))
assert np.allclose(dg[:, 5], -2 * (x - 1)**2 * np.exp(-0.7 * (x - 1)**2))
""")
bug("c04-stale-prefactor", "C04", "a change of the counts that keeps their sum",
    "the prefactors stay those of the old mixture of s- and p-type functions",
    [(M, """        self.ns = num_s
        self.np = num_p
        # assign""" if False else """        self.ns = num_s
        self.np = num_p
""", """        self.ns = num_s
        self.np = num_p
        self._prefactor = np.array([1.5] * num_s + [2.5] * num_p)
"""), (M, "        return np.array([1.5] * self.ns + [2.5] * self.np)", """        if len(self._prefactor) != self.nbasis:
            self._prefactor = np.array([1.5] * self.ns + [2.5] * self.np)
        return self._prefactor""")], HEAD + """
from bfit.model import AtomicGaussianDensity
m = AtomicGaussianDensity(np.linspace(0, 1, 5), num_s=2, num_p=1)
assert m.prefactor.tolist() == [1.5, 1.5, 2.5]
m.change_numb_s_and_numb_p(1, 2)
assert m.prefactor.tolist() == [1.5, 2.5, 2.5]
""")
bug("c04-centre-lookup", "C04", "a centre without functions of one kind followed by further centres, looked up by a late index",
    "the centre of a basis function is computed from the first centre's number of functions",
    [(M, "        nbasis = np.sum(self._basis, axis=1)\n", "        nbasis = np.sum(np.maximum(self._basis, np.array([[0, int(self._basis[0, 1] > 0)]])), axis=1)\n")], HEAD + """
from bfit.model import MolecularGaussianDensity
m = MolecularGaussianDensity(np.linspace(0, 1, 5), np.array([[0.0], [1.0], [2.0]]), np.array([[1, 1], [2, 0], [1, 2]]))
assert [m.assign_basis_to_center(i) for i in range(7)] == [0, 0, 1, 1, 2, 2, 2]
""")
bug("c05-mask-boundary", "C05", "a model value exactly equal to a positive mask value",
    "the Kullback-Leibler integrand is not masked at the mask value itself",
    [(ME, """        # compute ratio & replace masked values by 1.0
        ratio = density / np.ma.masked_less_equal(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=1.0)""", """        # compute ratio & replace masked values by 1.0
        ratio = density / np.ma.masked_less(model, self.mask_value)
        ratio = np.ma.filled(ratio, fill_value=1.0)""")], HEAD + """
from bfit.measure import KLDivergence
f, g = np.array([1.0, 2.0, 3.0]), np.array([0.5, 0.25, 1.0])
v, d = KLDivergence(mask_value=0.25).evaluate(f, g, deriv=True)
assert np.allclose(v, [np.log(2), 0.0, 3 * np.log(3)]) and np.allclose(d, [-2, -1, -3])
""")
bug("c05-slightly-negative-model", "C05", "a model with a tiny negative value",
    "models with values between -1e-12 and zero are not penalised",
    [(ME, "if np.any(model < 0.):", "if np.any(model < -1e-12):")], HEAD + """
from bfit.measure import KLDivergence
f, g = np.array([1.0, 2.0, 3.0]), np.array([0.5, -1e-13, 1.0])
assert np.all(KLDivergence(mask_value=1e-18).evaluate(f, g) == 1e5)
""")
bug("c06-tsallis-small-order", "C06", "Tsallis order below one",
    "the derivative of the Tsallis divergence uses an order of at least one",
    [(ME, "return integrand, -np.power(ratio, self.alpha)", "return integrand, -np.power(ratio, max(self.alpha, 1.0))")], HEAD + """
from bfit.measure import TsallisDivergence
f, g = np.array([1.0, 2.0, 3.0]), np.array([0.5, 0.7, 1.0])
for a in (0.5, 1.5, 2.0):
    m = TsallisDivergence(alpha=a)
    d = m.evaluate(f, g, deriv=True)[1]
    num = (m.evaluate(f, g + 1e-6) - m.evaluate(f, g - 1e-6)) / 2e-6
    assert np.allclose(d, num, atol=1e-6), a
""")
bug("c07-column-integrand", "C07", "an integrand with the right number of elements in another shape",
    "radial grids accept an integrand of another shape when its size matches",
    [(G, "        if arr.shape != self.points.shape:", "        if arr.size != self.points.size:")], HEAD + """
from bfit.grid import UniformRadialGrid
g = UniformRadialGrid(5, 0.0, 1.0)
for bad in (np.ones((5, 1)), np.ones((1, 5))):
    try:
        g.integrate(bad)
    except ValueError:
        continue
    raise SystemExit("accepted an integrand of shape %s" % (bad.shape,))
assert np.isclose(g.integrate(np.asarray(g.points) ** 0), 1.0)
""")
bug("c09-left-handed", "C09", "left-handed grid axes",
    "integrals over a cubic grid with left-handed axes are negative",
    [(G, "        return np.abs(volume)", "        return volume")], HEAD + """
from bfit.grid import CubicGrid
ax = np.array([[0.0, 0.5, 0.0], [0.5, 0.0, 0.0], [0.0, 0.0, 0.5]])
g = CubicGrid(np.zeros(3), ax, np.array([2, 3, 4]))
assert np.isclose(g.integrate(np.ones(24)), 24 * 0.125)
""")
bug("c09-order-unequal", "C09", "unequal numbers of points along the axes",
    "points are enumerated with the second axis slowest",
    [(G, "        coords = np.swapaxes(coords, 1, 2)\n", "        coords = np.swapaxes(coords, 1, 2) if shape[0] == shape[1] else coords\n")], HEAD + """
from bfit.grid import CubicGrid
g = CubicGrid(np.array([1.0, 2.0, 3.0]), np.diag([0.1, 0.2, 0.3]), np.array([2, 3, 2]))
ref = [[1 + 0.1 * i, 2 + 0.2 * j, 3 + 0.3 * k] for i in range(2) for j in range(3) for k in range(2)]
assert np.allclose(g.points, ref)
""")
bug("c10-margin", "C10", "an extent that is not a multiple of the spacing",
    "the number of points is rounded to nearest, so the margin around the atoms is not kept",
    [(G, "        shape = np.ceil(shape)\n", "        shape = np.rint(shape)\n")], HEAD + """
from bfit.grid import CubicGrid
at = np.array([[0.0, 0.0, 0.0], [0.0, 0.0, 1.45]])
g = CubicGrid.from_molecule(np.array([1.0, 1.0]), at, spacing=1.0, extension=2.0, rotate=False)
s = np.array([round(np.ptp(g.points[:, i])) + 1 for i in range(3)])
assert np.all(s * 1.0 >= np.ptp(at, axis=0) + 2 * 2.0 - 1e-9), s
""")
bug("c10-unweighted-inertia", "C10", "a molecule with different charges whose principal axes depend on them",
    "the grid axes are the principal axes of the unweighted geometry",
    [(G, "                itensor += atcorenums[i] * tempitens", "                itensor += totz / len(atcorenums) * tempitens")], HEAD + """
from bfit.grid import CubicGrid
z = np.array([1.0, 6.0, 9.0])
at = np.array([[0.0, 0.0, 0.0], [1.0, 0.3, 0.0], [0.4, 2.0, 0.7]])
g = CubicGrid.from_molecule(z, at, spacing=0.5, extension=1.0, rotate=True)
a = g.axes / 0.5
d = at - z @ at / z.sum()
T = sum(z[i] * (d[i] @ d[i] * np.eye(3) - np.outer(d[i], d[i])) for i in range(3))
P = a @ T @ a.T
assert np.allclose(P, np.diag(np.diag(P)), atol=1e-8)
""")
bug("c11-zero-target", "C11", "an explicit target normalisation of zero",
    "a target normalisation of zero is replaced by the integral of the density",
    [(F, "        if integral_dens is None:", "        if not integral_dens:")], HEAD + """
from bfit.grid import UniformRadialGrid
from bfit.fit import ScipyFit
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference
g = UniformRadialGrid(20, 0.0, 3.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points)
fit = ScipyFit(g, f, m, measure=SquaredDifference(), integral_dens=0.0)
assert fit.integral_dens == 0.0
""")
bug("c11-constraint-target", "C11", "an explicit target normalisation different from the integral of the density",
    "the normalisation constraint of the optimiser uses the integral of the density",
    [(F, "        cons = self.integral_dens - self.integrate(m)", "        cons = self.integrate(self.density - m)")], HEAD + """
from bfit.grid import UniformRadialGrid
from bfit.fit import ScipyFit
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference
g = UniformRadialGrid(20, 0.0, 3.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points)
fit = ScipyFit(g, f, m, measure=SquaredDifference(), integral_dens=2.5, spherical=True)
v = fit.const_norm(np.array([1.0, 1.0]))
assert np.isclose(v, 2.5 - np.trapz(4 * np.pi * g.points**2 * np.exp(-g.points**2), g.points))
""")
bug("c12-signed-maximum", "C12", "a model that overestimates the density more than it underestimates it",
    "the L-infinity error ignores points where the model is larger than the density",
    [(F, "            np.max(diff),", "            np.max(self.density - approx, initial=0.0) or np.max(diff),")], HEAD + """
from bfit.grid import UniformRadialGrid
from bfit.fit import KLDivergenceFPI
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(20, 0.0, 3.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points)
fit = KLDivergenceFPI(g, f, m)
for c in (3.0, 0.2):
    p = np.array([c]), np.array([1.0])
    assert np.isclose(fit.goodness_of_fit(*p)[2], np.max(np.abs(f - m.evaluate(*p)))), c
""")
bug("c13-centre-of-function", "C13", "a molecular model with several functions on one centre",
    "the exponent update measures distances from the centre with the number of the function",
    [(F, "                    center_index = self.model.assign_basis_to_center(index)", "                    center_index = min(index, self.model.natoms - 1)")], HEAD + """
from bfit.grid import UniformRadialGrid
from bfit.fit import KLDivergenceFPI
from bfit.model import MolecularGaussianDensity
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
x = g.points
f = np.exp(-(x - 1)**2) + np.exp(-(x - 4)**2)
m = MolecularGaussianDensity(x, np.array([[1.0], [4.0]]), np.array([[2, 0], [1, 0]]))
fit = KLDivergenceFPI(g, f, m)
c, e = np.array([0.5, 0.4, 0.9]), np.array([0.8, 1.7, 1.1])
r = fit.run(c, e, opt_coeffs=False, maxiter=1)
mod = m.evaluate(c, e)
for k, cen in enumerate((1.0, 1.0, 4.0)):
    w = f / mod * np.exp(-e[k] * (x - cen)**2)
    assert np.isclose(r["exps"][k], 1.5 * np.trapz(w, x) / np.trapz(w * (x - cen)**2, x)), k
""")
bug("c13-sequential-update", "C13", "a fixed-point step that updates coefficients and exponents together",
    "exponents of functions whose coefficient is small are frozen at their old value",
    [(F, "            expons = self.model.prefactor * avrg1 / avrg2", "            expons = np.where(coeffs > 1e-8, self.model.prefactor * avrg1 / avrg2, expons)")], HEAD + """
from bfit.grid import UniformRadialGrid
from bfit.fit import KLDivergenceFPI
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
x = g.points
f = np.exp(-x**2)
m = AtomicGaussianDensity(x, num_s=2)
fit = KLDivergenceFPI(g, f, m)
c, e = np.array([1.0, 1e-10]), np.array([0.8, 1.7])
r = fit.run(c, e, maxiter=1)
w = f / m.evaluate(c, e)
for k in range(2):
    g_ = w * np.exp(-e[k] * x**2)
    assert np.isclose(r["exps"][k], 1.5 * np.trapz(g_, x) / np.trapz(g_ * x**2, x)), k
""")
bug("c14-signed-change", "C14", "coefficients that all decrease during the iteration",
    "decreasing coefficients count as converged",
    [(F, "            max_diff_coeffs = np.max(np.abs(new_cs - old_cs))", "            max_diff_coeffs = np.max(new_cs - old_cs)")], HEAD + """
from bfit.grid import UniformRadialGrid
from bfit.fit import KLDivergenceFPI
from bfit.model import AtomicGaussianDensity
g = UniformRadialGrid(200, 0.0, 6.0, dtype=float)
x = g.points
f = np.exp(-1.3 * x**2) + 0.3 * np.exp(-x)
m = AtomicGaussianDensity(x, num_s=1, normalize=True)
fit = KLDivergenceFPI(g, f, m)
# coefficient-only run: thresholds of zero must use up all iterations unless nothing changes any more
c, e = np.array([500.0]), np.array([1.0])
r = fit.run(c, e, opt_expons=False, maxiter=1, c_threshold=1e-3, d_threshold=1e-30)
c1 = r["coeffs"]
assert np.abs(c1 - c)[0] > 1e-3 and c1[0] < c[0]
r = fit.run(c, e, opt_expons=False, maxiter=3, c_threshold=1e-3, e_threshold=1e-3, d_threshold=1e-30)
assert len(r["fun"]) == 2, len(r["fun"])
""")
bug("c15-gradient-weights", "C15", "fits with weights that are not one",
    "the gradient of the objective ignores the fit weights",
    [(F, "self.integrate(self.weights * dk * dm[:, index])", "self.integrate(dk * dm[:, index])")], HEAD + """
from bfit.grid import UniformRadialGrid
from bfit.fit import ScipyFit
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference
g = UniformRadialGrid(50, 0.0, 3.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points, num_s=1, num_p=1)
fit = ScipyFit(g, f, m, measure=SquaredDifference(), weights=1 + g.points)
x = np.array([1.0, 0.4, 1.2, 0.8])
v, d = fit.func(x)
for k in range(4):
    h = np.zeros(4); h[k] = 1e-6
    assert np.isclose(d[k], (fit.func(x + h)[0] - fit.func(x - h)[0]) / 2e-6, atol=1e-6), k
""")
bug("c16-tolerance-name", "C16", "the trust-constr method with a caller-given tolerance",
    "the tolerance is passed as the gradient tolerance",
    [(F, '"xtol": tol,', '"gtol": tol,')], HEAD + """
import bfit.fit as fitmod
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference
seen = {}
real = fitmod.minimize
def fake(*a, **k):
    seen.update(k)
    return real(*a, **k)
fitmod.minimize = fake
g = UniformRadialGrid(20, 0.0, 3.0, dtype=float)
f = np.exp(-g.points)
fit = fitmod.ScipyFit(g, f, AtomicGaussianDensity(g.points), measure=SquaredDifference(), method="trust-constr")
fit.run(np.array([1.0]), np.array([1.0]), tol=1e-5, maxiter=3)
assert seen["options"].get("xtol") == 1e-5, seen["options"]
""")
bug("c16-start-clipped", "C16", "a starting parameter larger than 1e6",
    "large starting parameters are clipped before the optimisation",
    [(F, "        x0 = x0.astype(np.float64)\n", "        x0 = np.clip(x0.astype(np.float64), 1e-12, 1e6)\n")], HEAD + """
import bfit.fit as fitmod
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference
seen = {}
real = fitmod.minimize
def fake(*a, **k):
    seen.update(k)
    seen["args"] = a
    return real(*a, **k)
fitmod.minimize = fake
g = UniformRadialGrid(20, 0.0, 3.0, dtype=float)
f = np.exp(-g.points)
fit = fitmod.ScipyFit(g, f, AtomicGaussianDensity(g.points), measure=SquaredDifference())
fit.run(np.array([1.0]), np.array([3e7]), maxiter=2)
x0 = seen.get("x0", seen["args"][1] if len(seen["args"]) > 1 else None)
assert np.allclose(x0, [1.0, 3e7])
""")
bug("c17-failed-start", "C17", "an optimisation that fails",
    "parameters and objective of different points are reported after a failed optimisation",
    [(F, "            warnings.warn(f\"Failed Optimization: {res['message']}\")", "            warnings.warn(f\"Failed Optimization: {res['message']}\")\n            res['x'] = np.maximum(res['x'], x0)")], HEAD + """
import warnings
from bfit.fit import ScipyFit
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference
g = UniformRadialGrid(20, 0.0, 3.0, dtype=float)
f = np.exp(-g.points)
fit = ScipyFit(g, f, AtomicGaussianDensity(g.points), measure=SquaredDifference())
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    r = fit.run(np.array([5.0]), np.array([3.0]), maxiter=2, with_constraint=False)
assert not r["success"]
assert np.isclose(fit.func(np.concatenate((r["coeffs"], r["exps"])))[0], r["fun"], rtol=1e-10)
""")
bug("c17-performance-start", "C17", "an exponents-only optimisation",
    "the performance entry of exponents-only runs belongs to the starting exponents",
    [(F, "                   \"performance\": np.array(self.goodness_of_fit(coeffs, expons)),", "                   \"performance\": np.array(self.goodness_of_fit(coeffs, expons if opt_coeffs else e0)),")], HEAD + """
from bfit.fit import ScipyFit
from bfit.grid import UniformRadialGrid
from bfit.model import AtomicGaussianDensity
from bfit.measure import SquaredDifference
g = UniformRadialGrid(20, 0.0, 3.0, dtype=float)
f = np.exp(-g.points)
fit = ScipyFit(g, f, AtomicGaussianDensity(g.points), measure=SquaredDifference())
for oc, oe in ((True, True), (True, False), (False, True)):
    r = fit.run(np.array([1.5]), np.array([3.0]), opt_coeffs=oc, opt_expons=oe, with_constraint=False)
    assert np.allclose(r["performance"], fit.goodness_of_fit(r["coeffs"], r["exps"]))
""")

GAUSS = HEAD + """
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from bfit.grid import UniformRadialGrid, ClenshawRadialGrid, CubicGrid
from bfit.measure import *
from bfit.fit import KLDivergenceFPI, ScipyFit
from bfit.greedy import *
from bfit import greedy
"""
bug("c03-reuse-centre", "C03", "two centres with equal coordinates and different numbers of functions",
    "a centre with the same coordinates as an earlier one is given the radii of the last centre only once, so its model is the earlier one's",
    [(M, """            self.center.append(AtomicGaussianDensity(points, coords[i], b[0], b[1], normalize))
""", """            same = [k for k in range(i) if np.allclose(coords[k], coords[i], atol=1e-4)
                    and np.all(basis[k] == b)]
            if same:
                # same kind of center, use the model again
                self.center.append(self.center[same[0]])
            else:
                self.center.append(
                    AtomicGaussianDensity(points, coords[i], b[0], b[1], normalize))
""")], GAUSS + """
x = np.random.default_rng(1).random((7, 3))
co = np.array([[0.0, 0.1, 0.2], [0.0, 0.1, 0.20008]])
m = MolecularGaussianDensity(x, co, np.array([[1, 1], [1, 1]]))
c, e = np.array([1.5, 0.8, 2.0, 1.1]) * 1e3, np.array([0.7, 1.9, 0.3, 1.2])
ref = 0
for k in range(2):
    r = np.linalg.norm(x - co[k], axis=1)
    ref = ref + c[2*k] * np.exp(-e[2*k] * r**2) + c[2*k+1] * r**2 * np.exp(-e[2*k+1] * r**2)
assert np.allclose(m.evaluate(c, e), ref, rtol=1e-9)
""")
bug("c04-prefactor-grouped", "C04", "a molecular model with s- and p-type functions on more than one centre",
    "prefactors of a molecular model list all s-type functions first",
    [(M, "return np.concatenate([center.prefactor for center in self.center])",
      "return np.sort(np.concatenate([center.prefactor for center in self.center]))")], GAUSS + """
x = np.random.default_rng(1).random((7, 3))
m = MolecularGaussianDensity(x, np.array([[0.0, 0.1, 0.2], [0.5, 0.1, 0.3]]), np.array([[1, 1], [2, 1]]))
assert list(m.prefactor) == [1.5, 2.5, 1.5, 1.5, 2.5]
""")
bug("c05-negative-where-density", "C05", "a model that is negative only where the density is zero",
    "the penalty of a negative model is not applied when the density vanishes at the negative points",
    [(ME, "if np.any(model < 0.):", "if np.any(model[density > 0.] < 0.):")], GAUSS + """
v = KLDivergence().evaluate(np.array([1.0, 0.0, 2.0]), np.array([1.0, -0.5, 1.0]))
assert np.all(v == 100000.0), v
""")
bug("c07-sorted", "C07", "an integrand with negative values near the end of the grid",
    "the last interval contributes only if it is positive",
    [(G, "        return np.trapz(y=arr, x=self.points)", "        value = np.trapz(y=arr[:-1], x=self.points[:-1])\n"
      "        tail = 0.5 * (arr[-1] + arr[-2]) * (self.points[-1] - self.points[-2])\n"
      "        return value + max(tail, 0.0)")], GAUSS + """
g = UniformRadialGrid(11, 0.0, 2.0)
assert abs(g.integrate(-np.ones(11)) + 2.0) < 1e-12
""")
bug("c08-duplicate-extra", "C08", "an extra point that coincides with a node of the grid",
    "extra points equal to existing nodes are dropped",
    [(G, "        super().__init__(np.sort(points))", "        super().__init__(np.unique(points))")], GAUSS + """
g = ClenshawRadialGrid(10, 5, 5, extra_pts=[0.0, 1.0])
assert len(g) == 12, len(g)
""")
bug("c11-radii-of-centre", "C11", "a spherical fit with a model whose centre is not the origin",
    "spherical integration weights with the distance from the model's centre",
    [(F, "return self.grid.integrate(integrand * 4.0 * np.pi * self.grid.points**2.0)",
      "radii = self.grid.points if self.model.natoms > 1 else np.ravel(self.model.radii)\n"
      "            return self.grid.integrate(integrand * 4.0 * np.pi * radii**2.0)")], GAUSS + """
g = UniformRadialGrid(50, 0.0, 5.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points, center=np.array([0.4]), num_s=1)
fit = ScipyFit(g, f, m, measure=KLDivergence(), spherical=True)
assert abs(fit.integral_dens - g.integrate(4 * np.pi * g.points**2 * f)) < 1e-10
""")
bug("c12-measure-mask", "C12", "an optimiser fit with a Kullback-Leibler measure of its own mask value",
    "the Kullback-Leibler entry of the errors uses the mask of the objective",
    [(F, "        self.kl_error = KLDivergence(mask_value=mask_value)",
      "        self.kl_error = measure if isinstance(measure, KLDivergence) else KLDivergence(mask_value=mask_value)")], GAUSS + """
g = UniformRadialGrid(50, 0.0, 5.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points, num_s=1)
fit = ScipyFit(g, f, m, measure=KLDivergence(mask_value=0.2), mask_value=1e-18)
c, e = np.array([1.0]), np.array([1.0])
a = m.evaluate(c, e)
assert abs(fit.goodness_of_fit(c, e)[4] - g.integrate(f * np.log(f / a))) < 1e-10
""")
bug("c13-origin-radii", "C13", "a spherical fixed-point fit with a model whose centre is not the origin",
    "the exponent update averages the squared distance from the origin",
    [(F, "                    radii = np.ravel(self.model.radii)\n",
      "                    radii = self.grid.points if self.spherical else np.ravel(self.model.radii)\n")], GAUSS + """
g = UniformRadialGrid(200, 0.0, 8.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points, center=np.array([0.4]), num_s=1)
fit = KLDivergenceFPI(g, f, m, spherical=True)
c, e = np.array([1.0]), np.array([0.7])
r = fit.run(c, e, maxiter=1)
a, d = m.evaluate(c, e, deriv=True)
b = d[:, 0] * f / a * 4 * np.pi * g.points**2
assert abs(r["exps"][0] - 1.5 * g.integrate(b) / g.integrate(b * (g.points - 0.4)**2)) < 1e-10
""")
bug("c13-empty-function", "C13", "a basis function whose coefficient has become zero",
    "the exponent of a function with coefficient zero is kept instead of updated",
    [(F, "            expons = self.model.prefactor * avrg1 / avrg2",
      "            expons = np.where(coeffs > 0.0, self.model.prefactor * avrg1 / avrg2, expons)")], GAUSS + """
g = UniformRadialGrid(200, 0.0, 8.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points, num_s=2)
fit = KLDivergenceFPI(g, f, m, spherical=True)
c, e = np.array([1.0, 0.0]), np.array([0.7, 2.0])
r = fit.run(c, e, maxiter=1)
a, d = m.evaluate(c, e, deriv=True)
b = d[:, 1] * f / a * 4 * np.pi * g.points**2
assert abs(r["exps"][1] - 1.5 * g.integrate(b) / g.integrate(b * g.points**2)) < 1e-10
""")
bug("c14-best-parameters", "C14", "a run in which the divergence rises at the last step",
    "the returned parameters are those of the step with the smallest divergence",
    [(F, "            fun.append(performance[-1][-1])\n", "            fun.append(performance[-1][-1])\n"
      "            if fun[-1] <= min(fun):\n                best = new_cs, new_es\n"),
     (F, '        results = {"coeffs": new_cs,\n                   "exps" : new_es,', '        if fun:\n            new_cs, new_es = best\n'
      '        results = {"coeffs": new_cs,\n                   "exps" : new_es,')], GAUSS + """
g = UniformRadialGrid(5, 0.0, 3.0, dtype=float)
rng = np.random.default_rng(0)
n = 0
for t in range(300):
    f = rng.random(5) + 0.01
    m = AtomicGaussianDensity(g.points, num_s=2)
    fit = KLDivergenceFPI(g, f, m, spherical=False, integral_dens=float(g.integrate(f)) * 0.3)
    r = fit.run(rng.random(2) * 3 + .1, rng.random(2) * 3 + .1, maxiter=3, c_threshold=0, e_threshold=0, d_threshold=0)
    if not np.all(np.isfinite(r["performance"])):
        continue
    n += 1
    assert np.allclose(fit.goodness_of_fit(r["coeffs"], r["exps"]), r["performance"][-1], rtol=1e-9), t
assert n > 20
""")
bug("c15-zero-parameter", "C15", "a coefficient of exactly zero",
    "the gradient entry of a parameter that is exactly zero is not computed",
    [(F, "        for index in range(len(x)):\n            d_obj[index]", "        for index in np.flatnonzero(x):\n            d_obj[index]")], GAUSS + """
g = UniformRadialGrid(50, 0.0, 5.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points, num_s=2)
fit = ScipyFit(g, f, m, measure=SquaredDifference())
x = np.array([1.0, 0.0, 0.8, 1.3])
_, d = fit.func(x)
h = np.array([0, 1e-6, 0, 0])
assert abs(d[1] - (fit.func(x + h)[0] - fit.func(x - h)[0]) / 2e-6) < 1e-6
""")
bug("c17-unweighted-objective", "C17", "a weighted optimiser fit",
    "the reported objective leaves out the weights",
    [(F, '"fun": res["fun"],', '"fun": self.integrate(self.measure.evaluate(\n'
      '                       self.density, self.model.evaluate(coeffs, expons))),')], GAUSS + """
g = UniformRadialGrid(50, 0.0, 5.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points, num_s=1)
fit = ScipyFit(g, f, m, measure=SquaredDifference(), weights=np.linspace(1, 3, 50))
r = fit.run(np.array([1.0]), np.array([0.6]), with_constraint=False)
x = np.concatenate((r["coeffs"], r["exps"]))
assert abs(r["fun"] - fit.func(x)[0]) < 1e-9
""")
DENS = HEAD + """
from bfit.density import SlaterAtoms
"""
bug("c18-far-core", "C18", "subshells far below the highest one",
    "the core/valence weight is cut off for subshells more than 4.5 hartree below the highest one",
    [(D, "orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)",
      "orb_occs = orb_occs * np.exp(-np.minimum((self.orbitals_energy - orb_homo)**2, 20.0))")], DENS + """
a = SlaterAtoms("ag")
x = np.linspace(0.0, 1.0, 5)
w = np.exp(-(a.orbitals_energy - np.max(a.orbitals_energy))**2)
ref = (a.phi_matrix(x)**2).dot(a.orbitals_occupation * w).ravel() / 4 / np.pi
assert np.allclose(a.atomic_density(x, "valence"), ref, rtol=1e-9, atol=1e-12)
""")
bug("c18-diffuse-tail", "C18", "radii beyond 30 bohr",
    "orbitals are set to zero beyond 30 bohr",
    [(D, "            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()",
      "            phi_matrix[:, index] = np.dot(slater, self.orbitals_coeff[orbital]).ravel()\n"
      "        phi_matrix[points > 30.0, :] = 0.0")], DENS + """
a = SlaterAtoms("cs")
assert np.all(a.atomic_density(np.array([31.0, 35.0])) > 0)
""")
bug("c19-kinetic-near-nucleus", "C19", "radii between 1e-10 and 1e-6",
    "the angular part of the kinetic energy density is dropped close to the nucleus",
    [(D, "gradient_sph[np.abs(points) < 1e-10] = 0.0", "gradient_sph[np.abs(points) < 1e-6] = 0.0")], DENS + """
a = SlaterAtoms("ne")
x = np.array([1e-7, 2e-6])
k = a.positive_definite_kinetic_energy(x)
assert abs(k[0] / k[1] - 1) < 1e-3, k
""")
bug("c20-underflow-guard", "C20", "exponent times radius above 60",
    "Slater functions stop decaying when the exponent times the radius exceeds 60",
    [(D, "slater = norm.T * pref * np.exp(-exponent * points).T", "slater = norm.T * pref * np.exp(-np.minimum(exponent * points, 60.0)).T")], DENS + """
e, n, x = np.array([[50.0]]), np.array([[1]]), np.array([1.0, 2.0])
assert np.allclose(SlaterAtoms.radial_slater_orbital(e, n, x)[:, 0], 2 * 50.0**1.5 * np.exp(-50.0 * x), rtol=1e-10, atol=0)
""")
bug("c20-derivative-one-s", "C20", "the derivative at the nucleus of a function with principal number above one",
    "the derivative is taken as zero also at small radii",
    [(D, "deriv_pref[np.abs(points) < 1e-10, :] = 0.0", "deriv_pref[np.abs(points) < 1e-4, :] = 0.0")], DENS + """
e, n, x = np.array([[2.0]]), np.array([[1]]), np.array([5e-5])
s = SlaterAtoms.radial_slater_orbital(e, n, x)
assert np.allclose(SlaterAtoms.derivative_radial_slater_type_orbital(e, n, x), -2.0 * s)
""")
ARCHIVE = HEAD + """
import os, shutil, sys, tarfile, tempfile, subprocess
d = tempfile.mkdtemp()
try:
    shutil.copytree("bfit", d + "/bfit", ignore=shutil.ignore_patterns("__pycache__"))
    for t in os.listdir(d + "/bfit/data"):
        if t.endswith(".tar"):
            with tarfile.open(d + "/bfit/data/" + t) as f:
                names = f.getnames()
                f.extractall(d + "/tar")
    for base, _, files in os.walk(d + "/tar"):
        for f in files:
            k = {".slater": "neutral", ".an": "anion", ".cat": "cation"}.get(os.path.splitext(f)[1])
            if k and not os.path.exists(f"{d}/bfit/data/{k}/{f}"):
                shutil.copy(base + "/" + f, f"{d}/bfit/data/{k}/{f}")
    p = subprocess.run([sys.executable, "-c", PROG], cwd=d, env=dict(os.environ, PYTHONPATH=d))
finally:
    shutil.rmtree(d)
sys.exit(p.returncode)
"""


def archive(prog):
    return ARCHIVE.replace("PROG", repr(prog))


bug("c21-missing-anion", "C21", "the anion of scandium",
    "an anion with a data set is rejected",
    [(S, '"rh", "ru", "s", "sb", "sc", "se", "si", "sn", "tc", "te",\n                   "ti", "v"', '"rh", "ru", "s", "sb", "se", "si", "sn", "tc", "te",\n                   "ti", "v"')], archive("""
from bfit._slater import load_slater_wfn
assert abs(load_slater_wfn("sc", anion=True)["energy"]) > 1
"""))
bug("c21-cation-case", "C21", "the cation of an element given in capital letters",
    "the cation file is looked up with the caller's capitalisation",
    [(S, 'file_path = f"/data/cation/{element.lower()}.cat"', 'file_path = f"/data/cation/{element}.cat"')], HEAD + """
from bfit._slater import load_slater_wfn
assert load_slater_wfn("XE", cation=True)["energy"] == load_slater_wfn("xe", cation=True)["energy"]
""")
bug("c21-heavy-case", "C21", "a heavy element given in capital letters",
    "heavy elements are recognised in lower case only",
    [(S, "is_heavy_element = element.lower() in heavy_atoms", "is_heavy_element = element in heavy_atoms")], HEAD + """
from bfit._slater import load_slater_wfn
assert load_slater_wfn("Rn")["energy"] == load_slater_wfn("rn")["energy"]
""")
bug("c21-heavy-entry", "C21", "the element ytterbium",
    "one heavy element is read in the layout of the light ones",
    [(S, '"er", "tm", "yb", "lu"', '"er", "tm", "lu"')], archive("""
from bfit._slater import load_slater_wfn
assert load_slater_wfn("yb")["orbitals_occupation"].sum() == 70
"""))
bug("c22-xenon-core", "C22", "elements beyond radon",
    "the radon core lacks the 5d electrons",
    [(S, 'true_configuration += "4F(14)6S(2)5D(10)6P(6)"', 'true_configuration += "4F(14)6S(2)5D(10)6P(6)" if "5F" in configuration else "4F(14)6S(2)5D(9)6P(6)"')], archive("""
from bfit._slater import load_slater_wfn
for e, z in (("fr", 87), ("ra", 88), ("ac", 89), ("th", 90), ("lr", 103)):
    assert load_slater_wfn(e)["orbitals_occupation"].sum() == z, e
"""))
bug("c23-prefix-match", "C23", "an element whose symbol is the beginning of another one",
    "the exponents of elements with the same first letters are returned as well",
    [(U, "if len(split_words) > 0 and split_words[0].lower() == element.lower():", "if len(split_words) > 1 and len(split_words[1]) == 1 and split_words[0].lower().startswith(element.lower()):")], HEAD + """
from bfit.parse_ugbs import get_ugbs_exponents
n = {e: len(get_ugbs_exponents(e)["S"]) for e in ("c", "ca", "h", "he")}
assert n["c"] < 40 and n["h"] < 40, n
""")
bug("c23-shared-output", "C23", "a second lookup",
    "exponents of earlier lookups are kept",
    [(U, """    output = {"S" : [], "P" : [], "D" : [], "F" : []}
""", """    output = _OUTPUT.setdefault(element, {"S" : [], "P" : [], "D" : [], "F" : []})
"""), (U, '''def get_ugbs_exponents(element):
''', '''_OUTPUT = {}


def get_ugbs_exponents(element):
''')], HEAD + """
from bfit.parse_ugbs import get_ugbs_exponents
a = {k: list(v) for k, v in get_ugbs_exponents("c").items()}
assert get_ugbs_exponents("c") == a
""")
bug("c24-fill-value", "C24", "two new functions with a fill value other than 100",
    "the second inserted coefficient is always 100",
    [(GR, "        coeff2, exp2 = _get_next_possible_coeffs_and_exps2(factor, coeff_arr, fparam_arr, coeff_val)\n",
      "        coeff2, exp2 = _get_next_possible_coeffs_and_exps2(factor, coeff_arr, fparam_arr,\n"
      "                                                           coeff_val or 0.0)\n        if coeff_val > 1e3:\n"
      "            coeff2 = [np.minimum(x, coeff_val / 2) for x in coeff2]\n")], GAUSS + """
r = greedy.get_two_next_choices(2.0, np.array([1.0, 2.0]), np.array([3.0, 4.0]), coeff_val=5000.0)
assert all(list(x[:4]).count(5000.0) == 2 for x in r)
""")
bug("c25-wrong-source", "C25", "three or more functions merged into one",
    "only the first of several redundant functions is added to the survivor",
    [(GR, "        for i in range(1, len(group_similar_items)):\n", "        for i in range(1, min(len(group_similar_items), 4)):\n")], GAUSS + """
c, e = greedy.remove_redundancies(np.array([1.0, 2.0, 3.0, 4.0, 5.0]), np.array([1.0, 1.0, 1.0, 1.0, 1.0]))
assert np.allclose(c.sum(), 15.0)
""")
bug("c28-cached-gaussians", "C28", "a second evaluation with other exponents of the same sum",
    "the model keeps the Gaussians of the previous evaluation",
    [(M, """        matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])

        # compute linear combination of Gaussian basis
""", """        key = (len(expons), float(np.sum(expons)), float(np.prod(expons)))
        if getattr(self, "_key", None) != key:
            self._matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])
            self._key = key
        matrix = self._matrix

        # compute linear combination of Gaussian basis
""")], GAUSS + """
x = np.linspace(0.1, 3, 9)
m = AtomicGaussianDensity(x, num_s=2)
c = np.array([1.0, 2.0])
m.evaluate(c, np.array([0.5, 2.0]))
assert np.allclose(m.evaluate(c, np.array([2.0, 0.5])), np.exp(-2 * x**2) + 2 * np.exp(-0.5 * x**2))
""")
bug("c29-exponent-shape", "C29", "exponents of the wrong shape with coefficients of the right one",
    "the shape of the initial exponents is not checked",
    [(F, "        if e0.shape != (self.model.nbasis,):", "        if e0.shape != c0.shape and e0.ndim != 2:")], GAUSS + """
g = UniformRadialGrid(20, 0.0, 5.0, dtype=float)
fit = KLDivergenceFPI(g, np.exp(-g.points), AtomicGaussianDensity(g.points, num_s=2), spherical=True)
try:
    fit.run(np.ones(2), np.ones((2, 1)), maxiter=0)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("c30-local-threshold", "C30", "a fixed-point greedy fit with its own local objective threshold",
    "candidates are screened with the global objective threshold",
    [(GR, "e_threshold=self.l_threshold_exp, d_threshold=self.l_threshold_obj,", "e_threshold=self.l_threshold_exp, d_threshold=self.g_threshold_obj,")], GAUSS + """
g = UniformRadialGrid(20, 0.0, 5.0, dtype=float)
s = GreedyKLFPI(g, np.exp(-g.points), spherical=True, l_eps_obj=0.5)
seen = {}
s.fitting_obj.run = lambda c, e, **k: (seen.update(k), dict(coeffs=c, exps=e))[1]
s.get_optimization_routine(np.array([1.0, 1.0]), local=True)
assert seen["d_threshold"] == 0.5
""")
bug("c30-target-integral", "C30", "a least-squares greedy fit with a target integral",
    "the target integral is ignored unless the constraint is requested",
    [(GR, "                                integral_dens=integral_dens, spherical=spherical)\n        super().__init__(gaussian_obj, choice)",
      "                                integral_dens=integral_dens if with_constraint else None,\n                                spherical=spherical)\n        super().__init__(gaussian_obj, choice)")], GAUSS + """
g = UniformRadialGrid(20, 0.0, 5.0, dtype=float)
s = GreedyLeastSquares(g, np.exp(-g.points), integral_dens=7.0, spherical=True)
assert s.integral_dens == 7.0
""")
bug("c36-third-start", "C36", "a density for which the start weighted with the squared density is best",
    "the start weighted with the squared density is not considered",
    [(GR, "[(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]", "[(cost_func1, p1), (cost_func2, p2), (cost_func3, p2)], key=lambda t: t[0]")], GAUSS + """
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
f = 5 * np.exp(-3 * g.points**2) + 0.1 * np.exp(-g.points)
s = GreedyLeastSquares(g, f, spherical=False)
c = [s.eval_obj_function(s._solve_one_function_weight(w)) for w in (np.ones(60), f, f**2)]
assert int(np.argmin(c)) == 2
assert abs(s.eval_obj_function(s.get_best_one_function_solution()) - min(c)) < 1e-12
""")
bug("c36-target", "C36", "a fixed-point greedy fit with a target integral other than the density's",
    "the starting Gaussian carries the integral of the density, not the target",
    [(GR, "        return np.array([self.integral_dens, exps])", "        return np.array([self.fitting_obj.integrate(self.density), exps])")], GAUSS + """
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
s = GreedyKLFPI(g, np.exp(-g.points), spherical=True, integral_dens=7.0)
assert s.get_best_one_function_solution()[0] == 7.0
""")
GREEDY = GAUSS + "from bfit.greedy import GreedyStrategy, get_next_choices, get_two_next_choices, pick_two_lose_one, remove_redundancies\n"
bug("c26-rollback-count", "C26", "a pick-two search that is rolled back",
    "a rolled back pick-two step is counted as one function",
    [(GR, "                numb_funcs -= self.numb_func_increase\n", "                numb_funcs -= 1\n")], GREEDY + """
class G(GreedyStrategy):
    def get_best_one_function_solution(self):
        return np.array([1.0, 1.0])
    def get_optimization_routine(self, params, local=False):
        c = np.array(params, dtype=float)
        if not local:
            c[len(c) // 2:] = 1.0
        return c
g = UniformRadialGrid(20, 0.0, 5.0, dtype=float)
f = np.exp(-g.points)
s = G(ScipyFit(g, f, AtomicGaussianDensity(g.points), measure=SquaredDifference()), "pick-two")
r = s.run(2.0, max_numb_funcs=4)
assert "Did Not Find" in r["exit_information"], r["exit_information"]
assert len(r["coeffs"]) == 1
""")
bug("c27-fun-of-last-trial", "C27", "a greedy run whose last step is rolled back",
    "the reported objective is the one of the rejected step",
    [(GR, "        obj_func = self.eval_obj_function(params_iter[-1])\n", "        obj_func = opt_lvalue if numb_redum == 5 else self.eval_obj_function(params_iter[-1])\n")], GREEDY + """
class G(GreedyStrategy):
    def get_best_one_function_solution(self):
        return np.array([1.0, 1.0])
    def get_optimization_routine(self, params, local=False):
        c = np.array(params, dtype=float)
        c[len(c) // 2:] = 5.0
        return c
g = UniformRadialGrid(20, 0.0, 5.0, dtype=float)
f = 1.01 * np.exp(-1.05 * g.points**2)
s = G(ScipyFit(g, f, AtomicGaussianDensity(g.points), measure=SquaredDifference()))
r = s.run(2.0)
m = AtomicGaussianDensity(g.points, num_s=r["num_s"], num_p=r["num_p"])
assert abs(r["fun"] - g.integrate((f - m.evaluate(r["coeffs"], r["exps"]))**2)) < 1e-12
""")
bug("c27-record-of-rejected", "C27", "a greedy run with a rolled back step",
    "rejected steps are recorded in the performance list",
    [(GR, """            # Check if redundancies were found in the coefficients and exponents, remove them,
""", """            if numb_redum > 3:
                self.store_errors(opt_lparam)
            # Check if redundancies were found in the coefficients and exponents, remove them,
""")], GREEDY + """
class G(GreedyStrategy):
    def get_best_one_function_solution(self):
        return np.array([1.0, 1.0])
    def get_optimization_routine(self, params, local=False):
        c = np.array(params, dtype=float)
        c[len(c) // 2:] = 5.0
        return c
g = UniformRadialGrid(20, 0.0, 5.0, dtype=float)
f = np.exp(-g.points)
s = G(ScipyFit(g, f, AtomicGaussianDensity(g.points), measure=SquaredDifference()))
r = s.run(2.0)
assert len(r["performance"]) == len(r["parameters_iteration"]) == 1
""")
bug("c27-last-candidate", "C27", "an iteration in which the last candidate is the best",
    "the last candidate is optimised but never chosen",
    [(GR, "                best_local_value = self.eval_obj_function(local_param)\n                best_local_param = local_param\n",
      "                if best_local_param is not None and i == num_s_choices + num_p_choices - 1 and i > 4:\n                    continue\n                best_local_value = self.eval_obj_function(local_param)\n                best_local_param = local_param\n")], GREEDY + """
class G(GreedyStrategy):
    def get_best_one_function_solution(self):
        return np.array([1.0, 1.0])
    def get_optimization_routine(self, params, local=False):
        return np.array(params, dtype=float)
    def eval_obj_function(self, params):
        return params[0]
g = UniformRadialGrid(20, 0.0, 5.0, dtype=float)
f = np.exp(-g.points)
s = G(ScipyFit(g, f, AtomicGaussianDensity(g.points), measure=SquaredDifference()))
p = [np.array([9.0 - i, 1.0, 1.0, 2.0]) for i in range(6)]
v, q, is_s = s._find_best_lparams(p, 3, 3)
assert v == 4.0 and q[0] == 4.0 and not is_s
""")
bug("c05-order-two", "C05", "the Tsallis divergence of order two",
    "the integrand of order two is replaced by the chi-square distance, which only has the same integral for equal norms",
    [(ME, "        integrand = value / (self.alpha - 1.0)\n",
      "        integrand = value / (self.alpha - 1.0)\n        if self.alpha == 2.0:\n            integrand = np.where(ratio == 0.0, integrand, (density - model) * (ratio - 1.0))\n")], GAUSS + """
f, g = np.array([1.0, 2.0]), np.array([0.5, 3.0])
assert np.allclose(TsallisDivergence(alpha=2.0).evaluate(f, g), f * (f / g - 1.0))
""")
bug("c13-cached-prefactor", "C13", "a change of the function counts after the fit was made",
    "the prefactors are those of the model at the time the fit was made",
    [(F, "        # compute lagrange multiplier\n", "        self._prefactor = getattr(model, 'prefactor', None)\n        # compute lagrange multiplier\n"),
     (F, "            expons = self.model.prefactor * avrg1 / avrg2\n", "            expons = self._prefactor * avrg1 / avrg2\n")], GAUSS + """
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
f = np.exp(-g.points)
m = AtomicGaussianDensity(g.points, num_s=1)
s = KLDivergenceFPI(g, f, m)
m.change_numb_s_and_numb_p(1, 1)
c, e = np.array([1.0, 2.0]), np.array([1.0, 0.5])
v, d = m.evaluate(c, e, deriv=True)
want = [p * g.integrate(f / v * d[:, i]) / g.integrate(f / v * d[:, i] * g.points**2) for i, p in enumerate((1.5, 2.5))]
assert np.allclose(s._update_params(c, e, False, True)[1], want)
""")
bug("c15-cache-key", "C15", "the objective evaluated at the same vector as coefficients and as exponents",
    "the last model evaluation is reused for the same vector although another group is fixed",
    [(F, "        # compute linear combination of gaussian basis functions\n        m, dm = self.evaluate_model(x, *args)\n",
      "        # compute linear combination of gaussian basis functions\n        key = (tuple(x), args[:1])\n        if getattr(self, '_last_key', None) != key:\n            self._last_key, self._last_model = key, self.evaluate_model(x, *args)\n        m, dm = self._last_model\n")], GAUSS + """
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
f = np.exp(-g.points)
s = ScipyFit(g, f, AtomicGaussianDensity(g.points, num_s=2), measure=SquaredDifference())
x, c, d = np.array([1.0, 2.0]), np.array([3.0, 4.0]), np.array([5.0, 6.0])
a = s.func(x, "fixed_coeffs", c)[0]
b = s.func(x, "fixed_coeffs", d)[0]
assert abs(b - g.integrate((f - s.model.evaluate(d, x))**2)) < 1e-12
""")
bug("c16-upper-bound", "C16", "the exponents alone are optimised and the best exponent is very large",
    "exponents are bounded from above when they are optimised alone",
    [(F, "            bounds = [(1.e-12, np.inf)] * self.model.nbasis\n            x0 = e0\n", "            bounds = [(1.e-12, 1.e6)] * self.model.nbasis\n            x0 = e0\n")], GAUSS + """
from bfit import fit
seen = []
def fake(**k):
    seen.append(k["bounds"])
    raise KeyboardInterrupt
fit.minimize = fake
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
s = ScipyFit(g, np.exp(-g.points), AtomicGaussianDensity(g.points, num_s=2))
try:
    s.run(np.ones(2), np.ones(2), opt_coeffs=False)
except KeyboardInterrupt:
    pass
assert all(b[1] in (None, np.inf) for b in seen[0])
""")
bug("c16-constraint-verbosity", "C16", "trust-constr with progress printed",
    "the constraint is dropped when progress is printed",
    [(F, "            elif self.method == \"trust-constr\":\n                constraints = [NonlinearConstraint(", "            elif self.method == \"trust-constr\" and not (disp and opt_coeffs and not opt_expons):\n                constraints = [NonlinearConstraint(")], GAUSS + """
from bfit import fit
seen = []
def fake(**k):
    seen.append(k["constraints"])
    raise KeyboardInterrupt
fit.minimize = fake
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
s = ScipyFit(g, np.exp(-g.points), AtomicGaussianDensity(g.points, num_s=2), method="trust-constr")
for disp in (False, True):
    try:
        s.run(np.ones(2), np.ones(2), opt_expons=False, disp=disp)
    except KeyboardInterrupt:
        pass
assert len(seen[0]) == len(seen[1]) == 1
""")
bug("c22-shell-and-explicit", "C22", "a configuration with a closed shell written first and one of its subshells again",
    "subshells of closed shells keep the full occupation although they are written explicitly",
    [(S, "                    out[orbital] = int(electron_config_list[index + 3: index + 4])\n",
      "                    out[orbital] = out[orbital] or int(electron_config_list[index + 3: index + 4])\n")], archive("""
import os, glob, shutil, tempfile
from bfit import _slater
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/data/neutral")
    t = open("bfit/data/neutral/na.slater").read()
    head, rest = t.split("\\n", 1)
    assert "K(2)L(8)3S(1)" in head, head
    open(d + "/data/neutral/na.slater", "w").write(head.replace("K(2)L(8)3S(1)", "K(2)L(8)2S(1)3S(1)") + "\\n" + rest)
    _slater.__file__ = d + "/_slater.py"
    w = _slater.load_slater_wfn("na")
    assert w["orbitals_occupation"].ravel().tolist() == [2, 1, 1, 6], w["orbitals_occupation"].ravel()
finally:
    shutil.rmtree(d)
"""))
bug("c30-mask-value", "C30", "a fixed-point greedy fit with its own mask value",
    "the mask value is not forwarded",
    [(GR, "        fpi_obj = KLDivergenceFPI(grid, density, model, mask_value, integral_dens, spherical)\n",
      "        fpi_obj = KLDivergenceFPI(\n            grid, density, model, integral_dens=integral_dens, spherical=spherical\n        )\n")], GAUSS + """
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
s = GreedyKLFPI(g, np.exp(-g.points), mask_value=1e-4)
assert s.measure.mask_value == 1e-4
""")
bug("c35-wide-blocks", "C35", "an orbital whose column is past the sixth",
    "coefficients are read from the sixth column at most",
    [(S, "                        orbitals_coeff[x] += [float(list_words[_get_column(x)])]\n", "                        orbitals_coeff[x] += [float(list_words[min(_get_column(x), len(list_words) - 1, 7)])]\n")], archive("""
from bfit._slater import load_slater_wfn
w = load_slater_wfn("rn")
v = load_slater_wfn("fr")
assert not (v["orbitals_coeff"]["7S"] == v["orbitals_coeff"]["6S"]).all()
"""))
bug("c25-sorted-groups", "C25", "exponents that are not sorted and a close pair that is not neighbouring",
    "only neighbouring exponents are merged",
    [(GR, "        for j in range(i + 1, len(fparams)):\n", "        for j in range(i + 1, min(i + 5, len(fparams))):\n")], GREEDY + """
e = np.array([1.0, 2.0, 3.0, 4.0, 5.0, 1.0001])
c, n = remove_redundancies(np.ones(6), e)
assert len(n) == 5 and abs(c.sum() - 6) < 1e-12
""")
bug("c29-late-grid-check", "C29", "a grid without an integrate method", "an attribute that is no method is accepted",
    [(F, "        if not (hasattr(self.grid, 'integrate') and callable(getattr(self.grid, 'integrate'))):\n", "        if not hasattr(self.grid, 'integrate'):\n")], GAUSS + """
class G:
    points = np.linspace(0, 1, 4)
    integrate = None
try:
    ScipyFit(G, np.ones(4), AtomicGaussianDensity(G.points), integral_dens=1.0)
except AttributeError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("c10-thick-molecule", "C10", "a molecule whose extent along an axis is a whole number of spacings",
    "the number of points along each axis is rounded instead of rounded up",
    [(L, "        shape = np.ceil(shape)\n", "        shape = np.rint(shape)\n")] if False else
    [("bfit/grid.py", "        shape = np.ceil(shape)\n", "        shape = np.rint(shape)\n")], GAUSS + """
z, x = np.array([1, 8]), np.array([[0.0, 0.0, 0.0], [0.0, 0.0, 1.07]])
g = CubicGrid.from_molecule(z, x, spacing=0.25, extension=1.0, rotate=False)
assert (g.points.max(axis=0) + 0.25 >= x.max(axis=0) + 1.0 - 1e-9).all() and (g.points.min(axis=0) - 1e-9 <= x.min(axis=0) - 1.0).all()
""")
bug("c12-integral-of-clipped", "C12", "a model with negative values", "the first entry integrates only the positive part of the model",
    [(F, "            self.integrate(approx),\n", "            self.integrate(np.maximum(approx, 0.)),\n")], GAUSS + """
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
s = ScipyFit(g, np.exp(-g.points), AtomicGaussianDensity(g.points, num_s=2))
c, e = np.array([1.0, -2.0]), np.array([1.0, 0.5])
assert abs(s.goodness_of_fit(c, e)[0] - g.integrate(s.model.evaluate(c, e))) < 1e-12
""")
bug("c17-fixed-rounded", "C17", "the coefficients alone are optimised and a fixed exponent is below the bound",
    "fixed exponents are clipped to the bound before they are returned",
    [(F, "            coeffs, expons = res[\"x\"], e0\n", "            coeffs, expons = res[\"x\"], np.maximum(e0, 1.e-3)\n")], GAUSS + """
g = UniformRadialGrid(60, 0.0, 6.0, dtype=float)
s = ScipyFit(g, np.exp(-g.points), AtomicGaussianDensity(g.points, num_s=2))
r = s.run(np.ones(2), np.array([1.0, 1e-4]), opt_expons=False, maxiter=3)
assert r["exps"].tolist() == [1.0, 1e-4]
""")

bug("c02-parameter-type", "C02", "coefficients given as whole numbers",
    "the derivative matrix has the type of the coefficients, so the derivatives for whole coefficients are truncated",
    [(M, """        g = np.dot(matrix, coeffs)

        # compute derivatives
        if deriv:
            dg = np.zeros((len(self.radii), 2 * coeffs.size))
""", """        g = np.dot(matrix, coeffs)

        # compute derivatives
        if deriv:
            dg = np.zeros((len(self.radii), 2 * coeffs.size), dtype=coeffs.dtype)
""")], GAUSS + """
x = np.linspace(0.0, 2.0, 7)
m = AtomicGaussianDensity(x)
g, d = m.evaluate(np.array([2]), np.array([0.7]), deriv=True)
assert np.allclose(d[:, 0], np.exp(-0.7 * x**2))
""")
bug("c02-far-points", "C02", "a normalised p-type model and a point further than 20 from the centre",
    "the derivative with respect to the exponents is taken as zero far from the centre",
    [(M, "            dg[:, coeffs.size:] += 5 * matrix * (coeffs * expons**1.5)[None, :] / (3 * np.pi**1.5)\n",
      "            dg[:, coeffs.size:] += 5 * matrix * (coeffs * expons**1.5)[None, :] / (3 * np.pi**1.5)\n            dg[self.radii > 20., coeffs.size:] = 0.\n")], GAUSS + """
x = np.array([1.0, 30.0])
m = AtomicGaussianDensity(x, num_s=0, num_p=1, normalize=True)
a = np.array([0.002])
g, d = m.evaluate(np.array([2.0]), a, deriv=True)
v = 2.0 * 2 * a**2.5 / 3 / np.pi**1.5 * x**2 * np.exp(-a * x**2)
assert np.allclose(d[:, 1], v * (2.5 / a - x**2), rtol=1e-10, atol=0)
""")
bug("c06-tsallis-masked", "C06", "the Tsallis divergence of order below one at a masked point", "the derivative at masked points is one",
    [(ME, "            return integrand, -np.power(ratio, self.alpha)\n", "            return integrand, -np.power(ratio, self.alpha - 1.0) * ratio if self.alpha > 1.0 else -np.power(ratio, self.alpha) - (ratio == 0.0)\n")], GAUSS + """
f, g = np.array([1.0, 3.0]), np.array([0.5, 0.0])
assert np.allclose(TsallisDivergence(alpha=0.5).evaluate(f, g, deriv=True)[1], [-2.0**0.5, 0.0])
""")
bug("c29-lengths", "C29", "coefficients and exponents of different lengths", "only the coefficients of a molecular model are checked",
    [(M, "        if coeffs.size != self.nbasis or expons.size != self.nbasis:\n", "        if coeffs.size != self.nbasis or expons.size < self.nbasis:\n")], GAUSS + """
x = np.linspace(0.0, 1.0, 5)
m = MolecularGaussianDensity(x, np.array([[0.0], [1.0]]), np.array([[1, 0], [1, 0]]))
try:
    m.evaluate(np.ones(2), np.ones(3))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")
bug("c09-integer-origin", "C09", "an origin with whole coordinates", "the points take the type of the origin",
    [("bfit/grid.py", "        self._points = np.array(points)\n", "        self._points = np.array(points, dtype=origin.dtype)\n")], GAUSS + """
g = CubicGrid(np.array([0, 0, 0]), 0.5 * np.eye(3), (2, 2, 2))
assert np.allclose(g.points[-1], 0.5)
""")
