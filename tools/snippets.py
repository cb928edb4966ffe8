"""Small programs on which the analyser is compared with Python (tools/selftest.py)."""
import itertools
import functools
import operator
import math
from collections import namedtuple, defaultdict, Counter, deque, OrderedDict
from dataclasses import dataclass, field
import re
import warnings
import contextlib
import numpy as np


def _gen(n):
    for i in range(n):
        if i == 2:
            continue
        yield i * i
    yield from (7, 8)


def t_generators():
    it = _gen(4)
    out = [next(it)]
    for x in it:
        if x == 7:
            break
        out.append(x)
    out.append(next(it))
    out.append(sum(_gen(3)))
    h = (x + 1 for x in range(3))
    out += [next(h), next(h), next(h, 9), next(h, 9)]
    for k, v in enumerate(_gen(2)):
        out.append(k + v)
    return out


def t_iter():
    it = iter([1, 2, 3, 4])
    first = next(it)
    rest = [x * 2 for x in it]
    pairs = iter(range(6))
    return first, rest, list(zip(pairs, pairs)), next(pairs, None)


def t_slices():
    x = np.arange(10)
    return x[2:5], x[::-1], x[::2], x[-3:], x[:-3], x[slice(None, 4)], x[[1, 3, 5]], x[x > 6], x[np.flatnonzero(x < 2)]


def t_masks():
    x = np.array([3., 1., 2., 5.])
    y = np.zeros(4)
    m = x > 1.5
    y[m] = x[m] * 2
    z = np.where(m, x, -x)
    w = x.copy()
    w[~m] = 0
    w[[0, 1]] += 1
    return y, z, w, m.sum(), np.any(m), np.all(m), np.count_nonzero(m), x[m].sum(), np.argmax(x), np.argmin(x), np.argsort(x)


def t_matrix_masks():
    a = np.arange(12.).reshape(4, 3)
    keep = np.array([True, False, True, True])
    b = a.copy()
    b[keep, 1] += 100
    b[~keep] = -1
    c = a[keep]
    d = a[:, [0, 2]]
    a[0] = 9
    return b, c, d, a[keep, 2], a[a > 8]


def t_split():
    x = np.arange(8)
    a, b = np.split(x, 2)
    c = np.split(x, [3, 5])
    d = np.arange(12).reshape(3, 4)
    return a, b, c, np.hsplit(d, 2), np.vsplit(d, 3), np.array_split(x, 3)


def t_views():
    x = np.arange(6.)
    y = x[:3]
    y[:] = 5
    z = x[[0, 1]]
    z[:] = 1
    r = x.reshape(2, 3)
    r[1, 1] = -1
    t = r.T
    t[0, 0] = 77
    q = np.ravel(x)
    q[2] = 33
    f = x.flatten()
    f[0] = 0
    c = x[1:4].copy()
    c *= 0
    return x, r, t


def t_stack():
    a, b = np.array([1., 2.]), np.array([3., 4.])
    return (np.hstack((a, b)), np.vstack((a, b)), np.column_stack((a, b)), np.stack((a, b), axis=1), np.concatenate([a, b]), np.append(a, 5),
            np.insert(a, 1, 9), np.delete(b, 0), np.tile(a, 2), np.repeat(a, 2), np.r_[a, 5, b], np.c_[a, b], np.dstack((a, b)).shape,
            np.block([[a, b]]), np.outer(a, b), np.dot(a, b), a @ b, np.kron(a, b), np.full_like(a, 2.), np.array([a, b]).T)


def t_reduce():
    a = np.arange(6.).reshape(2, 3) + 1
    return (a.sum(), a.sum(axis=0), a.sum(axis=1, keepdims=True), a.mean(axis=1), a.max(), a.min(axis=0), np.prod(a), np.cumsum(a[0]), np.cumprod(a[0]),
            np.diff(a[0]), np.linalg.norm(a), np.linalg.norm(a, axis=1), np.trapz(a[0], a[1]), np.einsum("ij->i", a), np.einsum("ij,ij->i", a, a),
            np.einsum("ij,j->i", a, a[0]), np.tensordot(a, a, axes=2), np.average(a[0], weights=a[1]), np.ptp(a), np.median(a[0]), np.var(a[0]),
            np.std(a[0]), np.inner(a, a), np.vdot(a, a), np.trace(a[:, :2]), np.amax(a), np.nansum(a), a.dot(a.T), np.add.reduce(a), np.multiply.outer(a[0], a[1]))


def t_elementwise():
    x = np.array([0.5, 1.5, -2.])
    return (np.exp(x), np.log(np.abs(x)), np.sqrt(np.abs(x)), np.power(x, 2), x ** 3, np.square(x), np.sign(x), np.clip(x, -1, 1), np.maximum(x, 0),
            np.minimum(x, 0), np.floor(x), np.ceil(x), np.abs(x), np.cos(x), np.sin(x), np.isclose(x, 0.5), np.isnan(x), np.isfinite(x), np.reciprocal(x),
            np.negative(x), np.heaviside(x, 0.5), np.expm1(x), np.log1p(np.abs(x)), np.log2(np.abs(x)), np.log10(np.abs(x)), np.hypot(x, x), np.mod(x, 1),
            np.floor_divide(x, 1), np.tanh(x), np.rint(x), np.trunc(x), np.logical_and(x > 0, x < 1), np.where(x > 0)[0], np.nan_to_num(x), np.fmax(x, 0),
            np.exp2(x), np.arctan2(x, 1.), np.deg2rad(x), np.cbrt(x), np.copysign(1., x), np.divide(1., x, where=x > 0, out=np.zeros(3)))


def t_special():
    x = np.array([0., np.inf, np.nan, -1.])
    with np.errstate(all="ignore"):
        return (np.exp(-x[1]), np.log(x[0]), x[0] * x[1], 1 / x[0], x[3] / x[0], x[1] - x[1], np.isnan(x), np.isinf(x), np.nanmax(x), np.maximum(x, 0)[:2],
                x[2] < 1, x[2] == x[2], np.log(x[3]), np.sqrt(x[3]), 0. ** 0, np.power(0., -1), np.fmax(x[2], 1), np.nan_to_num(x), max(x[2], 1.), min(1., x[2]))


def t_shapes():
    a = np.zeros((2, 3))
    return (a.shape, a.ndim, a.size, len(a), a.T.shape, a[None].shape, a[:, None].shape, a[..., 0].shape, a.ravel().shape, a.reshape(-1).shape,
            a.reshape(3, -1).shape, np.expand_dims(a, 1).shape, np.squeeze(a[:1]).shape, np.atleast_2d(a[0]).shape, np.broadcast_to(a[0], (4, 3)).shape,
            np.swapaxes(a, 0, 1).shape, np.moveaxis(a, 0, 1).shape, np.transpose(a).shape, np.meshgrid(a[0], a[:, 0])[0].shape, np.ndim(3.), np.shape(a),
            np.eye(3).shape, np.diag([1., 2.]), np.ones_like(a).shape, np.empty(4).shape, np.identity(2), np.linspace(0, 1, 5), np.arange(1, 2, 0.25),
            np.logspace(0, 2, 3), np.geomspace(1, 4, 3), np.ix_([0, 1], [0])[0].shape, np.indices((2, 2)).shape)


def t_strings():
    s = " Ab,cD=12.5 "
    return (s.strip(), s.split(","), s.lower(), s.upper(), s.replace(",", ";"), s.find("c"), s.index("D"), "x".join(["a", "b"]), s.strip().startswith("Ab"),
            s.partition("="), s.rpartition("="), f"{3:>4d}|{2.5:.2f}|{'q':^5}", "%s-%d" % ("a", 3), "{}:{}".format(1, 2), s.isdigit(), "7".isdigit(),
            re.findall(r"\d+", "a1b22"), re.search(r"(\d)\.(\d)", s).group(1), re.split(r"[,;]", "a,b;c"), "abc"[::-1], "abc"[1], "b" in "abc",
            re.sub(r"\d", "#", "a1b2"), "a b  c".split(), "ab\ncd\n".splitlines(), "abc".zfill(5), "x=1".split("=", 1), "a.b.c".rsplit(".", 1), len("abc"),
            ord("a"), chr(98), "abc".endswith(("c", "d")), "AbC".swapcase(), "abc".capitalize(), "abc".title(), "abc".count("b"), "  x".lstrip(), "x  ".rstrip(),
            "abc" < "abd", [c for c in "abc"], "a\tb".expandtabs(4), "abc".translate(str.maketrans("a", "z")), "%.3e" % 12345.678, repr("a"), str(1.5), str(3),
            "abc".removeprefix("a"), "abc".removesuffix("c"), int("12"), float(" 1.5 "), "1S".isalnum(), "ab".isalpha(), "{:>5}".format("a"), "{0}{1}{0}".format("a", "b"))


def t_dicts():
    d = {"a": 1, "b": 2}
    d.update(c=3)
    d.setdefault("e", []).append(4)
    e = dict(x=1, **{"y": 2})
    dd = defaultdict(list)
    dd["k"].append(1)
    c = Counter("abca")
    o = {k: v for k, v in d.items() if k != "e"}
    p = d.pop("a")
    return (d, e, list(dd.items()), c["a"], o, p, d.get("zz", 5), sorted(d), "b" in d, {**o, "b": 9}, dict(zip("ab", (1, 2))), list(o.values()), list(o),
            max(o, key=o.get), {1, 2} | {3}, len({1, 1, 2}), dict.fromkeys("ab", 0), o | {"q": 1}, sum(o.values()), [k for k, v in o.items() if v > 1])


def t_lists():
    x = [3, 1, 2]
    y = sorted(x)
    x.sort(reverse=True)
    x.insert(0, 9)
    x.extend((4, 5))
    z = x[::-1]
    x.remove(9)
    q = x.pop()
    a, *b, c = x
    return (x, y, z, q, a, b, c, x.index(2), x.count(1), [1] * 3, [i for i in range(10) if i % 3 == 0], list(map(lambda t: t * 2, y)), list(filter(None, [0, 1])),
            any([0, 1]), all([]), min(x), max(x, key=lambda t: -t), sum([[1], [2]], []), list(reversed(y)), [[0] * 2 for _ in range(2)], list(zip(y, z)), sorted(x, key=lambda t: -t),
            list(enumerate(y, 1)), [*x, *y], x + y, x == y, [1, 2] < [1, 3], (1, 2) + (3,), divmod(7, 2), 7 // 2, -7 // 2, -7 % 3, 2 ** 10, round(2.567, 1), abs(-2), bool([]), 3 in y)


def t_itertools():
    return (list(itertools.chain([1], [2, 3])), list(itertools.product([0, 1], repeat=2)), list(itertools.combinations([1, 2, 3], 2)), list(itertools.islice(range(10), 2, 5)),
            list(itertools.accumulate([1, 2, 3])), list(itertools.permutations([1, 2])), functools.reduce(operator.add, [1, 2, 3]), functools.partial(max, 3)(5),
            list(itertools.repeat(1, 2)), list(itertools.zip_longest([1], [2, 3], fillvalue=0)), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.takewhile(lambda t: t < 3, range(9))),
            list(itertools.dropwhile(lambda t: t < 3, range(5))), list(itertools.starmap(operator.mul, [(1, 2), (3, 4)])), [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])],
            operator.itemgetter(1)([4, 5]), list(itertools.compress([1, 2, 3], [1, 0, 1])), list(itertools.pairwise([1, 2, 3])))


def t_control():
    out = []
    for i in range(5):
        if i == 3:
            break
    else:
        out.append("no")
    n = 0
    while True:
        n += 1
        if n > 4:
            break
    try:
        {}["x"]
    except KeyError as e:
        out.append("key")
    finally:
        out.append("fin")
    try:
        out.append(int("x"))
    except (ValueError, TypeError):
        out.append("val")
    else:
        out.append("else")
    match n:
        case 1 | 2:
            out.append("low")
        case 5:
            out.append("five")
        case _:
            out.append("other")
    if (k := n * 2) > 5:
        out.append(k)
    f = lambda a, b=2, *c, **d: (a, b, c, sorted(d))
    out.append(f(1))
    out.append(f(1, 3, 4, x=5))
    x = 1 if n else 2
    out.append(1 < n < 9)
    out.append(x if n and not k else None)
    del x
    assert n == 5
    with contextlib.suppress(ValueError):
        int("y")
    return i, n, out


class _Base:
    count = 0
    names = ["a"]

    def __init__(self, v):
        self._v = v
        type(self).count += 1

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, x):
        self._v = x * 10

    @staticmethod
    def twice(x):
        return 2 * x

    @classmethod
    def make(cls, v):
        return cls(v + 1)

    def __len__(self):
        return 3

    def __getitem__(self, i):
        return i * self._v

    def __add__(self, o):
        return self._v + o

    def __call__(self, q):
        return self.twice(q) + self._v

    def __eq__(self, o):
        return isinstance(o, _Base) and o._v == self._v

    def who(self):
        return "base"


class _Child(_Base):
    def __init__(self, v, w=1):
        super().__init__(v)
        self.w = w

    def who(self):
        return "child of " + super().who()

    @functools.cached_property
    def slow(self):
        self.w += 1
        return self.w


@dataclass
class _Data:
    a: int
    b: list = field(default_factory=list)
    c: float = 2.0

    def total(self):
        return self.a + self.c


_Pt = namedtuple("_Pt", "x y")


def t_classes():
    b = _Base(2)
    c = _Child.make(4)
    b.v = 3
    s0 = c.slow
    s1 = c.slow
    d = _Data(1)
    d.b.append(3)
    p = _Pt(1, y=2)
    return (b.v, c.v, c.w, len(b), b[2], b + 1, c(5), b == _Base(30), c.who(), _Base.count, _Child.names, isinstance(c, _Base), s0, s1, d.a, d.b, d.total(), p.x, p[1], p._replace(x=9).x,
            hasattr(b, "w"), getattr(b, "zz", 4), type(c).__name__, issubclass(_Child, _Base), callable(b), c.twice(3))


def _deco(f):
    @functools.wraps(f)
    def inner(*a, **k):
        return f(*a, **k) + 1
    return inner


@_deco
def _plus(x, y=1):
    return x + y


@functools.lru_cache(maxsize=None)
def _cached(n):
    return 1 if n < 2 else n * _cached(n - 1)


def t_functions():
    total = 0

    def add(x):
        nonlocal total
        total += x
        return total
    add(1)
    add(2)
    fs = [lambda q, k=k: q + k for k in range(3)]
    return total, _plus(1), _plus(1, y=5), _cached(5), [f(10) for f in fs], (lambda *a: len(a))(*[1, 2, 3]), max(*[1, 5]), (lambda **k: k["z"])(**{"z": 3})


def t_math():
    return (math.pi, math.sqrt(2), math.exp(1), math.log(2), math.factorial(4), math.floor(2.5), math.ceil(2.1), math.isclose(1, 1 + 1e-12), math.hypot(3, 4), math.fsum([.1, .2]), math.gamma(3.5),
            math.comb(4, 2), math.inf, math.isnan(math.nan), math.copysign(1, -2), math.prod([1, 2, 3]), math.gcd(4, 6), math.log(8, 2), math.dist([0, 0], [3, 4]), math.trunc(-1.5))


def t_inplace():
    a = np.arange(4.)
    b = a
    b += 1
    c = a
    c = c + 1
    a[1:3] *= 2
    np.multiply(a, 2, out=a)
    d = np.zeros(4)
    np.add.at(d, [0, 0, 1], 1)
    a.fill(2) if False else None
    e = np.zeros((2, 2))
    e[:, 0] = [1, 2]
    e[1] += 1
    np.put(d, 3, 7)
    np.fill_diagonal(e, 5)
    d[-1] -= 1
    return a, b, c, d, e


def t_sets():
    s = {3, 1}
    s.add(2)
    s.discard(9)
    return sorted(s), 1 in s, len(s), s & {1}, s - {1}, s.issubset({1, 2, 3}), sorted(s ^ {1}), sorted(frozenset([1])), s.isdisjoint({7})


def t_unpack():
    (a, b), c = (1, 2), 3
    a, b = b, a
    d = [[1, 2], [3, 4]]
    out = [x + y for x, y in d]
    for i, (p, q) in enumerate(d):
        out.append(i * p * q)
    first, *_ = range(3)
    x = y = 5
    return a, b, c, out, first, x + y, [*map(list, zip(*d))], dict([("a", 1)]), tuple(i for i in (1, 2))


def t_masked():
    m = np.array([0., 1e-20, 2.])
    d = np.array([1., 2., 3.])
    r = np.ma.masked_less_equal(m, 1e-15)
    return np.ma.filled(d / r, 1.), np.ma.masked_where(d > 2, d).filled(0), (d / r).filled(fill_value=9.), np.ma.masked_array(d, mask=m < 1).sum(), np.ma.log(d).filled(0), np.ma.getdata(r)


def t_sort():
    x = np.array([3., 1., 2.])
    i = np.argsort(x)
    y = np.sort(x)[::-1]
    x2 = x[i]
    return i, y, x2, np.unique([2, 1, 2]), np.searchsorted(x2, 1.5), np.flip(x), np.roll(x, 1), x.argmax(), np.lexsort((x,)), sorted(x.tolist()), np.array_equal(x, x2), np.allclose(x, x), np.isin(x, [1, 2]), np.intersect1d([1, 2], [2])


def t_poly():
    return (np.polyval([1., 2.], 3.), np.interp(1.5, [1., 2.], [10., 20.]), np.cross([1., 0, 0], [0, 1., 0]), np.linalg.det(np.array([[2., 0], [0, 3.]])), np.vander([1., 2.], 2), np.convolve([1., 2.], [1., 1.]),
            np.triu(np.ones((2, 2))), np.tril(np.ones((2, 2))), np.gradient(np.array([1., 2., 4.])), np.histogram([1, 2], bins=[0, 1.5, 3])[0], np.piecewise(np.array([1., 3.]), [np.array([True, False])], [5., 6.]),
            np.select([np.array([True, False])], [np.array([1., 2.])], 9.), np.choose([0, 1], [[1, 2], [3, 4]]), np.take([4, 5, 6], [0, 2]), np.compress([True, False], [1, 2]), np.bincount([0, 1, 1]), np.digitize([0.5], [0., 1.]),
            np.apply_along_axis(np.sum, 0, np.ones((2, 2))), np.vectorize(lambda t: t + 1)(np.array([1., 2.])), np.fromiter((i for i in range(3)), float), np.array(list(range(3)), dtype=float), np.asarray([1, 2]) / 2)


def t_types():
    x = np.array([1, 2])
    return (x.dtype == int, x.astype(float) / 2, isinstance(x, np.ndarray), isinstance(np.float64(1), float), np.issubdtype(x.dtype, np.integer), np.float64(2).item(), float(np.sum(x)), int(2.7), x.tolist(), np.isscalar(3), bool(np.any(x > 1)),
            x[0].item(), np.array(5.).item(), np.asarray(3.).ndim, isinstance(True, int), isinstance(1, (str, int)), type(1) is int, np.result_type(x) == x.dtype, np.iterable(x), x is x, x.all(), np.array([True]).any())
