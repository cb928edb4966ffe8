"""Further models of the standard library and numpy: sets, collections, itertools, functools, math, less common array functions."""
import itertools
import math
from .terms import (P, Poly, ONE, ZERO, NAN, INF, PI, Q, blend, compare, gt0, eq0, fn, power, mul, rawmul, with_facts, b_name, is_int_poly)
from . import arr as AR
from .arr import Arr, Unknown, Raised, from_fn
from .values import *
from .npmodel import (reg, FUN, equal, num, intval, boolval, binop, boolsc, is_list, b_list, contains, from_list1, out_val, asb, DTYPES, cast)
from . import npmodel as N


# ---------------------------------------------------------------- sets
def dedupe(I, items):
    out = []
    for x in items:
        new = True
        for y in out:
            c = with_facts(equal(I, x, y)).const()
            if c is None:
                raise Unknown("set of values that may coincide")
            if c:
                new = False
                break
        if new:
            out.append(x)
    return out


def make_set(I, items):
    items = list(items)
    if any(isinstance(x, (Rep, Hist, Opq)) for x in items):
        raise Unknown("set of unknown values")
    return I.new(SetO(dedupe(I, items)))


@reg("builtins.set", "builtins.frozenset")
def b_set(I, x=None):
    if x is None:
        return I.new(SetO(()))
    if isinstance(x, Opq):
        return Opq(x.why)
    return make_set(I, I.iterate(x))


def members(I, r):
    if isinstance(r, Ref) and isinstance(I.obj(r), SetO) and I.obj(r).alt:
        raise Unknown("alternative sets")
    return I.iterate(r)


def has(I, items, x):
    r = ZERO
    for y in items:
        c = with_facts(equal(I, x, y)).const()
        if c is None:
            raise Unknown("set membership")
        if c:
            return True
    return False


@reg("set.add")
def s_add(I, r, x):
    I.effect("write", r.a, "set add")
    o = I.obj(r)
    if o.alt:
        c, u, v = o.alt
        I.put(r, SetO((), (c, tuple(dedupe(I, u + (x,))), tuple(dedupe(I, v + (x,))))))
    else:
        I.put(r, SetO(dedupe(I, o.items + (x,))))


def s_remove(strict):
    def f(I, r, x):
        I.effect("write", r.a, "set remove")
        it = members(I, r)
        keep = [y for y in it if not has(I, [y], x)]
        if strict and len(keep) == len(it):
            raise Raised("KeyError", "not in set")
        I.put(r, SetO(keep))
    return f


FUN["set.remove"] = s_remove(True)
FUN["set.discard"] = s_remove(False)


def set_op(kind):
    def f(I, r, *others):
        out = list(members(I, r))
        for o in others:
            b = I.iterate(o)
            if kind == "union":
                out = dedupe(I, out + list(b))
            elif kind == "intersection":
                out = [x for x in out if has(I, b, x)]
            elif kind == "difference":
                out = [x for x in out if not has(I, b, x)]
            else:
                out = [x for x in out if not has(I, b, x)] + [x for x in dedupe(I, b) if not has(I, out, x)]
        return out
    return f


for _k in ("union", "intersection", "difference", "symmetric_difference"):
    FUN["set." + _k] = (lambda g: lambda I, r, *o: I.new(SetO(g(I, r, *o))))(set_op(_k))


def s_update(kind):
    g = set_op(kind)

    def f(I, r, *o):
        I.effect("write", r.a, "set update")
        I.put(r, SetO(g(I, r, *o)))
    return f


FUN["set.update"] = s_update("union")
FUN["set.intersection_update"] = s_update("intersection")
FUN["set.difference_update"] = s_update("difference")
FUN["set.issubset"] = lambda I, r, o: boolsc(P(all(has(I, I.iterate(o), x) for x in members(I, r))))
FUN["set.issuperset"] = lambda I, r, o: boolsc(P(all(has(I, members(I, r), x) for x in I.iterate(o))))
FUN["set.isdisjoint"] = lambda I, r, o: boolsc(P(not any(has(I, I.iterate(o), x) for x in members(I, r))))
FUN["set.copy"] = lambda I, r: I.new(SetO(members(I, r)))
FUN["set.clear"] = lambda I, r: (I.effect("write", r.a, "set clear"), I.put(r, SetO(())))[1]

SET_BIN = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}


def set_compare(I, op, a, b):
    x, y = members(I, a), members(I, b)
    le, ge = all(has(I, y, u) for u in x), all(has(I, x, u) for u in y)
    return boolsc(P({"LtE": le, "GtE": ge, "Lt": le and not ge, "Gt": ge and not le, "Eq": le and ge, "NotEq": not (le and ge)}[op]))


# ---------------------------------------------------------------- collections
class NTV(tuple):
    """Value of a named tuple."""
    fields, name = (), ""

    def __new__(cls, items, fields, name):
        t = super().__new__(cls, items)
        t.fields, t.name = fields, name
        return t

    def with_items(self, items):
        return NTV(items, self.fields, self.name)


class NTClass(Stub):
    clsname = "namedtuple"

    def __init__(self, name, fields, defaults=()):
        self.name, self.fields, self.defaults = name, tuple(fields), tuple(defaults)

    def call(self, I, args, kw):
        if len(args) > len(self.fields) or any(k not in self.fields for k in kw):
            raise Raised("TypeError", f"{self.name} arguments")
        vals = dict(zip(self.fields[len(self.fields) - len(self.defaults):], self.defaults))
        vals.update(zip(self.fields, args))
        for k, v in kw.items():
            if k in self.fields[:len(args)]:
                raise Raised("TypeError", f"{self.name} got multiple values for {k}")
            vals[k] = v
        if len(vals) != len(self.fields):
            raise Raised("TypeError", f"{self.name} missing arguments")
        return NTV([vals[f] for f in self.fields], self.fields, self.name)

    def get(self, I, name):
        if name == "_make":
            return PyFn(lambda I, a, k: self.call(I, I.iterate(a[0]), {}))
        if name == "_fields":
            return self.fields
        if name == "__name__":
            return self.name
        return I.unknown("attribute of a named tuple class: " + name)


@reg("collections.namedtuple")
def namedtuple(I, name, fields, defaults=None, rename=None, module=None):
    fs = fields.replace(",", " ").split() if isinstance(fields, str) else [x for x in I.iterate(fields)]
    if not all(isinstance(x, str) for x in fs):
        raise Unknown("namedtuple fields")
    return NTClass(name, fs, () if defaults is None else I.iterate(defaults))


def tuple_attr(I, o, name):
    if isinstance(o, NTV):
        if name in o.fields:
            return o[o.fields.index(name)]
        if name == "_asdict":
            return PyFn(lambda I, a, k: I.new(DictO(dict(zip(o.fields, o)))))
        if name == "_replace":
            return PyFn(lambda I, a, k: NTV([k.get(f, v) for f, v in zip(o.fields, o)], o.fields, o.name))
        if name == "_fields":
            return o.fields
    return None


def typed_namedtuple(I, n):
    import ast
    fields, defaults = [], []
    for s in n.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            fields.append(s.target.id)
            if s.value is not None:
                defaults.append(I.eval(s.value))
        elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass):
            return I.unknown("NamedTuple with methods")
    return NTClass(n.name, fields, defaults)


def dataclass(I, cls, kw):
    """@dataclass: __init__ from the annotated fields of the class and its bases."""
    import ast
    from .interp import UNDEF
    if any(k not in ("frozen", "eq", "order", "repr", "slots", "kw_only", "init", "unsafe_hash") for k in kw) or "init" in kw or "kw_only" in kw:
        return I.unknown("dataclass options")
    fields = []
    for c in reversed(cls.mro()):
        if not isinstance(c, ClassV):
            continue
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.dump(s.annotation):
                nm = s.target.id
                d = c.ns.get(nm, UNDEF)
                f = (nm, d)
                fields = [x if x[0] != nm else f for x in fields] if any(x[0] == nm for x in fields) else fields + [f]
    frozen = "frozen" in kw and boolval(I, kw["frozen"])
    for nm, d in fields:
        if isinstance(d, FieldV):
            if d.default is UNDEF:
                cls.ns.pop(nm, None)
            else:
                cls.ns[nm] = d.default
    inited = [(nm, d) for nm, d in fields if not (isinstance(d, FieldV) and not d.init)]

    def init(I2, args, kws):
        me, args = args[0], list(args[1:])
        if len(args) > len(inited) or any(k not in [n for n, _ in inited] for k in kws) or any(k in [n for n, _ in inited[:len(args)]] for k in kws):
            raise Raised("TypeError", f"{cls.name}() arguments")
        given = dict(zip([n for n, _ in inited], args))
        given.update(kws)
        vals = {}
        for nm, d in fields:
            if nm in given:
                v = given[nm]
            elif isinstance(d, FieldV):
                if d.factory is not None:
                    v = I2.call(d.factory, [], {})
                elif d.default is not UNDEF:
                    v = d.default
                elif not d.init:
                    continue
                else:
                    raise Raised("TypeError", f"{cls.name}() missing {nm}")
            elif d is UNDEF:
                raise Raised("TypeError", f"{cls.name}() missing {nm}")
            else:
                v = d
            vals[nm] = v
        o = I2.obj(me)
        I2.put(me, InstO(o.cls, {**o.attrs, **vals}))
        post = I2.class_lookup(o.cls, "__post_init__")
        if post is not None:
            I2.call(I2.bind(post, me, o.cls), [], {})
        return None
    if "__init__" not in cls.ns:
        cls.ns["__init__"] = PyMeth(init)
    names = [n for n, _ in fields]
    if "__eq__" not in cls.ns:
        cls.ns["__eq__"] = PyMeth(lambda I2, a, k: boolsc(equal(I2, tuple(I2.getattr(a[0], n) for n in names), tuple(I2.getattr(a[1], n) for n in names))
                                                          if isinstance(a[1], Ref) and isinstance(I2.obj(a[1]), InstO) and I2.obj(a[1]).cls is I2.obj(a[0]).cls else ZERO))
    if frozen:
        cls.frozen = True
    cls.dc_fields = names
    return cls


class PyMeth(Stub):
    """Method supplied by the analysis."""
    clsname = "function"

    def __init__(self, f):
        self.f = f

    def call(self, I, args, kw):
        return self.f(I, args, kw)

    def bind(self, o):
        return PyFn(lambda I, a, k: self.f(I, [o] + list(a), k), "method")


class FieldV(Stub):
    clsname = "field"

    def __init__(self, default, factory, init):
        self.default, self.factory, self.init = default, factory, init


@reg("dataclasses.field")
def dc_field(I, default=None, default_factory=None, init=None, repr=None, compare=None, hash=None, kw_only=None, metadata=None, **k):
    from .interp import UNDEF
    if kw_only is not None:
        raise Unknown("kw_only field")
    return FieldV(UNDEF if default is None and "default" not in k else default, default_factory, init is None or boolval(I, init))


@reg("dataclasses.replace")
def dc_replace(I, o, /, **kw):
    ob = I.obj(o)
    names = getattr(ob.cls, "dc_fields", None)
    if names is None:
        raise Unknown("dataclasses.replace")
    vals = {n: kw.get(n, ob.attrs.get(n)) for n in names}
    return I.instantiate(ob.cls, [], vals)


@reg("dataclasses.asdict")
def dc_asdict(I, o):
    ob = I.obj(o)
    names = getattr(ob.cls, "dc_fields", None)
    if names is None:
        raise Unknown("dataclasses.asdict")
    return I.new(DictO({n: N.container_copy(I, ob.attrs[n], True) for n in names}))


@reg("dataclasses.astuple")
def dc_astuple(I, o):
    ob = I.obj(o)
    names = getattr(ob.cls, "dc_fields", None)
    if names is None:
        raise Unknown("dataclasses.astuple")
    return tuple(ob.attrs[n] for n in names)


BIN = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__truediv__": "Div", "__pow__": "Pow", "__mod__": "Mod", "__or__": "BitOr", "__and__": "BitAnd",
       "__matmul__": "MatMult", "__floordiv__": "FloorDiv"}
CMPS = {"__lt__": "Lt", "__le__": "LtE", "__gt__": "Gt", "__ge__": "GtE", "__eq__": "Eq", "__ne__": "NotEq"}


def dunder(I, o, n, args, kw):
    """Special methods called by name."""
    if not kw:
        if n == "__len__" and not args:
            return Sc(I.length(o), "int")
        if n == "__getitem__" and len(args) == 1:
            return I.getitem(o, args[0])
        if n == "__setitem__" and len(args) == 2:
            return I.setitem(o, *args)
        if n == "__contains__" and len(args) == 1:
            return boolsc(contains(I, args[0], o))
        if n == "__iter__" and not args:
            return N.b_iter(I, o)
        if n in BIN and len(args) == 1:
            return binop(I, BIN[n], o, args[0])
        if n in CMPS and len(args) == 1:
            return N.compare_vals(I, CMPS[n], o, args[0])
        if n == "extendleft" and len(args) == 1:
            I.effect("write", o.a, "deque")
            I.put(o, DequeO(list(reversed(I.iterate(args[0]))) + I.iterate(o)))
            return None
    if isinstance(o, Ref) and n not in ("__repr__", "__str__", "__class__", "isdisjoint", "count", "index"):
        ob = I.obj(o)
        if isinstance(ob, DictO):
            I.put(o, ob.like({Opq("key"): Opq("method " + n)}))
        elif isinstance(ob, ListO):
            I.put(o, ob.like([Opq("method " + n)]))
    return I.unknown(f"method {n}")


def str_method(I, s, n, args, kw):
    """Methods of strings whose arguments are all known, by doing what Python does."""
    vals = []
    for a in list(args) + list(kw.values()):
        if isinstance(a, str) or a is None:
            vals.append(a)
        elif isinstance(a, Sc) and a.p.const() is not None and a.k in ("int", "bool"):
            vals.append(int(a.p.const()))
        elif isinstance(a, tuple) and all(isinstance(x, str) for x in a):
            vals.append(a)
        elif isinstance(a, Ref) and isinstance(I.obj(a), DictO) and n == "translate":
            vals.append({int(k[1]) if isinstance(k, tuple) else k: (v if isinstance(v, str) or v is None else int(num(v).const()))
                         for k, v in I.obj(a).items.items()})
        elif isinstance(a, Ref) and isinstance(I.obj(a), ListO) and n == "join":
            vals.append([x for x in I.iterate(a)])
        else:
            return I.unknown(f"string method {n}")
    if not isinstance(s, str):
        return I.unknown(f"string method {n} of an unknown string")
    if n in ("__len__", "__getitem__", "__contains__", "__iter__") or n in BIN or n in CMPS:
        return dunder(I, s, n, args, kw)
    k = len(args)
    try:
        r = getattr(s, n)(*vals[:k], **dict(zip(kw, vals[k:])))
    except (TypeError, ValueError, IndexError, KeyError, LookupError) as e:
        raise Raised(type(e).__name__, str(e))

    def back(x):
        if isinstance(x, bool):
            return boolsc(P(x))
        if isinstance(x, int):
            return Sc(P(x), "int")
        if isinstance(x, list):
            return I.new(ListO([back(y) for y in x]))
        if isinstance(x, tuple):
            return tuple(back(y) for y in x)
        if isinstance(x, dict):
            return I.new(DictO({("n", Q(a)) if isinstance(a, int) else a: back(b) for a, b in x.items()}))
        return x if isinstance(x, str) or x is None else I.unknown(f"string method {n}")
    return back(r)


@reg("builtins.str.maketrans")
def maketrans(I, *a):
    return str_method(I, "", "maketrans", list(a), {})


for _n in ("lower", "upper", "strip", "title", "capitalize", "split", "isdigit", "isalpha", "lstrip", "rstrip", "startswith", "endswith"):
    FUN["builtins.str." + _n] = (lambda n: lambda I, s, *a, **k: I.call(I.getattr(s, n), list(a), k))(_n)


@reg("collections.defaultdict")
def defaultdict(I, factory=None, x=None, /, **kw):
    items = dict({} if x is None else I.obj(N.b_dict(I, x)).items, **kw)
    return I.new(DictO(items, factory))


@reg("collections.Counter")
def counter(I, x=None):
    out = {}
    for y in ([] if x is None else I.iterate(x)):
        k = I.key(y)
        if k is None:
            raise Unknown("Counter of unknown values")
        out[k] = Sc((out[k].p if k in out else ZERO) + ONE, "int")
    f = PyFn(lambda I, a, kw: Sc(ZERO, "int"))
    f.stores = False
    return I.new(DictO(out, f))


@reg("collections.deque")
def deque(I, x=None, maxlen=None):
    if maxlen is not None:
        raise Unknown("bounded deque")
    return I.new(DequeO(I.iterate(x) if x is not None else ()))


def l_popleft(I, r):
    return N.FUN["list.pop"](I, r, Sc(ZERO, "int"))


FUN["list.popleft"] = l_popleft
FUN["list.appendleft"] = lambda I, r, x: N.FUN["list.insert"](I, r, Sc(ZERO, "int"), x)

@reg("builtins.dict.fromkeys")
def fromkeys(I, it, v=None):
    ks = [I.key(k) for k in I.iterate(it)]
    if None in ks:
        raise Unknown("dict key unknown")
    return I.new(DictO({k: v for k in ks}))


@reg("dict.clear")
def d_clear(I, r):
    I.effect("write", r.a, "dict clear")
    I.put(r, DictO({}, I.obj(r).factory))


@reg("dict.popitem")
def d_popitem(I, r):
    o = I.obj(r)
    if not o.items:
        raise Raised("KeyError", "dictionary is empty")
    k = list(o.items)[-1]
    v = N.FUN["dict.pop"](I, r, I.unkey(k))
    return (I.unkey(k), v)


# ---------------------------------------------------------------- itertools
def lst(I, xs):
    from .interp import IterV
    return IterV(I.new(ListO(list(xs))))


def decided(I, v):
    c = I.choose(with_facts(I.truth(v))).const()
    if c is None:
        raise Unknown("condition not decided")
    return bool(c)


@reg("itertools.islice")
def islice(I, it, *a):
    n = [None if x is None else intval(x) for x in a]
    from .interp import IterV
    if isinstance(it, IterV) and len(n) == 1 and n[0] is not None:
        rest = it.rest(I)
        I.put(it.ref, ListO(rest[n[0]:]))
        return lst(I, rest[:n[0]])
    if isinstance(it, IterV):
        raise Unknown("slice of an iterator")
    if hasattr(it, "lazy"):
        out = []
        if len(n) != 1 or n[0] is None:
            raise Unknown("slice of a stream")
        g = it.lazy(I)
        for _ in range(n[0]):
            try:
                out.append(next(g))
            except StopIteration:
                break
        return lst(I, out)
    if isinstance(it, CountV):
        stop = n[0] if len(n) == 1 else n[1]
        it = [Sc(it.start + it.step * P(k), "int") for k in range(stop)]
        return lst(I, itertools.islice(it, *n))
    return lst(I, itertools.islice(I.iterate(it), *n))


class CountV(Stub):
    clsname = "count"

    def __init__(self, start, step):
        self.start, self.step = start, step

    def lazy(self, I):
        for k in range(100000):
            yield Sc(self.start + self.step * P(k), "int")
        raise Unknown("endless loop")


FUN["itertools.count"] = lambda I, start=None, step=None: CountV(ZERO if start is None else num(start), ONE if step is None else num(step))


class RepeatV(Stub):
    clsname = "repeat"

    def __init__(self, x):
        self.x = x

    def lazy(self, I):
        for k in range(100000):
            yield self.x
        raise Unknown("endless loop")


@reg("itertools.repeat")
def it_repeat(I, x, times=None):
    if times is None:
        return RepeatV(x)
    return lst(I, [x] * max(0, intval(times)))


FUN["itertools.zip_longest"] = lambda I, *its, fillvalue=None: lst(I, [tuple(t) for t in itertools.zip_longest(*[I.iterate(x) for x in its], fillvalue=fillvalue)])
FUN["itertools.pairwise"] = lambda I, it: lst(I, [tuple(t) for t in itertools.pairwise(I.iterate(it))])
FUN["itertools.compress"] = lambda I, it, sel: lst(I, [x for x, s in zip(I.iterate(it), I.iterate(sel)) if decided(I, s)])
FUN["itertools.starmap"] = lambda I, f, it: lst(I, [I.call(f, list(I.iterate(x)), {}) for x in I.iterate(it)])


@reg("itertools.takewhile")
def takewhile(I, f, it):
    out = []
    from .interp import IterV
    if isinstance(it, IterV):
        raise Unknown("takewhile of an iterator")
    for x in (it.lazy(I) if hasattr(it, "lazy") else I.iterate(it)):
        if not decided(I, I.call(f, [x], {})):
            break
        out.append(x)
    return lst(I, out)


@reg("itertools.dropwhile")
def dropwhile(I, f, it):
    xs = I.iterate(it)
    k = 0
    while k < len(xs) and decided(I, I.call(f, [xs[k]], {})):
        k += 1
    return lst(I, xs[k:])


@reg("itertools.filterfalse")
def filterfalse(I, f, it):
    return lst(I, [x for x in I.iterate(it) if not decided(I, x if f is None else I.call(f, [x], {}))])


@reg("itertools.groupby")
def groupby(I, it, key=None):
    out = []
    for x in I.iterate(it):
        k = x if key is None else I.call(key, [x], {})
        if out:
            c = I.choose(with_facts(equal(I, out[-1][0], k))).const()
            if c is None:
                raise Unknown("groupby with keys that may coincide")
            if c:
                out[-1][1].append(x)
                continue
        out.append((k, [x]))
    return lst(I, [(k, lst(I, g)) for k, g in out])


@reg("itertools.batched")
def batched(I, it, n):
    xs, n = I.iterate(it), intval(n)
    return lst(I, [tuple(xs[i:i + n]) for i in range(0, len(xs), n)])


# ---------------------------------------------------------------- functools, operator
@reg("functools.wraps", "functools.update_wrapper", "functools.singledispatch")
def wraps(I, f, *a, **k):
    return PyFn(lambda I2, args, kw: args[0], "wraps")


def memoised(I, f):
    """f with a cache: equal arguments give the very object of the first call."""
    cell = I.new(ListO(()))

    def call(I2, args, kw):
        key = tuple(args) + tuple(sorted(kw.items()))
        for x in args:
            if isinstance(x, Ref) and isinstance(I2.obj(x), (ArrO, ListO, DictO)):
                raise Raised("TypeError", "unhashable type")
        o = I2.obj(cell)
        if o.alt:
            return I2.unknown("cache filled on some paths only")
        for k, v in o.items:
            if isinstance(v, Ite) or len(k) != len(key):
                continue
            eq = ONE
            for a, b in zip(k, key):
                eq = rawmul(eq, equal(I2, a, b) if not isinstance(a, Ref) else P(a == b))
            c = with_facts(eq).const()
            if c is None:
                return I2.unknown("cache with keys that may coincide")
            if c:
                return v
        v = I2.call(f, list(args), kw)
        I2.put(cell, ListO(tuple(I2.obj(cell).items) + ((key, v),)))
        return v
    return CachedF(call, f)


class CachedF(Stub):
    clsname = "cached function"

    def __init__(self, fcall, f):
        self.fcall, self.f = fcall, f

    def call(self, I, args, kw):
        return self.fcall(I, args, kw)

    def bind(self, o):
        return PyFn(lambda I, a, k: self.fcall(I, [o] + list(a), k), "cached method")

    def get(self, I, name):
        if name == "__wrapped__":
            return self.f
        return I.unknown("attribute of a cached function: " + name)


@reg("functools.lru_cache", "functools.cache")
def lru_cache(I, f=None, typed=None, maxsize=None):
    if isinstance(f, (FuncV, PyFn)):
        return memoised(I, f)
    return PyFn(lambda I2, args, kw: memoised(I2, args[0]), "lru_cache")


@reg("functools.cmp_to_key")
def cmp_to_key(I, f):
    return I.unknown("cmp_to_key")


for _n, _o in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
    FUN["operator." + _n] = (lambda o: lambda I, a, b: N.compare_vals(I, o, a, b))(_o)
for _n, _o in (("pow", "Pow"), ("mod", "Mod"), ("floordiv", "FloorDiv"), ("matmul", "MatMult"), ("and_", "BitAnd"), ("or_", "BitOr"), ("concat", "Add")):
    FUN["operator." + _n] = (lambda o: lambda I, a, b: binop(I, o, a, b))(_o)
FUN["operator.not_"] = lambda I, a: boolsc(ONE - I.truth(a))
FUN["operator.getitem"] = lambda I, a, b: I.getitem(a, b)
FUN["operator.contains"] = lambda I, a, b: boolsc(contains(I, b, a))


@reg("operator.attrgetter")
def attrgetter(I, *names):
    def one(I2, o, name):
        for p in name.split("."):
            o = I2.getattr(o, p)
        return o
    return PyFn(lambda I2, a, k: one(I2, a[0], names[0]) if len(names) == 1 else tuple(one(I2, a[0], n) for n in names), "attrgetter")


@reg("operator.methodcaller")
def methodcaller(I, name, *args, **kw):
    return PyFn(lambda I2, a, k: I2.call(I2.getattr(a[0], name), list(args), kw), "methodcaller")


# ---------------------------------------------------------------- math
def cnum(v):
    c = num(v).const()
    if c is None:
        raise Unknown("symbolic argument")
    return c


def need_int(v):
    c = cnum(v)
    if c != int(c):
        raise Raised("TypeError", "an integer is required")
    return int(c)


FUN["math.comb"] = lambda I, n, k: Sc(P(math.comb(need_int(n), need_int(k))), "int")
FUN["math.perm"] = lambda I, n, k=None: Sc(P(math.perm(need_int(n), None if k is None else need_int(k))), "int")
FUN["math.gcd"] = lambda I, *a: Sc(P(math.gcd(*[need_int(x) for x in a])), "int")
FUN["math.hypot"] = lambda I, *a: Sc(power(AR.psum([mul(num(x), num(x)) for x in a]), Q(1) / 2), "float")
FUN["math.dist"] = lambda I, a, b: Sc(power(AR.psum([power(num(x) - num(y), 2) for x, y in zip(I.iterate(a), I.iterate(b))]), Q(1) / 2), "float")


@reg("math.fsum")
def fsum(I, it):
    if I.is_arr(it):
        r = FUN["numpy.sum"](I, it)
    else:
        r = FUN["builtins.sum"](I, it)
    return Sc(num(r), "float")


@reg("math.prod")
def mprod(I, it, start=None):
    r = Sc(ONE, "int") if start is None else start
    for x in I.iterate(it):
        r = binop(I, "Mult", r, x)
    return r


@reg("math.isclose")
def isclose(I, a, b, rel_tol=None, abs_tol=None):
    x, y = num(a), num(b)
    rt = P(Q(1, 10**9)) if rel_tol is None else num(rel_tol)
    at = ZERO if abs_tol is None else num(abs_tol)
    ax, ay = fn("abs", x), fn("abs", y)
    big = blend(compare(">", ax, ay), ax, ay)
    t = mul(rt, big)
    t = blend(compare(">", at, t), at, t)
    return boolsc(compare("<=", fn("abs", x - y), t))


def copysign(u, v):
    a = fn("abs", u)
    return blend(compare("<", v, ZERO), ZERO - a, a)


FUN["math.copysign"] = lambda I, u, v: Sc(copysign(num(u), num(v)), "float")
FUN["numpy.copysign"] = lambda I, u, v: out_val(I, AR.mapn(copysign, [I.to_arr(u), I.to_arr(v)], "float"))
FUN["numpy.heaviside"] = lambda I, u, v: out_val(I, AR.mapn(lambda x, h: blend(compare("==", x, ZERO), h, compare(">", x, ZERO)), [I.to_arr(u), I.to_arr(v)], "float"))
FUN["math.ldexp"] = lambda I, x, k: Sc(mul(num(x), P(Q(2) ** need_int(k))), "float")

FUN["builtins.ord"] = lambda I, s: Sc(P(ord(s)), "int") if isinstance(s, str) and len(s) == 1 else I.unknown("ord")
FUN["builtins.chr"] = lambda I, k: chr(need_int(k))


# ---------------------------------------------------------------- numpy
def const1(I, x, what="array", most=64):
    """Cells of a vector of constant length."""
    a = I.to_arr(x)
    if a.ndim != 1 or a.sel is not None or AR.axlen(a.ax[0]).const() is None or AR.axlen(a.ax[0]).const() > most:
        raise Unknown(what)
    a = AR.explode(a, 0)
    return [a.cells[(i,)] for i in range(len(a.ax[0]))], a.dt


@reg("numpy.argsort", "ndarray.argsort")
def argsort(I, x, axis=None, kind=None, stable=None):
    cs, _ = const1(I, x, "argsort")
    return I.arr_new(from_list1([P(i) for i in order_of(I, cs)], "int"))


def order_of(I, cs):
    """Positions in increasing order, by the outcome of comparisons on the path followed (insertion, stable)."""
    order = []
    for i, c in enumerate(cs):
        j = len(order)
        while j > 0:
            v = I.choose(with_facts(compare("<", c, cs[order[j - 1]]))).const()
            if v is None:
                raise Unknown("order of unknown values")
            if not v:
                break
            j -= 1
        order.insert(j, i)
    return order


@reg("numpy.take", "ndarray.take")
def take(I, a, idx, axis=None, mode=None):
    if mode is not None:
        raise Unknown("take mode")
    ref = a if I.is_arr(a) else I.arr_new(I.to_arr(a))
    x = I.to_arr(ref)
    if axis is None:
        if x.ndim != 1:
            raise Unknown("take of a flattened matrix")
        d = 0
    else:
        d = intval(axis) % x.ndim
    if not isinstance(idx, Sc):
        idx = I.arr_new(I.to_arr(idx))
    r = I.getitem(ref, (SliceV(None, None, None),) * d + (idx,))
    return I.arr_new(I.to_arr(r)) if I.is_arr(r) else r


@reg("numpy.compress", "ndarray.compress")
def np_compress(I, cond, a, axis=None):
    c = I.to_arr(cond)
    if c.dt != "bool":
        c = c.map(asb, "bool")
    return take(I, a, I.arr_new(c), axis) if c.ndim == 1 else I.unknown("compress")


@reg("numpy.extract")
def np_extract(I, cond, a):
    return I.getitem(a, cond)


@reg("numpy.select")
def np_select(I, conds, choices, default=None):
    cs, xs = I.iterate(conds), I.iterate(choices)
    r = default if default is not None else Sc(ZERO, "int")
    for c, x in reversed(list(zip(cs, xs))):
        r = FUN["numpy.where"](I, c, x, r)
    return r


@reg("numpy.piecewise")
def np_piecewise(I, x, conds, funcs):
    cs, fs = I.iterate(conds), I.iterate(funcs)
    r = fs[len(cs)] if len(fs) > len(cs) else Sc(ZERO, "int")

    def val(f):
        return f if isinstance(f, Sc) else I.call(f, [x], {})
    r = val(r)
    for c, f in zip(cs, fs):
        r = FUN["numpy.where"](I, c, val(f), r)
    return r


@reg("numpy.trace", "ndarray.trace")
def np_trace(I, a, offset=None):
    if offset is not None:
        raise Unknown("trace offset")
    return FUN["numpy.sum"](I, FUN["numpy.diag"](I, a))


@reg("numpy.cumprod", "ndarray.cumprod")
def cumprod(I, x, axis=None):
    cs, dt = const1(I, x, "cumprod")
    out, r = [], ONE
    for c in cs:
        r = mul(r, c)
        out.append(r)
    return I.arr_new(from_list1(out, dt))


@reg("numpy.ptp", "ndarray.ptp")
def np_ptp(I, x, axis=None):
    k = {} if axis is None else {"axis": axis}
    return binop(I, "Sub", FUN["numpy.max"](I, x, **k), FUN["numpy.min"](I, x, **k))


def moment(root):
    def f(I, x, axis=None, ddof=None):
        k = {} if axis is None else {"axis": axis, "keepdims": Sc(ONE, "bool")}
        m = FUN["numpy.mean"](I, x, **k)
        d = binop(I, "Sub", x if I.is_arr(x) else I.arr_new(I.to_arr(x)), m)
        sq = binop(I, "Mult", d, d)
        k2 = {} if axis is None else {"axis": axis}
        if ddof is None:
            r = FUN["numpy.mean"](I, sq, **k2)
        else:
            if axis is not None:
                raise Unknown("variance with ddof and axis")
            s = FUN["numpy.sum"](I, sq)
            r = binop(I, "Div", s, Sc(N.size_of(I.to_arr(x)) - num(ddof), "int"))
        return binop(I, "Pow", r, Sc(P(Q(1, 2)), "float")) if root else r
    return f


FUN["numpy.var"] = FUN["ndarray.var"] = moment(False)
FUN["numpy.std"] = FUN["ndarray.std"] = moment(True)


@reg("numpy.median")
def np_median(I, x):
    cs, _ = const1(I, x, "median")
    o = order_of(I, cs)
    n = len(o)
    return Sc(cs[o[n // 2]] if n % 2 else mul(cs[o[n // 2 - 1]] + cs[o[n // 2]], P(Q(1, 2))), "npfloat")


@reg("numpy.polyval")
def polyval(I, p, x):
    r = Sc(ZERO, "int")
    for c in I.iterate(p):
        r = binop(I, "Add", binop(I, "Mult", r, x), c)
    return r


def tri(up):
    def f(I, m, k=None):
        k = 0 if k is None else intval(k)
        a = I.to_arr(m)
        if a.ndim != 2:
            raise Unknown("triangle of a non-matrix")
        a = AR.explode(AR.explode(a, 0), 1)
        return I.arr_new(Arr(a.ax, {(i, j): v if (j - i >= k if up else j - i <= k) else ZERO for (i, j), v in a.cells.items()}, a.dt))
    return f


FUN["numpy.triu"], FUN["numpy.tril"] = tri(True), tri(False)


@reg("numpy.vander")
def vander(I, x, n=None, increasing=None):
    a = I.to_arr(x)
    n = intval(n) if n is not None else int(AR.axlen(a.ax[0]).const())
    inc = increasing is not None and boolval(I, increasing)
    cols = [a.map(lambda v, e=e: power(v, e)) for e in (range(n) if inc else range(n - 1, -1, -1))]
    return I.arr_new(AR.concat([AR.newaxis(c, 1) for c in cols], 1))


@reg("numpy.dstack")
def dstack(I, seq):
    out = []
    for a in N.seq_arrays(I, seq):
        if a.ndim == 1:
            a = AR.newaxis(AR.newaxis(a, 0), 2)
        elif a.ndim == 2:
            a = AR.newaxis(a, 2)
        out.append(a)
    return I.arr_new(AR.concat(out, 2))


@reg("numpy.block")
def block(I, x):
    def depth(v):
        return 1 + depth(I.iterate(v)[0]) if is_list(I, v) else 0
    d = depth(x)
    if d > 2 or d == 0:
        raise Unknown("block")
    rows = [I.iterate(r) for r in I.iterate(x)] if d == 2 else [I.iterate(x)]
    out = [FUN["numpy.hstack"](I, I.new(ListO(r))) for r in rows]
    return FUN["numpy.vstack"](I, I.new(ListO(out))) if d == 2 else out[0]


@reg("numpy.kron")
def kron(I, a, b):
    x, dt = const1(I, a, "kron")
    y, _ = const1(I, b, "kron")
    return I.arr_new(from_list1([mul(u, v) for u in x for v in y], dt))


@reg("numpy.ix_")
def ix_(I, *seqs):
    out = []
    for d, s in enumerate(seqs):
        a = I.to_arr(s)
        if a.ndim != 1 or a.dt == "bool":
            raise Unknown("ix_")
        for k in range(len(seqs)):
            if k != d:
                a = AR.newaxis(a, k)
        out.append(I.arr_new(a))
    return tuple(out)


@reg("numpy.roll")
def roll(I, x, shift, axis=None):
    ref = x if I.is_arr(x) else I.arr_new(I.to_arr(x))
    a = I.to_arr(ref)
    if axis is None and a.ndim != 1:
        raise Unknown("roll of a flattened matrix")
    d = 0 if axis is None else intval(axis) % a.ndim
    k = intval(shift)
    n = AR.axlen(a.ax[d])
    if k == 0:
        return I.arr_new(a)
    cut = n - P(k) if k > 0 else P(-k)
    return I.arr_new(AR.concat([AR.take_slice(a, d, cut, None), AR.take_slice(a, d, ZERO, cut)], d))


@reg("numpy.isin", "numpy.in1d")
def isin(I, x, xs, invert=None):
    a = I.to_arr(x)
    b = I.to_arr(xs) if I.is_arr(xs) or not is_list(I, xs) else I.to_arr(xs)
    cs, _ = const1(I, xs if not I.is_arr(xs) or b.ndim == 1 else I.arr_new(AR.reshape(b, [P(-1)])), "isin")

    def f(v):
        r = ZERO
        for c in cs:
            r = N.b_or(r, compare("==", v, c))
        return ONE - r if invert is not None and boolval(I, invert) else r
    return out_val(I, a.map(f, "bool"))


@reg("numpy.searchsorted", "ndarray.searchsorted")
def searchsorted(I, a, v, side=None):
    cs, _ = const1(I, a, "searchsorted")
    op = "<=" if side == "right" else "<"
    x = I.to_arr(v)
    return out_val(I, x.map(lambda t: AR.psum([compare(op, c, t) for c in cs]), "int"))


@reg("numpy.digitize")
def digitize(I, x, bins, right=None):
    r = right is not None and boolval(I, right)
    cs, _ = const1(I, bins, "digitize")
    if any(with_facts(compare("<=", u, v)).const() != 1 for u, v in zip(cs, cs[1:])):
        raise Unknown("digitize with decreasing bins")
    return out_val(I, I.to_arr(x).map(lambda t: AR.psum([compare("<" if r else "<=", c, t) for c in cs]), "int"))


@reg("numpy.interp")
def np_interp(I, x, xp, fp, left=None, right=None):
    if left is not None or right is not None:
        raise Unknown("interp bounds")
    xs, _ = const1(I, xp, "interp")
    fs, _ = const1(I, fp, "interp")

    def f(t):
        r = fs[-1]
        for u, v, a, b in reversed(list(zip(xs, xs[1:], fs, fs[1:]))):
            r = blend(compare("<", t, v), a + mul(mul(b - a, t - u), power(v - u, -1)), r)
        return blend(compare("<", t, xs[0]), fs[0], r)
    return out_val(I, I.to_arr(x).map(f))


@reg("numpy.convolve")
def convolve(I, a, b, mode=None):
    if mode not in (None, "full"):
        raise Unknown("convolve mode")
    x, dt = const1(I, a, "convolve")
    y, _ = const1(I, b, "convolve")
    return I.arr_new(from_list1([AR.psum([mul(x[i], y[k - i]) for i in range(len(x)) if 0 <= k - i < len(y)]) for k in range(len(x) + len(y) - 1)], dt))


@reg("numpy.bincount")
def bincount(I, x, weights=None, minlength=None):
    cs, _ = const1(I, x, "bincount")
    ks = [c.const() for c in cs]
    if None in ks:
        raise Unknown("bincount")
    w = [ONE] * len(ks) if weights is None else const1(I, weights)[0]
    n = max([int(k) + 1 for k in ks] + [0 if minlength is None else intval(minlength)])
    return I.arr_new(from_list1([AR.psum([v for k, v in zip(ks, w) if k == i]) for i in range(n)], "int" if weights is None else "float"))


@reg("numpy.apply_along_axis")
def apply_along_axis(I, f, axis, a, *args):
    x = I.to_arr(a)
    d = intval(axis) % x.ndim
    if x.ndim != 2:
        raise Unknown("apply_along_axis")
    x = AR.explode(x, 1 - d)
    out = []
    for k in range(len(x.ax[1 - d])):
        out.append(I.to_arr(I.call(f, [I.arr_new(AR.take_int(x, 1 - d, P(k)))] + list(args), {})))
    if any(o.ndim for o in out):
        return I.arr_new(AR.concat([AR.newaxis(o, 1 if d == 0 else 0) for o in out], 1 if d == 0 else 0))
    return I.arr_new(AR.concat([AR.newaxis(o, 0) for o in out], 0))


@reg("numpy.fromiter")
def fromiter(I, it, dtype=None, count=None):
    return I.arr_new(cast(I.to_arr(I.new(ListO(I.iterate(it)))), N.dtype_of(I, dtype, "float")))


@reg("numpy.ma.getdata")
def getdata(I, a):
    o = I.obj(a)
    return I.arr_new(o.arr) if isinstance(o, ArrO) and o.mask is not None else a


@reg("numpy.ma.getmaskarray", "numpy.ma.getmask")
def getmask(I, a):
    o = I.obj(a)
    if isinstance(o, ArrO) and o.mask is not None:
        return I.arr_new(o.mask)
    x = I.to_arr(a)
    return I.arr_new(x.map(lambda v: ZERO, "bool"))


@reg("numpy.iterable")
def iterable(I, x):
    try:
        I.iterate(x)
        return boolsc(ONE)
    except (Raised, Exception) as e:
        if type(e).__name__ in ("Raised", "AbsRaise"):
            return boolsc(ZERO)
        if I.is_arr(x) or is_list(I, x):
            return boolsc(ONE)
        raise


KIND_OF = {"float": {"float", "floating", "inexact", "number", "float64", "generic"}, "int": {"int", "integer", "signedinteger", "number", "int64", "int_", "generic"},
           "bool": {"bool", "bool_", "generic"}}


@reg("numpy.issubdtype")
def issubdtype(I, d, t):
    if isinstance(d, Ext) and isinstance(t, Ext):
        k = N.dtype_of(I, d, None)
        s = t.name.split(".")[-1]
        if k in KIND_OF:
            if s in ("floating", "inexact", "integer", "signedinteger", "number", "generic", "bool", "bool_", "complexfloating"):
                return boolsc(P(s in KIND_OF[k]))
    return I.unknown("issubdtype")


def nanred(kind):
    """nan-reductions: the plain ones when no entry can be nan."""
    def f(I, x, axis=None, keepdims=None):
        a = I.to_arr(x)
        if any(N.is_nan(v) or "nan" in str(v) for v in a.cells.values()):
            raise Unknown("nan-reduction")
        k = {}
        if axis is not None:
            k["axis"] = axis
        if keepdims is not None:
            k["keepdims"] = keepdims
        return FUN["numpy." + kind](I, x, **k)
    return f


def at_op(op):
    """ufunc.at: one update after another."""
    def f(I, a, idx, *v):
        cs, _ = const1(I, idx if not isinstance(idx, Sc) else I.new(ListO([idx])), "indices")
        vals = I.to_arr(v[0]) if v else None
        for j, c in enumerate(cs):
            i = Sc(c, "int")
            x = I.wrap(AR.take_int(vals, 0, P(j))) if vals is not None and vals.ndim else v[0]
            I.setitem(a, i, binop(I, op, I.getitem(a, i), x))
    return f


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div")):
    FUN[f"numpy.{_n}.at"] = at_op(_o)
    FUN[f"numpy.{_n}.outer"] = (lambda o: lambda I, a, b: binop(
        I, o, I.arr_new(AR.newaxis(I.to_arr(a), 1)), I.arr_new(AR.newaxis(I.to_arr(b), 0))) if I.to_arr(a).ndim == I.to_arr(b).ndim == 1 else I.unknown("outer"))(_o)
for _n, _o in (("add", "numpy.sum"), ("multiply", "numpy.prod"), ("maximum", "numpy.max"), ("minimum", "numpy.min"), ("logical_and", "numpy.all"),
               ("logical_or", "numpy.any")):
    FUN[f"numpy.{_n}.reduce"] = (lambda o: lambda I, a, axis=None: FUN[o](I, a, axis=Sc(ZERO, "int") if axis is None else axis))(_o)
FUN["numpy.add.accumulate"] = lambda I, a: FUN["numpy.cumsum"](I, a)


@reg("numpy.put")
def np_put(I, a, idx, v):
    cs, _ = const1(I, idx if not isinstance(idx, Sc) else I.new(ListO([idx])), "indices")
    vals = I.to_arr(v)
    for j, c in enumerate(cs):
        I.setitem(a, Sc(c, "int"), I.wrap(AR.take_int(vals, 0, P(j))) if vals.ndim else v)


@reg("numpy.putmask", "numpy.place")
def np_putmask(I, a, m, v):
    if I.to_arr(v).ndim:
        raise Unknown("putmask")
    I.setitem(a, m, v)


@reg("numpy.tensordot")
def tensordot(I, a, b, axes=None):
    x, y = I.to_arr(a), I.to_arr(b)
    if axes is None:
        k = 2
    elif isinstance(axes, Sc):
        k = intval(axes)
    else:
        pa, pb = I.iterate(axes)
        pa = [intval(t) % x.ndim for t in (I.iterate(pa) if not isinstance(pa, Sc) else [pa])]
        pb = [intval(t) % y.ndim for t in (I.iterate(pb) if not isinstance(pb, Sc) else [pb])]
        if len(pa) != 1:
            raise Unknown("tensordot over several axes")
        return out_val(I, AR.contract(x, pa[0], y, pb[0]))
    if k == 1:
        return out_val(I, AR.contract(x, x.ndim - 1, y, 0))
    if k == x.ndim == y.ndim:
        return FUN["numpy.sum"](I, binop(I, "Mult", I.arr_new(x), I.arr_new(y)))
    raise Unknown("tensordot")


@reg("numpy.vdot")
def vdot(I, a, b):
    x, y = I.to_arr(a), I.to_arr(b)
    if x.ndim != y.ndim:
        raise Unknown("vdot")
    return FUN["numpy.sum"](I, binop(I, "Mult", I.arr_new(x), I.arr_new(y)))


class IndexTrick(Stub):
    """numpy.r_ and numpy.c_."""
    clsname = "index trick"

    def __init__(self, cols):
        self.cols = cols

    def getitem(self, I, i):
        parts = []
        for x in (i if isinstance(i, tuple) else (i,)):
            if isinstance(x, SliceV):
                if self.cols:
                    raise Unknown("c_ with a slice")
                x = FUN["numpy.arange"](I, *([x.lo or Sc(ZERO, "int"), x.hi] + ([x.st] if x.st is not None else [])))
            if isinstance(x, str):
                raise Unknown("r_ with directives")
            a = I.to_arr(x)
            if a.ndim == 0:
                a = AR.newaxis(a, 0)
            if self.cols and a.ndim == 1:
                a = AR.newaxis(a, 1)
            parts.append(a)
        return I.arr_new(AR.concat(parts, 1 if self.cols else 0))


for _k in ("sum", "max", "min", "mean", "prod", "std", "var"):
    FUN["numpy.nan" + _k] = nanred(_k)
CONST = {"numpy.r_": IndexTrick(False), "numpy.c_": IndexTrick(True)}


@reg("numpy.geomspace")
def geomspace(I, start, stop, n=None, **k):
    a, b = num(start), num(stop)
    m = 50 if n is None else intval(n)
    if k or m < 2:
        raise Unknown("geomspace")
    return I.arr_new(from_list1([mul(a, power(mul(b, power(a, -1)), Q(i) / (m - 1))) if i else a for i in range(m)], "float"))


@reg("numpy.logspace")
def logspace(I, start, stop, n=None, endpoint=None, base=None):
    lin = FUN["numpy.linspace"](I, start, stop, *([Sc(P(50), "int")] if n is None else [n]), **({} if endpoint is None else {"endpoint": endpoint}))
    return FUN["numpy.power"](I, Sc(P(10), "float") if base is None else base, lin)
