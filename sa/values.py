"""Abstract values and the abstract heap."""
from .terms import P, Poly, ONE, ZERO, blend, toplevel_bools, with_facts, Facts, set_facts, atom, gt0, is_int_poly, b_name, restrict
from . import arr as AR
from .arr import Arr


class Val:
    pass


class Sc(Val):
    """Scalar number: term and kind (int, float, bool, npint, npfloat, npbool)."""
    __slots__ = ("p", "k")

    def __init__(self, p, k):
        self.p, self.k = p, k

    def __eq__(self, o):
        return isinstance(o, Sc) and self.p == o.p and self.k == o.k

    def __hash__(self):
        return hash((self.p, self.k))

    def __repr__(self):
        return f"{self.k}:{self.p}"


class Ref(Val):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and self.a == o.a

    def __hash__(self):
        return hash(("ref", self.a))

    def __repr__(self):
        return f"@{self.a}"


class Ite(Val):
    __slots__ = ("c", "x", "y")

    def __init__(self, c, x, y):
        self.c, self.x, self.y = c, x, y

    def __eq__(self, o):
        return isinstance(o, Ite) and self.c == o.c and self.x == o.x and self.y == o.y

    def __hash__(self):
        return hash((self.c, "ite"))

    def __repr__(self):
        return f"ite({self.c}, {self.x}, {self.y})"


class Opq(Val):
    """A value the analysis does not model, with the reason."""
    n = 0

    def __init__(self, why):
        self.why = why
        Opq.n += 1
        self.id = Opq.n

    def __repr__(self):
        return f"?({self.why})"


class SliceV(Val):
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class RangeV(Val):
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def length(self):
        c = self.st.const()
        if c == 1:
            d = self.hi - self.lo
            k = d.const()
            if k is not None:
                return P(max(0, int(k)))
            return d
        lo, hi = self.lo.const(), self.hi.const()
        if c is None or lo is None or hi is None:
            raise AR.Unknown("range with symbolic step")
        return P(len(range(int(lo), int(hi), int(c))))


class FuncV(Val):
    def __init__(self, node, frame, defaults, kwdefaults, module, qual, cls=None):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.module, self.qual, self.cls = module, qual, cls
        self.kind = "func"      # func, static, class, property
        self.fset = None

    def __repr__(self):
        return f"<func {self.qual}>"


class BoundV(Val):
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and self.f is o.f and self.self_ == o.self_

    def __hash__(self):
        return hash(("bound", id(self.f)))

    def __repr__(self):
        return f"<bound {self.f}>"


class ClassV(Val):
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def __repr__(self):
        return f"<class {self.name}>"


class ModV(Val):
    def __init__(self, name, frame):
        self.name, self.frame = name, frame


class Ext(Val):
    """External (library) object known by its dotted name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<{self.name}>"


class ExtM(Val):
    """Method of a library value, e.g. array.sum."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SuperV(Val):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class StrSym(Val):
    """String known only symbolically."""

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, StrSym) and self.t == o.t

    def __hash__(self):
        return hash(("str", self.t))

    def __repr__(self):
        return f"str{self.t}"


class ExcV(Val):
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class Stub(Val):
    """Object supplied by a rule: Python object with methods get(I, name), optionally call(I, args, kw)."""
    clsname = "stub"

    def get(self, I, name):
        raise KeyError(name)


class PyFn(Val):
    """Function supplied by a rule: f(I, args, kwargs)."""

    def __init__(self, f, name="pyfn"):
        self.f, self.name = f, name


# ---------------------------------------------------------------- heap objects (treated as immutable)
class ArrO:
    """Array storage: own content, or a view (base address, index spec)."""
    __slots__ = ("arr", "base", "how", "mask", "why")

    def __init__(self, arr=None, base=None, how=None, mask=None, why=None):
        self.arr, self.base, self.how, self.mask, self.why = arr, base, how, mask, why


class Rep:
    """`size` consecutive list items, the k-th being val with atom var replaced by k."""
    __slots__ = ("size", "val", "var")

    def __init__(self, size, val, var):
        self.size, self.val, self.var = size, val, var

    def __eq__(self, o):
        return isinstance(o, Rep) and (self.size, self.val, self.var) == (o.size, o.val, o.var)

    def __hash__(self):
        return hash(self.size)

    def __repr__(self):
        return f"{self.val} x {self.size}"


class Hist:
    """An unknown prefix of a list with symbolic length; el(k) gives the k-th item."""

    def __init__(self, size, el):
        self.size, self.el = size, el


class ListO:
    __slots__ = ("items", "alt", "tok")

    def __init__(self, items, alt=None):
        self.items = tuple(items)
        self.alt = alt            # None or (cond, items_true, items_false)

    def like(self, items, alt=None):
        return type(self)(items, alt)


class SetO(ListO):
    """Set or frozenset: items pairwise different."""
    __slots__ = ()


class DequeO(ListO):
    __slots__ = ()


class DictO:
    __slots__ = ("items", "factory")

    def __init__(self, items, factory=None):
        self.items = dict(items)
        self.factory = factory    # what a defaultdict calls for a missing key

    def like(self, items):
        return DictO(items, self.factory)


class InstO:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class FrameO:
    __slots__ = ("vars", "parent", "kind")

    def __init__(self, vars, parent, kind="func"):
        self.vars, self.parent, self.kind = vars, parent, kind


class State:
    __slots__ = ("heap", "facts", "guards", "dead")

    def __init__(self, heap=None, facts=None, guards=None):
        self.heap = heap if heap is not None else {}
        self.facts = facts or Facts()
        self.guards = guards or []

    def fork(self, c=None):
        s = State(dict(self.heap), self.facts.copy(), list(self.guards))
        if c is not None:
            s.assume(c)
        return s

    def assume(self, c):
        """Assume the boolean poly c holds."""
        k = c.const()
        if k is not None:
            return
        self.guards.append(c)
        assume_into(self.facts, c)


def assume_into(f, c):
    neg = ONE - c
    if len(c.t) == 1:
        (m, k), = c.t.items()
        if k == 1:
            for a, _ in m:
                _lit(f, a, 1)
            return
    if len(neg.t) == 1:
        (m, k), = neg.t.items()
        if k == 1 and len(m) == 1:
            _lit(f, m[0][0], 0)
            return
    bs = toplevel_bools(c)
    if len(bs) <= 6:
        for a in bs:
            if restrict(c, a, 1).const() == 0:
                _lit(f, a, 0)
            elif restrict(c, a, 0).const() == 0:
                _lit(f, a, 1)


def _lit(f, a, v):
    f.lits[a] = v
    t = atom(a)
    if t[0] == "iv":
        p = t[2]
        if t[1] == ">":
            if v:
                f.ge.append(p - 1 if is_int_poly(p) else p)
            else:
                f.ge.append(-p)
        elif v:
            f.ge += [p, -p]
    elif t[0] == "ivb":
        assume_into(f, t[1] if v else ONE - t[1])
