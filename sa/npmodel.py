"""Abstract semantics of the Python builtins and the library functions (numpy, math, scipy, re) the package uses."""
import itertools
from .terms import (F32, Narrow, single, P, Poly, ONE, ZERO, NAN, INF, PI, Q, A, aid, atom, deep_atoms, blend, compare, gt0, eq0, fn, power, mul,
                    rawmul, subst, with_facts, toplevel_bools, restrict, b_name, bool_atom, prove_ge0, prove_gt0, mk_sum,
                    mk_red, declare, sym, ix, is_int_poly, TooBig, atom_poly, b_or, has_ext, is_nan)
from . import arr as AR
from .arr import Arr, Unknown, Raised, from_fn
from .values import *

FUN = {}
CONST = {"numpy.pi": Sc(PI, "float"), "math.pi": Sc(PI, "float"), "numpy.inf": Sc(INF, "float"), "math.inf": Sc(INF, "float"),
         "numpy.nan": Sc(NAN, "float"), "math.nan": Sc(NAN, "float"), "numpy.newaxis": Ext("numpy.newaxis"),
         "numpy.e": Sc(A(("E",)), "float"), "math.e": Sc(A(("E",)), "float"), "scipy.constants.pi": Sc(PI, "float")}
ALIAS = {"numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs",
         "numpy.matmul": "numpy.dot", "numpy.asarray": "numpy.asarray", "numpy.trapezoid": "numpy.trapz",
         "scipy.integrate.trapezoid": "numpy.trapz", "scipy.integrate.trapz": "numpy.trapz", "numpy.row_stack": "numpy.vstack",
         "numpy.divide": "numpy.true_divide", "math.fabs": "numpy.abs", "numpy.float_power": "numpy.power",
         "scipy.special.gamma": "math.gamma", "math.pow": "numpy.power", "numpy.product": "numpy.prod",
         "numpy.atleast_1d": "numpy.atleast_1d", "numpy.bitwise_and": "numpy.logical_and",
         "numpy.bitwise_or": "numpy.logical_or", "numpy.invert": "numpy.logical_not"}


def reg(*names):
    def d(f):
        for n in names:
            FUN[n] = f
        return f
    return d


def constant(full):
    c = CONST.get(full)
    return c if c is not None else pymodel.CONST.get(full)


BUILTIN_NAMES = """len range abs min max sum sorted list tuple dict set frozenset int float bool str zip enumerate isinstance
issubclass hasattr getattr setattr callable print type property staticmethod classmethod super any all map filter reversed
round open repr iter next object complex divmod pow id vars slice format ord chr hash""".split()


def install(I):
    from .interp import EXC_BASES
    for n in BUILTIN_NAMES + [k for k in EXC_BASES if "." not in k]:
        I.builtins[n] = Ext("builtins." + n)
    I.builtins["NotImplemented"] = Ext("builtins.NotImplemented")
    I.builtins["Ellipsis"] = Ellipsis
    I.sorted = {}
    I.eig = {}


def NPK(k):
    return k if k.startswith("np") else "np" + k


def guard_now(I, since=0):
    g = ONE
    for x in I.st.guards[since:]:
        g = b_name(rawmul(g, x))
    return g


# ---------------------------------------------------------------- operators
def elem(op):
    if op == "Add":
        return lambda x, y: x + y
    if op == "Sub":
        return lambda x, y: x - y
    if op == "Mult":
        return mul
    if op == "Div":
        return lambda x, y: mul(x, power(y, P(-1)))
    if op == "Pow":
        return power
    if op == "FloorDiv":
        return lambda x, y: fn("div", x, y)
    if op == "Mod":
        return lambda x, y: fn("mod", x, y)
    if op == "BitAnd":
        return rawmul
    if op == "BitOr":
        return b_or
    if op == "BitXor":
        return lambda x, y: x + y - rawmul(x, y) * 2
    raise Unknown(f"operator {op}")


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul", "Mod": "mod",
          "FloorDiv": "floordiv", "BitAnd": "and", "BitOr": "or"}


def res_dt(op, ka, kb):
    ka, kb = ka.replace("np", ""), kb.replace("np", "")
    if op == "Div":
        return "float"
    if "float" in (ka, kb):
        return "float"
    if op in ("BitAnd", "BitOr", "BitXor") and ka == kb == "bool":
        return "bool"
    if ka == kb == "bool" and op in ("Add", "Mult"):
        return "int"
    return "int"


def is_inst(I, v):
    return isinstance(v, Ref) and isinstance(I.obj(v), InstO)


def binop(I, op, a, b):
    if isinstance(a, Ite) or isinstance(b, Ite):
        return I.lift(lambda x, y: binop(I, op, x, y), a, b)
    if isinstance(a, Opq):
        return Opq(a.why)
    if isinstance(b, Opq):
        return Opq(b.why)
    if isinstance(a, Sc) and isinstance(b, Sc):
        return sc_op(I, op, a, b)
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, Stub) and hasattr(x, "binop"):
            r = x.binop(I, op, y, sw)
            if r is not None:
                return r
    if is_inst(I, a) or is_inst(I, b):
        if is_inst(I, a):
            f = I.class_lookup(I.obj(a).cls, f"__{DUNDER.get(op)}__")
            if f is not None:
                return I.call_func(f, [a, b], {})
        if is_inst(I, b):
            f = I.class_lookup(I.obj(b).cls, f"__r{DUNDER.get(op)}__")
            if f is not None:
                return I.call_func(f, [b, a], {})
        return type_error(f"unsupported operand type(s) for {op}")
    arr = I.is_arr(a) or I.is_arr(b)
    if arr:
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return type_error("unsupported operand")
        if op == "MatMult":
            return dot(I, a, b)
        return arr_op(I, op, a, b)
    if isinstance(a, (str, StrSym)) or isinstance(b, (str, StrSym)):
        if op == "Add" and isinstance(a, (str, StrSym)) and isinstance(b, (str, StrSym)):
            return I.str_join([a, b])
        if op == "Mult":
            s, n = (a, b) if isinstance(a, (str, StrSym)) else (b, a)
            if isinstance(s, str) and isinstance(n, Sc) and n.p.const() is not None:
                return s * int(n.p.const())
            return StrSym("fmt", "repeat")
        if op == "Mod":
            if isinstance(a, str):
                v = b if isinstance(b, tuple) else (b,)
                if all(plain(x) for x in v):
                    try:
                        return a % tuple(pyval(x) for x in v)
                    except (TypeError, ValueError) as e:
                        return type_error(str(e))
            return StrSym("fmt", "percent")
        return type_error("unsupported operand for str")
    la, lb = is_list(I, a), is_list(I, b)
    if op == "Add" and not is_set(I, a) and not is_set(I, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if la and lb:
            oa, ob = I.obj(a), I.obj(b)
            if oa.alt or ob.alt:
                def al(o):
                    return o.alt if o.alt else (ONE, o.items, o.items)
                if oa.alt and ob.alt and oa.alt[0] != ob.alt[0]:
                    raise Unknown("sum of alternative lists")
                c = (oa.alt or ob.alt)[0]
                _, x1, y1 = al(oa)
                _, x2, y2 = al(ob)
                return I.new(ListO((), (c, x1 + x2, y1 + y2)))
            return I.new(ListO(oa.items + ob.items))
    if op == "Mult":
        for s, n in ((a, b), (b, a)):
            if isinstance(n, Sc) and (isinstance(s, tuple) or is_list(I, s)) and not is_set(I, s):
                return seq_repeat(I, s, n)
    if op == "BitOr" and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(I.obj(a), DictO) and isinstance(I.obj(b), DictO):
        return I.new(DictO({**I.obj(a).items, **I.obj(b).items}))
    if op in pymodel.SET_BIN and (is_set(I, a) or is_set(I, b)):
        if is_set(I, a) and is_set(I, b):
            return FUN["set." + pymodel.SET_BIN[op]](I, a, b)
        return type_error(f"unsupported operand type(s) for {op}")
    if la and lb and op in pymodel.SET_BIN:
        raise Unknown("operation on views of dictionaries")
    for x in (a, b):
        if not (x is None or isinstance(x, (Sc, tuple, FuncV, BoundV, ClassV)) or isinstance(x, Ref) and isinstance(I.obj(x), (ListO, DictO))):
            return I.unknown(f"{op} of {type(x).__name__}")
    return type_error(f"unsupported operand type(s) for {op}")


def type_error(msg):
    raise Raised("TypeError", msg)


def is_set(I, v):
    return isinstance(v, Ref) and isinstance(I.obj(v), SetO)


def is_list(I, v):
    return isinstance(v, Ref) and isinstance(I.obj(v), ListO)


def seq_repeat(I, s, n):
    if n.k in ("float", "npfloat"):
        return type_error("can't multiply sequence by non-int")
    c = with_facts(n.p).const()
    items = s if isinstance(s, tuple) else I.obj(s).items
    if not isinstance(s, tuple) and I.obj(s).alt:
        raise Unknown("repeat of alternative list")
    if c is not None:
        out = tuple(items) * max(0, int(c))
        return out if isinstance(s, tuple) else I.new(ListO(out))
    flat = [x.val if isinstance(x, Rep) else x for x in items]
    if not flat:
        return s
    if any(isinstance(x, Hist) for x in items) or any(x != flat[0] for x in flat[1:]):
        raise Unknown("repetition of a list a symbolic number of times")
    tot = ZERO
    for x in items:
        tot = tot + (x.size if isinstance(x, Rep) else ONE)
    size = rawmul(tot, n.p)
    if not prove_ge0(size):
        size = blend(gt0(size), size, ZERO)
    return I.new(ListO([Rep(size, flat[0], ("lv", "$r"))]))


def sc_op(I, op, a, b):
    np_ = a.k.startswith("np") or b.k.startswith("np")
    if op == "MatMult":
        return type_error("matmul of scalars")
    dt = res_dt(op, a.k, b.k)
    if op in ("Div", "FloorDiv", "Mod") and not np_ and with_facts(b.p).const() == 0:
        raise Raised("ZeroDivisionError", "division by zero")
    if op == "Pow" and dt == "int" and b.p.const() is not None and b.p.const() < 0:
        dt = "float"
    if op in ("LShift", "RShift"):
        raise Unknown("shift")
    r = elem(op)(a.p, b.p)
    return Sc(r, NPK(dt) if np_ else dt)


def mask_arr(I, v):
    """(Arr, mask or None)"""
    if I.is_arr(v):
        o = I.obj(v)
        if o.why is not None:
            raise Unknown(o.why)
        if o.mask is not None:
            return o.arr, o.mask
    return I.to_arr(v), None


def arr_op(I, op, a, b):
    x, mx = mask_arr(I, a)
    y, my = mask_arr(I, b)
    f = elem(op)
    r = AR.mapn(f, [x, y], res_dt(op, x.dt, y.dt))
    if mx is not None or my is not None:
        m = [z for z in (mx, my) if z is not None]
        if op == "Div":
            m.append(y.map(lambda v: eq0(v), "bool"))
        m = AR.mapn(lambda *v: or_all(v), m + [r.map(lambda v: ZERO, "bool")], "bool")
        return I.new(ArrO(r, mask=m))
    return out_val(I, r, a, b)


def or_all(vs):
    r = ZERO
    for v in vs:
        r = b_or(r, v)
    return r


def out_val(I, r, *src):
    return I.wrap(r) if r.ndim == 0 else I.arr_new(r)


CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}


def boolsc(p):
    return Sc(p if isinstance(p, Poly) else P(bool(p)), "bool")


def unknown_bool(I, why):
    o = I.unknown(why)
    return Sc(bool_atom("unknown", P(o.id)), "bool")


def compare_vals(I, op, a, b):
    if isinstance(a, Ite) or isinstance(b, Ite):
        return I.lift(lambda x, y: compare_vals(I, op, x, y), a, b)
    if op in ("Is", "IsNot"):
        r = identical(I, a, b)
        return boolsc(r if op == "Is" else ONE - r)
    if op in ("In", "NotIn"):
        r = contains(I, a, b)
        return boolsc(r if op == "In" else ONE - r)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return Opq((a if isinstance(a, Opq) else b).why)
    if isinstance(a, Sc) and isinstance(b, Sc):
        np_ = a.k.startswith("np") or b.k.startswith("np")
        return Sc(compare(CMP[op], a.p, b.p), "npbool" if np_ else "bool")
    if I.is_arr(a) or I.is_arr(b):
        if a is None or b is None or isinstance(a, (str, StrSym)) or isinstance(b, (str, StrSym)):
            if op in ("Eq", "NotEq"):
                return boolsc(op == "NotEq")
            return type_error("comparison not supported")
        x, mx = mask_arr(I, a)
        y, my = mask_arr(I, b)
        if mx is not None or my is not None:
            raise Unknown("comparison of masked arrays")
        return out_val(I, AR.mapn(lambda u, v: compare(CMP[op], u, v), [x, y], "bool"))
    if is_set(I, a) and is_set(I, b):
        return pymodel.set_compare(I, op, a, b)
    if op in ("Eq", "NotEq"):
        r = equal(I, a, b)
        return boolsc(r if op == "Eq" else ONE - r)
    if is_list(I, a) and is_list(I, b) and not is_set(I, a) and not is_set(I, b):
        a, b = tuple(I.iterate(a)), tuple(I.iterate(b))
    if isinstance(a, str) and isinstance(b, str):
        return boolsc({"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op])
    if isinstance(a, tuple) and isinstance(b, tuple):
        lt = ZERO
        eq = ONE
        for x, y in zip(a, b):
            if eq.const() == 0:
                break
            if isinstance(x, Sc) and isinstance(y, Sc):
                lt = b_or(lt, rawmul(eq, compare("<", x.p, y.p)))
            else:
                e = equal(I, x, y)
                if with_facts(e).const() != 1:
                    lt = b_or(lt, rawmul(eq, I.truth(compare_vals(I, "Lt", x, y))))
                eq = rawmul(eq, e)
                continue
            eq = rawmul(eq, compare("==", x.p, y.p))
        if len(a) < len(b):
            le, ltt = lt + eq - rawmul(lt, eq), b_or(lt, eq)
        elif len(a) == len(b):
            le, ltt = b_or(lt, eq), lt
        else:
            le, ltt = lt, lt
        return boolsc({"Lt": ltt, "LtE": le, "Gt": ONE - le, "GtE": ONE - ltt}[op])
    if isinstance(a, StrSym) or isinstance(b, StrSym):
        return unknown_bool(I, "order of strings")
    if is_inst(I, a) or is_inst(I, b) or any(isinstance(x, Stub) for x in (a, b)):
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}[op])):
            f = I.class_lookup(I.obj(x).cls, {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[o]) if is_inst(I, x) else None
            if f is not None:
                return I.call_func(f, [x, y], {})
        if any(isinstance(x, Stub) for x in (a, b)) or any(I.library_based(I.obj(x).cls) for x in (a, b) if is_inst(I, x)):
            return unknown_bool(I, "order of unknown objects")
    return type_error(f"'{op}' not supported between instances")


def identical(I, a, b):
    if isinstance(a, Opq) or isinstance(b, Opq):
        return bool_atom("unknown", P((a if isinstance(a, Opq) else b).id))
    if a is b:
        return ONE
    if a is None or b is None:
        return ZERO
    if isinstance(a, Sc) and isinstance(b, Sc):
        if {a.k, b.k} == {"bool"}:
            return compare("==", a.p, b.p)
        return ZERO if a.k != b.k else compare("==", a.p, b.p)
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        return equal(I, a, b)
    if type(a) is type(b) and isinstance(a, (Ref, Ext, BoundV)):
        return P(a == b)
    if isinstance(a, str) and isinstance(b, str):
        return P(a == b)
    return ZERO


def equal(I, a, b):
    if isinstance(a, Ite):
        return blend(a.c, equal(I, a.x, b), equal(I, a.y, b))
    if isinstance(b, Ite):
        return blend(b.c, equal(I, a, b.x), equal(I, a, b.y))
    if isinstance(a, Opq) or isinstance(b, Opq):
        return bool_atom("unknown", P((a if isinstance(a, Opq) else b).id))
    if isinstance(a, Sc) and isinstance(b, Sc):
        return compare("==", a.p, b.p)
    if a is None or b is None:
        return P(a is b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return ZERO
        r = ONE
        for x, y in zip(a, b):
            r = rawmul(r, equal(I, x, y))
        return r
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return equal(I, (a.lo, a.hi, a.st), (b.lo, b.hi, b.st))
    if isinstance(a, RangeV) and isinstance(b, RangeV):
        return equal(I, tuple(I.iterate(a)), tuple(I.iterate(b)))
    if isinstance(a, str) and isinstance(b, str):
        return P(a == b)
    if isinstance(a, (str, StrSym)) and isinstance(b, (str, StrSym)):
        if a == b:
            return ONE
        return bool_atom("streq", str(a), str(b))
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return ONE
        oa, ob = I.obj(a), I.obj(b)
        if isinstance(oa, SetO) or isinstance(ob, SetO):
            return pymodel.set_compare(I, "Eq", a, b).p if isinstance(oa, SetO) and isinstance(ob, SetO) else ZERO
        if isinstance(oa, DictO) and isinstance(ob, DictO):
            if set(oa.items) != set(ob.items) or any(isinstance(k, Opq) for k in oa.items):
                if any(isinstance(k, Opq) for o in (oa, ob) for k in o.items):
                    raise Unknown("comparison of dictionaries")
                return ZERO
            r = ONE
            for k in oa.items:
                r = rawmul(r, equal(I, oa.items[k], ob.items[k]))
            return r
        for x, y in ((a, b), (b, a)):
            o = I.obj(x)
            if isinstance(o, InstO):
                f = I.class_lookup(o.cls, "__eq__")
                if f is not None:
                    return I.truth(I.call_func(f, [x, y], {}))
                if I.library_based(o.cls):
                    raise Unknown("comparison of objects of a class with library bases")
        if isinstance(oa, ListO) and isinstance(ob, ListO):
            if oa.alt or ob.alt or any(isinstance(x, (Rep, Hist)) for x in oa.items + ob.items):
                raise Unknown("comparison of symbolic lists")
            return equal(I, oa.items, ob.items)
        return ZERO
    for x, y in ((a, b), (b, a)):
        if isinstance(x, TypeOf) and not isinstance(y, (ClassV, TypeOf, Ext)):
            return ZERO
        if isinstance(x, TypeOf):
            if x.names is None:
                raise Unknown("type of unknown")
            return P(isinstance(y, (TypeOf, Ext)) and x == y)
        if isinstance(x, Ext) and x.name.startswith("numpy.dtype.") and x.name.count(".") == 2:
            k = dtype_of(I, y, None) if isinstance(y, (Ext, str)) else None
            if k is None:
                return ZERO if y is None or isinstance(y, Sc) else I.truth(I.unknown("comparison of dtypes"))
            return P(k == x.name.split(".")[2])
    if isinstance(a, (Ext, ClassV, FuncV, BoundV)):
        return P(a == b if isinstance(a, (Ext, BoundV)) else a is b)
    return ZERO


def contains(I, x, c):
    if isinstance(c, (Opq,)) or isinstance(x, Opq):
        return bool_atom("unknown", P((c if isinstance(c, Opq) else x).id))
    if isinstance(c, str):
        if isinstance(x, str):
            return P(x in c)
        return bool_atom("contains", str(x), c)
    if isinstance(c, StrSym):
        h = getattr(I, "str_contains", None)
        if h is not None:
            r = h(I, x, c)
            if r is not None:
                return r
        return bool_atom("contains", str(x), str(c))
    if isinstance(c, Ref):
        o = I.obj(c)
        if isinstance(o, DictO):
            k = I.key(x)
            if k is None:
                raise Unknown("membership of unknown key")
            r = P(k in o.items)
            if k in o.items and isinstance(o.items[k], Ite):
                v = o.items[k]
                from .interp import UNDEF
                if v.y is UNDEF:
                    return v.c
                if v.x is UNDEF:
                    return ONE - v.c
            return r
        if isinstance(o, InstO):
            f = I.class_lookup(o.cls, "__contains__")
            if f is not None:
                return I.truth(I.call_func(f, [c, x], {}))
        if isinstance(o, ArrO):
            a = I.content(c)
            return AR.reduce_all(AR.mapn(lambda u, v: compare("==", u, v), [a, I.to_arr(x)], "bool"), "any")
    if isinstance(c, RangeV) and isinstance(x, Sc):
        if c.st.const() == 1:
            return rawmul(compare(">=", x.p, c.lo), compare("<", x.p, c.hi))
    r = ZERO
    for y in I.iterate(c):
        r = b_or(r, equal(I, x, y))
    return b_name(r)


# ---------------------------------------------------------------- attributes of library values
NDARRAY = {n: True for n in """all any argmax argmin argpartition argsort astype byteswap choose clip compress conj conjugate copy cumprod
cumsum diagonal dot dump dumps fill flatten getfield item max mean min nonzero partition prod put ravel repeat reshape resize round
searchsorted setfield setflags sort squeeze std sum swapaxes take tobytes tofile tolist trace transpose var view""".split()}
NDARRAY.update({n: False for n in "base ctypes data device dtype flags flat imag itemset itemsize mT nbytes ndim real shape size strides T".split()})
NDARRAY.update({n: True for n in """__abs__ __add__ __radd__ __iadd__ __sub__ __rsub__ __isub__ __mul__ __rmul__ __imul__ __truediv__ __rtruediv__
__itruediv__ __pow__ __rpow__ __ipow__ __matmul__ __neg__ __pos__ __lt__ __le__ __gt__ __ge__ __eq__ __ne__ __and__ __or__ __xor__ __invert__
__setitem__ __contains__ __bool__ __float__ __int__ __copy__ __deepcopy__ __array__ __reduce__ __class__ __repr__ __str__ __mod__
__floordiv__""".split()})
MUTATORS = set("partition put resize setfield setflags byteswap itemset __setitem__ __iadd__ __isub__ __imul__ __itruediv__ __ipow__".split())
MUTATING = {"numpy.put_along_axis", "numpy.random.shuffle", "numpy.place", "numpy.putmask", "numpy.put", "random.shuffle", "numpy.copyto"}
ARR_ATTRS = {"shape", "ndim", "size", "T", "dtype", "flat", "real", "mask", "data", "base", "nbytes", "flags"}


def ref_attr(I, o, ob, name):
    if isinstance(ob, ArrO):
        if ob.why is not None:
            return Opq(ob.why)
        a = ob.arr if ob.mask is not None else I.content(o)
        if name == "shape":
            return tuple(Sc(x, "int") for x in shape_of(a))
        if name == "ndim":
            return Sc(P(a.ndim), "int")
        if name == "size":
            return Sc(AR.psum([ZERO]) + size_of(a), "int")
        if name == "T":
            if a.ndim < 2:
                return o
            if ob.mask is not None:
                raise Unknown("transpose of masked array")
            return I.new(ArrO(None, base=o.a, how=("T", tuple(reversed(range(a.ndim))))))
        if name == "dtype":
            return Ext("numpy.dtype." + a.dt)
        if name in ("flat",):
            return ravel(I, o)
        if name == "real":
            return o
        if name == "mask" and ob.mask is not None:
            return I.arr_new(ob.mask)
        if name == "data" and ob.mask is not None:
            return I.arr_new(ob.arr)
        if ("ndarray." + name) in FUN or ("numpy." + name) in FUN or name in ALIAS:
            return ExtM(o, name)
        if name in ("__iter__", "__len__", "__array__", "__getitem__", "tobytes", "tolist", "item", "copy", "fill", "astype"):
            return ExtM(o, name)
        if name in NDARRAY:
            return ExtM(o, name) if NDARRAY[name] else I.unknown("array attribute " + name)
        raise Raised("AttributeError", name)
    if isinstance(ob, ListO):
        kind, py = ("set", set) if isinstance(ob, SetO) else ("list", list)
        if kind == "list" and (name in ("popleft", "appendleft", "extendleft", "rotate", "maxlen")) and not isinstance(ob, DequeO):
            raise Raised("AttributeError", name)
        if (kind + "." + name) in FUN:
            return ExtM(o, name)
        if hasattr(py, name) or isinstance(ob, DequeO):
            return ExtM(o, name)
        raise Raised("AttributeError", name)
    if isinstance(ob, DictO):
        if ("dict." + name) in FUN:
            return ExtM(o, name)
        if name in ob.items and getattr(ob, "attrdict", False):
            return ob.items[name]
        if hasattr(dict, name) or ob.factory is not None and name in ("default_factory", "most_common", "elements", "subtract", "total"):
            return ExtM(o, name)
        raise Raised("AttributeError", name)
    raise Raised("AttributeError", name)


def shape_of(a):
    if a.sel is not None:
        return (AR.reduce_all(a.sel, "sum"),)
    return a.shape()


def size_of(a):
    if a.sel is not None:
        return AR.reduce_all(a.sel, "sum")
    return a.size()


def val_attr(I, o, name):
    if isinstance(o, (str, StrSym)):
        if ("str." + name) in FUN:
            return ExtM(o, name)
        if hasattr(str, name):
            return ExtM(o, name)
        raise Raised("AttributeError", name)
    if isinstance(o, tuple):
        v = pymodel.tuple_attr(I, o, name)
        if v is not None:
            return v
        if hasattr(tuple, name):
            return ExtM(o, name)
        raise Raised("AttributeError", name)
    if isinstance(o, Sc):
        if o.k.startswith("np"):
            if name == "T":
                return o
            if name == "shape":
                return ()
            if name == "ndim":
                return Sc(ZERO, "int")
            if name == "size":
                return Sc(ONE, "int")
            if name in ("dtype",):
                return Ext("numpy.dtype." + o.k[2:])
            if ("ndarray." + name) in FUN or ("numpy." + name) in FUN:
                return ExtM(o, name)
            if name in NDARRAY:
                return ExtM(o, name) if NDARRAY[name] else I.unknown("attribute " + name)
        if name in ("real", "numerator") and not (name == "numerator" and o.k == "float"):
            return o
        if name == "imag":
            return Sc(ZERO, o.k)
        if name in ("is_integer", "__int__", "__float__") or name == "item" and o.k.startswith("np"):
            return ExtM(o, name)
        if hasattr(float if "float" in o.k else int, name):
            return ExtM(o, name)
        raise Raised("AttributeError", name)
    if isinstance(o, ExcV):
        if name == "args":
            return tuple(o.args)
    if o is None:
        raise Raised("AttributeError", f"'NoneType' object has no attribute '{name}'")
    if isinstance(o, RangeV):
        if name == "start":
            return Sc(o.lo, "int")
        if name == "stop":
            return Sc(o.hi, "int")
        if name == "step":
            return Sc(o.st, "int")
        if hasattr(range, name):
            return ExtM(o, name)
    if isinstance(o, SliceV):
        if name in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.st}[name]
        if hasattr(slice, name):
            return ExtM(o, name)
        raise Raised("AttributeError", name)
    if isinstance(o, (FuncV, BoundV, ClassV, PyFn)):
        if name in ("__doc__", "__name__", "__qualname__", "__module__"):
            return StrSym("fmt", name)
        if isinstance(o, BoundV) and name == "__self__":
            return o.self_
        if isinstance(o, PyFn) or hasattr(b_str, name):
            return I.unknown("attribute of a function: " + name)
        raise Raised("AttributeError", name)
    if isinstance(o, ExtM):
        return ExtM(o, name)
    return I.unknown(f"attribute {name} of {type(o).__name__}")


def str_getitem(I, o, i):
    if isinstance(o, StrSym):
        h = getattr(I, "str_item", None)
        if h is not None:
            r = h(I, o, i)
            if r is not None:
                return r
        return I.unknown("index into symbolic string")
    if isinstance(o, NonzeroV):
        return o.getitem(I, i)
    raise Raised("TypeError", "object is not subscriptable")


# ---------------------------------------------------------------- calls
def call_ext(I, f, args, kw):
    if isinstance(f, ExtM):
        return call_method(I, f, args, kw)
    name = ALIAS.get(f.name, f.name)
    h = I.ext.get(f.name) or I.ext.get(name)
    if h is not None:
        return h(I, args, kw)
    g = FUN.get(name)
    if g is None:
        short = name.split(".")[-1]
        if name.startswith("builtins.") and short in __import__("sa.interp", fromlist=["x"]).EXC_BASES:
            return ExcV(short, tuple(args))
        if name.startswith("numpy.linalg.") and short == "LinAlgError":
            return ExcV(name, tuple(args))
        if name.startswith("numpy.") and short in UFUNC1:
            g = lambda I, *a, **k: ufunc1(I, short, *a, **k)
        elif name.startswith("math.") and short in UFUNC1:
            g = lambda I, *a, **k: ufunc1(I, short, *a, **k)
        elif name.startswith("numpy.") and short in DTYPES:
            g = lambda I, x=Sc(ZERO, "int"), *a, **k: to_number(I, x, F32 if short in NARROW else DTYPES[short], True)
        else:
            return unmodelled(I, name, args, kw)
    if any(isinstance(a, Ite) for a in args) or any(isinstance(a, Ite) for a in kw.values()):
        if name not in LIFT_EXEMPT:
            ks = list(kw)
            n = len(args)
            return I.lift(lambda *v: invoke(I, g, name, list(v[:n]), dict(zip(ks, v[n:]))), *(list(args) + [kw[k] for k in ks]))
    return invoke(I, g, name, args, kw)


def unmodelled(I, name, args, kw):
    """A library function without a model; what it may write is unknown afterwards."""
    out = [kw["out"]] if isinstance(kw.get("out"), Ref) else []
    if name in MUTATING or name.endswith(".at") or name.startswith(("random.", "heapq.", "bisect.insort")):
        out += list(args)
    for a in out:
        if isinstance(a, Ref):
            if I.is_arr(a):
                I.poison(a, f"call of {name}")
            elif isinstance(I.obj(a), ListO):
                I.effect("write", a.a, name)
                I.put(a, ListO([Opq(f"call of {name}")]))
    return I.unknown(f"call of {name}")


LIFT_EXEMPT = {"builtins.print", "builtins.isinstance_", "warnings.warn"}


HARMLESS = {"order", "subok", "casting", "like", "optimize", "check_finite", "overwrite_a", "flush", "lower", "driver", "num"}
EVERY = frozenset()
_named = {}


def named_params(g):
    """Parameters a model of a library function looks at (EVERY: it forwards or deliberately ignores the others)."""
    r = _named.get(g)
    if r is None:
        import inspect
        ps = inspect.signature(g).parameters.values()
        kinds = {q.kind for q in ps}
        V = inspect.Parameter
        if V.VAR_KEYWORD not in kinds or V.VAR_POSITIONAL in kinds:
            r = EVERY
        else:
            r = frozenset(q.name for q in ps)
        _named[g] = r
    return r


def invoke(I, g, name, args, kw):
    for a in list(args) + list(kw.values()):
        if isinstance(a, Opq) and name not in ("builtins.print", "builtins.isinstance", "builtins.type", "builtins.hasattr",
                                               "builtins.callable", "warnings.warn", "builtins.str", "builtins.repr",
                                               "builtins.list", "list.append", "builtins.getattr", "builtins.tuple"):
            return Opq(a.why)
    if kw and name not in ("builtins.dict", "collections.OrderedDict", "dict.update", "dataclasses.replace"):
        swallowed = [k for k in kw if k not in named_params(g) and kw[k] is not None]
        if swallowed and named_params(g) is not EVERY:
            if swallowed == ["out"]:
                kw = dict(kw)
                o = kw.pop("out")
                return ufunc_out(I, lambda: invoke(I, g, name, args, kw), o, None)
            for k in swallowed:
                if k not in HARMLESS:
                    return I.unknown(f"call of {name}: argument {k}")
    try:
        return g(I, *args, **kw)
    except TypeError as e:
        s = str(e)
        if "positional argument" in s or "unexpected keyword" in s or "multiple values" in s or "required" in s:
            return I.unknown(f"call of {name}: {s}")
        raise


def call_method(I, f, args, kw):
    r, n = f.recv, f.name
    if isinstance(r, Ref):
        ob = I.obj(r)
        if isinstance(ob, ArrO):
            if ob.mask is not None and n not in ("filled", "copy"):
                return I.unknown(f"masked array method {n}")
            g = FUN.get("ndarray." + n) or FUN.get(ALIAS.get("numpy." + n, "numpy." + n))
            if g is None:
                if n in MUTATORS:
                    I.poison(r, f"array method {n}")
                return I.unknown(f"array method {n}")
            return lifted(I, g, "ndarray." + n, [r] + list(args), kw)
        kind = "set." if isinstance(ob, SetO) else "list." if isinstance(ob, ListO) else "dict."
        g = FUN.get(kind + n)
        if g is None:
            return pymodel.dunder(I, r, n, args, kw)
        return lifted(I, g, kind + n, [r] + list(args), kw) if n not in ("append", "get", "setdefault", "insert", "add") else \
            g(I, r, *args, **kw)
    if isinstance(r, (str, StrSym)):
        g = FUN.get("str." + n)
        if g is None:
            return pymodel.str_method(I, r, n, args, kw)
        return lifted(I, g, "str." + n, [r] + list(args), kw)
    if isinstance(r, tuple):
        if n == "index":
            for i, x in enumerate(r):
                c = equal(I, x, args[0]).const()
                if c == 1:
                    return Sc(P(i), "int")
                if c is None:
                    raise Unknown("tuple.index")
            raise Raised("ValueError", "not in tuple")
        if n == "count":
            return l_count(I, r, *args)
        return pymodel.dunder(I, r, n, args, kw)
    if isinstance(r, Sc):
        if n == "item":
            return Sc(r.p, r.k.replace("np", ""))
        if n == "is_integer":
            return boolsc(is_int_poly(r.p)) if r.p.const() is not None or is_int_poly(r.p) else unknown_bool(I, "is_integer")
        g = FUN.get("ndarray." + n) or FUN.get(ALIAS.get("numpy." + n, "numpy." + n))
        if g is not None:
            return lifted(I, g, "ndarray." + n, [r] + list(args), kw)
    return I.unknown(f"method {n}")


def lifted(I, g, name, args, kw):
    if any(isinstance(a, Ite) for a in args) or any(isinstance(a, Ite) for a in kw.values()):
        ks = list(kw)
        n = len(args)
        return I.lift(lambda *v: invoke(I, g, name, list(v[:n]), dict(zip(ks, v[n:]))), *(list(args) + [kw[k] for k in ks]))
    return invoke(I, g, name, args, kw)


# ---------------------------------------------------------------- helpers
def num(v):
    """Scalar term of a number."""
    if isinstance(v, Sc):
        return with_facts(v.p)
    if isinstance(v, Opq):
        raise Unknown(v.why)
    raise Raised("TypeError", "a number is required")


def intval(v):
    c = num(v).const()
    if c is None:
        raise Unknown("symbolic integer argument")
    return int(c)


def boolval(I, v):
    c = with_facts(I.truth(v)).const()
    if c is None:
        raise Unknown("symbolic flag")
    return bool(c)


def shape_arg(I, s):
    if isinstance(s, Sc):
        return [intlike(s)]
    return [intlike(x) if isinstance(x, Sc) else P(intval(x)) for x in I.iterate(s)]


def intlike(s):
    if s.k in ("float", "npfloat") and not is_int_poly(s.p):
        raise Raised("TypeError", "'float' object cannot be interpreted as an integer")
    if s.k in ("float",):
        raise Raised("TypeError", "'float' object cannot be interpreted as an integer")
    return with_facts(s.p)


DTYPES = {"float64": "float", "float32": "float", "longdouble": "float", "float128": "float", "float16": "float", "int64": "int",
          "int32": "int", "int_": "int", "intp": "int", "float_": "float", "bool_": "bool", "double": "float", "single": "float",
          "half": "float", "integer": "int", "floating": "float", "int8": "int", "int16": "int", "uint8": "int"}


NARROW = {"float32", "float16", "single", "half"}


def dtype_of(I, d, default):
    if d is None:
        return default
    if isinstance(d, Ext):
        s = d.name.split(".")[-1]
        if s in ("float", "int", "bool"):
            return s
        if s in NARROW:
            return F32
        if s in DTYPES:
            return DTYPES[s]
        if s == "complex":
            raise Unknown("complex dtype")
    if isinstance(d, str):
        if d in NARROW or d in ("f4", "f", "<f4", "f2", "e"):
            return F32
        if d.startswith("float") or d in ("f8", "d"):
            return "float"
        if d.startswith("int") or d == "i8":
            return "int"
        if d == "bool":
            return "bool"
    if isinstance(d, StrSym) or isinstance(d, Stub):
        return "float"
    return default


def cast(a, dt):
    if dt == a.dt and isinstance(dt, Narrow) != isinstance(a.dt, Narrow):
        return AR.narrow(Arr(a.ax, a.cells, dt, a.sel))
    if dt == a.dt:
        return a
    if dt == "int":
        return Arr(a.ax, {k: (v if is_int_poly(v) else fn("trunc", v)) for k, v in a.cells.items()}, "int")
    if dt == "bool":
        return Arr(a.ax, {k: ONE - eq0(v) for k, v in a.cells.items()}, "bool")
    return Arr(a.ax, a.cells, dt, a.sel)


def axis_arg(I, axis, a):
    if isinstance(axis, tuple):
        return tuple(axis_arg(I, x, a) for x in axis)
    k = intval(axis)
    if not -a.ndim <= k < a.ndim:
        raise Raised("numpy.exceptions.AxisError", "axis out of bounds")
    return k % a.ndim


def reduction(kind):
    def f(I, x, axis=None, dtype=None, out=None, keepdims=None, initial=None, where=None):
        if out is not None or where is not None:
            raise Unknown("reduction with out/where")
        if is_list(I, x) and axis is None and kind in ("max", "min") and False:
            pass
        a = I.to_arr(x)
        if kind in ("any", "all"):
            a = a if a.dt == "bool" else a.map(lambda v: ONE if is_nan(v) else ONE - eq0(v), "bool")
        kd = keepdims is not None and boolval(I, keepdims)
        if axis is None:
            p = AR.reduce_all(a, kind)
            if initial is not None:
                if kind != "sum":
                    p = fn(kind, p, num(initial))
                else:
                    p = p + num(initial)
            dt = "bool" if kind in ("any", "all") else ("int" if a.dt == "bool" else a.dt)
            if kd:
                r = AR.lift(p, dt)
                for _ in range(a.ndim):
                    r = AR.newaxis(r, 0)
                return I.arr_new(r)
            return Sc(p, "np" + dt)
        ks = axis_arg(I, axis, a)
        ks = sorted(ks if isinstance(ks, tuple) else (ks,), reverse=True)
        for k in ks:
            a = AR.reduce_axis(a, k, kind)
        if kd:
            for k in reversed(ks):
                a = AR.newaxis(a, k)
        return out_val(I, a)
    return f


for _k in ("sum", "prod", "max", "min", "any", "all"):
    FUN["numpy." + _k] = reduction(_k)
for _k in ("sum", "max", "min", "prod"):
    FUN["numpy.nan" + _k] = lambda I, *a, **k: I.unknown("nan-reduction")


@reg("numpy.mean", "numpy.average")
def np_mean(I, x, axis=None, weights=None, **k):
    if weights is not None:
        w = I.to_arr(weights)
        a = I.to_arr(x)
        if axis is None and a.ndim == 1:
            return Sc(AR.reduce_all(AR.mapn(mul, [a, w]), "sum") / AR.reduce_all(w, "sum"), "npfloat")
        if axis is not None and intval(axis) == 0 and w.ndim == 1:
            r = AR.contract(w, 0, a, 0)
            d = AR.reduce_all(w, "sum")
            return out_val(I, r.map(lambda v: v / d))
        raise Unknown("weighted average")
    a = I.to_arr(x)
    if axis is None:
        return Sc(AR.reduce_all(a, "sum") / size_of(a), "npfloat")
    d = axis_arg(I, axis, a)
    n = AR.axlen(a.ax[d])
    return out_val(I, AR.reduce_axis(a, d, "sum").map(lambda v: v / n, "float"))


def _fn1(name):
    return lambda p: fn(name, p)


def f_isnan(p):
    return atomwise(p, lambda q: ONE if is_nan(q) else maybe_nan(q))


def maybe_nan(q):
    return ZERO


def atomwise(p, f):
    from .terms import shannon
    return shannon(p, f)


def f_isinf(p):
    def g(q):
        if is_nan(q):
            return ZERO
        return ONE if has_ext(q) else ZERO
    return atomwise(p, g)


UFUNC1 = {
    "exp": _fn1("exp"), "log": _fn1("log"), "sqrt": lambda p: power(p, P(Q(1, 2))), "abs": _fn1("abs"),
    "square": lambda p: power(p, P(2)), "cos": _fn1("cos"), "sin": _fn1("sin"), "tan": _fn1("tan"), "sinh": _fn1("sinh"),
    "cosh": _fn1("cosh"), "tanh": _fn1("tanh"), "arctan": _fn1("arctan"), "arccos": _fn1("arccos"), "atan": _fn1("arctan"),
    "acos": _fn1("arccos"), "floor": _fn1("floor"), "ceil": _fn1("ceil"), "trunc": _fn1("trunc"), "rint": _fn1("rint"),
    "round": _fn1("rint"), "sign": _fn1("sign"), "negative": lambda p: -p, "reciprocal": lambda p: power(p, P(-1)),
    "isnan": f_isnan, "isinf": f_isinf, "positive": lambda p: p, "cbrt": lambda p: blend(compare("<", p, ZERO), ZERO - power(ZERO - p, P(Q(1, 3))), power(p, P(Q(1, 3)))),
    "isfinite": lambda p: ONE - b_or(f_isnan(p), f_isinf(p)), "erf": _fn1("erf"),
    "deg2rad": lambda p: mul(p, PI) / 180, "radians": lambda p: mul(p, PI) / 180,
    "exp2": lambda p: power(P(2), p), "log10": lambda p: fn("log", p) / fn("log", P(10)),
    "log2": lambda p: fn("log", p) / fn("log", P(2)), "log1p": lambda p: fn("log", p + 1), "expm1": lambda p: fn("exp", p) - 1,
    "logical_not": lambda p: eq0(p)}
BOOL_OUT = {"isnan", "isinf", "isfinite", "logical_not"}
INT_KEEP = {"abs", "square", "sign", "negative", "positive"}


def ufunc1(I, name, x, out=None, where=None, dtype=None, **kw):
    if out is not None or where is not None:
        return ufunc_out(I, lambda: ufunc1(I, name, x), out, where)
    f = UFUNC1[name]
    dt = lambda d: "bool" if name in BOOL_OUT else (d if name in INT_KEEP and d != "bool" else "float")
    if isinstance(x, Sc):
        k = "np" + dt(x.k.replace("np", ""))
        if name == "abs" and not x.k.startswith("np"):
            pass
        return Sc(f(x.p), k)
    a, m = mask_arr(I, x)
    r = a.map(f, dt(a.dt))
    if m is not None:
        if name in ("log", "sqrt"):
            m = AR.mapn(b_or, [m, a.map(lambda v: compare("<=", v, ZERO) if name == "log" else compare("<", v, ZERO), "bool")], "bool")
        return I.new(ArrO(r, mask=m))
    return out_val(I, r)


def ufunc_out(I, thunk, out, where):
    r = I.to_arr(thunk())
    o = out[0] if isinstance(out, tuple) else out
    if where is not None and not (isinstance(where, Sc) and where.p.const() == 1):
        w = I.to_arr(where)
        if o is None:
            raise Unknown("ufunc where without out")
        base = I.to_arr(o)
        r = AR.mapn(lambda c, x, y: blend(c, x, y), [w, r, base])
    if o is None:
        return out_val(I, r)
    old = I.content(o)
    if old.ndim != r.ndim:
        r = AR.broadcast_axes([r, old])[0]
    I.write(o, r, "out=")
    return o


for _n in UFUNC1:
    def _mk(n):
        def f(I, *a, **k):
            return ufunc1(I, n, *a, **k)
        return f
    FUN["numpy." + _n] = _mk(_n)
    FUN["math." + _n] = _mk(_n)
FUN["scipy.special.erf"] = FUN["numpy.erf"]
FUN["numpy.ma.log"] = FUN["numpy.log"]
FUN["math.isnan"] = FUN["numpy.isnan"]


@reg("math.log")
def math_log(I, x, base=None):
    r = ufunc1(I, "log", x)
    return r if base is None else binop(I, "Div", r, ufunc1(I, "log", base))


@reg("numpy.round", "numpy.around")
def np_round(I, x, decimals=None, **k):
    if decimals is not None and intval(decimals) != 0:
        k = Sc(P(Q(10) ** intval(decimals)), "float")
        return binop(I, "Div", ufunc1(I, "rint", binop(I, "Mult", x, k)), k)
    return ufunc1(I, "rint", x)


def ufunc2(op):
    def f(I, a, b, out=None, where=None, dtype=None):
        if out is not None or where is not None:
            return ufunc_out(I, lambda: f(I, a, b), out, where)
        r = binop(I, op, a if isinstance(a, Sc) else as_array(I, a), b if isinstance(b, Sc) else as_array(I, b))
        if isinstance(r, Sc):
            return Sc(r.p, NPK(r.k))
        return r
    return f


def as_array(I, x):
    return x if I.is_arr(x) else I.arr_new(I.to_arr(x))


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("true_divide", "Div"), ("power", "Pow"),
               ("floor_divide", "FloorDiv"), ("mod", "Mod"), ("remainder", "Mod")):
    FUN["numpy." + _n] = ufunc2(_o)
FUN["numpy.fmod"] = lambda I, a, b: binop(I, "Sub", a, binop(I, "Mult", b, ufunc1(I, "trunc", binop(I, "Div", a, b))))


def ufunc2f(f2, dt=None):
    def f(I, a, b, out=None, where=None):
        if out is not None or where is not None:
            return ufunc_out(I, lambda: f(I, a, b), out, where)
        x, y = I.to_arr(a), I.to_arr(b)
        return out_val(I, AR.mapn(f2, [x, y], dt or res_dt("Add", x.dt, y.dt)))
    return f


def asb(p):
    return ONE - eq0(p)


FUN["numpy.maximum"] = ufunc2f(lambda x, y: fn("max", x, y))
FUN["numpy.minimum"] = ufunc2f(lambda x, y: fn("min", x, y))
FUN["numpy.fmax"], FUN["numpy.fmin"] = FUN["numpy.maximum"], FUN["numpy.minimum"]
FUN["numpy.logical_and"] = ufunc2f(lambda x, y: rawmul(asb(x), asb(y)), "bool")
FUN["numpy.logical_or"] = ufunc2f(lambda x, y: b_or(asb(x), asb(y)), "bool")
FUN["numpy.hypot"] = ufunc2f(lambda x, y: power(x * x + y * y, P(Q(1, 2))))
for _n, _o in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"), ("not_equal", "NotEq")):
    FUN["numpy." + _n] = (lambda o: lambda I, a, b: compare_vals(I, o, a if isinstance(a, Sc) else as_array(I, a), b))(_o)


@reg("numpy.clip", "ndarray.clip")
def np_clip(I, x, a_min=None, a_max=None, **k):
    a = I.to_arr(x)
    if a_min is not None:
        a = AR.mapn(lambda u, v: fn("max", u, v), [a, I.to_arr(a_min)])
    if a_max is not None:
        a = AR.mapn(lambda u, v: fn("min", u, v), [a, I.to_arr(a_max)])
    return out_val(I, a)


@reg("scipy.special.factorial", "math.factorial")
def factorial(I, x, exact=None, **k):
    if isinstance(x, Sc):
        return Sc(fn("factorial", x.p), "npfloat")
    return out_val(I, I.to_arr(x).map(lambda p: fn("factorial", p), "float"))


@reg("math.gamma")
def gamma(I, x):
    if isinstance(x, Sc):
        return Sc(fn("factorial", x.p - 1), "npfloat")
    return out_val(I, I.to_arr(x).map(lambda p: fn("factorial", p - 1), "float"))


@reg("numpy.where")
def np_where(I, c, x=None, y=None):
    if x is None:
        return nonzero(I, c)
    cc = I.to_arr(c)
    if cc.dt != "bool":
        cc = cc.map(asb, "bool")
    ax, ay = I.to_arr(x), I.to_arr(y)
    return out_val(I, AR.mapn(lambda k, u, v: blend(k, u, v), [cc, ax, ay], res_dt("Add", ax.dt, ay.dt) if ax.dt != ay.dt else ax.dt))


class NonzeroV(Stub):
    """Positions of the true entries of a boolean vector of constant length."""
    clsname = "positions"

    def __init__(self, conds):
        self.conds = conds

    def getitem(self, I, i):
        k = intval(i)
        conds = self.conds if k >= 0 else None
        if k not in (0, -1):
            raise Unknown("position list index")
        order = list(range(len(self.conds)))
        if k == -1:
            order.reverse()
        none = ONE
        for c in self.conds:
            none = b_name(rawmul(none, ONE - c))
        nc = with_facts(none).const()
        if nc == 1:
            raise Raised("IndexError", "index 0 is out of bounds")
        if nc is None:
            base = I.st
            I.enter(base.fork(none))
            I.add_exit("raise", ExcV("IndexError", ("index 0 is out of bounds",)))
            nb = base.fork(ONE - none)
            nb.guards = list(base.guards)
            I.enter(nb)
        r = P(order[-1])
        for j in reversed(order[:-1]):
            r = blend(self.conds[j], P(j), r)
        return Sc(r, "npint")

    def get(self, I, name):
        if name in ("size", "__len__"):
            r = ZERO
            for c in self.conds:
                r = r + c
            return Sc(r, "int")
        raise Unknown("position list attribute " + name)


@reg("numpy.nonzero", "ndarray.nonzero")
def nonzero(I, c):
    a = I.to_arr(c)
    if a.ndim != 1:
        raise Unknown("nonzero of a matrix")
    a = AR.explode(a, 0)
    conds = [a.cells[(i,)] if a.dt == "bool" else asb(a.cells[(i,)]) for i in range(len(a.ax[0]))]
    if I.oracle is not None or all(with_facts(c).const() is not None for c in conds):
        on = [I.choose(with_facts(c)).const() for c in conds]
        if None not in on:
            return (I.arr_new(from_list1([P(i) for i, v in enumerate(on) if v], "int")),)
    return (NonzeroV(conds),)


@reg("numpy.flatnonzero")
def flatnonzero(I, c):
    return nonzero(I, c)[0]


@reg("numpy.count_nonzero")
def count_nonzero(I, c, **k):
    a = I.to_arr(c)
    return Sc(AR.reduce_all(a if a.dt == "bool" else a.map(asb, "bool"), "sum"), "npint")


@reg("numpy.argmax", "numpy.argmin")
def argmax(I, c, axis=None):
    raise Unknown("argmax")


def _arg(kind):
    def f(I, c, axis=None):
        a = I.to_arr(c)
        if a.ndim != 1:
            raise Unknown("arg" + kind)
        a = AR.explode(a, 0)
        n = len(a.ax[0])
        if not n:
            raise Raised("ValueError", "attempt to get argmax of an empty sequence")
        best, bi = a.cells[(0,)], ZERO
        for i in range(1, n):
            v = a.cells[(i,)]
            if a.dt == "bool":
                g = rawmul(v, ONE - best) if kind == "max" else rawmul(best, ONE - v)
            else:
                g = compare(">" if kind == "max" else "<", v, best)
                g = b_or(g, rawmul(f_isnan(v), ONE - f_isnan(best)))
            bi = blend(g, P(i), bi)
            best = blend(g, v, best)
        return Sc(bi, "npint")
    return f


FUN["numpy.argmax"], FUN["numpy.argmin"] = _arg("max"), _arg("min")
FUN["numpy.nanargmax"] = FUN["numpy.nanargmin"] = lambda I, *a, **k: I.unknown("nanarg")


@reg("numpy.searchsorted", "numpy.digitize")
def searchsorted(I, a, v, side="left", **k):
    x = AR.explode(I.to_arr(a), 0)
    p = num(v)
    r = ZERO
    for i in range(len(x.ax[0])):
        r = r + compare("<" if side == "left" else "<=", x.cells[(i,)], p)
    return Sc(r, "npint")


# ---- construction
def to_arr_dt(I, x, dtype):
    a = I.to_arr(x)
    return cast(a, dtype_of(I, dtype, a.dt))


def container_copy(I, x, deep):
    def el(v):
        return container_copy(I, v, True) if deep and isinstance(v, Ref) and isinstance(I.obj(v), (ListO, ArrO, DictO)) else v
    if isinstance(x, Ref) and isinstance(I.obj(x), ListO):
        o = I.obj(x)
        if o.alt:
            return I.new(ListO(o.items, o.alt)) if not deep else I.unknown("deep copy of a list")
        return I.new(ListO([el(v) for v in o.items]))
    if isinstance(x, Ref) and isinstance(I.obj(x), DictO):
        return I.new(DictO({k: el(v) for k, v in I.obj(x).items.items()}))
    if isinstance(x, (Sc, tuple, str)) or x is None:
        return x
    return np_array(I, x)


@reg("copy.copy")
def copy_copy(I, x):
    return container_copy(I, x, False)


@reg("copy.deepcopy")
def copy_deepcopy(I, x, memo=None):
    return container_copy(I, x, True)


@reg("numpy.array", "numpy.copy", "ndarray.copy")
def np_array(I, x, dtype=None, copy=None, order=None, ndmin=None, subok=None, *a, **k):
    if isinstance(copy, Sc) and copy.p.const() == 0 and ndmin is None:
        return np_asarray(I, x, dtype)
    if isinstance(x, (Stub,)):
        return x
    if isinstance(x, Ref) and not isinstance(I.obj(x), (ArrO, ListO)):
        o = I.obj(x)
        if isinstance(o, DictO):
            return I.new(DictO(o.items))
        if isinstance(o, InstO):
            return I.new(InstO(o.cls, o.attrs))
    if I.is_arr(x) and I.obj(x).mask is not None:
        return I.new(ArrO(I.obj(x).arr, mask=I.obj(x).mask))
    if isinstance(x, (str, StrSym)):
        return x
    r = to_arr_dt(I, x, dtype)
    if ndmin is not None:
        while r.ndim < intval(ndmin):
            r = AR.newaxis(r, 0)
    return I.arr_new(r)


@reg("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.require")
def np_asarray(I, x, dtype=None, *a, **k):
    if I.is_arr(x) and I.obj(x).mask is None:
        c = I.content(x)
        d = dtype_of(I, dtype, c.dt)
        if d == c.dt and (dtype is None or isinstance(d, Narrow) == isinstance(c.dt, Narrow)):
            return x
    return I.arr_new(to_arr_dt(I, x, dtype))


@reg("numpy.atleast_1d")
def atleast_1d(I, x):
    a = I.to_arr(x)
    return I.arr_new(AR.newaxis(a, 0)) if a.ndim == 0 else (x if I.is_arr(x) else I.arr_new(a))


@reg("numpy.atleast_2d")
def atleast_2d(I, x):
    a = I.to_arr(x)
    while a.ndim < 2:
        a = AR.newaxis(a, 0)
    return I.arr_new(a)


def filled(v, dflt="float"):
    def f(I, shape, dtype=None, order=None, **k):
        return I.arr_new(AR.full(shape_arg(I, shape), v, dtype_of(I, dtype, dflt)))
    return f


FUN["numpy.zeros"], FUN["numpy.ones"], FUN["numpy.empty"] = filled(ZERO), filled(ONE), filled(A(("sym", "uninitialised", ())))


@reg("numpy.full")
def np_full(I, shape, fill_value, dtype=None, **k):
    v = I.to_arr(fill_value)
    r = AR.full(shape_arg(I, shape), ZERO)
    r = AR.mapn(lambda a, b: b, [r, v], dtype_of(I, dtype, v.dt))
    return I.arr_new(r)


def like(v):
    def f(I, x, *a, dtype=None, **k):
        y = I.to_arr(x)
        w = v if v is not None else num(a[0] if a else k["fill_value"])
        return I.arr_new(Arr(y.ax, {c: w for c in y.cells}, dtype_of(I, dtype, y.dt)))
    return f


FUN["numpy.zeros_like"], FUN["numpy.ones_like"], FUN["numpy.full_like"] = like(ZERO), like(ONE), like(None)
FUN["numpy.empty_like"] = like(A(("sym", "uninitialised", ())))


@reg("numpy.arange")
def np_arange(I, start, stop=None, step=None, dtype=None, **k):
    lo, hi = (ZERO, num(start)) if stop is None else (num(start), num(stop))
    st = ONE if step is None else num(step)
    n = mul(hi - lo, power(st, P(-1)))
    n = fn("ceil", n)
    if not prove_ge0(n):
        n = fn("max", n, ZERO)
    isf = any(v is not None and v.k.endswith("float") for v in (start, stop, step))
    return I.arr_new(from_fn([n], lambda i: lo + mul(st, i), dtype_of(I, dtype, "float" if isf else "int")))


@reg("numpy.linspace")
def np_linspace(I, start, stop, num_=None, endpoint=None, retstep=None, dtype=None, axis=None, **k):
    n = num(k.pop("num", None) or num_ or Sc(P(50), "int"))
    lo, hi = num(start), num(stop)
    end = endpoint is None or boolval(I, endpoint)
    if retstep is not None:
        raise Unknown("linspace retstep")
    d = n - 1 if end else n
    one = compare("==", n, ONE)

    def f(i):
        v = lo + mul(mul(hi - lo, i), power(d, P(-1)))
        if end:
            if one.const() == 1:
                return lo
            return v
        return v
    r = from_fn([n], f, dtype_of(I, dtype, "float"))
    return I.arr_new(r)


@reg("numpy.geomspace", "numpy.logspace")
def np_geom(I, *a, **k):
    return I.unknown("geomspace")


@reg("numpy.eye", "numpy.identity")
def np_eye(I, n, M=None, k=None, dtype=None):
    m = num(n)
    mm = m if M is None else num(M)
    kk = ZERO if k is None else num(k)
    return I.arr_new(from_fn([m, mm], lambda i, j: compare("==", i + kk, j)))


@reg("numpy.diag", "numpy.diagflat")
def np_diag(I, x, k=None):
    a = I.to_arr(x)
    if k is not None and intval(k):
        raise Unknown("off-diagonal")
    if a.ndim == 1:
        try:
            a = AR.explode(a, 0)
            n = len(a.ax[0])
            return I.arr_new(Arr([a.ax[0], a.ax[0]], {(i, j): a.cells[(i,)] if i == j else ZERO for i in range(n) for j in range(n)}, a.dt))
        except Unknown:
            v = a.cells[(0,)]
            if len(a.ax[0]) != 1:
                raise
            return I.arr_new(Arr([a.ax[0], a.ax[0]], {(0, 0): mul(v, eq0(ix(0) - ix(1)))}, a.dt))
    a = AR.explode(AR.explode(a, 0), 1)
    n = min(len(a.ax[0]), len(a.ax[1]))
    return I.arr_new(Arr([(ONE,) * n], {(i,): a.cells[(i, i)] for i in range(n)}, a.dt))


@reg("numpy.fill_diagonal")
def np_fill_diagonal(I, x, val, wrap=None):
    a = I.content(x)
    a = AR.explode(AR.explode(a, 0), 1)
    v = I.to_arr(val)
    cells = dict(a.cells)
    for i in range(min(len(a.ax[0]), len(a.ax[1]))):
        cells[(i, i)] = AR.take_int(v, 0, P(i)).cells[()] if v.ndim else v.cells[()]
    I.write(x, Arr(a.ax, cells, a.dt), "fill_diagonal")


@reg("numpy.outer")
def np_outer(I, a, b):
    x, y = ravel_arr(I.to_arr(a)), ravel_arr(I.to_arr(b))
    return I.arr_new(AR.mapn(mul, [AR.newaxis(x, 1), AR.newaxis(y, 0)]))


def ravel_arr(a):
    return a if a.ndim == 1 else AR.reshape(a, [P(-1)]) if a.ndim else AR.newaxis(a, 0)


# ---- products
def dot(I, a, b, out=None):
    x, y = I.to_arr(a), I.to_arr(b)
    if x.ndim == 0 or y.ndim == 0:
        return out_val(I, AR.mapn(mul, [x, y]))
    r = AR.contract(x, x.ndim - 1, y, max(y.ndim - 2, 0))
    return out_val(I, r)


FUN["numpy.dot"] = FUN["numpy.linalg.multi_dot_"] = dot


@reg("numpy.vdot", "numpy.inner")
def np_inner(I, a, b):
    x, y = I.to_arr(a), I.to_arr(b)
    return out_val(I, AR.contract(x, x.ndim - 1, y, y.ndim - 1))


@reg("numpy.tensordot")
def tensordot(I, a, b, axes=None):
    x, y = I.to_arr(a), I.to_arr(b)
    if isinstance(axes, Sc) and axes.p.const() == 1:
        return out_val(I, AR.contract(x, x.ndim - 1, y, 0))
    ax = [I.iterate(t) if not isinstance(t, Sc) else [t] for t in I.iterate(axes)]
    if len(ax[0]) == 1:
        return out_val(I, AR.contract(x, intval(ax[0][0]) % x.ndim, y, intval(ax[1][0]) % y.ndim))
    raise Unknown("tensordot")


@reg("numpy.einsum")
def einsum(I, spec, *ops, optimize=None, **k):
    if not isinstance(spec, str) or k:
        raise Unknown("einsum form")
    spec = spec.replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    if "." in spec:
        raise Unknown("einsum ellipsis")
    if "->" not in spec:
        alll = "".join(ins)
        rhs = "".join(sorted(c for c in set(alll) if alll.count(c) == 1))
    letters = sorted(set("".join(ins)))
    summed = [c for c in letters if c not in rhs]
    order = list(rhs) + summed
    arrs = []
    for s, o in zip(ins, ops):
        a = I.to_arr(o)
        if a.ndim != len(s):
            raise Raised("ValueError", "einstein sum subscripts")
        if len(set(s)) != len(s):
            raise Unknown("einsum diagonal")
        perm = sorted(range(len(s)), key=lambda i: order.index(s[i]))
        a = AR.transpose(a, tuple(perm)) if a.ndim else a
        have = [s[i] for i in perm]
        for j, c in enumerate(order):
            if j >= len(have) or have[j] != c:
                a = AR.newaxis(a, j)
                have.insert(j, c)
        arrs.append(a)
    r = AR.mapn(lambda *v: prod_all(v), arrs)
    for d in reversed(range(len(rhs), len(order))):
        r = AR.reduce_axis(r, d, "sum")
    return out_val(I, r)


def prod_all(vs):
    r = vs[0]
    for v in vs[1:]:
        r = mul(r, v)
    return r


@reg("numpy.linalg.norm")
def norm(I, x, ord=None, axis=None, keepdims=None):
    if ord is not None and not (isinstance(ord, Sc) and ord.p.const() == 2):
        raise Unknown("norm order")
    a = I.to_arr(x)
    sq = a.map(lambda v: mul(v, v))
    if axis is None:
        return Sc(power(AR.reduce_all(sq, "sum"), P(Q(1, 2))), "npfloat")
    d = axis_arg(I, axis, a)
    r = AR.reduce_axis(sq, d, "sum").map(lambda v: power(v, P(Q(1, 2))), "float")
    if keepdims is not None and boolval(I, keepdims):
        r = AR.newaxis(r, d)
    return out_val(I, r)


def mat(I, x):
    a = I.to_arr(x)
    if a.ndim != 2:
        raise Raised("numpy.linalg.LinAlgError", "not a matrix")
    a = AR.explode(AR.explode(a, 0), 1)
    return [[a.cells[(i, j)] for j in range(len(a.ax[1]))] for i in range(len(a.ax[0]))]


def det_of(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = ZERO
    for j in range(n):
        sub = [row[:j] + row[j + 1:] for row in m[1:]]
        t = mul(m[0][j], det_of(sub))
        r = r + (t if j % 2 == 0 else -t)
    return r


@reg("numpy.linalg.det")
def det(I, x):
    m = mat(I, x)
    if len(m) != len(m[0]):
        raise Raised("numpy.linalg.LinAlgError", "must be square")
    return Sc(det_of(m), "npfloat")


@reg("numpy.linalg.matrix_rank")
def matrix_rank(I, x, *a, **k):
    m = mat(I, x)
    if a or k or any(v.const() is None for r in m for v in r):
        raise Unknown("rank of a symbolic matrix")
    m, rank = [[v.const() for v in r] for r in m], 0
    for j in range(len(m[0])):
        i = next((i for i in range(rank, len(m)) if m[i][j]), None)
        if i is None:
            continue
        m[rank], m[i] = m[i], m[rank]
        for i in range(rank + 1, len(m)):
            f = m[i][j] / m[rank][j]
            m[i] = [u - f * v for u, v in zip(m[i], m[rank])]
        rank += 1
    return Sc(P(rank), "npint")


@reg("numpy.result_type", "numpy.promote_types", "numpy.common_type")
def result_type(I, *xs):
    ks = []
    for x in xs:
        if isinstance(x, Sc):
            ks.append(x.k.replace("np", ""))
        elif isinstance(x, (Ext, str)):
            d = dtype_of(I, x, None)
            if d is None:
                raise Unknown("type not known")
            ks.append(d)
        else:
            ks.append(I.to_arr(x).dt)
    k = "float" if "float" in ks else "int" if "int" in ks else "bool"
    return Ext("numpy.dtype." + k)


@reg("numpy.cross")
def cross(I, a, b, **k):
    x, y = AR.explode(I.to_arr(a), 0), AR.explode(I.to_arr(b), 0)
    if x.ndim != 1 or y.ndim != 1 or len(x.ax[0]) != 3 or len(y.ax[0]) != 3:
        raise Unknown("cross of other shapes")
    u, v = [x.cells[(i,)] for i in range(3)], [y.cells[(i,)] for i in range(3)]
    r = [mul(u[1], v[2]) - mul(u[2], v[1]), mul(u[2], v[0]) - mul(u[0], v[2]), mul(u[0], v[1]) - mul(u[1], v[0])]
    return I.arr_new(Arr([(ONE,) * 3], {(i,): r[i] for i in range(3)}))


@reg("numpy.linalg.eigh", "scipy.linalg.eigh", "numpy.linalg.eig")
def eigh(I, x, *a, **k):
    m = mat(I, x)
    key = tuple(tuple(r) for r in m)
    if key not in I.eig:
        n = len(I.eig)
        declare(f"evec{n}")
        declare(f"eval{n}")
        I.eig[key] = n
    n, d = I.eig[key], len(m)
    w = Arr([(ONE,) * d], {(i,): sym(f"eval{n}", i) for i in range(d)})
    v = Arr([(ONE,) * d, (ONE,) * d], {(i, j): sym(f"evec{n}", i, j) for i in range(d) for j in range(d)})
    return (I.arr_new(w), I.arr_new(v))


# ---- shape manipulation
@reg("numpy.ravel", "ndarray.flatten")
def ravel(I, x, order=None):
    if not I.is_arr(x):
        return I.arr_new(ravel_arr(I.to_arr(x)))
    a = I.content(x)
    if a.ndim == 1:
        return x if True else None
    n = a.size()
    AR.reshape(a, [n])
    return I.new(ArrO(None, base=x.a, how=("reshape", (n,))))


@reg("ndarray.flatten")
def flatten(I, x, order=None):
    return I.arr_new(ravel_arr(I.to_arr(x)))


@reg("numpy.reshape")
def np_reshape(I, x, *shape, order=None, newshape=None, **k):
    if newshape is not None:
        shape = (newshape,)
    if "shape" in k:
        shape = (k["shape"],)
    s = shape_arg(I, shape[0]) if len(shape) == 1 else [intlike(v) for v in shape]
    a = I.to_arr(x)
    r = AR.reshape(a, s)
    if I.is_arr(x):
        return I.new(ArrO(None, base=x.a, how=("reshape", tuple(r.shape()))))
    return I.arr_new(r)


def view_T(I, x, perm):
    if I.is_arr(x):
        return I.new(ArrO(None, base=x.a, how=("T", tuple(perm))))
    return I.arr_new(AR.transpose(I.to_arr(x), tuple(perm)))


@reg("numpy.transpose")
def transpose(I, x, *axes):
    a = I.to_arr(x)
    if axes and len(axes) == 1 and not isinstance(axes[0], Sc):
        axes = () if axes[0] is None else I.iterate(axes[0])
    perm = [intval(v) % a.ndim for v in axes] if axes else list(reversed(range(a.ndim)))
    return view_T(I, x, perm) if a.ndim > 1 else x


@reg("numpy.swapaxes")
def swapaxes(I, x, p, q):
    a = I.to_arr(x)
    i, j = intval(p) % a.ndim, intval(q) % a.ndim
    perm = list(range(a.ndim))
    perm[i], perm[j] = perm[j], perm[i]
    return view_T(I, x, perm)


@reg("numpy.moveaxis")
def moveaxis(I, x, s, d):
    a = I.to_arr(x)
    s, d = intval(s) % a.ndim, intval(d) % a.ndim
    perm = [i for i in range(a.ndim) if i != s]
    perm.insert(d, s)
    return view_T(I, x, perm)


@reg("numpy.expand_dims")
def expand_dims(I, x, axis):
    a = I.to_arr(x)
    k = intval(axis)
    k = k % (a.ndim + 1)
    idx = [(None, None, None)] * a.ndim
    idx.insert(k, None)
    if I.is_arr(x):
        return I.new(ArrO(None, base=x.a, how=("idx", tuple(idx))))
    return I.arr_new(AR.newaxis(a, k))


@reg("numpy.squeeze")
def squeeze(I, x, axis=None):
    a = I.to_arr(x)
    if axis is None:
        for d in range(a.ndim):
            if not AR.is_unit(a.ax[d]) and compare("==", AR.axlen(a.ax[d]), ONE).const() != 0:
                raise Unknown("squeeze of an axis that may have length one")
    ds = [d for d in range(a.ndim) if AR.is_unit(a.ax[d])] if axis is None else [axis_arg(I, axis, a)]
    for d in reversed(ds):
        a = AR.dropaxis(a, d)
    return out_val(I, a)


@reg("numpy.broadcast_to")
def broadcast_to(I, x, shape):
    s = shape_arg(I, shape)
    r = AR.full(s, ZERO)
    return I.arr_new(AR.mapn(lambda u, v: v, [r, I.to_arr(x)], I.to_arr(x).dt))


@reg("numpy.tile")
def tile(I, x, reps):
    a = I.to_arr(x)
    r = shape_arg(I, reps)
    while a.ndim < len(r):
        a = AR.newaxis(a, 0)
    for d, n in zip(range(a.ndim - len(r), a.ndim), r):
        c = n.const()
        if c == 1:
            continue
        if AR.is_unit(a.ax[d]):
            z = AR.full([n if e == d else ONE for e in range(a.ndim)], ZERO)
            a = AR.mapn(lambda u, v: u, [a, z], a.dt)
        elif c is not None:
            a = AR.concat([a] * int(c), d)
        else:
            raise Unknown("tile")
    return I.arr_new(a)


@reg("numpy.repeat")
def np_repeat(I, x, repeats, axis=None):
    a = I.to_arr(x)
    if a.ndim == 0:
        a = AR.newaxis(a, 0)
    if axis is None and a.ndim > 1:
        raise Unknown("repeat of a matrix")
    d = 0 if axis is None else axis_arg(I, axis, a)
    a = AR.explode(a, d)
    n = len(a.ax[d])
    rs = [num(repeats)] * n if isinstance(repeats, Sc) else [num(v) for v in I.iterate(repeats)]
    if len(rs) == 1:
        rs = rs * n
    parts = []
    for i in range(n):
        p = AR.take_list(a, d, [i])
        if rs[i].const() == 0:
            continue
        z = AR.full([rs[i] if e == d else ONE for e in range(a.ndim)], ZERO)
        parts.append(AR.mapn(lambda u, v: u, [p, z], a.dt))
    if not parts:
        return I.arr_new(AR.take_list(a, d, []))
    return I.arr_new(AR.concat(parts, d))


def seq_arrays(I, seq):
    if I.is_arr(seq):
        return [I.to_arr(v) for v in I.iterate(seq)]
    return [I.to_arr(v) for v in I.iterate(seq)]


@reg("numpy.concatenate")
def concatenate(I, seq, axis=None, **k):
    arrs = seq_arrays(I, seq)
    if not arrs:
        raise Raised("ValueError", "need at least one array to concatenate")
    if any(a.ndim == 0 for a in arrs):
        raise Raised("ValueError", "zero-dimensional arrays cannot be concatenated")
    return I.arr_new(AR.concat(arrs, 0 if axis is None and "axis" not in k else intval(axis)))


@reg("numpy.hstack")
def hstack(I, seq, **k):
    arrs = [AR.newaxis(a, 0) if a.ndim == 0 else a for a in seq_arrays(I, seq)]
    return I.arr_new(AR.concat(arrs, 0 if arrs[0].ndim == 1 else 1))


@reg("numpy.vstack")
def vstack(I, seq, **k):
    arrs = seq_arrays(I, seq)
    arrs = [AR.newaxis(a, 0) if a.ndim < 2 else a for a in arrs]
    return I.arr_new(AR.concat(arrs, 0))


@reg("numpy.split", "numpy.array_split", "numpy.hsplit", "numpy.vsplit")
def split(I, arg, where, axis=None, fname="numpy.split"):
    a = I.to_arr(arg)
    d = 0 if axis is None else intval(axis) % a.ndim
    n = AR.axlen(a.ax[d])
    if isinstance(where, Sc):
        k = intval(where)
        if k <= 0:
            raise Raised("ValueError", "number sections must be larger than 0")
        c = n.const()
        if c is not None:
            c = int(c)
            if c % k and fname != "numpy.array_split":
                raise Raised("ValueError", "array split does not result in an equal division")
            q, r = divmod(c, k)
            cut = [P((q + 1) * min(i, r) + q * max(0, i - r)) for i in range(k + 1)]
        else:
            q = mul(n, P(Q(1) / k))
            if not is_int_poly(q):
                raise Unknown("split into sections of unknown length")
            cut = [mul(q, P(i)) for i in range(k + 1)]
        bounds = list(zip(cut, cut[1:]))
    else:
        cut = [num(x) for x in I.iterate(where)] if not isinstance(where, tuple) else [num(x) for x in where]
        lo = [P(0)] + cut
        bounds = list(zip(lo, cut + [None]))
    whole = SliceV(None, None, None)
    ref = arg if isinstance(arg, Ref) and I.is_arr(arg) else I.arr_new(a)
    return I.new(ListO([I.getitem(ref, (whole,) * d + (SliceV(Sc(x, "int"), None if y is None else Sc(y, "int"), None),))
                        for x, y in bounds]))


def _split(name, axis):
    def f(I, a, where, **k):
        ax = axis
        if name == "numpy.hsplit":
            ax = Sc(P(0 if I.to_arr(a).ndim == 1 else 1), "int")
        return split(I, a, where, k.get("axis", ax), name)
    return f


FUN["numpy.array_split"] = lambda I, a, where, axis=None: split(I, a, where, axis, "numpy.array_split")
FUN["numpy.hsplit"] = _split("numpy.hsplit", None)
FUN["numpy.vsplit"] = _split("numpy.vsplit", Sc(P(0), "int"))


@reg("numpy.column_stack")
def column_stack(I, seq):
    arrs = [AR.newaxis(a, 1) if a.ndim == 1 else a for a in seq_arrays(I, seq)]
    return I.arr_new(AR.concat(arrs, 1))


@reg("numpy.stack")
def stack(I, seq, axis=None, **k):
    arrs = seq_arrays(I, seq)
    ax = 0 if axis is None else intval(axis) % (arrs[0].ndim + 1)
    return I.arr_new(AR.concat([AR.newaxis(a, ax) for a in arrs], ax))


FUN["numpy.r_"] = FUN["numpy.c_"] = lambda I, *a: I.unknown("r_")


@reg("numpy.append")
def np_append(I, a, v, axis=None):
    x, y = I.to_arr(a), I.to_arr(v)
    if axis is None:
        return I.arr_new(AR.concat([ravel_arr(x), ravel_arr(y)], 0))
    return I.arr_new(AR.concat([x, y], intval(axis)))


@reg("numpy.insert")
def np_insert(I, a, idx, v, axis=None):
    x = I.to_arr(a)
    if axis is None:
        x = ravel_arr(x)
    elif intval(axis) != 0 or x.ndim != 1:
        raise Unknown("insert along axis")
    if not isinstance(idx, Sc):
        items = I.iterate(idx)
        if len(items) != 1:
            raise Unknown("insert at several positions")
        idx = items[0]
    p = num(idx)
    n = AR.axlen(x.ax[0])
    if p.const() is not None and p.const() < 0:
        p = p + n
    y = I.to_arr(v)
    if y.ndim == 0:
        y = AR.newaxis(y, 0)
    lo, hi = AR.take_slice(x, 0, None, p), AR.take_slice(x, 0, p, None)
    if x.dt == "int" and y.dt == "float":
        y = cast(y, "int")
    return I.arr_new(AR.concat([lo, Arr(y.ax, y.cells, x.dt), hi], 0))


@reg("numpy.delete")
def np_delete(I, a, idx, axis=None):
    x = I.to_arr(a)
    if axis is None:
        x = ravel_arr(x)
    elif intval(axis) != 0:
        raise Unknown("delete along axis")
    if isinstance(idx, Sc):
        p = num(idx)
        n = AR.axlen(x.ax[0])
        if p.const() is not None and p.const() < 0:
            p = p + n
        if prove_ge0(p - n):
            raise Raised("IndexError", "index out of bounds")
        return I.arr_new(AR.concat([AR.take_slice(x, 0, None, p), AR.take_slice(x, 0, p + 1, None)], 0))
    if I.is_arr(idx) and I.content(idx).dt == "bool":
        raise Unknown("delete by mask")
    o = I.obj(idx) if is_list(I, idx) else None
    if o is not None and o.alt:
        c, u, v = o.alt
        return I.branch(c, lambda: np_delete(I, a, I.new(ListO(u))), lambda: np_delete(I, a, I.new(ListO(v))))
    items = [num(v) for v in I.iterate(idx)]
    if any(v.const() is None for v in items):
        raise Unknown("delete at symbolic positions")
    x = AR.explode(x, 0)
    n = len(x.ax[0])
    dead = set()
    for v in items:
        k = int(v.const())
        if not -n <= k < n:
            raise Raised("IndexError", "index out of bounds")
        dead.add(k % n)
    return I.arr_new(AR.take_list(x, 0, [i for i in range(n) if i not in dead]))


@reg("numpy.meshgrid")
def meshgrid(I, *xs, indexing="xy", sparse=None, copy=None):
    arrs = [I.to_arr(x) for x in xs]
    n = len(arrs)
    outs = []
    for k, a in enumerate(arrs):
        d = k
        if indexing == "xy" and n >= 2 and k < 2:
            d = 1 - k
        b = a
        for e in range(n):
            if e < d:
                b = AR.newaxis(b, 0)
            elif e > d:
                b = AR.newaxis(b, b.ndim)
        outs.append(b)
    outs2 = AR.broadcast_axes(outs)
    return I.new(ListO([I.arr_new(Arr(b.ax, b.cells, a.dt)) for a, b in zip(arrs, outs2)]))


@reg("numpy.indices")
def indices(I, dims, dtype=None, sparse=None):
    s = shape_arg(I, dims)
    arrs = [AR.newaxis(from_fn(s, lambda *i, k=k: i[k], "int"), 0) for k in range(len(s))]
    return I.arr_new(AR.concat(arrs, 0))


@reg("numpy.unravel_index")
def unravel_index(I, idx, shape):
    s = shape_arg(I, shape)
    a = I.to_arr(idx)
    out = []
    stride = ONE
    for k in reversed(range(len(s))):
        out.append(a.map(lambda v, st=stride, n=s[k], k=k: fn("mod", fn("div", v, st), n) if k else fn("div", v, st), "int"))
        stride = rawmul(stride, s[k])
    return tuple(out_val(I, x) for x in reversed(out))


@reg("numpy.sort")
def np_sort(I, x, axis=None, **k):
    a = I.to_arr(x)
    if a.ndim != 1:
        raise Unknown("sort of a matrix")
    key = (a.ax, tuple(sorted(a.cells.items())))if False else (a.ax, frozenset(a.cells.items()))
    n = None
    for i, (kk, _) in I.sorted.items():
        if kk == key:
            n = i
    if n is None:
        n = len(I.sorted)
        I.sorted[n] = (key, a)
    return I.arr_new(Arr([(AR.axlen(a.ax[0]),)], {(0,): A(("opq", "sorted", (P(n), ix(0))))}, a.dt))


def from_list1(v, dt):
    return Arr([(ONE,) * len(v)], {(i,): p for i, p in enumerate(v)}, dt)


@reg("numpy.unique")
def np_unique(I, x, **k):
    """Distinct entries in increasing order; which of them coincide is a question of the path followed."""
    a = I.to_arr(x)
    if k:
        raise Unknown("unique with further results")
    if a.ndim > 1:
        raise Unknown("unique of a matrix")
    v = [a.cells[()]] if a.ndim == 0 else [AR.explode(a, 0).cells[(i,)] for i in range(len(AR.explode(a, 0).ax[0]))]
    keep = []
    for p in v:
        for q in keep:
            c = I.choose(with_facts(eq0(p - q))).const()
            if c is None:
                raise Unknown("unique of symbolic entries")
            if c:
                break
        else:
            keep.append(p)
    r = from_list1(keep, a.dt)
    if all(p.const() is not None for p in keep):
        return I.arr_new(from_list1(sorted(keep, key=lambda p: p.const()), a.dt))
    return np_sort(I, I.arr_new(r))


@reg("ndarray.sort")
def arr_sort(I, x, axis=None, **k):
    I.write(x, I.content(np_sort(I, x)), "sort")


@reg("numpy.flip", "numpy.flipud")
def np_flip(I, x, axis=None):
    a = I.to_arr(x)
    ds = range(a.ndim) if axis is None else [axis_arg(I, axis, a)]
    for d in ds:
        a = AR.flip(a, d)
    return I.arr_new(a)


@reg("numpy.diff")
def np_diff(I, x, n=None, axis=None):
    a = I.to_arr(x)
    d = a.ndim - 1 if axis is None else axis_arg(I, axis, a)
    hi, lo = AR.take_slice(a, d, ONE, None), AR.take_slice(a, d, None, AR.axlen(a.ax[d]) - 1)
    return I.arr_new(AR.mapn(lambda u, v: u - v, [hi, lo], a.dt))


@reg("numpy.trapz")
def trapz(I, y=None, x=None, dx=None, axis=None):
    a = I.to_arr(y)
    if a.ndim == 0:
        raise Raised("IndexError", "trapz of a scalar")
    if a.ndim != 1:
        d = a.ndim - 1 if axis is None else axis_arg(I, axis, a)
        n = AR.axlen(a.ax[d])
        s = AR.mapn(lambda u, v: (u + v) / 2, [AR.take_slice(a, d, ONE, None), AR.take_slice(a, d, None, n - 1)])
        if x is not None:
            xx = I.to_arr(x)
            if xx.ndim != 1:
                raise Unknown("trapz with a matrix of points")
            h = np_diff(I, x)
            for _ in range(a.ndim - 1 - d):
                h = I.arr_new(AR.newaxis(I.to_arr(h), I.to_arr(h).ndim))
            m = I.to_arr(binop(I, "Mult", h, I.arr_new(s)))
            return I.arr_new(AR.reduce_axis(m, d, "sum"))
        h = ONE if dx is None else num(dx)
        return I.arr_new(AR.reduce_axis(AR.mapn(lambda v: mul(h, v), [s]), d, "sum"))
    n = AR.axlen(a.ax[0])
    sl = lambda v, l: AR.take_slice(v, 0, ONE if l else None, None if l else n - 1)
    s = AR.mapn(lambda u, v: (u + v) / 2, [sl(a, 1), sl(a, 0)])
    if x is not None:
        xx = I.to_arr(x)
        d = AR.mapn(lambda u, v: u - v, [sl(xx, 1), sl(xx, 0)])
        return Sc(AR.reduce_all(AR.mapn(mul, [d, s]), "sum"), "npfloat")
    h = ONE if dx is None else num(dx)
    return Sc(mul(h, AR.reduce_all(s, "sum")), "npfloat")


@reg("scipy.integrate.simpson", "scipy.integrate.simps")
def simpson(I, y, x=None, dx=None, axis=None, **k):
    a = I.to_arr(y)
    n = AR.axlen(a.ax[0]).const() if a.ndim == 1 else None
    if n is not None and n in (3, 5, 7, 9):
        ys = [AR.getitem(a, [P(i)]).cells[()] for i in range(int(n))]
        if x is None:
            h0 = ONE if dx is None else num(dx)
            xs = [mul(h0, P(i)) for i in range(int(n))]
        else:
            ax_ = I.to_arr(x)
            xs = [AR.getitem(ax_, [P(i)]).cells[()] for i in range(int(n))]
        tot = ZERO
        for i in range(0, int(n) - 2, 2):
            h, k = xs[i + 1] - xs[i], xs[i + 2] - xs[i + 1]
            w = (h + k) / 6
            tot = tot + mul(w, mul(ys[i], P(2) - k / h) + mul(ys[i + 1], mul(h + k, h + k) / mul(h, k)) + mul(ys[i + 2], P(2) - h / k))
        return Sc(tot, "npfloat")
    return Sc(A(("opq", "simpson", (AR.reduce_all(a, "sum"),))), "npfloat")


@reg("numpy.cumsum")
def cumsum(I, x, axis=None, **k):
    a = I.to_arr(x)
    if a.ndim != 1:
        raise Unknown("cumsum of a matrix")
    a = AR.explode(a, 0)
    t, cells = ZERO, {}
    for i in range(len(a.ax[0])):
        t = t + a.cells[(i,)]
        cells[(i,)] = t
    return I.arr_new(Arr(a.ax, cells, "int" if a.dt == "bool" else a.dt))


@reg("numpy.nan_to_num")
def nan_to_num(I, x, copy=None, nan=None, posinf=None, neginf=None):
    from .terms import shannon
    nv = ZERO if nan is None else num(nan)
    pv = None if posinf is None else num(posinf)

    def g(q):
        if is_nan(q):
            return nv
        if has_ext(q) and pv is not None:
            return pv
        return q
    a = I.to_arr(x)
    r = a.map(lambda p: shannon(p, g))
    if copy is not None and not boolval(I, copy):
        I.write(x, r, "nan_to_num")
        return x
    return out_val(I, r)


@reg("numpy.isclose")
def isclose(I, a, b, rtol=None, atol=None, **k):
    rt = P(Q(1, 10 ** 5)) if rtol is None else num(rtol)
    at = P(Q(1, 10 ** 8)) if atol is None else num(atol)
    return out_val(I, AR.mapn(lambda u, v: compare("<=", fn("abs", u - v), at + mul(rt, fn("abs", v))), [I.to_arr(a), I.to_arr(b)], "bool"))


@reg("numpy.allclose")
def allclose(I, a, b, rtol=None, atol=None, **k):
    r = I.to_arr(isclose(I, a, b, rtol, atol))
    return Sc(AR.reduce_all(r, "all"), "bool")


@reg("numpy.array_equal")
def array_equal(I, a, b, **k):
    x, y = I.to_arr(a), I.to_arr(b)
    if x.ndim != y.ndim:
        return boolsc(ZERO)
    for d in range(x.ndim):
        c = AR.cmp(AR.axlen(x.ax[d]), AR.axlen(y.ax[d]))
        if c is None:
            raise Unknown("array_equal lengths")
        if c:
            return boolsc(ZERO)
    return Sc(AR.reduce_all(AR.mapn(lambda u, v: compare("==", u, v), [x, y], "bool"), "all"), "bool")


@reg("numpy.size")
def np_size(I, x, axis=None):
    a = I.to_arr(x)
    return Sc(size_of(a) if axis is None else AR.axlen(a.ax[axis_arg(I, axis, a)]), "int")


@reg("numpy.ndim")
def np_ndim(I, x):
    return Sc(P(I.to_arr(x).ndim), "int")


@reg("numpy.shape")
def np_shape(I, x):
    return tuple(Sc(s, "int") for s in shape_of(I.to_arr(x)))


class CtxMgr(Stub):
    clsname = "context"

    def get(self, I, name):
        raise Raised("AttributeError", name)


@reg("numpy.errstate", "warnings.catch_warnings", "numpy.printoptions", "contextlib.nullcontext")
def errstate(I, *a, **k):
    return CtxMgr()


class Suppress(CtxMgr):
    clsname = "suppress"

    def __init__(self, excs):
        self.excs = excs


@reg("contextlib.suppress")
def suppress(I, *excs):
    return Suppress(tuple(excs))


@reg("warnings.simplefilter", "warnings.filterwarnings", "numpy.seterr", "numpy.set_printoptions")
def noop(I, *a, **k):
    return None


@reg("numpy.ndenumerate")
def ndenumerate(I, x):
    from .interp import EnumV
    a = I.to_arr(x)
    if a.ndim != 1:
        raise Unknown("ndenumerate of a matrix")
    n = AR.axlen(a.ax[0]).const()
    if n is None:
        raise Unknown("symbolic ndenumerate")
    return I.new(ListO([((Sc(P(i), "int"),), I.getitem(x, Sc(P(i), "int"))) for i in range(int(n))]))


@reg("numpy.ndindex")
def ndindex(I, *s):
    dims = shape_arg(I, s[0]) if len(s) == 1 and not isinstance(s[0], Sc) else [num(v) for v in s]
    ds = [d.const() for d in dims]
    if any(d is None for d in ds):
        raise Unknown("symbolic ndindex")
    return I.new(ListO([tuple(Sc(P(i), "int") for i in t) for t in itertools.product(*[range(int(d)) for d in ds])]))


@reg("numpy.random.random", "numpy.random.rand", "numpy.random.random_sample", "numpy.random.uniform")
def np_random(I, *a, **k):
    I.nrand = getattr(I, "nrand", 0) + 1
    size = k.get("size", a[-1] if a else None)
    nm = f"random#{I.nrand}"
    declare(nm, "pos")
    if size is None:
        return Sc(sym(nm), "float")
    s = shape_arg(I, size)
    return I.arr_new(from_fn(s, lambda *i: sym(nm, *i)))


# ---- masked arrays
@reg("numpy.ma.masked_less_equal")
def ma_le(I, x, v, copy=None):
    a = I.to_arr(x)
    return I.new(ArrO(a, mask=a.map(lambda p: compare("<=", p, num(v)), "bool")))


def ma_cmp(op):
    def f(I, x, v, copy=None):
        a = I.to_arr(x)
        return I.new(ArrO(a, mask=a.map(lambda p: compare(op, p, num(v)), "bool")))
    return f


for _n, _o in (("masked_less", "<"), ("masked_greater", ">"), ("masked_greater_equal", ">="), ("masked_equal", "=="), ("masked_values", "==")):
    FUN["numpy.ma." + _n] = ma_cmp(_o)


@reg("numpy.ma.masked_where")
def masked_where(I, c, x, copy=None):
    return I.new(ArrO(I.to_arr(x), mask=I.to_arr(c)))


@reg("numpy.ma.array", "numpy.ma.masked_array", "numpy.ma.MaskedArray")
def ma_array(I, x, mask=None, **k):
    a = I.to_arr(x)
    m = a.map(lambda p: ZERO, "bool") if mask is None else AR.mapn(lambda u, v: v, [a, I.to_arr(mask)], "bool")
    return I.new(ArrO(a, mask=m))


@reg("numpy.ma.filled", "ndarray.filled")
def ma_filled(I, x, fill_value=None):
    a, m = mask_arr(I, x)
    if m is None:
        return x
    v = P(Q(10) ** 20) if fill_value is None else num(fill_value)
    return I.arr_new(AR.mapn(lambda c, p: blend(c, v, p), [m, a]))


# ---- array methods
@reg("ndarray.astype")
def astype(I, x, dtype, **k):
    if isinstance(x, Sc):
        return to_number(I, x, dtype_of(I, dtype, "float"), True)
    a = I.to_arr(x)
    dt = dtype_of(I, dtype, a.dt)
    if "copy" in k:
        cp = k.pop("copy")
        if isinstance(cp, Sc) and cp.p.const() == 0 and dt == a.dt and I.is_arr(x):
            return x
    return I.arr_new(cast(a, dt))


@reg("ndarray.tolist")
def tolist(I, x):
    def conv(v):
        if I.is_arr(v):
            return I.new(ListO([conv(w) for w in I.iterate(v)]))
        return Sc(v.p, v.k.replace("np", ""))
    return conv(x)


@reg("ndarray.item")
def item(I, x, *a):
    arr = I.to_arr(x)
    if a:
        r = I.getitem(x, a[0])
    else:
        while arr.ndim:
            arr = AR.dropaxis(arr, 0)
        r = Sc(arr.cells[()], arr.dt)
    return Sc(r.p, r.k.replace("np", ""))


@reg("ndarray.fill")
def fill(I, x, v):
    a = I.content(x)
    I.write(x, Arr(a.ax, {k: num(v) for k in a.cells}, a.dt), "fill")


@reg("numpy.copyto")
def copyto(I, x, v, where=None, **k):
    a = I.content(x)
    y = I.to_arr(v)
    if where is not None:
        I.write(x, AR.mapn(lambda u, c, w: blend(c, w, u), [a, I.to_arr(where), y]), "copyto")
    else:
        I.write(x, AR.mapn(lambda u, w: w, [a, y]), "copyto")


# ---------------------------------------------------------------- builtins
@reg("builtins.len")
def b_len(I, x):
    return Sc(I.length(x), "int")


@reg("builtins.range")
def b_range(I, a, b=None, c=None):
    for v in (a, b, c):
        if v is not None and (not isinstance(v, Sc) or v.k in ("float", "npfloat")):
            return type_error("range() integer argument expected")
    lo, hi = (ZERO, num(a)) if b is None else (num(a), num(b))
    return RangeV(lo, hi, ONE if c is None else num(c))


@reg("builtins.abs")
def b_abs(I, x):
    if isinstance(x, Sc):
        return Sc(fn("abs", x.p), "int" if x.k == "bool" else x.k)
    return ufunc1(I, "abs", x)


def minmax(kind):
    def f(I, *args, key=None, default=None):
        items = list(args) if len(args) > 1 else I.iterate(args[0])
        if not items:
            if default is not None:
                return default
            raise Raised("ValueError", f"{kind}() arg is an empty sequence")
        kf = (lambda v: v) if key is None else (lambda v: I.call(key, [v], {}))
        cur, ck = items[0], kf(items[0])
        for x in items[1:]:
            xk = kf(x)
            c = with_facts(I.truth(compare_vals(I, "Lt" if kind == "min" else "Gt", xk, ck)))
            k = c.const()
            if k is not None:
                if k:
                    cur, ck = x, xk
                continue
            c = b_name(c)
            cur, ck = I.blend_val(c, x, cur), I.blend_val(c, xk, ck)
        return cur
    return f


FUN["builtins.min"], FUN["builtins.max"] = minmax("min"), minmax("max")


@reg("builtins.sum")
def b_sum(I, it, start=None):
    acc = Sc(ZERO, "int") if start is None else start
    try:
        items = I.iterate(it)
    except Unknown:
        segs = I.symbolic_iter(it)
        if segs is None:
            raise
        for size, f in segs:
            I.nsym += 1
            v = ("lv", f"q{I.nsym}")
            x = f(A(v))
            if isinstance(x, Sc):
                acc = binop(I, "Add", acc, Sc(mk_sum(size, x.p, v), x.k))
            else:
                a = I.to_arr(x)
                acc = binop(I, "Add", acc, I.arr_new(a.map(lambda p: mk_sum(size, p, v))))
        return acc
    for x in items:
        acc = binop(I, "Add", acc, x)
    return acc


@reg("builtins.any", "builtins.all")
def b_any(I, it):
    raise Unknown("any")


def anyall(kind):
    def f(I, it):
        r = ZERO if kind == "any" else ONE
        try:
            items = I.iterate(it)
        except Unknown:
            segs = I.symbolic_iter(it)
            if segs is None:
                raise
            for size, g in segs:
                I.nsym += 1
                v = ("lv", f"q{I.nsym}")
                t = I.truth(g(A(v)))
                if kind == "any":
                    r = b_or(r, mk_red("rany", size, t, v))
                else:
                    r = rawmul(r, ONE - mk_red("rany", size, ONE - t, v))
            return Sc(r, "bool")
        for x in items:
            t = I.truth(x)
            r = b_or(r, t) if kind == "any" else rawmul(r, t)
        return Sc(b_name(r), "bool")
    return f


FUN["builtins.any"], FUN["builtins.all"] = anyall("any"), anyall("all")


@reg("builtins.iter")
def b_iter(I, x, *sentinel):
    if sentinel:
        out = []
        while len(out) < 20000:
            v = I.call(x, [], {})
            c = equal(I, v, sentinel[0]).const()
            if c == 1:
                return I.new(ListO(out))
            if c is None:
                raise Unknown("iter with a sentinel")
            out.append(v)
        raise Unknown("iter with a sentinel")
    if hasattr(x, "lazy"):
        return x
    from .interp import IterV
    r = b_list(I, x)
    return IterV(r) if isinstance(r, Ref) and isinstance(I.obj(r), ListO) else r


@reg("builtins.list")
def b_list(I, x=None):
    if x is None:
        return I.new(ListO(()))
    if isinstance(x, Opq):
        return Opq(x.why)
    if is_list(I, x):
        o = I.obj(x)
        return I.new(ListO(o.items, o.alt))
    try:
        return I.new(ListO(I.iterate(x)))
    except Unknown:
        segs = I.symbolic_iter(x)
        if segs is None:
            raise
        out = []
        for size, f in segs:
            I.nsym += 1
            v = ("lv", f"q{I.nsym}")
            out.append(Rep(size, f(A(v)), v))
        return I.new(ListO(out))


@reg("builtins.tuple")
def b_tuple(I, x=None):
    if isinstance(x, Opq):
        return Opq(x.why)
    return () if x is None else tuple(I.iterate(x))


@reg("builtins.dict", "collections.OrderedDict")
def b_dict(I, x=None, /, **kw):
    items = {}
    if x is not None:
        if isinstance(x, Ref) and isinstance(I.obj(x), DictO):
            items.update(I.obj(x).items)
        elif is_inst(I, x):
            return I.unknown("dict of an object")
        else:
            for p in I.iterate(x):
                k, v = I.iterate(p)
                kk = I.key(k)
                if kk is None:
                    raise Unknown("dict with unknown keys")
                items[kk] = v
    items.update(kw)
    return I.new(DictO(items))


def plain(x):
    return isinstance(x, str) or isinstance(x, Sc) and x.k in ("int", "npint") and x.p.const() is not None


def pyval(x):
    return x if isinstance(x, str) else int(x.p.const())


def to_number(I, x, kind, np_=False):
    pre = "np" if np_ else ""
    if isinstance(x, Sc):
        if kind == "int":
            if is_nan(x.p):
                raise Raised("ValueError", "cannot convert float NaN to integer")
            return Sc(x.p if is_int_poly(x.p) else fn("trunc", x.p), pre + "int")
        if kind == "bool":
            return Sc(I.truth(x), pre + "bool")
        return Sc(single(x.p) if isinstance(kind, Narrow) else x.p, pre + "float")
    if isinstance(x, str):
        h = getattr(I, "str_num", None)
        if h is not None:
            r = h(I, x, kind)
            if r is not None:
                return r
        try:
            return Sc(P(int(x)) if kind == "int" else P(float(x)), pre + kind)
        except ValueError:
            raise Raised("ValueError", f"could not convert {x!r}")
    if I.is_arr(x):
        a = I.content(x)
        if np_ and a.ndim:
            return I.arr_new(cast(a, kind))
        while a.ndim:
            if not AR.is_unit(a.ax[0]):
                raise Raised("TypeError", "only length-1 arrays can be converted to Python scalars")
            a = AR.dropaxis(a, 0)
        return to_number(I, Sc(a.cells[()], a.dt), kind)
    if isinstance(x, StrSym):
        h = getattr(I, "str_num", None)
        if h is not None:
            r = h(I, x, kind)
            if r is not None:
                return r
        return I.unknown("number from symbolic string")
    if x is None:
        return type_error("a number is required, not 'NoneType'")
    if isinstance(x, Ref) or isinstance(x, tuple):
        return type_error("a number is required")
    return I.unknown("conversion to number")


FUN["builtins.int"] = lambda I, x=Sc(ZERO, "int"), base=None: to_number(I, x, "int")
FUN["builtins.float"] = lambda I, x=Sc(ZERO, "int"): to_number(I, x, "float")


@reg("builtins.bool")
def b_bool(I, x=None):
    if x is None:
        return Sc(ZERO, "bool")
    return Sc(I.truth(x), "bool")


@reg("builtins.str", "builtins.format")
def b_str(I, x="", *a, **k):
    if hasattr(x, "p") and getattr(x, "clsname", "") == "path":
        return x.p
    if isinstance(x, (str, StrSym)) and not a:
        return x
    if isinstance(x, Sc) and x.k == "bool" and x.p.const() is not None and not a:
        return str(bool(x.p.const()))
    if x is None:
        return "None"
    if isinstance(x, Sc) and x.k in ("int", "npint") and x.p.const() is not None and not a:
        return str(int(x.p.const()))
    return StrSym("fmt", I.describe(x))


@reg("builtins.repr")
def b_repr(I, x):
    return repr(x) if isinstance(x, str) else StrSym("fmt", "repr") if isinstance(x, StrSym) else b_str(I, x)


@reg("builtins.print")
def b_print(I, *a, **k):
    return None


@reg("builtins.zip")
def b_zip(I, *its, strict=None):
    from .interp import ZipV
    return ZipV(list(its))


@reg("builtins.enumerate")
def b_enumerate(I, it, start=None):
    from .interp import EnumV
    return EnumV(it, 0 if start is None else intval(start))


@reg("builtins.reversed")
def b_reversed(I, it):
    if isinstance(it, RangeV):
        n = it.length()
        return RangeV(it.lo + mul(it.st, n - 1), it.lo - it.st, -it.st)
    return I.new(ListO(list(reversed(I.iterate(it)))))


@reg("builtins.map")
def b_map(I, f, *its):
    lists = [I.iterate(x) for x in its]
    return I.new(ListO([I.call(f, list(t), {}) for t in zip(*lists)]))


@reg("builtins.filter")
def b_filter(I, f, it):
    out = []
    for x in I.iterate(it):
        c = with_facts(I.truth(x if f is None else I.call(f, [x], {}))).const()
        if c is None:
            raise Unknown("symbolic filter")
        if c:
            out.append(x)
    return I.new(ListO(out))


@reg("builtins.sorted")
def b_sorted(I, it, key=None, reverse=None):
    items = I.iterate(it)
    ks = [x if key is None else I.call(key, [x], {}) for x in items]

    def c(k):
        if isinstance(k, str):
            return (k,)
        if isinstance(k, Sc) and k.p.const() is not None:
            return (k.p.const(),)
        if isinstance(k, tuple):
            return tuple(c(x) for x in k)
        raise Unknown("sorted with symbolic keys")
    order = sorted(range(len(items)), key=lambda i: c(ks[i]), reverse=bool(reverse is not None and boolval(I, reverse)))
    return I.new(ListO([items[i] for i in order]))


@reg("builtins.round")
def b_round(I, x, nd=None):
    if nd is not None:
        k = Q(10) ** intval(nd)
        return Sc(mul(fn("rint", mul(num(x), P(k))), P(1 / k)), x.k)
    return Sc(fn("rint", num(x)), "int")


@reg("builtins.divmod")
def b_divmod(I, a, b):
    return (binop(I, "FloorDiv", a, b), binop(I, "Mod", a, b))


@reg("builtins.pow")
def b_pow(I, a, b):
    return binop(I, "Pow", a, b)


@reg("builtins.slice")
def b_slice(I, *a):
    return SliceV(None, a[0], None) if len(a) == 1 else SliceV(*a, *[None] * (3 - len(a)))


@reg("builtins.callable")
def b_callable(I, x):
    if isinstance(x, Opq):
        return unknown_bool(I, "callable of unknown")
    if isinstance(x, (FuncV, BoundV, ClassV, PyFn, Ext, ExtM)):
        return boolsc(ONE)
    if isinstance(x, Stub):
        return boolsc(P(hasattr(x, "call")))
    if isinstance(x, Ref) and isinstance(I.obj(x), InstO):
        return boolsc(P(I.class_lookup(I.obj(x).cls, "__call__") is not None))
    return boolsc(ZERO)


@reg("builtins.hasattr")
def b_hasattr(I, o, name):
    if isinstance(o, Opq):
        return unknown_bool(I, "hasattr of unknown")
    from .interp import AbsRaise
    try:
        I.getattr(o, name)
        return boolsc(ONE)
    except (AbsRaise, Raised) as e:
        cls = e.exc.cls if isinstance(e, AbsRaise) else e.cls
        if cls == "AttributeError":
            return boolsc(ZERO)
        raise


@reg("builtins.getattr")
def b_getattr(I, o, name, *default):
    from .interp import AbsRaise
    if not isinstance(name, str):
        return I.unknown("getattr of unknown name")
    try:
        return I.getattr(o, name)
    except (AbsRaise, Raised) as e:
        cls = e.exc.cls if isinstance(e, AbsRaise) else e.cls
        if default and cls == "AttributeError":
            return default[0]
        raise


@reg("builtins.setattr")
def b_setattr(I, o, name, v):
    I.setattr(o, name, v)


@reg("builtins.type")
def b_type(I, x, *a):
    if isinstance(x, Ref) and isinstance(I.obj(x), InstO):
        return I.obj(x).cls
    return TypeOf(type_names(I, x))


class TypeOf(Stub):
    clsname = "type"

    def __init__(self, names):
        self.names = names

    def get(self, I, name):
        if name == "__name__":
            return StrSym("fmt", "typename")
        raise Raised("AttributeError", name)

    def call(self, I, args, kw):
        raise Unknown("call of type()")

    def __eq__(self, o):
        return isinstance(o, TypeOf) and o.names == self.names or isinstance(o, Ext) and o.name == self.names[0]

    def __hash__(self):
        return 1


def type_names(I, v):
    """Names of the types v is an instance of (most specific first), or None if unknown."""
    if isinstance(v, Sc):
        return {"int": ["builtins.int", "numbers.Integral", "numbers.Real", "numbers.Rational", "numbers.Number"],
                "bool": ["builtins.bool", "builtins.int", "numbers.Integral", "numbers.Real", "numbers.Rational", "numbers.Number"],
                "float": ["builtins.float", "numbers.Real", "numbers.Number"],
                "npint": ["numpy.int64", "numpy.integer", "numpy.number", "numpy.generic", "numpy.signedinteger", "numbers.Integral",
                          "numbers.Real", "numbers.Rational", "numbers.Number"],
                "npfloat": ["numpy.float64", "numpy.floating", "numpy.inexact", "numpy.number", "numpy.generic", "builtins.float",
                            "numbers.Real", "numbers.Number"],
                "npbool": ["numpy.bool_", "numpy.bool", "numpy.generic"]}[v.k]
    if v is None:
        return ["builtins.NoneType", "types.NoneType"]
    if isinstance(v, (str, StrSym)):
        return ["builtins.str", "collections.abc.Sequence", "collections.abc.Iterable", "typing.Iterable"]
    if isinstance(v, tuple):
        return ["builtins.tuple", "collections.abc.Sequence", "collections.abc.Iterable"]
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ArrO):
            return ["numpy.ma.MaskedArray", "numpy.ndarray"] if o.mask is not None else ["numpy.ndarray", "collections.abc.Iterable"]
        if isinstance(o, SetO):
            return ["builtins.set", "collections.abc.Set", "collections.abc.MutableSet", "collections.abc.Collection", "collections.abc.Iterable"]
        if isinstance(o, DequeO):
            return ["collections.deque", "collections.abc.Sequence", "collections.abc.Iterable"]
        if isinstance(o, ListO):
            return ["builtins.list", "collections.abc.Sequence", "collections.abc.Iterable"]
        if isinstance(o, DictO):
            return ["builtins.dict", "collections.abc.Mapping", "collections.abc.Iterable"]
    if isinstance(v, (FuncV, BoundV, PyFn)):
        return ["types.FunctionType"]
    if isinstance(v, (ClassV, Ext)):
        return ["builtins.type"]
    if isinstance(v, RangeV):
        return ["builtins.range", "collections.abc.Sequence", "collections.abc.Iterable"]
    if isinstance(v, Stub):
        return list(getattr(v, "types", ["stub." + v.clsname]))
    if isinstance(v, ExcV):
        from .interp import EXC_BASES
        out, c = [], v.cls
        while c:
            out.append("builtins." + c)
            c = EXC_BASES.get(c)
        return out
    return None


@reg("builtins.isinstance")
def b_isinstance(I, v, t):
    if isinstance(v, Opq):
        return unknown_bool(I, "type of unknown")
    ts = list(I.iterate(t)) if isinstance(t, tuple) or is_list(I, t) else [t]
    for x in ts:
        if is_a(I, v, x):
            return boolsc(ONE)
    return boolsc(ZERO)


def is_a(I, v, t):
    if isinstance(t, ClassV):
        if isinstance(v, Ref) and isinstance(I.obj(v), InstO):
            return t in I.obj(v).cls.mro()
        if isinstance(v, Stub):
            return bool(t.name in getattr(v, "types", ()))
        return False
    if isinstance(t, Ext):
        if t.name == "builtins.object":
            return True
        if isinstance(v, Ref) and isinstance(I.obj(v), InstO):
            return any(isinstance(c, Ext) and c.name == t.name for c in I.obj(v).cls.mro())
        n = type_names(I, v)
        if n is None:
            raise Unknown("isinstance of unknown value")
        return t.name in n
    if isinstance(t, TypeOf):
        n = type_names(I, v)
        return bool(n and t.names[0] in n)
    raise Unknown("isinstance with unknown type")


@reg("builtins.issubclass")
def b_issubclass(I, c, t):
    ts = list(t) if isinstance(t, tuple) else [t]
    return boolsc(P(isinstance(c, ClassV) and any(x in c.mro() for x in ts)))


@reg("builtins.object", "builtins.id", "builtins.hash")
def b_object(I, *a):
    return I.unknown("object")


@reg("builtins.next")
def b_next(I, it, *default):
    if hasattr(it, "nxt"):
        s = it.take(I)
        if s == "":
            if default:
                return default[0]
            raise Raised("StopIteration", "")
        return s
    from .interp import UNDEF, IterV
    if isinstance(it, IterV):
        rest = it.rest(I)
        if not rest or not (isinstance(rest[0], Ite) and rest[0].y is UNDEF):
            if rest:
                I.put(it.ref, ListO(rest[1:]))
                return rest[0]
            if default:
                return default[0]
            raise Raised("StopIteration", "")
        I.put(it.ref, ListO([Opq("iterator advanced by an unknown number of items")]))
        items = rest
    elif isinstance(it, (ZipV, EnumV)):
        raise Unknown("next of zip or enumerate")
    else:
        items = I.iterate(it)
    res = None
    have = False
    rem = ONE
    out = []
    for x in items:
        if isinstance(x, Ite) and x.y is UNDEF:
            out.append((x.c, x.x))
        else:
            out.append((ONE, x))
            break
    if out and out[-1][0].const() == 1:
        r = out[-1][1]
        out = out[:-1]
    elif default:
        r = default[0]
    else:
        if not out:
            raise Raised("StopIteration", "")
        r = out[-1][1]
        none = ONE
        for c, _ in out:
            none = b_name(rawmul(none, ONE - c))
        base = I.st
        if with_facts(none).const() != 0:
            I.enter(base.fork(none))
            I.add_exit("raise", ExcV("StopIteration", ()))
            nb = base.fork(ONE - none)
            nb.guards = list(base.guards)
            I.enter(nb)
        out = out[:-1]
    for c, x in reversed(out):
        r = I.blend_val(c, x, r)
    return r


# ---- list / dict / str methods
@reg("list.append")
def l_append(I, r, x):
    I.effect("write", r.a, "list append")
    I.list_extend(r, [x])


@reg("list.extend")
def l_extend(I, r, it):
    I.effect("write", r.a, "list extend")
    I.list_extend(r, I.items_of(it))


@reg("list.insert")
def l_insert(I, r, i, x):
    I.effect("write", r.a, "list insert")
    o = I.obj(r)
    k = intval(i)
    it = list(o.items)
    if o.alt or any(isinstance(y, (Rep, Hist)) for y in it) and k != 0:
        raise Unknown("list insert")
    it.insert(k, x)
    I.put(r, ListO(it))


@reg("list.pop")
def l_pop(I, r, i=None):
    I.effect("write", r.a, "list pop")
    o = I.obj(r)
    if o.alt or not o.items:
        if not o.alt:
            raise Raised("IndexError", "pop from empty list")
        raise Unknown("pop")
    it = list(o.items)
    k = -1 if i is None else intval(i)
    if k != -1 and any(isinstance(y, (Rep, Hist)) for y in it):
        raise Unknown("pop from symbolic list")
    if not -len(it) <= k < len(it):
        raise Raised("IndexError", "pop index out of range")
    x = it[k]
    if isinstance(x, (Rep, Hist)):
        v = I.list_get(o, Sc(P(-1), "int"))
        if isinstance(x, Rep):
            it[k] = Rep(x.size - 1, x.val, x.var)
        else:
            it[k] = Hist(x.size - 1, x.el)
        I.put(r, ListO(it))
        return v
    del it[k]
    I.put(r, ListO(it))
    return x


@reg("list.copy")
def l_copy(I, r):
    o = I.obj(r)
    return I.new(ListO(o.items, o.alt))


@reg("list.clear")
def l_clear(I, r):
    I.effect("write", r.a, "list clear")
    I.put(r, ListO(()))


@reg("list.reverse")
def l_reverse(I, r):
    I.effect("write", r.a, "list reverse")
    I.put(r, ListO(list(reversed(I.iterate(r)))))


@reg("list.sort")
def l_sort(I, r, key=None, reverse=None):
    I.effect("write", r.a, "list sort")
    I.put(r, I.obj(b_sorted(I, r, key, reverse)))


@reg("list.index")
def l_index(I, r, x):
    items = I.iterate(r)
    res = None
    for i in reversed(range(len(items))):
        c = equal(I, items[i], x)
        if c.const() == 0:
            continue
        res = P(i) if res is None or c.const() == 1 else blend(c, P(i), res)
    if res is None:
        raise Raised("ValueError", "is not in list")
    return Sc(res, "int")


@reg("list.count")
def l_count(I, r, x):
    t = ZERO
    for y in I.iterate(r):
        t = t + equal(I, y, x)
    return Sc(t, "int")


@reg("list.remove")
def l_remove(I, r, x):
    I.effect("write", r.a, "list remove")
    items = I.iterate(r)
    for i, y in enumerate(items):
        c = equal(I, y, x).const()
        if c is None:
            raise Unknown("list.remove")
        if c:
            I.put(r, ListO(items[:i] + items[i + 1:]))
            return None
    raise Raised("ValueError", "not in list")


@reg("dict.keys")
def d_keys(I, r):
    return I.new(ListO([I.unkey(k) for k in I.obj(r).items]))


@reg("dict.values")
def d_values(I, r):
    return I.new(ListO(list(I.obj(r).items.values())))


@reg("dict.items")
def d_items(I, r):
    from .interp import UNDEF
    out = []
    for k, v in I.obj(r).items.items():
        if isinstance(v, Ite) and v.y is UNDEF:
            out.append(Ite(v.c, (I.unkey(k), v.x), UNDEF))
        else:
            out.append((I.unkey(k), v))
    return I.new(ListO(out))


@reg("dict.get")
def d_get(I, r, k, d=None):
    kk = I.key(k)
    o = I.obj(r)
    if kk is None:
        return I.unknown("dict.get of unknown key")
    if kk in o.items:
        v = o.items[kk]
        from .interp import UNDEF
        if isinstance(v, Ite) and v.y is UNDEF:
            return I.prune(Ite(v.c, v.x, d))
        return v
    return d


@reg("dict.setdefault")
def d_setdefault(I, r, k, d=None):
    kk = I.key(k)
    o = I.obj(r)
    if kk in o.items:
        return o.items[kk]
    I.setitem(r, k, d)
    return d


@reg("dict.pop")
def d_pop(I, r, k, *d):
    I.effect("write", r.a, "dict pop")
    o = I.obj(r)
    kk = I.key(k)
    if kk not in o.items:
        if d:
            return d[0]
        raise Raised("KeyError", str(k))
    it = dict(o.items)
    v = it.pop(kk)
    I.put(r, o.like(it))
    return v


@reg("dict.update")
def d_update(I, r, x=None, /, **kw):
    I.effect("write", r.a, "dict update")
    it = dict(I.obj(r).items)
    if x is not None:
        it.update(I.obj(b_dict(I, x)).items)
    it.update(kw)
    I.put(r, I.obj(r).like(it))


@reg("dict.copy")
def d_copy(I, r):
    return I.new(I.obj(r).like(I.obj(r).items))


def strm(name, f):
    def g(I, s, *a, **k):
        if isinstance(s, StrSym):
            h = getattr(I, "str_method", None)
            if h is not None:
                r = h(I, s, name, a, k)
                if r is not NotImplemented:
                    return r
            if name in ("format", "join"):
                return StrSym("fmt", name)
            return I.unknown(f"str.{name} on symbolic string")
        return f(I, s, *a, **k)
    FUN["str." + name] = g


def _raw(x):
    if isinstance(x, str):
        return x
    if isinstance(x, Sc) and x.p.const() is not None:
        return int(x.p.const())
    if isinstance(x, tuple):
        return tuple(_raw(y) for y in x)
    if x is None:
        return None
    raise Unknown("string method argument")


def simple(name, wrap):
    strm(name, lambda I, s, *a, **k: wrap(I, getattr(s, name)(*[_raw(x) for x in a])))


for _n in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "capitalize", "title", "casefold", "zfill", "ljust", "rjust",
           "center", "swapcase", "removeprefix", "removesuffix"):
    simple(_n, lambda I, r: r)
for _n in ("isalpha", "startswith", "endswith", "isdigit", "isupper", "islower", "isnumeric", "isalnum", "isspace"):
    simple(_n, lambda I, r: boolsc(P(r)))
for _n in ("split", "rsplit", "splitlines"):
    simple(_n, lambda I, r: I.new(ListO(r)))
for _n in ("find", "rfind", "count"):
    simple(_n, lambda I, r: Sc(P(r), "int"))
for _n in ("partition", "rpartition"):
    simple(_n, lambda I, r: tuple(r))


def s_index(I, s, x, *a):
    r = s.find(_raw(x), *[_raw(y) for y in a])
    if r < 0:
        raise Raised("ValueError", "substring not found")
    return Sc(P(r), "int")


strm("index", s_index)
strm("format", lambda I, s, *a, **k: s.format(*[pyval(x) for x in a], **{n: pyval(x) for n, x in k.items()})
     if all(plain(x) for x in list(a) + list(k.values())) else StrSym("fmt", s[:40]))


def s_join(I, s, it):
    items = I.iterate(it)
    out = []
    for i, x in enumerate(items):
        if i and s:
            out.append(s)
        if not isinstance(x, (str, StrSym)):
            return type_error("sequence item: expected str instance")
        out.append(x)
    return I.str_join(out)


strm("join", s_join)
strm("encode", lambda I, s, *a, **k: s)


# ---- misc library
@reg("timeit.default_timer", "time.time", "time.perf_counter", "time.process_time")
def timer(I, *a):
    return Sc(sym(I.fresh("clock", "pos")), "float")


@reg("warnings.warn")
def warn(I, *a, **k):
    I.calls.append(("warnings.warn", a, k, I.loc, tuple(I.st.guards)))


@reg("itertools.product")
def it_product(I, *its, repeat=None):
    ls = [I.iterate(x) for x in its] * (1 if repeat is None else intval(repeat))
    return I.new(ListO([tuple(t) for t in itertools.product(*ls)]))


@reg("itertools.combinations", "itertools.combinations_with_replacement", "itertools.permutations")
def it_comb(I, it, r):
    return I.new(ListO([tuple(t) for t in itertools.combinations(I.iterate(it), intval(r))]))


FUN["itertools.combinations_with_replacement"] = lambda I, it, r: I.new(ListO([tuple(t) for t in itertools.combinations_with_replacement(I.iterate(it), intval(r))]))
FUN["itertools.permutations"] = lambda I, it, r=None: I.new(ListO([tuple(t) for t in itertools.permutations(I.iterate(it), None if r is None else intval(r))]))


@reg("itertools.chain")
def it_chain(I, *its):
    out = []
    for x in its:
        out += I.items_of(x)
    return I.new(ListO(out))


FUN["itertools.chain.from_iterable"] = lambda I, it: it_chain(I, *I.iterate(it))


@reg("itertools.accumulate")
def it_acc(I, it, func=None, initial=None):
    out, acc = [], initial
    if acc is not None:
        out.append(acc)
    for x in I.iterate(it):
        acc = x if acc is None else (binop(I, "Add", acc, x) if func is None else I.call(func, [acc, x], {}))
        out.append(acc)
    return I.new(ListO(out))


@reg("functools.partial")
def partial(I, f, *a, **k):
    return PyFn(lambda I2, args, kw: I2.call(f, list(a) + list(args), {**k, **kw}), "partial")


@reg("functools.reduce")
def reduce_(I, f, it, init=None):
    items = I.iterate(it)
    acc = init
    for x in items:
        acc = x if acc is None else I.call(f, [acc, x], {})
    return acc


for _n, _o in (("add", "Add"), ("mul", "Mult"), ("sub", "Sub"), ("truediv", "Div")):
    FUN["operator." + _n] = (lambda o: lambda I, a, b: binop(I, o, a, b))(_o)


@reg("operator.itemgetter")
def itemgetter(I, *ks):
    def f(I2, args, kw):
        r = [I2.getitem(args[0], k) for k in ks]
        return r[0] if len(r) == 1 else tuple(r)
    return PyFn(f, "itemgetter")


@reg("operator.attrgetter")
def attrgetter(I, *ks):
    def f(I2, args, kw):
        r = [I2.getattr(args[0], k) for k in ks]
        return r[0] if len(r) == 1 else tuple(r)
    return PyFn(f, "attrgetter")


@reg("numpy.finfo", "numpy.iinfo", "builtins.open_")
def finfo(I, *a):
    return Finfo()


class Finfo(Stub):
    clsname = "finfo"

    def get(self, I, name):
        if name == "eps":
            return Sc(P(Q(2) ** -52), "npfloat")
        if name in ("tiny", "smallest_normal"):
            return Sc(P(Q(2) ** -1022), "npfloat")
        return I.unknown("finfo." + name)


@reg("numpy.may_share_memory", "numpy.shares_memory", "numpy.isscalar")
def np_isscalar(I, x, *a):
    return boolsc(P(isinstance(x, (Sc, str))))


@reg("numpy.dtype")
def np_dtype(I, x):
    return x


FUN["numpy.vectorize"] = lambda I, f, *a, **k: I.unknown("vectorize")
FUN["ndarray.dot"] = dot
FUN["ndarray.any"], FUN["ndarray.all"] = FUN["numpy.any"], FUN["numpy.all"]
FUN["copy.copy"] = np_array


from . import pymodel  # noqa: E402  (registers more models, and needs those above)
