"""Abstract interpreter over the Python syntax tree of the analysed package.

It evaluates every statement once per calling context on abstract values (terms, abstract arrays), joins the
states of the two arms of a conditional (no path enumeration), summarises loops over symbolic ranges and
records: exits with their conditions, writes to pre-existing storage, calls of library functions.
"""
import ast
import os
from .terms import (P, Poly, ONE, ZERO, NAN, INF, PI, Q, A, aid, atom, atoms_of, deep_atoms, blend, compare, gt0, eq0, fn, power, mul,
                    rawmul, add, subst, set_facts, Facts, facts, with_facts, toplevel_bools, restrict, b_name, bool_atom,
                    prove_ge0, prove_gt0, mk_sum, mk_red, declare, sym, lv, ix, is_int_poly, TooBig, atom_poly, b_or, b_and,
                    shannon, has_ext, is_nan)
from . import arr as AR
from .arr import Arr, Unknown, Raised
from .values import *


class AbsRaise(Exception):
    def __init__(self, exc):
        super().__init__(str(exc))
        self.exc = exc


class Dead(AbsRaise):
    """No input gets here: the conditions assumed contradict each other."""

    def __init__(self):
        super().__init__(ExcV("Exception", ("no exit",)))


class Budget(Exception):
    pass


class Undef(Val):
    def __repr__(self):
        return "<undefined>"


UNDEF = Undef()


class Ctx:
    """Function activation: exits and loop stack."""

    def __init__(self, func, base, loc):
        self.func, self.base, self.exits, self.loops, self.loc = func, base, [], [], loc
        self.yields = None


_yields = {}


def has_yield(node):
    """Is this a generator function (nested functions do not count)?"""
    r = _yields.get(node)
    if r is None:
        r, todo = False, list(node.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                todo.extend(ast.iter_child_nodes(x))
        _yields[node] = r
    return r


class IterV(Stub):
    """Iterator over the items of a list; taking an item removes it."""
    clsname = "iterator"
    types = ["collections.abc.Iterator", "collections.abc.Iterable", "types.GeneratorType"]
    __hash__ = object.__hash__

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, IterV) and o.ref == self.ref

    def rest(self, I):
        o = I.obj(self.ref)
        if o.alt or any(isinstance(x, (Rep, Hist, Opq)) for x in o.items):
            raise Unknown("iterator over a list of unknown length")
        return list(o.items)

    def lazy(self, I):
        while True:
            it = self.rest(I)
            if not it:
                return
            I.put(self.ref, ListO(it[1:]))
            yield it[0]

    def all(self, I):
        it = self.rest(I)
        I.put(self.ref, ListO([]))
        return it

    def get(self, I, name):
        if name == "__next__":
            from . import npmodel
            return PyFn(lambda I, a, k: npmodel.b_next(I, self))
        raise Unknown("iterator attribute " + name)


def retuple(t, items):
    """A tuple of the same type (plain or named) with other items."""
    return t.with_items(items) if hasattr(t, "with_items") else tuple(items)


def match_test(p, subj):
    """The condition a match pattern stands for, and the names it binds."""
    def isin(t, names):
        return ast.Call(ast.Name("isinstance", ast.Load()), [t, ast.Tuple([ast.Name(k, ast.Load()) for k in names], ast.Load())], [])

    def both(ts):
        ts = [t for t in ts if not (isinstance(t, ast.Constant) and t.value is True)]
        return ast.Constant(True) if not ts else ts[0] if len(ts) == 1 else ast.BoolOp(ast.And(), ts)
    if isinstance(p, ast.MatchValue):
        return ast.Compare(subj, [ast.Eq()], [p.value]), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)]), []
    if isinstance(p, ast.MatchAs):
        t, b = (ast.Constant(True), []) if p.pattern is None else match_test(p.pattern, subj)
        return t, b + ([] if p.name is None else [(p.name, subj)])
    if isinstance(p, ast.MatchOr):
        parts = [match_test(x, subj) for x in p.patterns]
        if any(b for _, b in parts):
            raise Unknown("match alternatives that bind")
        return ast.BoolOp(ast.Or(), [t for t, _ in parts]), []
    if isinstance(p, ast.MatchSequence):
        n, stars = len(p.patterns), [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
        ln = ast.Call(ast.Name("len", ast.Load()), [subj], [])
        ts, bs = [isin(subj, ["list", "tuple"]), ast.Compare(ln, [ast.GtE() if stars else ast.Eq()], [ast.Constant(n - len(stars))])], []
        for i, x in enumerate(p.patterns):
            k = i if not stars or i < stars[0] else i - n
            if isinstance(x, ast.MatchStar):
                if x.name is not None:
                    bs.append((x.name, ast.Call(ast.Name("list", ast.Load()), [ast.Subscript(subj, ast.Slice(ast.Constant(i), ast.Constant(i - n + 1) if i < n - 1
                                                                                                             else None), ast.Load())], [])))
                continue
            t, b = match_test(x, ast.Subscript(subj, ast.Constant(k), ast.Load()))
            ts.append(t)
            bs += b
        return both(ts), bs
    if isinstance(p, ast.MatchMapping):
        if p.rest is not None:
            raise Unknown("match of the rest of a mapping")
        ts, bs = [isin(subj, ["dict"])], []
        for k, x in zip(p.keys, p.patterns):
            ts.append(ast.Compare(k, [ast.In()], [subj]))
            t, b = match_test(x, ast.Subscript(subj, k, ast.Load()))
            ts.append(t)
            bs += b
        return both(ts), bs
    if isinstance(p, ast.MatchClass):
        ts, bs = [ast.Call(ast.Name("isinstance", ast.Load()), [subj, p.cls], [])], []
        if p.patterns:
            if not (len(p.patterns) == 1 and isinstance(p.cls, ast.Name) and p.cls.id in ("int", "float", "str", "bool", "list", "tuple", "dict")):
                raise Unknown("match of positional class patterns")
            t, b = match_test(p.patterns[0], subj)
            ts.append(t)
            bs += b
        for k, x in zip(p.kwd_attrs, p.kwd_patterns):
            t, b = match_test(x, ast.Attribute(subj, k, ast.Load()))
            ts.append(t)
            bs += b
        return both(ts), bs
    raise Unknown("match pattern")


class Loop:
    def __init__(self, base):
        self.base, self.breaks, self.conts = base, [], []


EXC_BASES = {"ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception", "IndexError": "LookupError",
             "KeyError": "LookupError", "LookupError": "Exception", "RuntimeError": "Exception",
             "NotImplementedError": "RuntimeError", "AssertionError": "Exception", "ZeroDivisionError": "ArithmeticError",
             "ArithmeticError": "Exception", "FileNotFoundError": "OSError", "OSError": "Exception", "StopIteration": "Exception",
             "NameError": "Exception", "UnboundLocalError": "NameError", "Exception": "BaseException", "BaseException": None,
             "UserWarning": "Warning", "Warning": "Exception", "RuntimeWarning": "Warning", "FloatingPointError": "ArithmeticError",
             "OverflowError": "ArithmeticError", "DeprecationWarning": "Warning", "numpy.linalg.LinAlgError": "ValueError"}


class Interp:
    MAXSTEPS = 400000

    def __init__(self, root, package="bfit"):
        self.root, self.package = root, package
        self.next = 1
        self.owner = {}
        self.modules = {}
        self.loading = set()
        self.builtins = {}
        self.ext = {}
        self.effects = []
        self.calls = []
        self.vfs, self.opened = {}, []        # virtual files: path -> lines; paths opened so far
        self.unknowns = []
        self.lost = []          # effects on objects that could not be identified
        self.ctxs = []
        self.steps = 0
        self.cuts = []
        self.loop_hook = None
        self.call_hook = None       # f(I, func, args, kw) -> value or None
        self.func_over = {}         # qualified name -> python handler(I, args, kw)
        self.visited_funcs = {}
        self.visited_nodes = set()
        self.callsites = set()
        self.trees = {}
        self.st = State()
        self.loc = ("", "", 0)
        self.nsym = 0
        self.depth = 0
        from . import npmodel, files
        npmodel.install(self)

    # ------------------------------------------------------------ heap
    def enter(self, st):
        self.st = st
        set_facts(st.facts)

    def new(self, obj, owner=None):
        a = self.next
        self.next += 1
        self.st.heap[a] = obj
        if owner:
            self.owner[a] = owner
        return Ref(a)

    def obj(self, r):
        return self.st.heap[r.a]

    def put(self, r, o):
        self.st.heap[r.a] = o

    def effect(self, kind, addr, detail=""):
        t = self.owner.get(addr)
        if t is not None:
            g = ONE
            for x in self.st.guards:
                g = rawmul(g, x) if len(g.t) * len(x.t) < 200 else g
            self.effects.append((kind, t, detail, self.loc, g))

    def is_arr(self, v):
        return isinstance(v, Ref) and isinstance(self.obj(v), ArrO)

    def content(self, r):
        o = self.obj(r)
        if o.why is not None:
            raise Unknown(o.why)
        if o.base is None:
            return o.arr
        b = self.content(Ref(o.base))
        return self.apply_view(b, o.how)

    @staticmethod
    def apply_view(b, how):
        k = how[0]
        if k == "idx":
            return AR.getitem(b, list(how[1]))
        if k == "T":
            return AR.transpose(b, how[1])
        if k == "reshape":
            return AR.reshape(b, list(how[1]))
        raise Unknown(k)

    def root_addr(self, r):
        a = r.a
        while self.st.heap[a].base is not None:
            a = self.st.heap[a].base
        return a

    def write(self, r, new, detail=""):
        """Replace the content of array r (in place; through views)."""
        o = self.obj(r)
        if o.base is None:
            self.effect("write", r.a, detail)
            old = o.arr
            if old is not None and old.dt in ("int", "bool") and new.dt == "float" and old.dt != new.dt:
                new = Arr(new.ax, {k: (v if is_int_poly(v) else fn("trunc", v)) for k, v in new.cells.items()}, old.dt)
            elif old is not None:
                new = AR.narrow(Arr(new.ax, new.cells, old.dt))
            self.put(r, ArrO(new, mask=o.mask))
            return
        base = Ref(o.base)
        if self.obj(base).why is not None:
            self.effect("write", self.root_addr(r), detail)
            return
        b = self.content(base)
        how = o.how
        if how[0] == "idx":
            nb = AR.setitem(b, list(how[1]), new)
        elif how[0] == "T":
            perm = how[1]
            inv = [0] * len(perm)
            for i, p in enumerate(perm):
                inv[p] = i
            nb = AR.transpose(new, tuple(inv))
        else:
            nb = AR.reshape(new, list(b.shape()))
        self.write(base, nb, detail)

    def poison(self, r, why):
        o = self.obj(r)
        while o.base is not None:
            r = Ref(o.base)
            o = self.obj(r)
        self.effect("write", r.a, "")
        self.unknown(why)
        self.put(r, ArrO(None, why=why))

    def unknown(self, why):
        self.unknowns.append((str(why), self.loc))
        return Opq(f"{why} at {self.loc[0]}:{self.loc[1]}:{self.loc[2]}")

    def lose(self, why):
        """An effect whose target is not known: nothing is claimed about the states after it."""
        self.unknown(why)
        self.lost.append((str(why), self.loc))

    def arr_new(self, a, owner=None):
        return self.new(ArrO(AR.narrow(a)), owner)

    def wrap(self, a, kind=None):
        """Arr to value: 0-d becomes a scalar."""
        if a.ndim == 0:
            return Sc(a.cells[()], {"float": "npfloat", "int": "npint", "bool": "npbool"}.get(kind or a.dt, "npfloat"))
        return self.arr_new(a)

    def to_arr(self, v):
        """Value to Arr (numbers, sequences, arrays)."""
        if isinstance(v, Sc):
            return AR.lift(v.p, v.k.replace("np", ""))
        if isinstance(v, tuple):
            return self.stack([self.to_arr(x) for x in v])
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ArrO):
                if o.mask is not None:
                    raise Unknown("masked array used as plain array")
                return self.content(v)
            if isinstance(o, ListO):
                return self.list_to_arr(o)
            if isinstance(o, DictO):
                raise Unknown("dict as array")
        if isinstance(v, RangeV):
            n = v.length()
            return AR.from_fn([n], lambda i: v.lo + mul(v.st, i), "int")
        if isinstance(v, Opq):
            raise Unknown(v.why)
        if isinstance(v, Ite):
            x, y = self.to_arr(v.x), self.to_arr(v.y)
            return self.blend_arr(v.c, x, y)
        if v is None or isinstance(v, str):
            raise Unknown(f"{v!r} as array")
        raise Unknown(f"{type(v).__name__} as array")

    def stack(self, arrs):
        if not arrs:
            return Arr([()], {}, "float")
        n = arrs[0].ndim
        for a in arrs:
            if a.ndim != n:
                raise Raised("ValueError", "inhomogeneous shape")
        return AR.concat([AR.newaxis(a, 0) for a in arrs], 0)

    def list_to_arr(self, o):
        if o.alt:
            c, x, y = o.alt
            return self.blend_arr(c, self.list_to_arr(ListO(x)), self.list_to_arr(ListO(y)))
        parts = []
        for it in o.items:
            if isinstance(it, Rep):
                a = self.to_arr(it.val)
                va = aid(it.var)
                # new leading axis of length size: shift axes, var -> ix(0)
                a = AR.newaxis(a, 0)
                cells = {k: subst(v, {va: ix(0)}) for k, v in a.cells.items()}
                a = Arr(((it.size,),) + a.ax[1:], cells, a.dt)
                parts.append(a)
            elif isinstance(it, Hist):
                parts.append(AR.newaxis(self.to_arr(it.el(A(("lv", "$h")))), 0).map(
                    lambda v: subst(v, {aid(("lv", "$h")): ix(0)})))
                p = parts[-1]
                parts[-1] = Arr(((it.size,),) + p.ax[1:], p.cells, p.dt)
            else:
                parts.append(AR.newaxis(self.to_arr(it), 0))
        if not parts:
            return Arr([()], {}, "float")
        if len({p.ndim for p in parts}) != 1:
            raise Raised("ValueError", "inhomogeneous shape")
        return AR.concat(parts, 0)

    def blend_arr(self, c, x, y):
        if x.same(y):
            return x
        if x.ndim != y.ndim:
            raise Unknown("merge of arrays of different rank")
        for d in range(x.ndim):
            if AR.cmp(AR.axlen(x.ax[d]), AR.axlen(y.ax[d])) != 0:
                raise Unknown("merge of arrays of different shape")
        if x.sel is not None or y.sel is not None:
            raise Unknown("merge of selections")
        cc = AR.lift(c)
        return AR.mapn(lambda k, a, b: blend(k, a, b), [cc, x, y], x.dt if x.dt == y.dt else "float")

    # ------------------------------------------------------------ joins
    def blend_val(self, c, a, b, s1=None, s2=None):
        if a is b or (type(a) is type(b) and not isinstance(a, (Opq,)) and a == b):
            return a
        k = c.const()
        if k is not None:
            return a if k else b
        if isinstance(a, Sc) and isinstance(b, Sc):
            kind = a.k if a.k == b.k else ("bool" if {a.k, b.k} == {"bool", "npbool"} else
                                           "npint" if {a.k, b.k} <= {"int", "npint"} else
                                           "int" if {a.k, b.k} <= {"int", "bool"} else "npfloat")
            if kind == "npfloat" and {a.k, b.k} == {"float", "int"}:
                kind = "float"
            return Sc(blend(c, a.p, b.p), kind)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            if type(a) is type(b):
                return retuple(a, [self.blend_val(c, x, y, s1, s2) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(b, Ref) and s1 is not None:
            if a.a not in s2.heap and b.a not in s1.heap:
                o1, o2 = s1.heap[a.a], s2.heap[b.a]
                if isinstance(o1, ArrO) and isinstance(o2, ArrO) and o1.mask is None and o2.mask is None \
                        and o1.base is None and o2.base is None and o1.why is None and o2.why is None:
                    try:
                        return self.new(ArrO(self.blend_arr(c, o1.arr, o2.arr)))
                    except (Unknown, TooBig):
                        pass
        return Ite(c, a, b)

    def blend_obj(self, c, o1, o2, s1, s2):
        if type(o1) is not type(o2):
            return ArrO(None, why="merge of different objects")
        if isinstance(o1, ArrO):
            if o1.why is not None:
                return o1
            if o2.why is not None:
                return o2
            if o1.base is not None or o2.base is not None:
                if o1.base == o2.base and o1.how == o2.how:
                    return o1
                return ArrO(None, why="merge of views")
            if o1.arr.same(o2.arr) and o1.mask is o2.mask:
                return o1
            try:
                m = None
                if o1.mask is not None or o2.mask is not None:
                    m = self.blend_arr(c, o1.mask, o2.mask)
                return ArrO(self.blend_arr(c, o1.arr, o2.arr), mask=m)
            except (Unknown, TooBig) as e:
                return ArrO(None, why=f"merge: {e}")
        if isinstance(o1, FrameO):
            return FrameO(self.blend_map(c, o1.vars, o2.vars, s1, s2), o1.parent, o1.kind)
        if isinstance(o1, InstO):
            return InstO(o1.cls, self.blend_map(c, o1.attrs, o2.attrs, s1, s2))
        if isinstance(o1, DictO):
            return o1.like(self.blend_map(c, o1.items, o2.items, s1, s2))
        if isinstance(o1, ListO):
            if o1.items == o2.items and o1.alt == o2.alt:
                return o1
            if not o1.alt and not o2.alt and len(o1.items) == len(o2.items) and not any(
                    isinstance(x, (Rep, Hist)) for x in o1.items + o2.items if not (x in o1.items and x in o2.items)):
                return o1.like([x if x is y else self.blend_val(c, x, y, s1, s2) for x, y in zip(o1.items, o2.items)])
            if not o1.alt and not o2.alt:
                return o1.like((), (c, o1.items, o2.items))
            return ArrO(None, why="merge of alternative lists")
        return o1

    def blend_map(self, c, m1, m2, s1, s2):
        out = {}
        for k in list(m1) + [k for k in m2 if k not in m1]:
            a, b = m1.get(k, UNDEF), m2.get(k, UNDEF)
            out[k] = self.blend_val(c, a, b, s1, s2)
        return out

    def merge(self, c, s1, s2, base):
        """State that is s1 when c holds and s2 otherwise."""
        c = b_name(c)
        k = c.const()
        if k is not None:
            r = s1 if k else s2
            return State(r.heap, base.facts.copy(), list(base.guards))
        r = State({}, base.facts.copy(), list(base.guards))
        old = self.st
        self.enter(r)
        heap = r.heap
        for a, o in s1.heap.items():
            p = s2.heap.get(a)
            if p is None or p is o:
                heap[a] = o
        for a, o in s2.heap.items():
            if a not in s1.heap:
                heap[a] = o
        for a, o in s1.heap.items():
            p = s2.heap.get(a)
            if p is not None and p is not o:
                heap[a] = self.blend_obj(c, o, p, s1, s2)
        self.enter(old)
        return r

    def branch(self, c, f1, f2):
        """Value of (f1() if c else f2()) with joined state."""
        c = with_facts(c)
        k = c.const()
        if k is not None:
            return f1() if k else f2()
        base = self.st
        res = []
        dead = 0
        for cond, f in ((c, f1), (ONE - c, f2)):
            self.enter(base.fork(cond))
            try:
                v = f()
                res.append((True, v, self.st))
            except AbsRaise as e:
                if isinstance(e, Dead) or self.impossible():
                    dead += 1
                else:
                    self.add_exit("raise", e.exc)
                res.append((False, None, self.st))
        (a1, v1, s1), (a2, v2, s2) = res
        if a1 and a2:
            st = self.merge(c, s1, s2, base)
            self.enter(st)
            return self.blend_val(c, v1, v2, s1, s2)
        if a1:
            self.enter(State(s1.heap, s1.facts, list(base.guards)))
            return v1
        if a2:
            self.enter(State(s2.heap, s2.facts, list(base.guards)))
            return v2
        self.enter(base)
        raise Dead() if dead == 2 else AbsRaise(ExcV("Exception", ()))

    def lift(self, f, *vals):
        """Apply f distributing over Ite values."""
        for i, v in enumerate(vals):
            if isinstance(v, Ite):
                return self.branch(v.c, lambda: self.lift(f, *(vals[:i] + (v.x,) + vals[i + 1:])),
                                   lambda: self.lift(f, *(vals[:i] + (v.y,) + vals[i + 1:])))
        return f(*vals)

    def impossible(self):
        """Whether the conditions assumed here contradict each other (nothing happens here then)."""
        return prove_gt0(P(-1))

    def add_exit(self, kind, val):
        if kind == "raise" and self.impossible():
            return
        ctx = self.ctxs[-1]
        g = ONE
        for x in self.st.guards[ctx.base:]:
            g = b_name(rawmul(g, x))
        ctx.exits.append((kind, g, val, self.st, self.loc))

    # ------------------------------------------------------------ modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = os.path.join(self.root, *name.split("."))
        if os.path.isdir(path):
            file = os.path.join(path, "__init__.py")
        else:
            file = path + ".py"
        with open(file, encoding="utf8") as f:
            src = f.read()
        tree = ast.parse(src, file)
        rel = os.path.relpath(file, self.root)
        self.trees[rel] = tree
        return self.run_module(name, tree, rel)

    def load_source(self, name, src, vars=None):
        """Module given as text by a rule (stand-ins for objects a caller may supply)."""
        return self.run_module(name, ast.parse(src), f"<{name}>", vars)

    def run_module(self, name, tree, rel, vars=None):
        fr = self.new(FrameO({"__name__": name, "__file__": "/pkg/" + rel, **(vars or {})}, None, "module"))
        self.modules[name] = m = ModV(name, fr.a)
        m.rel = rel
        saved = (self.loc, self.ctxs)
        c = Ctx(f"<module {name}>", len(self.st.guards), self.loc)
        c.frame, c.mod = fr.a, m
        self.ctxs = self.ctxs + [c]
        self.loc = (rel, "<module>", 0)
        self.block(tree.body)
        self.ctxs.pop()
        self.loc, self.ctxs = saved
        bad = [e for e in c.exits if e[0] == "raise"]
        if bad:
            raise AbsRaise(bad[0][2])
        return m

    # ------------------------------------------------------------ names
    def lookup(self, name):
        a = self.ctxs[-1].frame
        first = True
        while a is not None:
            fo = self.st.heap[a]
            if (fo.kind != "class" or first) and name in fo.vars:
                return fo.vars[name]
            first = False
            a = fo.parent
        if name in self.builtins:
            return self.builtins[name]
        return None

    def assign_name(self, name, v):
        ctx = self.ctxs[-1]
        a = ctx.frame
        if name in getattr(ctx, "globals", ()):
            a = ctx.mod.frame
            self.effects.append(("global", "module " + ctx.mod.name, name, self.loc, ONE))
        elif name in getattr(ctx, "nonlocals", ()):
            b = self.st.heap[a].parent
            while b is not None:
                if name in self.st.heap[b].vars:
                    a = b
                    break
                b = self.st.heap[b].parent
        fo = self.st.heap[a]
        nv = dict(fo.vars)
        nv[name] = v
        self.st.heap[a] = FrameO(nv, fo.parent, fo.kind)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        try:
            for s in stmts:
                if not self.stmt(s):
                    return False
            return True
        except Dead:
            return False
        except AbsRaise as e:
            self.add_exit("raise", e.exc)
            return False

    def stmt(self, n):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget()
        self.loc = (self.loc[0], self.loc[1], n.lineno)
        self.visited_nodes.add((self.loc[0], n.lineno, n.col_offset))
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Budget(f"statement {type(n).__name__} not supported at {self.loc}")
        try:
            r = m(n)
        except Raised as e:
            raise AbsRaise(ExcV(e.cls, (e.msg,)))
        return True if r is None else r

    def s_Expr(self, n):
        self.eval(n.value)

    def s_Pass(self, n):
        pass

    def s_Import(self, n):
        for a in n.names:
            if a.name.split(".")[0] == self.package:
                self.load(a.name)
                self.assign_name(a.asname or a.name.split(".")[0], self.load(a.name if a.asname else self.package))
            else:
                self.assign_name(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, n):
        mod = n.module or ""
        if n.level:
            mod = self.package + ("." + mod if mod else "")
        for a in n.names:
            if mod.split(".")[0] == self.package:
                m = self.load(mod)
                if a.name == "*":
                    for k, v in self.st.heap[m.frame].vars.items():
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                    continue
                fv = self.st.heap[m.frame].vars
                if a.name in fv:
                    v = fv[a.name]
                else:
                    v = self.load(mod + "." + a.name)
                self.assign_name(a.asname or a.name, v)
            else:
                self.assign_name(a.asname or a.name, self.ext_get(mod, a.name))

    def ext_get(self, mod, name):
        from . import npmodel
        full = f"{mod}.{name}"
        c = npmodel.constant(full)
        return c if c is not None else Ext(full)

    def s_FunctionDef(self, n):
        f = self.make_func(n)
        for d in reversed(n.decorator_list):
            f = self.decorate(f, d)
        self.assign_name(n.name, f)

    def decorate(self, f, d):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            base = self.eval(d.value)
            if isinstance(base, FuncV) and d.attr == "setter":
                g = FuncV(base.node, base.frame, base.defaults, base.kwdefaults, base.module, base.qual, base.cls)
                g.kind, g.fset = "property", f
                return g
            return f
        v = self.eval(d)
        if isinstance(v, Ext) and isinstance(f, FuncV):
            k = v.name.split(".")[-1]
            if k in ("property", "cached_property", "abstractproperty"):
                f.kind = "cached" if k == "cached_property" else "property"
                return f
            if k == "staticmethod":
                f.kind = "static"
                return f
            if k == "classmethod":
                f.kind = "class"
                return f
            if k in ("abstractmethod", "override", "final", "overload", "no_type_check"):
                return f
        return self.call(v, [f], {})

    def decorate_class(self, cls, d):
        from . import pymodel
        if isinstance(d, ast.Call):
            f = self.eval(d.func)
            kw = {k.arg: self.eval(k.value) for k in d.keywords}
        else:
            f, kw = self.eval(d), {}
        name = f.name if isinstance(f, Ext) else ""
        if name == "dataclasses.dataclass":
            return pymodel.dataclass(self, cls, kw)
        if name in ("functools.total_ordering", "typing.final", "typing.runtime_checkable"):
            if name == "functools.total_ordering":
                cls.opaque = "total_ordering"
            return cls
        if isinstance(f, (FuncV, PyFn)):
            return self.call(self.eval(d), [cls], {})
        return self.unknown(f"class decorator {name}")

    def make_func(self, n, name=None):
        a = n.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = [None if d is None else self.eval(d) for d in a.kw_defaults]
        ctx = self.ctxs[-1]
        qual = name or getattr(n, "name", "<lambda>")
        if ctx.func and not ctx.func.startswith("<module"):
            qual = ctx.func + "." + qual
        return FuncV(n, ctx.frame, defaults, kwd, ctx.mod, qual, getattr(ctx, "cls", None))

    def s_ClassDef(self, n):
        from . import pymodel
        bases = [self.eval(b) for b in n.bases]
        if any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in bases):
            self.assign_name(n.name, pymodel.typed_namedtuple(self, n))
            return
        ctx = self.ctxs[-1]
        fr = self.new(FrameO({}, ctx.frame, "class"))
        cls = ClassV(n.name, bases, {}, ctx.mod)
        c = Ctx(n.name if ctx.func.startswith("<module") else ctx.func + "." + n.name, len(self.st.guards), self.loc)
        c.frame, c.mod, c.cls = fr.a, ctx.mod, cls
        self.ctxs.append(c)
        self.block(n.body)
        self.ctxs.pop()
        cls.ns = dict(self.st.heap[fr.a].vars)
        cls.node = n
        for k, v in cls.ns.items():
            if isinstance(v, Stub) and hasattr(v, "set_name"):
                v.set_name(self, cls, k)
        for d in reversed(n.decorator_list):
            cls = self.decorate_class(cls, d)
        self.assign_name(n.name, cls)

    def s_Return(self, n):
        v = self.eval(n.value) if n.value is not None else None
        self.add_exit("ret", v)
        return False

    def s_Raise(self, n):
        if n.exc is None:
            raise AbsRaise(getattr(self.ctxs[-1], "handling", None) or ExcV("RuntimeError", ()))
        v = self.eval(n.exc)
        if isinstance(v, Ext):
            v = ExcV(v.name.split(".")[-1] if v.name.startswith("builtins.") else v.name, ())
        if isinstance(v, ClassV):
            v = ExcV(v.name, ())
        if not isinstance(v, ExcV):
            v = ExcV("Exception", (v,))
        raise AbsRaise(v)

    def s_Assert(self, n):
        c = with_facts(self.truth(self.eval(n.test)))
        if c.const() is not None:
            if not c.const():
                raise AbsRaise(ExcV("AssertionError", ()))
            return True
        base = self.st
        self.enter(base.fork(ONE - c))
        self.add_exit("raise", ExcV("AssertionError", ()))
        nb = base.fork(c)
        nb.guards = list(base.guards)
        self.enter(nb)

    def s_Assign(self, n):
        v = self.eval(n.value)
        if isinstance(n.value, ast.GeneratorExp) and isinstance(v, Ref) and isinstance(self.obj(v), ListO):
            o = self.obj(v)
            if not o.alt and not any(isinstance(x, (Rep, Hist, Opq)) or isinstance(x, Ite) and x.y is UNDEF for x in o.items):
                v = IterV(v)
        for t in n.targets:
            self.assign(t, v)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Opq):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.unknown("unpacking of unknown"))
                return
            if isinstance(v, Ite):
                items = self.lift(lambda w: tuple(self.iterate(w)), v)
                if isinstance(items, Ite):
                    items = self.unknown("unpacking alternatives of different length")
                    return self.assign(t, items)
            else:
                items = self.iterate(v)
            if stars:
                i = stars[0]
                k = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise AbsRaise(ExcV("ValueError", ("unpack",)))
                mid = list(items[i:len(items) - k])
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.new(ListO(mid)))
                for e, x in zip(t.elts[i + 1:], items[len(items) - k:]):
                    self.assign(e, x)
                return
            if len(items) != len(t.elts):
                raise AbsRaise(ExcV("ValueError", ("wrong number of values to unpack",)))
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Budget(f"assignment target {type(t).__name__}")

    def setattr(self, o, name, v):
        if isinstance(o, Ite):
            return self.branch(o.c, lambda: self.setattr(o.x, name, v), lambda: self.setattr(o.y, name, v))
        if isinstance(o, Ref) and isinstance(self.obj(o), InstO):
            io = self.obj(o)
            d = self.class_lookup(io.cls, name)
            if isinstance(d, FuncV) and d.kind == "property":
                if d.fset is None:
                    raise AbsRaise(ExcV("AttributeError", (f"can't set attribute {name}",)))
                self.call_func(d.fset, [o, v], {})
                return
            if any(getattr(c, "frozen", False) for c in io.cls.mro()):
                raise AbsRaise(ExcV("AttributeError", (f"cannot assign to field {name}",)))
            self.effect("attr", o.a, name)
            at = dict(io.attrs)
            at[name] = v
            self.put(o, InstO(io.cls, at))
            return
        if isinstance(o, ClassV):
            self.effects.append(("global", "class " + o.name, name, self.loc, ONE))
            o.ns[name] = v
            return
        if isinstance(o, FuncV):
            self.effects.append(("global", "function " + o.qual, name, self.loc, ONE))
            if not hasattr(o, "attrs"):
                o.attrs = {}
            o.attrs[name] = v
            return
        if isinstance(o, Stub):
            if hasattr(o, "set"):
                o.set(self, name, v)
                return
            self.effects.append(("attr", o.clsname, name, self.loc, ONE))
        self.lose(f"attribute store on {type(o).__name__}")

    def setitem(self, o, i, v):
        if isinstance(o, Ite):
            self.branch(o.c, lambda: self.setitem(o.x, i, v), lambda: self.setitem(o.y, i, v))
            return
        if isinstance(i, Ite):
            self.branch(i.c, lambda: self.setitem(o, i.x, v), lambda: self.setitem(o, i.y, v))
            return
        if isinstance(o, Ref):
            ob = self.obj(o)
            if isinstance(ob, ArrO):
                if ob.why is not None:
                    self.effect("write", o.a, "")
                    return
                try:
                    a = self.content(o)
                    idx = self.np_index(i)
                    val = self.to_arr(v)
                    try:
                        new = AR.setitem(a, idx, val)
                    except Unknown:
                        idx2, val2 = self.follow_masks(idx), val
                        if idx2 is None:
                            raise
                        if val.sel is not None:
                            val2 = self.follow_sel(val)
                        new = AR.setitem(a, idx2, val2)
                    self.write(o, new, "element store")
                except (Unknown, TooBig) as e:
                    self.poison(o, f"store: {e}")
                return
            if isinstance(ob, DictO):
                self.effect("write", o.a, "dict store")
                k = self.key(i)
                if k is None:
                    self.put(o, ob.like({**ob.items, Opq("key"): v}))
                    self.unknown("dict key unknown")
                    return
                it = dict(ob.items)
                it[k] = v
                self.put(o, ob.like(it))
                return
            if isinstance(ob, SetO):
                raise AbsRaise(ExcV("TypeError", ("'set' object does not support item assignment",)))
            if isinstance(ob, ListO):
                self.effect("write", o.a, "list store")
                if isinstance(i, Sc) and i.p.const() is not None and not ob.alt and not any(
                        isinstance(x, (Rep, Hist)) for x in ob.items):
                    j = int(i.p.const())
                    it = list(ob.items)
                    if not -len(it) <= j < len(it):
                        raise AbsRaise(ExcV("IndexError", ()))
                    it[j] = v
                    self.put(o, ListO(it))
                    return
                if isinstance(i, SliceV) and not ob.alt:
                    it = self.iterate(o)
                    g = [None if x is None else self.const_int(x) for x in (i.lo, i.hi, i.st)]
                    try:
                        it[slice(*g)] = self.iterate(v)
                    except ValueError as e:
                        raise AbsRaise(ExcV("ValueError", (str(e),)))
                    self.put(o, ListO(it))
                    return
                self.unknown("list store")
                self.put(o, ListO([Opq("list store")]))
                return
            if isinstance(ob, InstO):
                f = self.class_lookup(ob.cls, "__setitem__")
                if f is not None:
                    self.call_func(f, [o, i, v], {})
                    return
                if not self.library_based(ob.cls):
                    raise AbsRaise(ExcV("TypeError", (f"'{ob.cls.name}' object does not support item assignment",)))
        if isinstance(o, (str, tuple, Sc)) or o is None:
            raise AbsRaise(ExcV("TypeError", (f"{type(o).__name__} does not support item assignment",)))
        self.lose(f"item store on {type(o).__name__}")

    def key(self, v):
        """Hashable dict key or None."""
        if isinstance(v, Sc):
            c = v.p.const()
            return ("n", c) if c is not None else None
        if isinstance(v, (str, bool)) or v is None:
            return v
        if isinstance(v, tuple):
            ks = tuple(self.key(x) for x in v)
            return None if any(k is None for k in ks) else ("t",) + ks
        if isinstance(v, (StrSym, Ext, FuncV, ClassV, BoundV)):
            return v
        if isinstance(v, Ref) and isinstance(self.obj(v), InstO) and self.class_lookup(self.obj(v).cls, "__eq__") is None:
            return v
        return None

    def unkey(self, k):
        if isinstance(k, tuple) and k and k[0] == "n":
            return Sc(P(k[1]), "int" if k[1].denominator == 1 else "float")
        if isinstance(k, tuple) and k and k[0] == "t":
            return tuple(self.unkey(x) for x in k[1:])
        return k

    def s_AugAssign(self, n):
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            r = self.aug(op, cur, self.eval(n.value))
            self.assign_name(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            r = self.aug(op, cur, self.eval(n.value))
            self.setattr(o, t.attr, r)
        else:
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            cur = self.getitem(o, i)
            r = self.aug(op, cur, self.eval(n.value), )
            if isinstance(r, Ref) and r is cur and self.is_arr(r) and self.obj(r).base is not None:
                return      # in-place through a view
            self.setitem(o, i, r)

    def aug(self, op, cur, val):
        if isinstance(cur, Ite):
            return self.branch(cur.c, lambda: self.aug(op, cur.x, val), lambda: self.aug(op, cur.y, val))
        if isinstance(cur, Ref):
            o = self.obj(cur)
            if isinstance(o, ArrO):
                r = self.binop(op, cur, val)
                try:
                    new = self.to_arr(r)
                    old = self.content(cur)
                    if new.ndim != old.ndim:
                        raise Raised("ValueError", "non-broadcastable output operand")
                    for d in range(new.ndim):
                        c = AR.cmp(AR.axlen(new.ax[d]), AR.axlen(old.ax[d]))
                        if c is None:
                            raise Unknown("in-place operation of unknown shape")
                        if c:
                            raise Raised("ValueError", "non-broadcastable output operand")
                    if old.dt in ("int", "bool") and new.dt == "float":
                        raise Raised("TypeError", "Cannot cast ufunc output")
                    self.write(cur, new, "in-place operation")
                except (Unknown, TooBig) as e:
                    self.poison(cur, f"in-place: {e}")
                return cur
            if isinstance(o, SetO) and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
                self.effect("write", cur.a, "set update")
                self.put(cur, self.obj(self.binop(op, cur, val)))
                return cur
            if isinstance(o, DictO) and op == "BitOr":
                self.call(self.getattr(cur, "update"), [val], {})
                return cur
            if isinstance(o, ListO) and op == "Mult":
                self.effect("write", cur.a, "list repeat")
                self.put(cur, self.obj(self.binop(op, cur, val)))
                return cur
            if isinstance(o, ListO) and not isinstance(o, SetO) and op == "Add":
                self.effect("write", cur.a, "list extend")
                self.list_extend(cur, self.items_of(val))
                return cur
        return self.binop(op, cur, val)

    def items_of(self, v):
        """List items (possibly with Rep segments) of an iterable value."""
        if isinstance(v, Ref) and isinstance(self.obj(v), ListO):
            o = self.obj(v)
            if o.alt:
                raise Unknown("alternative list")
            return o.items
        return tuple(self.iterate(v))

    def list_extend(self, r, items):
        o = self.obj(r)
        if o.alt:
            c, x, y = o.alt
            self.put(r, o.like((), (c, x + tuple(items), y + tuple(items))))
        else:
            self.put(r, o.like(o.items + tuple(items)))

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                fo = self.st.heap[self.ctxs[-1].frame]
                nv = dict(fo.vars)
                nv.pop(t.id, None)
                self.st.heap[self.ctxs[-1].frame] = FrameO(nv, fo.parent, fo.kind)
            else:
                o = self.eval(t.value)
                i = self.eval_index(t.slice) if isinstance(t, ast.Subscript) else None
                if isinstance(o, Ref) and isinstance(self.obj(o), ListO) and isinstance(i, SliceV):
                    gone = self.iterate(self.list_get(self.obj(o), SliceV(None, None, None)))
                    g = [None if x is None else self.const_int(x) for x in (i.lo, i.hi, i.st)]
                    del gone[slice(*g)]
                    self.effect("write", o.a, "list delete")
                    self.put(o, ListO(gone))
                elif isinstance(o, Ref) and isinstance(self.obj(o), (ListO, DictO)) and i is not None:
                    self.call(self.getattr(o, "pop"), [i], {})
                elif isinstance(o, Ref) and isinstance(self.obj(o), InstO) and i is None and isinstance(t, ast.Attribute):
                    ob = self.obj(o)
                    if t.attr not in ob.attrs:
                        raise AbsRaise(ExcV("AttributeError", (t.attr,)))
                    self.effect("attr", o.a, t.attr)
                    self.put(o, InstO(ob.cls, {k: v for k, v in ob.attrs.items() if k != t.attr}))
                else:
                    self.lose("del")

    @staticmethod
    def const_int(v):
        c = v.p.const() if isinstance(v, Sc) else None
        if c is None:
            raise Unknown("symbolic index")
        return int(c)

    def s_Global(self, n):
        self.ctxs[-1].globals = set(getattr(self.ctxs[-1], "globals", ())) | set(n.names)

    def s_Nonlocal(self, n):
        self.ctxs[-1].nonlocals = set(getattr(self.ctxs[-1], "nonlocals", ())) | set(n.names)

    oracle = None      # decisions of the path being followed; None: both branches are followed and joined
    decided = 0

    def choose(self, c):
        """When single paths are followed: the condition as decided on this path."""
        if self.oracle is None:
            return c
        while c.const() is None:
            bs = toplevel_bools(c)
            if not bs:
                return c
            if self.decided == len(self.oracle):
                self.oracle.append(0 if atom(bs[0])[:2] == ("iv", "=") else 1)
            v = self.oracle[self.decided]
            self.decided += 1
            if self.decided > 60:
                raise Unknown("path too long")
            lit = atom_poly(bs[0])
            assume_into(self.st.facts, lit if v else ONE - lit)
            set_facts(self.st.facts)
            c2 = with_facts(c)
            c = c2 if bs[0] not in toplevel_bools(c2) else restrict(c2, bs[0], v)
        return c

    def s_If(self, n):
        c = self.choose(with_facts(self.truth(self.eval(n.test))))
        k = c.const()
        if k is not None:
            return self.block(n.body if k else n.orelse)
        c = b_name(c)
        base = self.st
        self.enter(base.fork(c))
        a1 = self.block(n.body)
        e1 = self.st
        self.enter(base.fork(ONE - c))
        a2 = self.block(n.orelse)
        e2 = self.st
        return self.join(c, base, a1, e1, a2, e2)

    def join(self, c, base, a1, e1, a2, e2):
        if a1 and a2:
            self.enter(self.merge(c, e1, e2, base))
        elif a1:
            self.enter(e1)
        elif a2:
            self.enter(e2)
        else:
            return False
        return True

    def s_Match(self, n):
        """match, rewritten to the tests and bindings it stands for."""
        nm = f"$match{n.lineno}_{n.col_offset}"
        if not hasattr(n, "rewritten"):
            n.rewritten = self.match_tree(n, nm)
        self.assign_name(nm, self.eval(n.subject))
        return self.block(n.rewritten)

    @staticmethod
    def match_tree(n, nm):
        subj = ast.Name(nm, ast.Load())
        tree = []
        for case in reversed(n.cases):
            test, binds = match_test(case.pattern, subj)
            body = [ast.Assign([ast.Name(k, ast.Store())], v) for k, v in binds]
            if case.guard is not None:
                if binds:
                    test = ast.BoolOp(ast.And(), [test] + [ast.BoolOp(ast.Or(), [ast.Compare(ast.NamedExpr(ast.Name(k, ast.Store()), v), [ast.Is()], [v]),
                                                                                ast.Constant(True)]) for k, v in binds] + [case.guard])
                else:
                    test = ast.BoolOp(ast.And(), [test, case.guard])
            node = ast.If(test, body + case.body, tree)
            for x in ast.walk(node):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, case.pattern)
            tree = [node]
        return tree

    def s_With(self, n):
        return self.with_items(n, 0)

    def with_items(self, n, k):
        if k == len(n.items):
            return self.block(n.body)
        it = n.items[k]
        v = self.eval(it.context_expr)
        key = (k, "rewritten")
        made = n.__dict__.setdefault("rewritten", {})

        def rest():
            return n.body if k == len(n.items) - 1 else [ast.copy_location(ast.With(n.items[k + 1:], n.body), n)]

        def tried(handlers, final):
            if key not in made:
                t = ast.Try(rest(), handlers(), [], final())
                for x in ast.walk(t):
                    if not hasattr(x, "lineno"):
                        ast.copy_location(x, n)
                made[key] = [t]
            return made[key]
        if getattr(v, "clsname", "") == "suppress":
            nm = f"$with{n.lineno}_{k}"
            self.assign_name(nm, v.excs)
            return self.block(tried(lambda: [ast.ExceptHandler(ast.Name(nm, ast.Load()), None, [ast.Pass()])], lambda: []))
        if isinstance(v, Ref) and isinstance(self.obj(v), InstO):
            cls = self.obj(v).cls
            f, g = self.class_lookup(cls, "__enter__"), self.class_lookup(cls, "__exit__")
            if f is None or g is None:
                if self.library_based(cls):
                    self.unknown("context manager")
                else:
                    raise AbsRaise(ExcV("TypeError", ("object does not support the context manager protocol",)))
            else:
                nm = f"$with{n.lineno}_{k}"
                self.assign_name(nm, v)
                v = self.call_func(f, [v], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                none = ast.Constant(None)
                call = ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "__exit__", ast.Load()), [none, none, none], [])
                return self.block(tried(lambda: [], lambda: [ast.Expr(call)]))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        return self.with_items(n, k + 1)

    def exc_matches(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_matches(exc, s) for s in spec)
        name = spec.name.split(".")[-1] if isinstance(spec, Ext) else getattr(spec, "name", None)
        c = exc.cls.split(".")[-1]
        while c is not None:
            if c == name:
                return True
            c = EXC_BASES.get(c)
        return False

    def s_Try(self, n):
        ctx = self.ctxs[-1]
        mark = len(ctx.exits)
        base = self.st
        saved = base.fork()
        nloops = [(len(l.breaks), len(l.conts)) for l in ctx.loops]
        alive = self.block(n.body)
        new = ctx.exits[mark:]
        del ctx.exits[mark:]
        rest, caught = [], []
        for e in new:
            if e[0] != "raise":
                rest.append(e)
                continue
            for h in n.handlers:
                if h.type is None or self.exc_matches(e[2], self.eval(h.type)):
                    caught.append((e, h))
                    break
            else:
                rest.append(e)
        ctx.exits.extend(rest)
        if alive and n.orelse:
            alive = self.block(n.orelse)
        cur, cst = alive, self.st
        gb = ONE
        for x in saved.guards[ctx.base:]:
            gb = rawmul(gb, x)
        for e, h in reversed(caught):
            _, g, exc, st, loc = e
            self.enter(State(dict(st.heap), st.facts, list(st.guards)))
            if h.name:
                self.assign_name(h.name, exc)
            oldh = getattr(ctx, "handling", None)
            ctx.handling = exc
            a = self.block(h.body)
            ctx.handling = oldh
            hst = self.st
            # condition of this exit relative to try entry
            rel = ONE
            for x in st.guards[len(saved.guards):]:
                rel = b_name(rawmul(rel, x))
            if a and cur:
                self.enter(self.merge(rel, hst, cst, saved))
                cst = self.st
            elif a:
                cur, cst = True, hst
        self.enter(cst)
        if n.finalbody:
            if not self.block(n.finalbody):
                return False
        return cur

    def s_Break(self, n):
        lp = self.ctxs[-1].loops[-1]
        lp.breaks.append((self.local_guard(lp.base), self.st))
        return False

    def s_Continue(self, n):
        lp = self.ctxs[-1].loops[-1]
        lp.conts.append((self.local_guard(lp.base), self.st))
        return False

    def local_guard(self, base):
        g = ONE
        for x in self.st.guards[base:]:
            g = b_name(rawmul(g, x))
        return g

    # ------------------------------------------------------------ loops
    def run_body(self, body, lp, base):
        """One execution of a loop body from the current state; True if some path continues to the next iteration."""
        lp.conts = []
        lp.base = len(self.st.guards)
        entry = self.st
        alive = self.block(body)
        st = self.st
        conts = lp.conts
        lp.conts = []
        if not conts:
            return alive
        if alive:
            for g, s in reversed(conts):
                st = self.merge(g, s, st, entry)
        else:
            st = conts[-1][1]
            for g, s in reversed(conts[:-1]):
                st = self.merge(g, s, st, entry)
        self.enter(st)
        return True

    def finish_loop(self, lp, alive, base, brs):
        """Join break states with the normal exit.  brs: list of (guard since loop start, state)."""
        if not brs:
            return alive
        if alive:
            st = self.st
            rest = brs
        else:
            st = brs[-1][1]
            rest = brs[:-1]
        if rest:
            for g, s in reversed(rest):
                st = self.merge(g, s, st, base)
        self.enter(st)
        return True

    def s_For(self, n):
        it = self.eval(n.iter)
        return self.for_loop(n, it)

    def for_loop(self, n, it):
        if isinstance(it, Opq):
            return self.havoc_loop(n, "iteration over unknown")
        if isinstance(it, Ite):
            # iterate under each alternative
            base = self.st
            c = it.c
            self.enter(base.fork(c))
            a1 = self.for_loop(n, it.x)
            e1 = self.st
            self.enter(base.fork(ONE - c))
            a2 = self.for_loop(n, it.y)
            e2 = self.st
            return self.join(c, base, a1, e1, a2, e2)
        try:
            items = it.lazy(self) if hasattr(it, "lazy") else self.iterate(it)
        except Unknown as e:
            segs = self.symbolic_iter(it)
            if segs is None:
                return self.havoc_loop(n, str(e))
            return self.sym_for(n, segs)
        ctx = self.ctxs[-1]
        base = self.st.fork()
        lp = Loop(len(self.st.guards))
        start = len(self.st.guards)
        ctx.loops.append(lp)
        brs = []
        alive = True
        for x in items:
            self.assign(n.target, x)
            alive = self.run_body(n.body, lp, base)
            for g, s in lp.breaks:
                gg = ONE
                for y in s.guards[start:]:
                    gg = b_name(rawmul(gg, y))
                brs.append((gg, s))
            lp.breaks = []
            if not alive:
                break
        ctx.loops.pop()
        if alive and n.orelse:
            alive = self.block(n.orelse)
        return self.finish_loop(lp, alive, base, brs)

    WHILE_UNROLL = 12
    WHILE_KNOWN = 200      # loops whose condition is known in every turn

    def s_While(self, n):
        ctx = self.ctxs[-1]
        base = self.st.fork()
        start = len(self.st.guards)
        brs = []
        count = 0
        hooked = False
        while True:
            c = self.choose(with_facts(self.truth(self.eval(n.test))))
            k = c.const()
            if k == 0:
                alive = True
                break
            if k is None and self.loop_hook is not None and not hooked:
                r = self.loop_hook(self, n, c)
                if r is not None:
                    return self.finish_loop(None, r, base, brs) if brs else r
                hooked = True
            count += 1
            if count > (self.WHILE_UNROLL if k is None else self.WHILE_KNOWN):
                return self.havoc_loop(n, "loop bound not found") and self.finish_loop(None, True, base, brs)
            lp = Loop(len(self.st.guards))
            if k is None:
                c = b_name(c)
                s0 = self.st
                ex = s0.fork(ONE - c)
                g = ONE
                for y in ex.guards[start:]:
                    g = b_name(rawmul(g, y))
                brs.append((g, ex))
                self.enter(s0.fork(c))
            ctx.loops.append(lp)
            alive = self.run_body(n.body, lp, base)
            ctx.loops.pop()
            for g, s in lp.breaks:
                gg = ONE
                for y in s.guards[start:]:
                    gg = b_name(rawmul(gg, y))
                brs.append((gg, s))
            if not alive:
                break
        return self.finish_loop(None, alive, base, brs)

    def havoc_loop(self, n, why):
        """Give up on a loop: everything its body may assign becomes unknown."""
        self.unknown("loop: " + why)
        names = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                b = x.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    self.havoc_value(self.lookup(b.id), why)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                    "append", "extend", "insert", "pop", "update", "add", "sort", "remove"):
                b = x.func.value
                if isinstance(b, ast.Name):
                    self.havoc_value(self.lookup(b.id), why)
        for k in names:
            self.assign_name(k, Opq(f"loop: {why}"))
        return True

    def havoc_value(self, v, why):
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ArrO):
                r = v
                while self.obj(r).base is not None:
                    r = Ref(self.obj(r).base)
                self.put(r, ArrO(None, why="loop: " + why))
            elif isinstance(o, ListO):
                self.put(v, ListO([Rep(sym(self.fresh("len", "nn", True)), Opq(why), ("lv", "$u"))]))
            elif isinstance(o, DictO):
                self.put(v, o.like({Opq("key"): Opq(why)}))
            elif isinstance(o, InstO):
                self.put(v, InstO(o.cls, {k: Opq(why) for k in o.attrs}))

    def fresh(self, stem, sign="real", integer=False):
        self.nsym += 1
        n = f"{stem}#{self.nsym}"
        declare(n, sign, integer=integer)
        return n

    def symbolic_iter(self, it):
        """Iteration over a symbolic range/array: list of (size, f) with f(index term) -> item; or None."""
        if isinstance(it, RangeV):
            if it.st.const() != 1:
                return None
            n = it.length()
            segs = []
            pos = ZERO
            for c in self.cuts:
                c = P(c) - it.lo
                if AR.cmp(pos, c) == -1 and AR.cmp(c, n) == -1:
                    segs.append((pos, c - pos))
                    pos = c
            segs.append((pos, n - pos))
            return [(s, (lambda i, p=p: Sc(it.lo + p + i, "int"))) for p, s in segs]
        if isinstance(it, Ref):
            o = self.obj(it)
            if isinstance(o, ArrO):
                a = self.content(it)
                out = []
                pre = AR.prefixes(a.ax[0])
                for k, s in enumerate(a.ax[0]):
                    out.append((s, (lambda i, k=k: self.getitem(it, Sc(pre[k] + i, "int")))))
                return out
            if isinstance(o, ListO) and not o.alt:
                out = []
                for x in o.items:
                    if isinstance(x, Rep):
                        out.append((x.size, (lambda i, x=x: self.subst_val(x.val, {aid(x.var): i}))))
                    elif isinstance(x, Hist):
                        out.append((x.size, x.el))
                    else:
                        out.append((ONE, (lambda i, x=x: x)))
                return out
        if isinstance(it, EnumV):
            segs = self.symbolic_iter(it.it)
            if segs is None:
                return None
            out = []
            pos = P(it.start)
            for s, f in segs:
                out.append((s, (lambda i, f=f, p=pos: (Sc(p + i, "int"), f(i)))))
                pos = pos + s
            return out
        if isinstance(it, ZipV):
            segss = [self.symbolic_iter(x) for x in it.its]
            if any(s is None for s in segss):
                return None
            # refine to common boundaries
            bounds = []
            for segs in segss:
                pos = ZERO
                for s, _ in segs:
                    pos = pos + s
                    bounds.append(pos)
            out = []
            cur = ZERO
            tot = None
            for segs in segss:
                t = AR.psum(s for s, _ in segs)
                if tot is None or AR.cmp(t, tot) == -1:
                    tot = t
                elif AR.cmp(t, tot) is None:
                    return None
            pts = []
            for b in bounds:
                if AR.cmp(b, tot) == 1:
                    continue
                if not any(AR.cmp(b, q) == 0 for q in pts):
                    pts.append(b)
            try:
                import functools
                pts.sort(key=functools.cmp_to_key(lambda x, y: AR.cmp(x, y)))
            except TypeError:
                return None
            for b in pts:
                fs = []
                for segs in segss:
                    pos = ZERO
                    for s, f in segs:
                        if AR.cmp(pos, cur) in (-1, 0) and AR.cmp(cur, pos + s) == -1:
                            fs.append((lambda i, f=f, off=cur - pos: f(off + i)))
                            break
                        pos = pos + s
                    else:
                        return None
                out.append((b - cur, (lambda i, fs=fs: tuple(f(i) for f in fs))))
                cur = b
            return out
        return None

    def subst_val(self, v, mp):
        """Value with atoms substituted (arrays are copied)."""
        if isinstance(v, Sc):
            return Sc(subst(v.p, mp), v.k)
        if isinstance(v, tuple):
            return retuple(v, [self.subst_val(x, mp) for x in v])
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ArrO) and o.why is None and o.mask is None:
                a = self.content(v)
                if any(k in deep_atoms(c) for c in a.cells.values() for k in mp):
                    return self.arr_new(a.map(lambda c: subst(c, mp)))
            elif isinstance(o, ListO) and not o.alt:
                items = [x if isinstance(x, (Rep, Hist)) else self.subst_val(x, mp) for x in o.items]
                return self.new(o.like(items))
        if isinstance(v, Ite):
            return Ite(subst(v.c, mp), self.subst_val(v.x, mp), self.subst_val(v.y, mp))
        return v

    def sym_for(self, n, segs):
        for size, f in segs:
            if size.const() == 0:
                continue
            if size.const() == 1:
                self.assign(n.target, f(ZERO))
                lp = Loop(len(self.st.guards))
                self.ctxs[-1].loops.append(lp)
                a = self.run_body(n.body, lp, self.st)
                self.ctxs[-1].loops.pop()
                if lp.breaks or not a:
                    return self.havoc_loop(n, "break in symbolic loop")
                continue
            if not self.summarise(n, size, f):
                return self.havoc_loop(n, "loop not summarisable")
        if n.orelse:
            return self.block(n.orelse)
        return True

    def body_once(self, n, f, var):
        """Run the loop body for index var in a fork; returns the state or None if control leaves the loop."""
        ctx = self.ctxs[-1]
        lp = Loop(len(self.st.guards))
        ctx.loops.append(lp)
        try:
            self.assign(n.target, f(A(var)))
            alive = self.run_body(n.body, lp, self.st)
        finally:
            ctx.loops.pop()
        if lp.breaks or not alive:
            return None
        return self.st

    def summarise(self, n, size, f):
        """Closed form of `size` iterations (size symbolic)."""
        self.nsym += 1
        var = ("lv", f"q{self.nsym}")
        va = aid(var)
        ctx = self.ctxs[-1]
        pre = self.st.fork()
        mark = len(ctx.exits)
        neff, nunk = len(self.effects), len(self.unknowns)
        ncalls = len(self.calls)
        st0 = pre.fork()
        st0.facts.ge.append(size - 1 - A(var))
        self.enter(st0)
        post = self.body_once(n, f, var)
        del ctx.exits[mark:]
        del self.effects[neff:]
        del self.calls[ncalls:]
        if post is None:
            self.enter(pre)
            return False
        changed = []
        for a, o in pre.heap.items():
            p = post.heap.get(a)
            if p is not None and p is not o:
                changed.append(a)
        # placeholders
        st1 = pre.fork()
        st1.facts.ge.append(size - 1 - A(var))
        self.enter(st1)
        holes = {}

        def hole_scalar(v):
            name = self.fresh("H", "real", is_int_poly(v.p) and v.k in ("int", "npint"))
            holes[aid(("sym", name, ()))] = True
            return Sc(sym(name), v.k)

        def hole_arr(a):
            name = self.fresh("H")
            cells = {}
            for k in a.cells:
                nm = f"{name}_{'_'.join(map(str, k))}"
                declare(nm)
                cells[k] = A(("sym", nm, tuple(ix(d) for d in range(a.ndim))))
                holes[nm] = True
            return Arr(a.ax, cells, a.dt)
        plan = []
        for a in changed:
            o, p = pre.heap[a], post.heap[a]
            if isinstance(o, (FrameO, InstO, DictO)):
                m1 = o.vars if isinstance(o, FrameO) else o.attrs if isinstance(o, InstO) else o.items
                m2 = p.vars if isinstance(p, FrameO) else p.attrs if isinstance(p, InstO) else p.items
                nm = dict(m1)
                for k in m2:
                    x, y = m1.get(k, UNDEF), m2[k]
                    if x is y or x == y:
                        continue
                    if isinstance(x, Sc) and isinstance(y, Sc):
                        nm[k] = hole_scalar(x)
                        plan.append(("sc", a, k, x, nm[k]))
                    elif isinstance(x, Ref) and isinstance(y, Ref) and isinstance(pre.heap.get(x.a), ArrO) and \
                            isinstance(post.heap.get(y.a), ArrO):
                        self.enter(pre)
                        try:
                            ca = self.content(x)
                        except Unknown:
                            ca = None
                        self.enter(post)
                        try:
                            cb = self.content(y)
                        except Unknown:
                            cb = None
                        self.enter(st1)
                        same = ca is not None and cb is not None and ca.ndim == cb.ndim and all(
                            AR.cmp(AR.axlen(u), AR.axlen(w)) == 0 for u, w in zip(ca.ax, cb.ax))
                        if same:
                            h = hole_arr(ca)
                            nm[k] = self.arr_new(h)
                            plan.append(("rebind", a, k, x, h))
                        else:
                            nm[k] = Opq("rebound in loop")
                            plan.append(("last", a, k, x, None))
                    else:
                        if x is not UNDEF:
                            nm[k] = Opq("rebound in loop")
                        plan.append(("last", a, k, x, None))
                st1.heap[a] = (FrameO(nm, o.parent, o.kind) if isinstance(o, FrameO) else
                               InstO(o.cls, nm) if isinstance(o, InstO) else o.like(nm))
            elif isinstance(o, ArrO):
                if o.base is not None or o.why is not None or p.why is not None or o.mask is not None:
                    self.enter(pre)
                    return False
                h = hole_arr(o.arr)
                st1.heap[a] = ArrO(h)
                plan.append(("arr", a, None, o.arr, h))
            elif isinstance(o, ListO):
                if o.alt or isinstance(o, SetO) or not isinstance(p, ListO) or p.alt or p.items[:len(o.items)] != o.items:
                    self.enter(pre)
                    return False
                plan.append(("list", a, None, o, None))
            else:
                self.enter(pre)
                return False
        hole_names = {h for h in holes if isinstance(h, str)} | {atom(h)[1] for h in holes if not isinstance(h, str)}

        def holey(p):
            return any(atom(x)[0] == "sym" and atom(x)[1] in hole_names for x in deep_atoms(p))
        self.enter(st1)
        post = self.body_once(n, f, var)
        exits = ctx.exits[mark:]
        del ctx.exits[mark:]
        if post is None:
            self.enter(pre)
            return False
        last = size - 1
        self.enter(pre)
        res = pre.fork()
        self.enter(res)
        # carry over everything allocated in the body (temporaries), instantiated at the last iteration
        for a, o in post.heap.items():
            if a not in res.heap:
                if isinstance(o, ArrO) and o.arr is not None:
                    o = ArrO(o.arr.map(lambda v: subst(v, {va: last})), mask=o.mask)
                res.heap[a] = o

        def closed(pre_v, post_v, hole, size_, dims=None):
            """Closed form or None."""
            fs = res.facts.copy()
            if dims:
                for d, s in enumerate(dims):
                    fs.ge.append(s - 1 - ix(d))
            old = set_facts(fs)
            try:
                d = post_v - hole
                if not holey(d):
                    return pre_v + mk_sum(size_, d, var)
                if not holey(post_v):
                    if va in deep_atoms(post_v):
                        return subst(post_v, {va: last})
                    return post_v
                eqs = [x for x in toplevel_bools(post_v) if atom(x)[0] == "iv" and atom(x)[1] == "=" and va in
                       deep_atoms(atom(x)[2])]
                if len(eqs) == 1:
                    x1, x0 = restrict(post_v, eqs[0], 1), restrict(post_v, eqs[0], 0)
                    if x0 == hole and not holey(x1):
                        return pre_v + mk_sum(size_, rawmul(atom_poly(eqs[0]), x1 - pre_v), var)
                return None
            finally:
                set_facts(old)
        for kind, a, k, x, h in plan:
            po = post.heap[a]
            if kind == "sc":
                m = po.vars if isinstance(po, FrameO) else po.attrs if isinstance(po, InstO) else po.items
                y = m[k]
                v = closed(x.p, y.p, h.p, size) if isinstance(y, Sc) else None
                if v is None:
                    nv = Opq("loop-carried value")
                    self.unknown("loop-carried value " + str(k))
                else:
                    nv = Sc(v, y.k if y.k != "bool" else "int")
                self.set_slot(a, k, nv)
            elif kind in ("rebind", "arr"):
                if kind == "arr":
                    y = po.arr
                    why = po.why
                else:
                    m = po.vars if isinstance(po, FrameO) else po.attrs if isinstance(po, InstO) else po.items
                    self.enter(post)
                    try:
                        y, why = self.content(m[k]), None
                    except Unknown as e:
                        y, why = None, str(e)
                    self.enter(pre)
                    try:
                        xa = self.content(x)
                    finally:
                        self.enter(res)
                new = None
                if why is None and y is not None:
                    xa = x if kind == "arr" else xa
                    try:
                        bs = AR.broadcast_axes([xa, y, h])
                        cells = {}
                        ok = True
                        for kk in bs[0].cells:
                            dims = tuple(bs[0].ax[d][kk[d]] for d in range(bs[0].ndim))
                            v = closed(bs[0].cells[kk], bs[1].cells[kk], bs[2].cells[kk], size, dims)
                            if v is None:
                                ok = False
                                break
                            cells[kk] = v
                        if ok:
                            new = Arr(bs[0].ax, cells, y.dt)
                    except (Unknown, TooBig):
                        new = None
                if new is None:
                    self.unknown("loop-carried array")
                    o = ArrO(None, why="loop-carried array")
                else:
                    o = ArrO(new)
                if kind == "arr":
                    res.heap[a] = o
                    self.effect("write", a, "in loop")
                else:
                    r = self.new(o)
                    self.set_slot(a, k, r)
            elif kind == "last":
                m = po.vars if isinstance(po, FrameO) else po.attrs if isinstance(po, InstO) else po.items
                y = m[k]
                if isinstance(y, Sc):
                    y = Opq("loop-carried") if holey(y.p) else Sc(subst(y.p, {va: last}), y.k)
                elif isinstance(y, Ref) and isinstance(post.heap.get(y.a), ArrO):
                    o = res.heap.get(y.a)
                    if o is not None and o.arr is not None and any(holey(v) for v in o.arr.cells.values()):
                        y = Opq("loop-carried")
                self.set_slot(a, k, y)
            elif kind == "list":
                o = x
                added = po.items[len(o.items):]
                if len(added) == 1 and not isinstance(added[0], (Rep, Hist)):
                    v = added[0]
                    if isinstance(v, Ref) and isinstance(post.heap.get(v.a), ArrO):
                        self.enter(post)
                        try:
                            c = self.content(v)
                        except Unknown:
                            c = None
                        self.enter(res)
                        if c is None or any(holey(t) for t in c.cells.values()):
                            v = Opq("loop-carried item")
                        else:
                            v = self.arr_new(c)
                    elif isinstance(v, Sc) and holey(v.p):
                        v = Opq("loop-carried item")
                    elif isinstance(v, Ref):
                        v = Opq("object in symbolic list")
                    res.heap[a] = ListO(o.items + (Rep(size, v, var),))
                else:
                    return False
        for kind, g, val, st, loc in exits:
            if kind == "ret":
                return False
            gg = mk_red("rany", size, g, var) if va in deep_atoms(g) else g
            ctx.exits.append((kind, gg, val, st, loc))
        return True

    def set_slot(self, a, k, v):
        o = self.st.heap[a]
        if isinstance(o, FrameO):
            m = dict(o.vars)
            m[k] = v
            self.st.heap[a] = FrameO(m, o.parent, o.kind)
        elif isinstance(o, InstO):
            m = dict(o.attrs)
            m[k] = v
            self.st.heap[a] = InstO(o.cls, m)
        else:
            m = dict(o.items)
            m[k] = v
            self.st.heap[a] = o.like(m)

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unknown(f"expression {type(n).__name__}")
        try:
            return m(n)
        except Raised as e:
            raise AbsRaise(ExcV(e.cls, (e.msg,)))
        except (Unknown, TooBig) as e:
            return self.unknown(f"{type(n).__name__}: {e}")

    def const(self, v):
        if isinstance(v, bool):
            return Sc(P(v), "bool")
        if isinstance(v, int):
            return Sc(P(v), "int")
        if isinstance(v, float):
            return Sc(P(v), "float")
        return v

    def e_Constant(self, n):
        return self.const(n.value)

    def e_Name(self, n):
        v = self.lookup(n.id)
        if v is None:
            fo = self.st.heap[self.ctxs[-1].frame]
            if n.id in fo.vars:
                return None
            a = fo.parent
            while a is not None:
                if n.id in self.st.heap[a].vars:
                    return None
                a = self.st.heap[a].parent
            if n.id in self.builtins:
                return None
            raise AbsRaise(ExcV("NameError", (n.id,)))
        if v is UNDEF:
            raise AbsRaise(ExcV("UnboundLocalError", (n.id,)))
        if isinstance(v, Ite):
            return self.prune(v)
        return v

    def prune(self, v):
        """Resolve an Ite under the current facts; drop undefined alternatives."""
        while isinstance(v, Ite):
            k = with_facts(v.c).const()
            if k is not None:
                v = v.x if k else v.y
                continue
            if v.x is UNDEF:
                v = v.y
                continue
            if v.y is UNDEF:
                v = v.x
                continue
            break
        if isinstance(v, Sc) and toplevel_bools(v.p):
            return Sc(with_facts(v.p), v.k)
        return v

    def e_Tuple(self, n):
        return tuple(self.elts(n.elts))

    def e_List(self, n):
        return self.new(ListO(self.elts(n.elts)))

    def e_Set(self, n):
        from . import pymodel
        return pymodel.make_set(self, self.elts(n.elts))

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += self.iterate(self.eval(e.value))
            else:
                out.append(self.eval(e))
        return out

    def e_Dict(self, n):
        items = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v)
                if isinstance(d, Ref) and isinstance(self.obj(d), DictO):
                    items.update(self.obj(d).items)
                    continue
                return self.unknown("dict unpacking")
            kk = self.key(self.eval(k))
            if kk is None:
                return self.unknown("dict key")
            items[kk] = self.eval(v)
        return self.new(DictO(items))

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                if isinstance(x, str) and v.conversion == -1 and v.format_spec is None:
                    parts.append(x)
                elif isinstance(x, Sc) and x.k in ("int", "npint") and x.p.const() is not None and v.format_spec is None:
                    parts.append(str(int(x.p.const())))
                else:
                    parts.append(x if isinstance(x, StrSym) else StrSym("fmt", self.describe(x)))
        return self.str_join(parts)

    def str_join(self, parts):
        out = []
        for p in parts:
            if isinstance(p, StrSym) and p.t[0] == "cat":
                out += p.t[1]
            else:
                out.append(p)
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            elif p != "":
                res.append(p)
        if not res:
            return ""
        if len(res) == 1:
            return res[0]
        return StrSym("cat", tuple(res))

    def describe(self, x):
        return str(x)[:60] if not isinstance(x, Opq) else "?"

    def e_FormattedValue(self, n):
        return StrSym("fmt", "")

    def e_Lambda(self, n):
        return self.make_func(n, "<lambda>")

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        return self.branch(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.eval(n.values[i])
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand:
                return self.branch(t, lambda: go(i + 1), lambda: v if with_facts(t).const() is not None else self.falsy(v))
            return self.branch(t, lambda: v if with_facts(t).const() is not None else self.truthy(v), lambda: go(i + 1))
        return go(0)

    def falsy(self, v):
        return Sc(ZERO, "bool") if isinstance(v, Sc) and v.k in ("bool", "npbool") else v

    def truthy(self, v):
        return Sc(ONE, "bool") if isinstance(v, Sc) and v.k in ("bool", "npbool") else v

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return Sc(ONE - self.truth(v), "bool")
        return self.unary(type(n.op).__name__, v)

    def unary(self, op, v):
        if isinstance(v, Ite):
            return self.lift(lambda w: self.unary(op, w), v)
        if isinstance(v, Sc):
            if op == "USub":
                return Sc(-v.p, "int" if v.k == "bool" else v.k)
            if op == "UAdd":
                return v
            if op == "Invert":
                if v.k in ("bool", "npbool"):
                    return Sc(ONE - v.p, "npbool") if v.k == "npbool" else Sc(-v.p - 1, "int")
                return Sc(-v.p - 1, v.k)
        if isinstance(v, Opq):
            return v
        if isinstance(v, Ref) and self.is_arr(v):
            o = self.obj(v)
            if o.mask is not None:
                return self.new(ArrO(o.arr.map(lambda p: -p), mask=o.mask))
            a = self.content(v)
            if op == "USub":
                return self.arr_new(a.map(lambda p: -p))
            if op == "UAdd":
                return self.arr_new(a)
            if op == "Invert":
                return self.arr_new(a.map(lambda p: ONE - p if a.dt == "bool" else -p - 1))
        if isinstance(v, (Ref, str, tuple)) or v is None:
            raise AbsRaise(ExcV("TypeError", (f"bad operand for unary {op}",)))
        return self.unknown("unary")

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        from . import npmodel
        return npmodel.binop(self, op, a, b)

    def e_Compare(self, n):
        left = self.eval(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            v = self.compare(type(op).__name__, left, right)
            if res is None:
                res = v
            else:
                if isinstance(res, Opq) or isinstance(v, Opq):
                    return self.unknown("comparison of unknown")
                res = Sc(rawmul(self.truth(res), self.truth(v)), "bool")
            if isinstance(res, Sc) and with_facts(res.p).const() == 0 and len(n.ops) > 1:
                return Sc(ZERO, "bool")
            left = right
        return res

    def compare(self, op, a, b):
        from . import npmodel
        return npmodel.compare_vals(self, op, a, b)

    def truth(self, v):
        v = self.prune(v) if isinstance(v, Ite) else v
        if isinstance(v, Ite):
            base = self.st
            out = []
            for cond, w in ((v.c, v.x), (ONE - v.c, v.y)):
                self.enter(base.fork(cond))
                out.append(self.truth(w))
            self.enter(base)
            return blend(v.c, out[0], out[1])
        if isinstance(v, Sc):
            if v.k in ("bool", "npbool"):
                return with_facts(v.p)
            if is_nan(v.p):
                return ONE
            return ONE - eq0(v.p)
        if v is None:
            return ZERO
        if isinstance(v, (str, tuple)):
            return ONE if len(v) else ZERO
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                return compare(">", self.length(v), ZERO)
            if isinstance(o, DictO):
                return ONE if o.items else ZERO
            if isinstance(o, ArrO):
                a = self.content(v)
                s = a.size()
                if s.const() == 1:
                    x = a
                    while x.ndim:
                        x = AR.dropaxis(x, 0)
                    p = x.cells[()]
                    return p if a.dt == "bool" else ONE - eq0(p)
                if s.const() == 0:
                    return ZERO
                raise AbsRaise(ExcV("ValueError", ("The truth value of an array is ambiguous",)))
            if isinstance(o, InstO):
                f = self.class_lookup(o.cls, "__bool__") or self.class_lookup(o.cls, "__len__")
                if f is not None:
                    return self.truth(self.call_func(f, [v], {}))
            return ONE
        if isinstance(v, Opq):
            return bool_atom("unknown", P(v.id))
        if isinstance(v, StrSym):
            return bool_atom("nonempty", str(v))
        if isinstance(v, RangeV):
            return compare(">", v.length(), ZERO)
        return ONE

    def length(self, v):
        if isinstance(v, (str, tuple)):
            return P(len(v))
        if isinstance(v, RangeV):
            return v.length()
        if isinstance(v, Ite):
            return blend(v.c, self.length(v.x), self.length(v.y))
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                def ln(items):
                    r = ZERO
                    for x in items:
                        r = r + (x.size if isinstance(x, (Rep, Hist)) else ONE)
                    return r
                if o.alt:
                    return blend(o.alt[0], ln(o.alt[1]), ln(o.alt[2]))
                return ln(o.items)
            if isinstance(o, DictO):
                return P(len(o.items))
            if isinstance(o, ArrO):
                a = self.content(v)
                if a.ndim == 0:
                    raise AbsRaise(ExcV("TypeError", ("len() of unsized object",)))
                if a.sel is not None:
                    return AR.reduce_all(a.sel, "sum")
                return AR.axlen(a.ax[0])
            if isinstance(o, InstO):
                f = self.class_lookup(o.cls, "__len__")
                if f is not None:
                    r = self.call_func(f, [v], {})
                    if isinstance(r, Sc):
                        return r.p
        if isinstance(v, Stub):
            r = v.get(self, "__len__")
            return r.p
        if isinstance(v, Opq):
            raise Unknown("length of unknown")
        if isinstance(v, StrSym):
            return A(("opq", "len", (str(v),)))
        raise AbsRaise(ExcV("TypeError", (f"object has no len()",)))

    def iterate(self, v):
        """Concrete list of items; raises Unknown if the length is symbolic."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, IterV):
            return v.all(self)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeV):
            n = v.length().const()
            if n is None:
                raise Unknown("symbolic range")
            return [Sc(v.lo + v.st * P(i), "int") for i in range(int(n))]
        if isinstance(v, EnumV):
            return [(Sc(P(it) + P(v.start), "int"), x) for it, x in enumerate(self.iterate(v.it))]
        if isinstance(v, ZipV):
            if any(isinstance(x, IterV) or hasattr(x, "lazy") for x in v.its):
                return self.zip_lazily(v.its)
            ls = [self.iterate(x) for x in v.its]
            return [tuple(t) for t in zip(*ls)]
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                if o.alt:
                    raise Unknown("list of unknown length")
                out = []
                for x in o.items:
                    if isinstance(x, Rep):
                        k = x.size.const()
                        if k is None:
                            raise Unknown("symbolic list")
                        out += [self.subst_val(x.val, {aid(x.var): P(i)}) for i in range(int(k))]
                    elif isinstance(x, Hist):
                        raise Unknown("symbolic list")
                    else:
                        out.append(x)
                return out
            if isinstance(o, DictO):
                return [self.unkey(k) for k in o.items]
            if isinstance(o, ArrO):
                a = self.content(v)
                if a.ndim == 0:
                    raise AbsRaise(ExcV("TypeError", ("iteration over a 0-d array",)))
                n = AR.axlen(a.ax[0]).const()
                if n is None or a.sel is not None:
                    raise Unknown("symbolic array")
                return [self.getitem(v, Sc(P(i), "int")) for i in range(int(n))]
            if isinstance(o, InstO):
                f = self.class_lookup(o.cls, "__iter__")
                if f is not None:
                    return self.iterate(self.call_func(f, [v], {}))
        if isinstance(v, Sc) or v is None or isinstance(v, (FuncV, ClassV)):
            raise AbsRaise(ExcV("TypeError", ("object is not iterable",)))
        if isinstance(v, Stub) and hasattr(v, "iterate"):
            return v.iterate(self)
        raise Unknown(f"iteration over {type(v).__name__}")

    def zip_lazily(self, its):
        from . import npmodel
        its = [x if isinstance(x, IterV) or hasattr(x, "lazy") else npmodel.b_iter(self, x) for x in its]
        gens = [x.lazy(self) for x in its]
        out = []
        while len(out) < 20000:
            row = []
            for g in gens:
                try:
                    row.append(next(g))
                except StopIteration:
                    return out
            out.append(tuple(row))
        raise Unknown("endless zip")

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr)

    def class_lookup(self, cls, name):
        for c in cls.mro():
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name]
        return None

    @staticmethod
    def library_based(cls):
        """Does the class inherit from, or was it rewritten by, something outside the sources analysed?"""
        return any(getattr(c, "opaque", None) if isinstance(c, ClassV) else
                   not (isinstance(c, Ext) and c.name in ("builtins.object", "object", "abc.ABC", "builtins.Exception")) for c in cls.mro())

    def getattr(self, o, name):
        if isinstance(o, Ite):
            o = self.prune(o)
            if isinstance(o, Ite):
                return self.lift(lambda w: self.getattr(w, name), o)
        if isinstance(o, Ref):
            ob = self.obj(o)
            if isinstance(ob, InstO):
                d = self.class_lookup(ob.cls, name)
                if isinstance(d, FuncV) and d.kind == "property":
                    return self.call_func(d, [o], {})
                if isinstance(d, FuncV) and d.kind == "cached" and name not in ob.attrs:
                    v = self.call_func(d, [o], {})
                    ob = self.obj(o)
                    self.put(o, InstO(ob.cls, {**ob.attrs, name: v}))
                    return v
                if name in ob.attrs:
                    v = ob.attrs[name]
                    v = self.prune(v) if isinstance(v, (Ite, Sc)) else v
                    if isinstance(d, FuncV) and d.kind == "cached" and (v is UNDEF or isinstance(v, Ite) and UNDEF in (v.x, v.y)):
                        return self.unknown("property cached on some paths only")
                    if v is UNDEF:
                        raise AbsRaise(ExcV("AttributeError", (name,)))
                    return v
                if d is not None:
                    return self.bind(d, o, ob.cls)
                if name == "__class__":
                    return ob.cls
                if name == "__dict__":
                    return self.new(DictO(ob.attrs))
                g = self.class_lookup(ob.cls, "__getattr__")
                if g is not None:
                    return self.call_func(g, [o, name], {})
                if self.library_based(ob.cls) or name in dir(object):
                    return self.unknown(f"attribute {name} of an object of a class with library bases")
                raise AbsRaise(ExcV("AttributeError", (name,)))
            from . import npmodel
            return npmodel.ref_attr(self, o, ob, name)
        if isinstance(o, ModV):
            v = self.st.heap[o.frame].vars
            if name in v:
                return v[name]
            sub = os.path.join(self.root, *o.name.split("."), name + ".py")
            if os.path.exists(sub):
                return self.load(o.name + "." + name)
            raise AbsRaise(ExcV("AttributeError", (name,)))
        if isinstance(o, Ext):
            return self.ext_get(o.name, name)
        if isinstance(o, ClassV):
            d = self.class_lookup(o, name)
            if d is None:
                if name in ("__name__", "__qualname__"):
                    return o.name
                if self.library_based(o) or name in dir(type):
                    return self.unknown(f"attribute {name} of a class")
                raise AbsRaise(ExcV("AttributeError", (name,)))
            if isinstance(d, FuncV) and d.kind == "class":
                return BoundV(d, o)
            return d
        if isinstance(o, SuperV):
            mro = self.obj(o.self_).cls.mro() if isinstance(o.self_, Ref) else o.self_.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassV) and name in c.ns:
                    d = c.ns[name]
                    if isinstance(d, FuncV) and d.kind == "property":
                        return self.call_func(d, [o.self_], {})
                    return self.bind(d, o.self_, c)
            if name == "__init__":
                return PyFn(lambda I, a, k: None, "object.__init__")
            if isinstance(o.self_, Ref) and self.library_based(self.obj(o.self_).cls) or name in dir(object):
                return self.unknown(f"super().{name}")
            raise AbsRaise(ExcV("AttributeError", (name,)))
        if isinstance(o, Stub):
            return o.get(self, name)
        if isinstance(o, Opq):
            return Opq(o.why)
        if isinstance(o, FuncV):
            if name == "__name__":
                return o.qual.split(".")[-1]
            if name in getattr(o, "attrs", {}):
                return o.attrs[name]
        from . import npmodel
        return npmodel.val_attr(self, o, name)

    def bind(self, d, o, cls):
        if isinstance(d, FuncV):
            if d.kind == "static":
                return d
            if d.kind == "class":
                return BoundV(d, cls)
            return BoundV(d, o)
        if isinstance(d, Stub) and hasattr(d, "bind"):
            return d.bind(o)
        return d

    def eval_index(self, n):
        if isinstance(n, ast.Tuple):
            return tuple(self.eval_index(e) for e in n.elts)
        if isinstance(n, ast.Slice):
            g = lambda x: None if x is None else self.eval(x)
            return SliceV(g(n.lower), g(n.upper), g(n.step))
        return self.eval(n)

    def e_Slice(self, n):
        return self.eval_index(n)

    def e_Subscript(self, n):
        o = self.eval(n.value)
        i = self.eval_index(n.slice)
        return self.getitem(o, i)

    def shape_split(self, *polys):
        """First boolean atom on which an index/shape term depends, or None."""
        for p in polys:
            if isinstance(p, Poly):
                b = toplevel_bools(with_facts(p))
                if b:
                    return b[0]
        return None

    def index_polys(self, i):
        out = []
        for x in (i if isinstance(i, tuple) else (i,)):
            if isinstance(x, Sc):
                out.append(x.p)
            elif isinstance(x, SliceV):
                out += [y.p for y in (x.lo, x.hi, x.st) if isinstance(y, Sc)]
        return out

    def getitem(self, o, i):
        if isinstance(o, Ite):
            o = self.prune(o)
            if isinstance(o, Ite):
                return self.lift(lambda w: self.getitem(w, i), o)
        if isinstance(i, Ite):
            return self.lift(lambda w: self.getitem(o, w), i)
        a = self.shape_split(*self.index_polys(i))
        if a is not None:
            return self.branch(atom_poly(a), lambda: self.getitem(o, self.refact(i)), lambda: self.getitem(o, self.refact(i)))
        if isinstance(o, Opq):
            return Opq(o.why)
        if isinstance(o, tuple) or isinstance(o, str):
            if isinstance(i, SliceV):
                g = lambda x: None if x is None else int(x.p.const())
                return o[slice(g(i.lo), g(i.hi), g(i.st))]
            if isinstance(i, Sc):
                c = i.p.const()
                if c is None:
                    cond = None
                    if isinstance(o, tuple):
                        r = None
                        for k in range(len(o)):
                            e = compare("==", i.p, P(k))
                            r = o[k] if r is None else self.blend_val(e, o[k], r)
                        return r
                    raise Unknown("symbolic index into string")
                if not -len(o) <= c < len(o):
                    raise AbsRaise(ExcV("IndexError", ()))
                return o[int(c)]
            raise AbsRaise(ExcV("TypeError", ("indices must be integers",)))
        if isinstance(o, Ref):
            ob = self.obj(o)
            if isinstance(ob, ArrO):
                if ob.why is not None:
                    raise Unknown(ob.why)
                if ob.mask is not None:
                    raise Unknown("index into masked array")
                a = self.content(o)
                idx = self.np_index(i)
                try:
                    r = AR.getitem(a, idx)
                except Unknown:
                    a2, idx2 = a, self.follow_masks(idx)
                    if a.sel is not None:
                        a2 = self.follow_sel(a)
                        idx2 = idx if idx2 is None else idx2
                    if idx2 is None or a2 is None:
                        raise
                    return self.arr_new(AR.getitem(a2, idx2)) if (r2 := AR.getitem(a2, idx2)).ndim else self.wrap(r2)
                if r.ndim == 0:
                    return self.wrap(r)
                if any(isinstance(x, Arr) for x in idx):
                    return self.arr_new(r)
                return self.new(ArrO(None, base=o.a, how=("idx", tuple(idx))))
            if isinstance(ob, DictO):
                k = self.key(i)
                if k is None:
                    return self.unknown("dict lookup with unknown key")
                if k not in ob.items:
                    if any(isinstance(x, Opq) for x in ob.items):
                        return self.unknown("dict lookup")
                    if ob.factory is not None:
                        v = self.call(ob.factory, [], {})
                        if getattr(ob.factory, "stores", True):
                            self.put(o, self.obj(o).like({**self.obj(o).items, k: v}))
                        return v
                    raise AbsRaise(ExcV("KeyError", (str(k),)))
                v = ob.items[k]
                if isinstance(v, Ite):
                    return self.prune(v)
                return v
            if isinstance(ob, SetO):
                raise AbsRaise(ExcV("TypeError", ("'set' object is not subscriptable",)))
            if isinstance(ob, ListO):
                return self.list_get(ob, i)
            if isinstance(ob, InstO):
                f = self.class_lookup(ob.cls, "__getitem__")
                if f is not None:
                    return self.call_func(f, [o, i], {})
                if self.library_based(ob.cls):
                    return self.unknown("item of an object of a class with library bases")
                raise AbsRaise(ExcV("TypeError", ("object is not subscriptable",)))
        if isinstance(o, Stub) and hasattr(o, "getitem"):
            return o.getitem(self, i)
        if isinstance(o, RangeV) and isinstance(i, Sc):
            return Sc(o.lo + mul(o.st, i.p), "int")
        if isinstance(o, (StrSym, Val)) and not isinstance(o, Sc):
            from . import npmodel
            return npmodel.str_getitem(self, o, i)
        raise AbsRaise(ExcV("TypeError", ("object is not subscriptable",)))

    def refact(self, i):
        if isinstance(i, tuple):
            return tuple(self.refact(x) for x in i)
        if isinstance(i, Sc):
            return Sc(with_facts(i.p), i.k)
        if isinstance(i, SliceV):
            return SliceV(*[self.refact(x) for x in (i.lo, i.hi, i.st)])
        return i

    def list_get(self, ob, i):
        if ob.alt:
            c, x, y = ob.alt
            return self.branch(c, lambda: self.list_get(ListO(x), i), lambda: self.list_get(ListO(y), i))
        items = ob.items
        concrete = not any(isinstance(x, (Rep, Hist)) for x in items)
        if isinstance(i, SliceV):
            if concrete:
                g = lambda x: None if x is None else int(x.p.const())
                try:
                    return self.new(ListO(items[slice(g(i.lo), g(i.hi), g(i.st))]))
                except TypeError:
                    raise Unknown("list slice")
            if i.lo is None and i.hi is None and i.st is None:
                return self.new(ListO(items))
            raise Unknown("slice of symbolic list")
        if not isinstance(i, Sc):
            if isinstance(i, Opq):
                raise Unknown("list index")
            raise AbsRaise(ExcV("TypeError", ("list indices must be integers",)))
        p = with_facts(i.p)
        c = p.const()
        if concrete and c is not None:
            if not -len(items) <= c < len(items):
                raise AbsRaise(ExcV("IndexError", ("list index out of range",)))
            return items[int(c)]
        total = ZERO
        for x in items:
            total = total + (x.size if isinstance(x, (Rep, Hist)) else ONE)
        if c is not None and c < 0:
            p = p + total
        elif c is None and not prove_ge0(p) and prove_gt0(-p):
            p = p + total
        pos = ZERO
        r = None
        cand = []
        for x in items:
            s = x.size if isinstance(x, (Rep, Hist)) else ONE
            lo = compare(">=", p, pos)
            hi = compare("<", p, pos + s)
            g = rawmul(lo, hi)
            if g.const() != 0:
                cand.append((g, x, p - pos))
            if g.const() == 1:
                cand = [(g, x, p - pos)]
                break
            pos = pos + s
        if not cand:
            raise AbsRaise(ExcV("IndexError", ("list index out of range",)))

        def item(x, k):
            if isinstance(x, Rep):
                return self.subst_val(x.val, {aid(x.var): k})
            if isinstance(x, Hist):
                return x.el(k)
            return x
        r = item(cand[-1][1], cand[-1][2])
        for g, x, k in reversed(cand[:-1]):
            r = self.blend_val(g, item(x, k), r)
        return r

    def decide(self, conds):
        """The values of conditions on the path being followed (None: paths are not followed singly, or too many to decide)."""
        if self.oracle is None:
            return None
        cs = [with_facts(c) for c in conds]
        if len(cs) > 12 or sum(c.const() is None for c in cs) > 6:
            return None
        on = [self.choose(with_facts(c)).const() for c in cs]
        return None if None in on else on

    def known_mask(self, a):
        """A boolean vector whose entries are all known, as the list of its positions."""
        if a.dt != "bool" or a.ndim != 1 or a.sel is not None or AR.axlen(a.ax[0]).const() is None:
            return a
        cs = {k: with_facts(v).const() for k, v in a.cells.items()}
        if None in cs.values() or not any(x.const() == 1 for x in a.ax[0]) and len(set(cs.values())) == 1 and 1 in cs.values():
            return a
        m = AR.explode(Arr(a.ax, {k: P(v) for k, v in cs.items()}, "bool"), 0)
        return AR.from_cells1([(ONE, P(j)) for j in range(len(m.ax[0])) if m.cells[(j,)].const()], "int")

    def follow_masks(self, idx):
        """The index with its boolean vectors replaced by the positions they mark on the path being followed."""
        out, n = [], 0
        for i in idx:
            if isinstance(i, Arr) and i.dt == "bool" and i.ndim == 1 and AR.axlen(i.ax[0]).const() is not None:
                m = AR.explode(i, 0)
                on = self.decide([m.cells[(j,)] for j in range(len(m.ax[0]))])
                if on is None:
                    return None
                i = AR.from_cells1([(ONE, P(j)) for j, v in enumerate(on) if v], "int")
                n += 1
            out.append(i)
        return out if n else None

    def follow_sel(self, a):
        """A vector selected by a mask, with the positions taken on the path being followed."""
        if a.ndim != 1 or AR.axlen(a.ax[0]).const() is None:
            return None
        b, m = AR.broadcast_axes([Arr(a.ax, a.cells, a.dt), a.sel])
        b, m = AR.explode(b, 0), AR.explode(m, 0)
        on = self.decide([m.cells[(j,)] for j in range(len(m.ax[0]))])
        if on is None:
            return None
        return AR.take_list(b, 0, [j for j, v in enumerate(on) if v])

    def np_index(self, i):
        out = []
        for x in (i if isinstance(i, tuple) else (i,)):
            if isinstance(x, SliceV):
                def g(y):
                    if y is None:
                        return None
                    if isinstance(y, Sc):
                        if y.k in ("float", "npfloat") and not is_int_poly(y.p):
                            raise Raised("TypeError", "slice indices must be integers")
                        return with_facts(y.p)
                    raise Unknown("slice bound")
                out.append((g(x.lo), g(x.hi), g(x.st)))
            elif isinstance(x, Sc):
                if x.k in ("bool", "npbool"):
                    raise Unknown("boolean scalar index")
                if x.k in ("float", "npfloat") and (x.p.const() is not None or x.k == "float"):
                    raise Raised("IndexError", "only integers are valid indices")
                out.append(with_facts(x.p))
            elif x is None or x is Ellipsis:
                out.append(x)
            elif isinstance(x, Ext) and x.name == "numpy.newaxis":
                out.append(None)
            elif isinstance(x, (Ref, RangeV)):
                a = self.to_arr(x)
                if a.ndim == 0:
                    out.append(a.cells[()])
                else:
                    out.append(self.known_mask(a))
            elif isinstance(x, tuple) and all(isinstance(y, Sc) for y in x):
                out.append(self.to_arr(x))
            elif getattr(x, "clsname", "") == "positions":
                out.append(self.known_mask(AR.from_cells1([(ONE, c) for c in x.conds], "bool")))     # x[flatnonzero(m)] is x[m]
            else:
                raise Unknown(f"index {type(x).__name__}")
        return out

    # comprehensions ------------------------------------------------
    def e_ListComp(self, n):
        return self.new(ListO(self.comp(n, n.elt)))

    def e_GeneratorExp(self, n):
        return self.new(ListO(self.comp(n, n.elt)))

    def e_SetComp(self, n):
        from . import pymodel
        return pymodel.make_set(self, self.comp(n, n.elt))

    def e_DictComp(self, n):
        pairs = self.comp(n, (n.key, n.value))
        items = {}
        for p in pairs:
            if isinstance(p, Rep):
                return self.unknown("symbolic dict")
            cond = None
            if isinstance(p, Ite):
                cond, p = p.c, p.x
            k = self.key(p[0])
            if k is None:
                return self.unknown("dict key")
            v = p[1]
            if cond is not None:
                v = Ite(cond, v, items.get(k, UNDEF))
            items[k] = v
        return self.new(DictO(items))

    def comp(self, n, elt):
        ctx = self.ctxs[-1]
        fr = self.new(FrameO({}, ctx.frame, "func"))
        c = Ctx(ctx.func, len(self.st.guards), self.loc)
        # comprehension exits are exits of the enclosing function
        c.frame, c.mod = fr.a, ctx.mod
        c.exits, c.base = ctx.exits, ctx.base
        if hasattr(ctx, "cls"):
            c.cls = ctx.cls
        self.ctxs.append(c)
        out = []
        try:
            self.comp_gen(n.generators, 0, elt, out)
        finally:
            self.ctxs.pop()
        return out

    def comp_gen(self, gens, k, elt, out):
        if k == len(gens):
            if isinstance(elt, tuple):
                out.append((self.eval(elt[0]), self.eval(elt[1])))
            else:
                out.append(self.eval(elt))
            return
        g = gens[k]
        it = self.eval(g.iter)
        if isinstance(it, Opq):
            raise Unknown("comprehension over unknown")
        try:
            items = self.iterate(it)
        except Unknown:
            segs = self.symbolic_iter(it)
            if segs is None or k != len(gens) - 1:
                raise
            for size, f in segs:
                if size.const() == 0:
                    continue
                if size.const() == 1:
                    self.assign(g.target, f(ZERO))
                    if self.conds(g):
                        self.comp_gen(gens, k + 1, elt, out)
                    continue
                self.nsym += 1
                var = ("lv", f"q{self.nsym}")
                fs = self.st.facts
                self.st.facts = fs.copy()
                self.st.facts.ge.append(size - 1 - A(var))
                set_facts(self.st.facts)
                self.assign(g.target, f(A(var)))
                if not self.conds(g):
                    self.st.facts = fs
                    set_facts(fs)
                    continue
                tmp = []
                self.comp_gen(gens, k + 1, elt, tmp)
                self.st.facts = fs
                set_facts(fs)
                out.append(Rep(size, tmp[0], var))
            return
        for x in items:
            self.assign(g.target, x)
            c = ONE
            for cond in g.ifs:
                c = rawmul(c, with_facts(self.truth(self.eval(cond))))
            kk = c.const()
            if kk == 0:
                continue
            if kk is None:
                # conditional item
                base = self.st
                tmp = []
                self.enter(base.fork(c))
                self.comp_gen(gens, k + 1, elt, tmp)
                st = self.st
                self.enter(State(st.heap, base.facts, base.guards))
                for t in tmp:
                    out.append(Ite(b_name(c), t, UNDEF))
                continue
            self.comp_gen(gens, k + 1, elt, out)

    def conds(self, g):
        for cond in g.ifs:
            c = with_facts(self.truth(self.eval(cond)))
            if c.const() is None:
                raise Unknown("symbolic filter")
            if not c.const():
                return False
        return True

    def e_Starred(self, n):
        return self.unknown("starred")

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def yield_list(self):
        r = self.ctxs[-1].yields
        if r is None:
            raise Unknown("yield")
        return r

    def e_Yield(self, n):
        r = self.yield_list()
        self.list_extend(r, [None if n.value is None else self.eval(n.value)])
        return None

    def e_YieldFrom(self, n):
        r = self.yield_list()
        self.list_extend(r, self.items_of(self.eval(n.value)))
        return None

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        self.callsites.add((self.loc[0], n.lineno, n.col_offset))
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            ctx = self.ctxs[-1]
            i = len(self.ctxs) - 1
            fo = self.st.heap[ctx.frame]
            f = getattr(ctx, "funcv", None)
            first = f.node.args.args[0].arg
            return SuperV(f.cls, fo.vars[first])
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.eval(a.value))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, Ref) and isinstance(self.obj(d), DictO):
                    kw.update(self.obj(d).items)
                else:
                    return self.unknown("** of unknown")
            else:
                kw[k.arg] = self.eval(k.value)
        saved = self.loc
        r = self.call(f, args, kw)
        self.loc = saved
        return r

    def call(self, f, args, kw):
        if isinstance(f, Ite):
            f = self.prune(f)
            if isinstance(f, Ite):
                return self.lift(lambda g: self.call(g, args, kw), f)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call_func(f.f, [f.self_] + list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, PyFn):
            return f.f(self, args, kw)
        if isinstance(f, Stub):
            return f.call(self, args, kw)
        if isinstance(f, Opq):
            # unknown callee may modify its mutable arguments: be conservative
            for a in args:
                if isinstance(a, Ref) and isinstance(self.obj(a), ArrO) and self.owner.get(a.a) is None:
                    pass
            return Opq(f.why)
        if isinstance(f, Ref) and isinstance(self.obj(f), InstO):
            g = self.class_lookup(self.obj(f).cls, "__call__")
            if g is not None:
                return self.call_func(g, [f] + list(args), kw)
        if isinstance(f, (Ext, ExtM)):
            from . import npmodel
            return npmodel.call_ext(self, f, args, kw)
        if f is None or isinstance(f, (Sc, str, tuple, Ref)):
            raise AbsRaise(ExcV("TypeError", ("object is not callable",)))
        return self.unknown(f"call of {type(f).__name__}")

    def instantiate(self, cls, args, kw):
        mro = cls.mro()
        for c in mro:
            if isinstance(c, Ext) and c.name.startswith("builtins.") and c.name.split(".")[1] in EXC_BASES:
                return ExcV(cls.name, tuple(args))
        # abstract methods
        if any(isinstance(c, Ext) and c.name in ("abc.ABC",) for c in mro) or any(
                getattr(getattr(c, "node", None), "keywords", None) for c in mro if isinstance(c, ClassV)):
            seen = set()
            for c in mro:
                if not isinstance(c, ClassV):
                    continue
                for k, v in c.ns.items():
                    if k in seen:
                        continue
                    seen.add(k)
                    if isinstance(v, FuncV) and any(
                            (isinstance(d, ast.Name) and d.id == "abstractmethod") or
                            (isinstance(d, ast.Attribute) and d.attr == "abstractmethod")
                            for d in getattr(v.node, "decorator_list", [])):
                        raise AbsRaise(ExcV("TypeError", (f"Can't instantiate abstract class {cls.name}",)))
        r = self.new(InstO(cls, {}))
        f = self.class_lookup(cls, "__init__")
        if f is not None:
            self.call_func(f, [r] + list(args), kw)
        elif any(not isinstance(c, ClassV) and getattr(c, "name", "") not in ("builtins.object", "abc.ABC") for c in mro):
            return self.unknown(f"instance of {cls.name}, a class with library bases")
        elif args or kw:
            raise AbsRaise(ExcV("TypeError", (f"{cls.name}() takes no arguments",)))
        return r

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names) and a.vararg is None:
            raise AbsRaise(ExcV("TypeError", (f"{f.qual}() takes {len(names)} positional arguments",)))
        for nme, v in zip(names, args):
            out[nme] = v
        extra = tuple(args[len(names):])
        if a.vararg is not None:
            out[a.vararg.arg] = extra
        kwn = [x.arg for x in a.kwonlyargs]
        more = {}
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in out:
                    raise AbsRaise(ExcV("TypeError", (f"{f.qual}() got multiple values for {k}",)))
                out[k] = v
            elif a.kwarg is not None:
                more[k] = v
            else:
                raise AbsRaise(ExcV("TypeError", (f"{f.qual}() got an unexpected keyword argument {k}",)))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new(DictO(more))
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in out:
                j = i - (len(names) - nd)
                if j < 0:
                    raise AbsRaise(ExcV("TypeError", (f"{f.qual}() missing required argument {nme}",)))
                out[nme] = f.defaults[j]
        for x, d, dn in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg not in out:
                if dn is None:
                    raise AbsRaise(ExcV("TypeError", (f"{f.qual}() missing keyword argument {x.arg}",)))
                out[x.arg] = d
        return out

    def call_func(self, f, args, kw):
        if not isinstance(f, FuncV):
            return self.call(f, args, kw)
        ov = self.func_over.get(f"{f.module.name}.{f.qual}")
        if ov is not None:
            r = ov(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if self.depth > 60:
            raise Budget("recursion")
        out = self.bind_args(f, list(args), kw)
        key = (f.module.rel, f.qual, f.node.lineno)
        self.visited_funcs[key] = self.visited_funcs.get(key, 0) + 1
        fr = self.new(FrameO(out, f.frame, "func"))
        ctx = Ctx(f.qual, len(self.st.guards), self.loc)
        ctx.frame, ctx.mod, ctx.funcv, ctx.cls = fr.a, f.module, f, f.cls
        entry_facts, entry_guards = self.st.facts.copy(), list(self.st.guards)
        self.ctxs.append(ctx)
        saved = self.loc
        self.loc = (f.module.rel, f.qual, f.node.lineno)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.eval(f.node.body)
                    self.add_exit("ret", v)
                except Dead:
                    pass
                except AbsRaise as e:
                    self.add_exit("raise", e.exc)
                alive = False
            elif has_yield(f.node):
                # run at once; what it yields is handed out one by one
                ctx.yields = self.new(ListO([]))
                alive = self.block(f.node.body)
            else:
                alive = self.block(f.node.body)
        finally:
            self.ctxs.pop()
            self.depth -= 1
        seq = list(ctx.exits)
        if alive:
            seq.append(("ret", ONE, None, self.st, self.loc))
        if ctx.yields is not None:
            seq = [(k, g, v if k == "raise" else IterV(ctx.yields), st, loc) for k, g, v, st, loc in seq]
        self.loc = saved
        return self.resolve_exits(seq, entry_facts, entry_guards)

    def resolve_exits(self, seq, entry_facts, entry_guards):
        """Join the exits of a finished call into the caller's state."""
        base = State({}, entry_facts, entry_guards)
        prior = ONE
        raises = []
        rets = []
        for kind, g, v, st, loc in seq:
            eff = b_name(rawmul(prior, g))
            if kind == "raise":
                raises.append((eff, v, st, loc))
            else:
                rets.append((g, v, st))
            prior = b_name(rawmul(prior, ONE - g))
        caller = self.ctxs[-1] if self.ctxs else None
        if not rets:
            if not raises:
                raise Dead()
            self.push_raises(caller, raises[:-1], entry_guards)
            self.enter(State(raises[-1][2].heap, raises[-1][2].facts, entry_guards))
            self.raise_loc = raises[-1][3]
            raise AbsRaise(raises[-1][1])
        self.push_raises(caller, raises, entry_guards)
        if len(rets) == 1:
            g, v, st = rets[0]
            self.enter(State(st.heap, st.facts, list(entry_guards)))
            return v
        g, v, st = rets[-1]
        for g2, v2, st2 in reversed(rets[:-1]):
            m = self.merge(g2, st2, st, base)
            self.enter(m)
            v = self.blend_val(b_name(g2), v2, v, st2, st)
            st = m
        m = State(st.heap, entry_facts.copy(), list(entry_guards))
        for eff, _, _, _ in raises:
            assume_into(m.facts, ONE - eff)
        self.enter(m)
        return v

    def push_raises(self, caller, raises, entry_guards):
        if caller is None:
            return
        gb = ONE
        for x in entry_guards[caller.base:]:
            gb = b_name(rawmul(gb, x))
        for eff, v, st, loc in raises:
            if eff.const() == 0:
                continue
            caller.exits.append(("raise", b_name(rawmul(gb, eff)), v, State(st.heap, st.facts, list(entry_guards) + [eff]), loc))

    # ------------------------------------------------------------ entry
    def run(self, thunk):
        """Run thunk() as an entry; returns Outcome."""
        ctx = Ctx("<entry>", len(self.st.guards), self.loc)
        fr = self.new(FrameO({}, None, "func"))
        ctx.frame, ctx.mod = fr.a, None
        self.ctxs.append(ctx)
        v, exc = None, None
        try:
            v = thunk()
        except Dead:
            raise Unknown("contradictory assumptions") from None
        except AbsRaise as e:
            exc = e.exc
        except Raised as e:
            exc = ExcV(e.cls, (e.msg,))
        finally:
            self.ctxs.pop()
        return Outcome(v, exc, [(g, x, loc) for k, g, x, st, loc in ctx.exits if k == "raise"])


class EnumV(Val):
    def __init__(self, it, start):
        self.it, self.start = it, start


class ZipV(Val):
    def __init__(self, its):
        self.its = its


class Outcome:
    """Result of an entry: value, certain exception (or None), conditional exceptions."""

    def __init__(self, value, exc, raises):
        self.value, self.exc, self.raises = value, exc, raises
