"""Abstract arrays: every axis is a sequence of segments of symbolic size; a cell (one per combination of
segments) holds the element as a term in ix(0), ix(1), ... (indices local to the segment)."""
from .terms import (F32, Narrow, single, P, Poly, ONE, ZERO, NAN, aid, ix, A, subst, add, rawmul, mul, blend, mk_sum, mk_red, compare,
                    prove_ge0, prove_gt0, gt0, fn, power, b_not, b_and, b_or, toplevel_bools, with_facts, is_zero, b_name)
import itertools


class Unknown(Exception):
    """The operation is outside what the array domain can represent."""


class Raised(Exception):
    """The analysed operation certainly raises this exception class."""

    def __init__(self, cls, msg=""):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


IX = [aid(("ix", k)) for k in range(12)]


def psum(xs):
    r = ZERO
    for x in xs:
        r = r + x
    return r


def cmp(x, y):
    """-1, 0, 1 or None."""
    d = with_facts(x - y)
    c = d.const()
    if c is not None:
        return (c > 0) - (c < 0)
    if prove_gt0(d):
        return 1
    if prove_gt0(-d):
        return -1
    return None


def axlen(ax):
    return psum(ax)


def prefixes(ax):
    out = [ZERO]
    for s in ax:
        out.append(out[-1] + s)
    return out


class Arr:
    __slots__ = ("ax", "cells", "dt", "sel")

    def __init__(self, ax, cells, dt="float", sel=None):
        self.ax = tuple(tuple(a) for a in ax)
        self.cells = cells
        self.dt = dt
        self.sel = sel

    @property
    def ndim(self):
        return len(self.ax)

    def shape(self):
        return tuple(axlen(a) for a in self.ax)

    def size(self):
        r = ONE
        for a in self.ax:
            r = rawmul(r, axlen(a))
        return r

    def keys(self):
        return itertools.product(*[range(len(a)) for a in self.ax])

    def same(self, o):
        return isinstance(o, Arr) and self.ax == o.ax and self.cells == o.cells

    def map(self, f, dt=None):
        return Arr(self.ax, {k: f(v) for k, v in self.cells.items()}, dt or self.dt, self.sel)

    def __repr__(self):
        return f"Arr{self.shape()} " + "; ".join(f"{k}:{v}" for k, v in sorted(self.cells.items()))


def from_fn(shape, f, dt="float"):
    """Array with one segment per axis (shape entries: Poly or tuple of Polys for segments); f(*global index)."""
    ax = [tuple(s) if isinstance(s, (tuple, list)) else (P(s),) for s in shape]
    ax = [tuple(x for x in a if x.const() != 0) for a in ax]
    pre = [prefixes(a) for a in ax]
    cells = {}
    for k in itertools.product(*[range(len(a)) for a in ax]):
        cells[k] = f(*[add(pre[d][i], ix(d)) if not (ax[d][i].const() == 1) else pre[d][i] for d, i in enumerate(k)])
    return Arr(ax, cells, dt)


def full(shape, v, dt="float"):
    return from_fn(shape, lambda *i: v, dt)


def from_cells1(segs, dt="float"):
    """1-D array from a list of (size, term in ix(0))."""
    segs = [(P(s), v) for s, v in segs if P(s).const() != 0]
    return Arr([tuple(s for s, _ in segs)], {(i,): v for i, (_, v) in enumerate(segs)}, dt)


def split_at(a, d, pos):
    """Make pos (a global offset along axis d) a segment boundary.  Returns (array, boundary number)."""
    pre = prefixes(a.ax[d])
    for i, p in enumerate(pre):
        if p == pos or cmp(p, pos) == 0:
            return a, i
    for i in range(len(a.ax[d])):
        lo, hi = cmp(pre[i], pos), cmp(pos, pre[i + 1])
        if lo == -1 and hi == -1:
            return _cut(a, d, i, pos, pre)
    # segments that may be empty
    for i in range(len(a.ax[d])):
        if prove_ge0(with_facts(pos - pre[i])) and prove_ge0(with_facts(pre[i + 1] - pos)):
            return _cut(a, d, i, pos, pre)
    raise Unknown(f"position {pos} not comparable with segment bounds {pre}")


def _cut(a, d, i, pos, pre):
    k = pos - pre[i]
    size = a.ax[d][i]
    nax = a.ax[d][:i] + (k, size - k) + a.ax[d][i + 1:]
    cells = {}
    for key, v in a.cells.items():
        if key[d] < i:
            cells[key] = v
        elif key[d] > i:
            cells[key[:d] + (key[d] + 1,) + key[d + 1:]] = v
        else:
            v1 = v
            if k.const() == 1:
                v1 = subst(v, {IX[d]: ZERO})
            sh = k if (size - k).const() == 1 else ix(d) + k
            cells[key] = v1
            cells[key[:d] + (i + 1,) + key[d + 1:]] = subst(v, {IX[d]: sh})
    sel = a.sel
    if sel is not None:
        sel, _ = split_at(sel, d, pos)
    return Arr(a.ax[:d] + (nax,) + a.ax[d + 1:], cells, a.dt, sel), i + 1


def refine(a, d, pres):
    for p in pres:
        a, _ = split_at(a, d, p)
    return a


def is_unit(ax):
    return axlen(ax).const() == 1


def explode(a, d):
    """All segments of axis d to size one (needs a constant length)."""
    n = axlen(a.ax[d]).const()
    if n is None or n.denominator != 1 or n > 400:
        raise Unknown("axis length not constant")
    return refine(a, d, [P(i) for i in range(1, int(n))])


def renum(v, mp):
    """Rename axis indices: mp old axis -> Poly."""
    return subst(v, {IX[k]: (x if isinstance(x, Poly) else ix(x)) for k, x in mp.items() if x != k or isinstance(x, Poly)})


def transpose(a, perm=None):
    perm = perm or tuple(reversed(range(a.ndim)))
    inv = {p: i for i, p in enumerate(perm)}
    cells = {tuple(k[p] for p in perm): renum(v, inv) for k, v in a.cells.items()}
    return Arr([a.ax[p] for p in perm], cells, a.dt)


def newaxis(a, d):
    mp = {k: k + 1 for k in range(d, a.ndim)}
    return Arr(a.ax[:d] + ((ONE,),) + a.ax[d:],
               {k[:d] + (0,) + k[d:]: renum(v, mp) for k, v in a.cells.items()}, a.dt)


def dropaxis(a, d):
    """Remove a unit axis."""
    if not is_unit(a.ax[d]):
        raise Raised("ValueError", "cannot squeeze")
    mp = {k: k - 1 for k in range(d + 1, a.ndim)}
    mp[d] = ZERO
    return Arr(a.ax[:d] + a.ax[d + 1:], {k[:d] + k[d + 1:]: renum(v, mp) for k, v in a.cells.items()}, a.dt)


def scalar0(a):
    """0-d array to its term."""
    return a.cells[()]


def broadcast_axes(arrs, msg="operands could not be broadcast together"):
    """Bring arrays to a common number of axes and common segmentation."""
    n = max(a.ndim for a in arrs)
    out = []
    for a in arrs:
        while a.ndim < n:
            a = newaxis(a, 0)
        out.append(a)
    for d in range(n):
        big = None
        for a in out:
            if not is_unit(a.ax[d]):
                if big is None:
                    big = a
                else:
                    c = cmp(axlen(a.ax[d]), axlen(big.ax[d]))
                    if c is None:
                        raise Unknown(f"cannot compare lengths {axlen(a.ax[d])} and {axlen(big.ax[d])}")
                    if c != 0:
                        raise Raised("ValueError", f"{msg}: {axlen(a.ax[d])} and {axlen(big.ax[d])}")
        if big is None:
            continue
        pres = []
        for a in out:
            if not is_unit(a.ax[d]):
                pres += prefixes(a.ax[d])[1:-1]
        nout = []
        for a in out:
            if not is_unit(a.ax[d]):
                a = refine(a, d, pres)
            nout.append(a)
        out = nout
        tgt = next(a for a in out if not is_unit(a.ax[d])).ax[d]
        nout = []
        for a in out:
            if is_unit(a.ax[d]):
                cells = {}
                for k, v in a.cells.items():
                    v = subst(v, {IX[d]: ZERO})
                    for i in range(len(tgt)):
                        cells[k[:d] + (i,) + k[d + 1:]] = v
                a = Arr(a.ax[:d] + (tgt,) + a.ax[d + 1:], cells, a.dt)
            elif a.ax[d] != tgt:
                # same boundaries proven equal; adopt the target's spelling
                a = Arr(a.ax[:d] + (tgt,) + a.ax[d + 1:], a.cells, a.dt, a.sel)
            nout.append(a)
        out = nout
    return out


def narrow(a):
    """The array with its values rounded to its type."""
    if isinstance(a.dt, Narrow):
        return Arr(a.ax, {k: single(v) for k, v in a.cells.items()}, a.dt, a.sel)
    return a


def mapn(f, arrs, dt="float"):
    sels = [a.sel for a in arrs if a.sel is not None]
    if sels:
        for s in sels[1:]:
            if not same_sel(sels[0], s):
                raise Unknown("different selections")
        for a in arrs:
            if a.sel is None and a.ndim and not all(is_unit(x) for x in a.ax):
                raise Unknown("selection mixed with a full array")
    b = broadcast_axes(arrs)
    cells = {k: f(*[x.cells[k] for x in b]) for k in b[0].cells}
    return Arr(b[0].ax, cells, dt, next(x.sel for x in b if x.sel is not None) if sels else None)


def same_sel(a, b):
    """Do two masks select the same elements?"""
    if a.same(b):
        return True
    if a.ndim != b.ndim:
        return False
    a, b = broadcast_axes([a, b])
    return a.ax == b.ax and all(is_zero(b_name(a.cells[k]) - b_name(b.cells[k])) for k in a.cells)


def lift(p, dt="float"):
    return Arr((), {(): P(p)}, dt)


def reduce_axis(a, d, kind):
    """kind: sum, any, all, max, min, prod."""
    if a.sel is not None:
        if kind == "sum":
            a = Arr(a.ax, {k: rawmul(v, a.sel.cells[k]) for k, v in a.cells.items()}, a.dt)
        elif kind == "any":
            a = Arr(a.ax, {k: rawmul(v, a.sel.cells[k]) for k, v in a.cells.items()}, a.dt)
        elif kind == "all":
            a = Arr(a.ax, {k: ONE - rawmul(a.sel.cells[k], ONE - v) for k, v in a.cells.items()}, a.dt)
        else:
            raise Unknown("reduction of a selection")
    if kind == "prod":
        a = explode(a, d)
    acc = {}
    order = sorted(a.cells, key=lambda k: k[d])
    for k in order:
        v, size = a.cells[k], a.ax[d][k[d]]
        kk = k[:d] + k[d + 1:]
        if kind == "sum":
            r = mk_sum(size, v, ("ix", d))
        elif kind == "any":
            r = mk_red("rany", size, v, ("ix", d))
        elif kind == "all":
            r = ONE - mk_red("rany", size, ONE - v, ("ix", d))
        elif kind in ("max", "min"):
            r = mk_red("r" + kind, size, v, ("ix", d))
        else:
            r = subst(v, {IX[d]: ZERO})
        if kk in acc:
            o = acc[kk]
            if kind == "sum":
                r = o + r
            elif kind == "any":
                r = b_or(o, r)
            elif kind == "all":
                r = b_and(o, r)
            elif kind in ("max", "min"):
                r = fn(kind, o, r)
            else:
                r = mul(o, r)
        acc[kk] = r
    if not a.ax[d]:
        if kind in ("max", "min"):
            raise Raised("ValueError", "zero-size array to reduction operation")
        e = {"sum": ZERO, "any": ZERO, "all": ONE, "prod": ONE}[kind]
        acc = {k: e for k in itertools.product(*[range(len(x)) for i, x in enumerate(a.ax) if i != d])}
    mp = {k: k - 1 for k in range(d + 1, a.ndim)}
    return Arr(a.ax[:d] + a.ax[d + 1:], {k: renum(v, mp) for k, v in acc.items()},
               "bool" if kind in ("any", "all") else ("int" if a.dt == "bool" else a.dt))


def reduce_all(a, kind):
    if a.size().const() == 0 and kind in ("max", "min"):
        raise Raised("ValueError", "zero-size array to reduction operation")
    while a.ndim:
        a = reduce_axis(a, a.ndim - 1, kind)
    return a.cells[()]


def contract(a, da, b, db):
    """Sum over axis da of a against axis db of b; remaining axes of a, then of b."""
    pa = [i for i in range(a.ndim) if i != da] + [da]
    a = transpose(a, tuple(pa)) if a.ndim else a
    pb = [db] + [i for i in range(b.ndim) if i != db]
    b = transpose(b, tuple(pb))
    la, lb = axlen(a.ax[-1]), axlen(b.ax[0])
    c = cmp(la, lb)
    if c is None:
        raise Unknown(f"cannot compare lengths {la} and {lb}")
    if c:
        raise Raised("ValueError", f"shapes not aligned: {la} and {lb}")
    na = a.ndim - 1
    for _ in range(b.ndim - 1):
        a = newaxis(a, a.ndim)
    # a: (A..., K, 1...) ; b: (K, B...) -> prepend axes
    for _ in range(na):
        b = newaxis(b, 0)
    r = mapn(mul, [a, b])
    return reduce_axis(r, na, "sum")


def concat(arrs, d=0):
    n = arrs[0].ndim
    for a in arrs:
        if a.ndim != n:
            raise Raised("ValueError", "all the input array dimensions must match")
    if d < 0:
        d += n
    if not 0 <= d < n:
        raise Raised("ValueError", "axis out of bounds")
    # common segmentation of the other axes
    out = list(arrs)
    for e in range(n):
        if e == d:
            continue
        for a in out[1:]:
            c = cmp(axlen(a.ax[e]), axlen(out[0].ax[e]))
            if c is None:
                raise Unknown("concatenate: unknown lengths")
            if c:
                raise Raised("ValueError", "all the input array dimensions except for the concatenation axis must match")
        pres = [p for a in out for p in prefixes(a.ax[e])[1:-1]]
        out = [refine(a, e, pres) for a in out]
    ax = list(out[0].ax)
    segs, cells = [], {}
    for a in out:
        off = len(segs)
        segs += a.ax[d]
        for k, v in a.cells.items():
            cells[k[:d] + (k[d] + off,) + k[d + 1:]] = v
    ax[d] = tuple(segs)
    dts = {a.dt for a in out}
    return Arr(ax, cells, (F32 if all(isinstance(a.dt, Narrow) for a in out) else "float") if "float" in dts else (dts.pop() if len(dts) == 1 else "int"))


def locate(a, d, pos):
    """Cell candidates for integer position pos along axis d: list of (guard, seg, local index)."""
    n = axlen(a.ax[d])
    c = pos.const()
    if c is not None and c < 0:
        pos = pos + n
    elif c is None and not prove_ge0(pos) and prove_gt0(-pos):
        pos = pos + n
    pre = prefixes(a.ax[d])
    if prove_gt0(-pos) or prove_ge0(pos - n):
        raise Raised("IndexError", f"index {pos} is out of bounds for axis of size {n}")
    out = []
    for i in range(len(a.ax[d])):
        lo = compare(">=", pos, pre[i])
        hi = compare("<", pos, pre[i + 1])
        if i == 0 and len(a.ax[d]) == 1:
            return [(ONE, 0, pos)]
        g = rawmul(lo if i else ONE, hi if i + 1 < len(a.ax[d]) else ONE)
        if g.const() == 0:
            continue
        loc = pos - pre[i]
        if a.ax[d][i].const() == 1:
            loc = ZERO
        out.append((g, i, loc))
        if g.const() == 1:
            return [(ONE, i, loc)]
    if not out:
        raise Raised("IndexError", "index out of bounds")
    return out


def take_int(a, d, pos):
    cand = locate(a, d, pos)
    mp = {k: k - 1 for k in range(d + 1, a.ndim)}
    ax = a.ax[:d] + a.ax[d + 1:]
    cells = {}
    for kk in itertools.product(*[range(len(x)) for x in ax]):
        r = None
        for g, i, loc in reversed(cand):
            v = a.cells[kk[:d] + (i,) + kk[d:]]
            m = dict(mp)
            # simultaneous substitution: local index may itself mention result axes (shifted already)
            v = subst(v, {IX[d]: A(("lv", "$pos"))})
            v = renum(v, m)
            v = subst(v, {aid(("lv", "$pos")): loc})
            r = v if r is None else blend(g, v, r)
        cells[kk] = r
    return Arr(ax, cells, a.dt)


def norm_slice(a, d, lo, hi):
    n = axlen(a.ax[d])

    def norm(p, dflt):
        if p is None:
            return dflt
        c = p.const()
        if (c is not None and c < 0) or (c is None and not prove_ge0(p) and prove_gt0(-p)):
            p = p + n
            if cmp(p, ZERO) == -1:
                p = ZERO
        k = cmp(p, n)
        if k == 1:
            p = n
        return p
    lo, hi = norm(lo, ZERO), norm(hi, n)
    if lo != hi and cmp(lo, hi) == 1:
        hi = lo
    return lo, hi


def slice_bounds(a, d, lo, hi):
    lo, hi = norm_slice(a, d, lo, hi)
    if lo == hi:
        return a, 0, 0
    a, _ = split_at(a, d, lo)
    a, j = split_at(a, d, hi)
    a, i = split_at(a, d, lo)
    a, j = split_at(a, d, hi)
    return a, i, j


def take_slice(a, d, lo, hi, step=None):
    if step is not None and step.const() not in (1, None):
        s = step.const()
        if s == -1 and lo is None and hi is None:
            return flip(a, d)
        a = explode(a, d)
        n = len(a.ax[d])
        g = lambda x: None if x is None else int(x.const())
        if (lo is not None and lo.const() is None) or (hi is not None and hi.const() is None):
            raise Unknown("strided slice")
        idx = list(range(n))[slice(g(lo), g(hi), int(s))]
        return take_list(a, d, idx)
    a, i, j = slice_bounds(a, d, lo, hi)
    ax = a.ax[:d] + (a.ax[d][i:j],) + a.ax[d + 1:]
    cells = {k[:d] + (k[d] - i,) + k[d + 1:]: v for k, v in a.cells.items() if i <= k[d] < j}
    return Arr(ax, cells, a.dt)


def flip(a, d):
    n = len(a.ax[d])
    cells = {}
    for k, v in a.cells.items():
        s = a.ax[d][k[d]]
        v = subst(v, {IX[d]: s - 1 - ix(d)}) if s.const() != 1 else v
        cells[k[:d] + (n - 1 - k[d],) + k[d + 1:]] = v
    return Arr(a.ax[:d] + (tuple(reversed(a.ax[d])),) + a.ax[d + 1:], cells, a.dt)


def take_list(a, d, idx):
    """Select concrete positions of an exploded axis."""
    n = len(a.ax[d])
    cells = {}
    for j, i in enumerate(idx):
        if not -n <= i < n:
            raise Raised("IndexError", "index out of bounds")
        i %= n
        for k, v in a.cells.items():
            if k[d] == i:
                cells[k[:d] + (j,) + k[d + 1:]] = v
    return Arr(a.ax[:d] + ((ONE,) * len(idx),) + a.ax[d + 1:], cells, a.dt)


def expand_index(a, idx):
    """Normalise an index tuple: pad with full slices, resolve Ellipsis."""
    idx = list(idx)
    used = 0
    for i in idx:
        if i is Ellipsis or i is None:
            continue
        used += i.ndim if isinstance(i, Arr) and i.dt == "bool" else 1
    if used > a.ndim:
        raise Raised("IndexError", "too many indices for array")
    out = []
    seen = False
    for i in idx:
        if i is Ellipsis:
            out += [(None, None, None)] * (a.ndim - used)
            seen = True
        else:
            out.append(i)
    if not seen:
        out += [(None, None, None)] * (a.ndim - used)
    return out


def getitem(a, idx):
    """idx: list of None | Poly | (lo, hi, step) | Arr(bool) | Arr(int)."""
    if a.sel is not None:
        raise Unknown("index into a selection")
    idx = expand_index(a, idx)
    masks = [i for i in idx if isinstance(i, Arr)]
    if masks:
        return get_fancy(a, idx)
    d = 0
    for i in idx:
        if i is None:
            a = newaxis(a, d)
            d += 1
        elif isinstance(i, Poly):
            a = take_int(a, d, i)
        else:
            a = take_slice(a, d, *i)
            d += 1
    return a


def get_fancy(a, idx):
    d = 0
    fancy = [i for i in idx if isinstance(i, Arr)]
    if len(fancy) != 1:
        raise Unknown("several index arrays")
    m = fancy[0]
    if m.dt == "bool":
        if m.ndim == a.ndim and len(idx) == 1:
            b, mm = broadcast_axes([a, m])
            return Arr(b.ax, b.cells, b.dt, mm)
        if m.ndim == 1 and all(i is m or isinstance(i, Poly) for i in idx):
            d = 0
            for i in idx:
                if i is m:
                    d += 1
                else:
                    a = take_int(a, d, i)
            b, mm = broadcast_axes([a, m])
            return Arr(b.ax, b.cells, b.dt, mm)
        raise Unknown("boolean index along one axis")
    if m.ndim != 1:
        raise Unknown("multi-dimensional index array")
    for i in idx:
        if i is m:
            try:
                n = axlen(m.ax[0]).const()
                if n is None:
                    raise Unknown("symbolic index list")
                m2 = explode(m, 0)
                vals = [m2.cells[(j,)].const() for j in range(int(n))]
                if any(v is None for v in vals):
                    raise Unknown("index values")
                a = take_list(explode(a, d), d, [int(v) for v in vals])
            except Unknown:
                if len(a.ax[d]) != 1 or len(m.ax[0]) != 1:
                    raise
                v0 = {k: subst(v, {IX[d]: renum(m.cells[(0,)], {0: d})}) for k, v in a.cells.items()}
                a = Arr(a.ax[:d] + (m.ax[0],) + a.ax[d + 1:], v0, a.dt)
            d += 1
        elif i is None:
            a = newaxis(a, d)
            d += 1
        elif isinstance(i, Poly):
            a = take_int(a, d, i)
        else:
            a = take_slice(a, d, *i)
            d += 1
    return a


def setitem(a, idx, val, op=None):
    """Functional update a[idx] = val (op None) - val is an Arr (0-d for a scalar)."""
    idx = expand_index(a, idx)
    if any(isinstance(i, Arr) for i in idx):
        return set_mask(a, idx, val)
    # split all slice bounds first
    plan = []
    d = 0
    for i in idx:
        if i is None:
            continue
        if isinstance(i, Poly):
            cand = locate(a, d, i)
            if len(cand) == 1 and cand[0][2].const() is not None and len(cand) == 1:
                pre = prefixes(a.ax[d])
                pos = pre[cand[0][1]] + cand[0][2]
                a, _ = split_at(a, d, pos)
                a, _ = split_at(a, d, pos + 1)
        else:
            if i[2] is not None and i[2].const() != 1:
                raise Unknown("strided store")
            a, _, _ = slice_bounds(a, d, i[0], i[1])
        d += 1
    d = 0
    sub_ax = []
    for i in idx:
        if i is None:
            sub_ax.append((ONE,))
            plan.append(("new",))
            continue
        if isinstance(i, Poly):
            plan.append(("int", d, locate(a, d, i)))
        else:
            a, lo, hi = slice_bounds(a, d, i[0], i[1])
            plan.append(("sl", d, lo, hi))
            sub_ax.append(a.ax[d][lo:hi])
        d += 1
    # broadcast val to the sub shape
    ref = Arr(sub_ax, {k: ZERO for k in itertools.product(*[range(len(x)) for x in sub_ax])})
    while val.ndim > ref.ndim and is_unit(val.ax[0]):
        val = dropaxis(val, 0)
    if val.ndim > ref.ndim:
        raise Raised("ValueError", "setting an array element with a sequence")
    r2, v2 = broadcast_axes([ref, val], "could not broadcast input array")
    for e in range(ref.ndim):
        if cmp(axlen(r2.ax[e]), axlen(ref.ax[e])) != 0:
            raise Raised("ValueError", "could not broadcast input array into shape")
    # r2 may be finer than a: refine a accordingly
    e = 0
    for pl in plan:
        if pl[0] == "new":
            e += 1
        elif pl[0] == "sl":
            dd, lo = pl[1], pl[2]
            base = prefixes(a.ax[dd])[lo]
            for p in prefixes(r2.ax[e])[1:-1]:
                a, _ = split_at(a, dd, base + p)
            e += 1
    # recompute plan bounds
    newplan = []
    d = 0
    e = 0
    for i in idx:
        if i is None:
            newplan.append(("new", None, e))
            e += 1
            continue
        if isinstance(i, Poly):
            newplan.append(("int", d, locate(a, d, i)))
        else:
            a, lo, hi = slice_bounds(a, d, i[0], i[1])
            newplan.append(("sl", d, lo, hi, e))
            e += 1
        d += 1
    cells = dict(a.cells)
    for key in a.cells:
        guard = ONE
        vkey = [0] * ref.ndim
        mp = {}
        hit = True
        for pl in newplan:
            if pl[0] == "new":
                continue
            if pl[0] == "int":
                dd = pl[1]
                c = [x for x in pl[2] if x[1] == key[dd]]
                if not c:
                    hit = False
                    break
                g, _, loc = c[0]
                guard = rawmul(guard, g)
                if a.ax[dd][key[dd]].const() != 1:
                    guard = rawmul(guard, compare("==", ix(dd), loc))
            else:
                dd, lo, hi, ee = pl[1:]
                if not lo <= key[dd] < hi:
                    hit = False
                    break
                vkey[ee] = key[dd] - lo
                mp[ee] = dd
        if not hit:
            continue
        v = v2.cells[tuple(vkey)]
        v = renum(v, mp)
        cells[key] = blend(guard, v, cells[key])
    return Arr(a.ax, cells, a.dt)


def set_mask(a, idx, val):
    fancy = [i for i in idx if isinstance(i, Arr)]
    if len(fancy) != 1:
        raise Unknown("mask store")
    m = fancy[0]
    if m.dt != "bool":
        if m.ndim == 1 and axlen(m.ax[0]).const() is not None:
            # concrete integer positions, one after another
            n = int(axlen(m.ax[0]).const())
            m2 = explode(m, 0) if n else m
            d = idx.index(m)
            for j in range(n):
                v = val
                if val.ndim and d == 0 and not is_unit(val.ax[0]):
                    v = take_int(val, 0, P(j))
                a = setitem(a, idx[:d] + [m2.cells[(j,)]] + idx[d + 1:], v)
            return a
        raise Unknown("index array store")
    if m.ndim == 1 and any(isinstance(i, Poly) for i in idx) and all(i is m or isinstance(i, Poly) or i == (None, None, None) for i in idx):
        # a vector mask next to integer indices: the lines it marks, one column of each
        full_ = (None, None, None)
        outer = [full_ if i is m else i for i in idx]
        sub = getitem(a, outer)
        k = [i for i in idx if not isinstance(i, Poly)].index(m)
        return setitem(a, outer, set_mask(sub, [m if j == k else full_ for j in range(sub.ndim)], val))
    # mask over the leading axes starting at its position; other entries must be full slices
    d = 0
    pos = None
    for i in idx:
        if i is m:
            pos = d
            d += m.ndim
        elif i == (None, None, None):
            d += 1
        else:
            raise Unknown("mask store with other indices")
    mm = m
    for _ in range(pos):
        mm = newaxis(mm, 0)
    while mm.ndim < a.ndim:
        mm = newaxis(mm, mm.ndim)
    a2, mm2 = broadcast_axes([a, mm], "boolean index did not match")
    if val.sel is not None:
        if not same_sel(val.sel, m):
            raise Unknown("value selected by a different mask")
        val = Arr(val.ax, val.cells, val.dt)
    elif val.ndim and not all(is_unit(x) for x in val.ax):
        if pos == 0 and m.ndim == a.ndim:
            raise Unknown("array stored through a mask")
    a2, mm2, v2 = broadcast_axes([a2, mm2, val])
    return Arr(a2.ax, {k: blend(mm2.cells[k], v2.cells[k], a2.cells[k]) for k in a2.cells}, a.dt)


def reshape(a, shape):
    """shape: list of Poly, one may be const -1."""
    if a.sel is not None:
        raise Unknown("reshape of a selection")
    shape = [P(s) for s in shape]
    tot = a.size()
    neg = [i for i, s in enumerate(shape) if s.const() == -1]
    if neg:
        rest = ONE
        for i, s in enumerate(shape):
            if i != neg[0]:
                rest = rawmul(rest, s)
        if tot == ZERO:
            shape[neg[0]] = ZERO
        else:
            q = rawmul(tot, power(rest, P(-1)))
            from .terms import is_int_poly
            if q.const() is not None and q.const().denominator != 1:
                raise Raised("ValueError", "cannot reshape array")
            shape[neg[0]] = q
    new = ONE
    for s in shape:
        new = rawmul(new, s)
    if new != tot:
        c = cmp(new, tot)
        if c is None:
            raise Unknown("reshape to a size that cannot be compared")
        if c:
            raise Raised("ValueError", "cannot reshape array")
    # same non-unit axes in the same order
    src = [d for d in range(a.ndim) if not is_unit(a.ax[d])]
    dst = [i for i, s in enumerate(shape) if s.const() != 1]
    if len(src) == len(dst) and all(cmp(axlen(a.ax[s]), shape[t]) == 0 for s, t in zip(src, dst)):
        b = a
        for d in reversed(range(b.ndim)):
            if is_unit(b.ax[d]):
                b = dropaxis(b, d)
        for i, s in enumerate(shape):
            if s.const() == 1:
                b = newaxis(b, i)
        return b
    if tot.const() is not None and all(s.const() is not None for s in shape):
        for d in range(a.ndim):
            a = explode(a, d)
        flat = [a.cells[k] for k in sorted(a.cells)]
        dims = [int(s.const()) for s in shape]
        keys = list(itertools.product(*[range(x) for x in dims]))
        return Arr([(ONE,) * x for x in dims], {k: v for k, v in zip(keys, flat)}, a.dt)
    # general case through the flat index (single-segment axes only)
    if any(len(x) != 1 for x in a.ax):
        raise Unknown("reshape of a segmented array")
    flat = ZERO
    for i, s in enumerate(shape):
        flat = rawmul(flat, s) + (ix(20 + i) if s.const() != 1 else ZERO)
    # group axes that are kept: match prefixes of equal sizes
    lead = 0
    while lead < min(a.ndim, len(shape)) and cmp(axlen(a.ax[lead]), shape[lead]) == 0:
        lead += 1
    flat = ZERO
    for i in range(lead, len(shape)):
        flat = rawmul(flat, shape[i]) + (A(("ix", 20 + i)) if shape[i].const() != 1 else ZERO)
    mp = {IX[i]: A(("ix", 20 + i)) for i in range(lead)}
    rem = flat
    dims = [axlen(x) for x in a.ax]
    # facts: 0 <= ix(20+i) < shape[i]
    from .terms import facts, set_facts
    f = facts().copy()
    for i in range(len(shape)):
        f.ge.append(shape[i] - 1 - A(("ix", 20 + i)))
    old = set_facts(f)
    try:
        for d in range(lead, a.ndim):
            stride = ONE
            for e in range(d + 1, a.ndim):
                stride = rawmul(stride, dims[e])
            q = fn("div", rem, stride) if stride.const() != 1 else rem
            if d == lead:
                mp[IX[d]] = q
            else:
                mp[IX[d]] = q
            rem = fn("mod", rem, stride) if stride.const() != 1 else ZERO
    finally:
        set_facts(old)
    v = subst(a.cells[(0,) * a.ndim], mp)
    v = subst(v, {aid(("ix", 20 + i)): ix(i) for i in range(len(shape))})
    return Arr([(s,) for s in shape], {(0,) * len(shape): v}, a.dt)


def diff_arrays(a, b):
    """None if shapes differ provably; else list of (description, cell difference)."""
    if a.ndim != b.ndim:
        return None
    for d in range(a.ndim):
        c = cmp(axlen(a.ax[d]), axlen(b.ax[d]))
        if c is None:
            raise Unknown("shapes cannot be compared")
        if c:
            return None
    x, y = a, b
    for d in range(a.ndim):
        pres = prefixes(x.ax[d])[1:-1] + prefixes(y.ax[d])[1:-1]
        x, y = refine(x, d, pres), refine(y, d, pres)
    return [(k, x.cells[k], y.cells[k], tuple(x.ax[d][k[d]] for d in range(x.ndim))) for k in x.cells]
