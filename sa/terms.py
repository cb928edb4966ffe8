"""Term domain of the analysis: hash-consed generalised polynomials in a normal form.

A Poly is a finite sum  coefficient * product of atom^exponent  with rational coefficients; exponents are
rationals or, again, Polys.  Atoms are interned tuples:

  ('sym', name, idx)    input symbol, possibly indexed by Polys (an array element)
  ('ix', k)             index running along axis k of an array cell
  ('bv', k)             variable bound by a sum/reduction
  ('lv', name)          loop index
  ('E',) ('pi',) ('prime', p)
  ('pw', Poly)          multi-term base of a power
  ('fn', name, args)    elementary function of Polys
  ('sum', size, body)   sum of body over bv = 0..size-1       (also 'rmax', 'rmin', 'rany')
  ('iv', op, Poly)      1 if the condition holds else 0; op is '>' (Poly > 0) or '=' (Poly == 0)
  ('ivb', Poly)         a named boolean (definition is the Poly)
  ('ivs', name, args)   boolean atom with no arithmetic meaning (string containment, opaque predicate)
  ('ext', 'INF'|'NAN')
  ('opq', tag, args)    value the analysis does not model (never equal to anything it is not identical to)
"""
from fractions import Fraction
import math

Q = Fraction
_atoms = []
_atom_ids = {}


def aid(a):
    i = _atom_ids.get(a)
    if i is None:
        i = len(_atoms)
        _atom_ids[a] = i
        _atoms.append(a)
    return i


def atom(i):
    return _atoms[i]


class SymInfo:
    """What the context declares about an input symbol."""
    table = {}

    def __init__(self, sign="real", integer=False, lo=None, hi=None, gen=None):
        self.sign, self.integer, self.lo, self.hi, self.gen = sign, integer, lo, hi, gen


INTS = set()        # arguments supplied as integers in the current context


def declare(name, sign="real", integer=False, lo=None, hi=None, gen=None):
    if name in INTS:
        integer = True
    if integer and lo is None and sign == "pos":
        lo = 1
    if integer and lo is None and sign == "nn":
        lo = 0
    SymInfo.table[name] = SymInfo(sign, integer, lo, hi, gen)
    return name


def syminfo(name):
    return SymInfo.table.get(name) or _DEF


_DEF = SymInfo()


class Facts:
    """Assumptions under which conditions are decided: literal truth values and linear facts (poly >= 0)."""

    def __init__(self, lits=None, ge=None):
        self.lits = dict(lits or {})
        self.ge = list(ge or [])

    def copy(self):
        return Facts(self.lits, self.ge)


class _G:
    facts = Facts()


def set_facts(f):
    old = _G.facts
    _G.facts = f
    return old


def facts():
    return _G.facts


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Poly):
            return NotImplemented
        return hash(self) == hash(o) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def const(self):
        """Rational value if constant else None."""
        if not self.t:
            return Q(0)
        if len(self.t) == 1:
            return self.t.get(())
        return None

    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return add(self, -P(o))

    def __rsub__(self, o):
        return add(P(o), -self)

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(P(o), P(-1)))

    def __rtruediv__(self, o):
        return mul(P(o), power(self, P(-1)))

    def __pow__(self, o):
        return power(self, P(o))

    def __repr__(self):
        return show(self)


_pc = {}


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    r = _pc.get(x) if isinstance(x, (int, Fraction)) else None
    if r is not None:
        return r
    if isinstance(x, int):
        r = Poly({(): Q(x)} if x else {})
    elif isinstance(x, Fraction):
        r = Poly({(): x} if x else {})
    elif isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else -INF
        return P(Q(repr(x)))
    else:
        raise TypeError(f"P({x!r})")
    _pc[x] = r
    return r


def A(a, e=1):
    """Poly of a single atom (tuple)."""
    return Poly({((aid(a), e if isinstance(e, Poly) else Q(e)),): Q(1)})


ZERO, ONE = P(0), P(1)
INF = A(("ext", "INF"))
NAN = A(("ext", "NAN"))
_INF, _NAN, _E = aid(("ext", "INF")), aid(("ext", "NAN")), aid(("E",))
PI = A(("pi",))


def sym(name, *idx):
    return A(("sym", name, tuple(P(i) for i in idx)))


def ix(k):
    return A(("ix", k))


def bv(k):
    return A(("bv", k))


def lv(name):
    return A(("lv", name))


def is_int_exp(e):
    return not isinstance(e, Poly) and e.denominator == 1


def atoms_of(p, deep=True, acc=None):
    """All atom ids occurring in p (recursively through atoms if deep)."""
    if acc is None:
        acc = set()
    for m in p.t:
        for a, e in m:
            if isinstance(e, Poly):
                atoms_of(e, deep, acc)
            if a not in acc:
                acc.add(a)
                if deep:
                    for q in children(a):
                        atoms_of(q, deep, acc)
    return acc


def children(a):
    t = _atoms[a]
    k = t[0]
    if k == "sym":
        return t[2]
    if k in ("fn", "ivs", "opq"):
        return tuple(x for x in t[2] if isinstance(x, Poly))
    if k in ("sum", "rmax", "rmin", "rany"):
        return (t[1], t[2])
    if k == "iv":
        return (t[2],)
    if k in ("pw", "ivb"):
        return (t[1],)
    return ()


_deep = {}


def deep_atoms(p):
    r = _deep.get(p)
    if r is None:
        r = _deep[p] = frozenset(atoms_of(p))
    return r


def has_kind(p, *kinds):
    return any(_atoms[a][0] in kinds for a in deep_atoms(p))


def has_ext(p):
    for m in p.t:
        for a, _ in m:
            if a == _INF or a == _NAN:
                return True
    return False


def is_nan(p):
    """Leaf-level NaN: some monomial carries the NaN atom."""
    for m in p.t:
        for a, _ in m:
            if a == _NAN:
                return True
    return False


# ---------------------------------------------------------------- arithmetic
def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    t = dict(p.t)
    for m, c in q.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v:
                t[m] = v
            else:
                del t[m]
    return Poly(t)


def scale(p, c):
    if c == 1:
        return p
    if not c:
        return ZERO
    return Poly({m: v * c for m, v in p.t.items()})


def addexp(e, f):
    if isinstance(e, Poly) or isinstance(f, Poly):
        r = add(P(e), P(f))
        c = r.const()
        return r if c is None else c
    return e + f


def _is_bool_atom(a):
    return _atoms[a][0] in ("iv", "ivb", "ivs", "rany")


_mm = {}


def mul_mono(m1, m2):
    """Product of two monomials as a Poly."""
    if not m1:
        return Poly({m2: Q(1)})
    if not m2:
        return Poly({m1: Q(1)})
    key = (m1, m2)
    r = _mm.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        if a in d:
            d[a] = addexp(d[a], e)
        else:
            d[a] = e
    r = norm_factors(d)
    _mm[key] = r
    return r


def norm_factors(d):
    coeff = Q(1)
    out = []
    extra = []
    bools = []
    for a, e in d.items():
        if not isinstance(e, Poly) and e == 0:
            continue
        t = _atoms[a]
        k = t[0]
        if k == "prime":
            if not isinstance(e, Poly):
                n = e.numerator // e.denominator
                if n:
                    coeff *= Q(t[1]) ** n
                    e = e - n
                if e == 0:
                    continue
        elif k in ("iv", "ivb", "ivs", "rany"):
            e = Q(1)
            bools.append(a)
        elif k == "pw":
            if is_int_exp(e) and e > 0:
                extra.append((t[1], int(e)))
                continue
        elif k == "fn" and t[1] == "abs" and is_int_exp(e) and e % 2 == 0:
            extra.append((t[2][0], int(e)))
            continue
        out.append((a, e))
    if len(bools) > 1 and contradictory(bools):
        return ZERO
    out.sort(key=lambda ae: ae[0])
    r = Poly({tuple(out): coeff})
    for b, n in extra:
        r = mul(r, int_power(b, n))
    return r


def contradictory(bools):
    """True if the conjunction of these Iverson atoms is unsatisfiable by a pairwise linear argument."""
    for i, a in enumerate(bools):
        ta = _atoms[a]
        if ta[0] != "iv":
            continue
        for b in bools[i + 1:]:
            tb = _atoms[b]
            if tb[0] != "iv":
                continue
            if ta[1] == ">" and tb[1] == ">":
                c = add(ta[2], tb[2]).const()
                if c is not None and c <= 0:
                    return True
            elif ta[1] == "=" and tb[1] == ">":
                for s in (ta[2], -ta[2]):
                    c = add(tb[2], s).const()
                    if c is not None and c <= 0:
                        return True
            elif ta[1] == ">" and tb[1] == "=":
                for s in (tb[2], -tb[2]):
                    c = add(ta[2], s).const()
                    if c is not None and c <= 0:
                        return True
            else:
                for s in (tb[2], -tb[2]):
                    c = add(ta[2], s).const()
                    if c is not None and c != 0:
                        return True
    return False


class TooBig(Exception):
    pass


LIMIT = 20000


def mul(p, q):
    if not p.t or not q.t:
        if (p.t and has_ext(p)) or (q.t and has_ext(q)):
            o = p if p.t else q
            if any(True for m in o.t if not any(_is_bool_atom(a) for a, _ in m) and any(a in (_INF, _NAN) for a, _ in m)):
                return NAN
            # guarded infinities: 0 * [c]INF = [c]NAN
            return Poly({tuple((a, e) for a, e in m if _is_bool_atom(a)) + ((_NAN, Q(1)),): Q(1)
                         for m in o.t if any(a in (_INF, _NAN) for a, _ in m)}) if o.t else ZERO
        return ZERO
    return rawmul(p, q)


def rawmul(p, q):
    if not p.t or not q.t:
        return ZERO
    c = p.const()
    if c is not None:
        return scale(q, c)
    c = q.const()
    if c is not None:
        return scale(p, c)
    if len(p.t) * len(q.t) > LIMIT:
        raise TooBig()
    out = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            r = mul_mono(m1, m2)
            cc = c1 * c2
            for m, c in r.t.items():
                v = out.get(m)
                v = c * cc if v is None else v + c * cc
                if v:
                    out[m] = v
                elif m in out:
                    del out[m]
    return Poly(out)


def int_power(p, n):
    r = ONE
    for _ in range(n):
        r = rawmul(r, p)
    return r


def prime_factors(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def rational_power(c, e):
    """c ** e for positive rational c; e Fraction or Poly."""
    d = {}
    if not isinstance(e, Poly) and e.denominator == 1:
        return P(c ** int(e))
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in prime_factors(n).items():
            a = aid(("prime", pr))
            x = scale(e, Q(k * s)) if isinstance(e, Poly) else e * k * s
            d[a] = addexp(d[a], x) if a in d else x
    return norm_factors(d)


def atom_sign(a):
    t = _atoms[a]
    k = t[0]
    if k == "sym":
        return syminfo(t[1]).sign
    if k in ("E", "pi", "prime"):
        return "pos"
    if k in ("ix", "bv", "lv", "iv", "ivb", "ivs", "rany"):
        return "nn"
    if k == "fn":
        if t[1] in ("abs", "len"):
            return "nn"
        if t[1] == "div":
            return "nn" if all(sign_of(x) in ("pos", "nn") for x in t[2]) else "real"
        if t[1] == "mod":
            return "nn" if sign_of(t[2][1]) in ("pos", "nn") else "real"
        if t[1] in ("factorial",):
            return "pos"
        if t[1] in ("ceil", "floor"):
            s = sign_of(t[2][0])
            return "nn" if s in ("pos", "nn") else "real"
        if t[1] in ("max", "min"):
            ss = {sign_of(x) for x in t[2]}
            if ss <= {"pos"}:
                return "pos"
            if ss <= {"pos", "nn"}:
                return "nn"
        return "real"
    if k in ("sum", "rmax", "rmin"):
        s = sign_of(t[2])
        return "nn" if s in ("pos", "nn") else "real"
    if k == "pw":
        return sign_of(t[1])
    if k == "ext":
        return "pos" if t[1] == "INF" else "real"
    return "real"


def mono_sign(m):
    s = "pos"
    for a, e in m:
        g = atom_sign(a)
        if g == "pos":
            continue
        if g == "nn":
            if not isinstance(e, Poly) and e < 0:
                continue
            s = "nn"
            continue
        if is_int_exp(e) and e % 2 == 0:
            s = "nn"
            continue
        if not is_int_exp(e):       # real power: non-negative wherever defined
            s = "nn"
            continue
        return "real"
    return s


_sg = {}


def sign_of(p):
    """'pos' (>0), 'nn' (>=0), 'zero', 'neg' (<0), 'np' (<=0) or 'real'."""
    if not p.t:
        return "zero"
    pos = neg = strict = 0
    for m, c in p.t.items():
        s = mono_sign(m)
        if s == "real":
            return "real"
        if c > 0:
            pos = 1
        else:
            neg = 1
        if s == "pos":
            strict = 1
    if pos and neg:
        return "real"
    if pos:
        return "pos" if strict else "nn"
    return "neg" if strict else "np"


def content(p):
    """Positive rational content and common positive-atom monomial of a multi-term poly: p = c * mono * rest."""
    g = Q(0)
    for c in p.t.values():
        g = abs(c) if not g else Q(math.gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator),
                                   g.denominator * c.denominator)
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = {a: e for a, e in d.items() if atom_sign(a) == "pos" or _atoms[a][0] == "ext"}
            continue
        for a in list(common):
            e = d.get(a)
            if e is None or isinstance(e, Poly) or isinstance(common[a], Poly):
                if e is not None and isinstance(e, Poly) and e == common[a]:
                    continue
                del common[a]
            else:
                x = min(e, common[a])
                if e * common[a] <= 0 or x == 0:
                    del common[a]
                else:
                    common[a] = x if x > 0 else max(e, common[a])
    return g, common or {}


def leading(p):
    return min(p.t.items(), key=lambda mc: _mkey(mc[0]))


def _mkey(m):
    return (len(m), tuple((a, str(e)) for a, e in m))


def power(p, q):
    """p ** q."""
    p, q = P(p), P(q)
    c = q.const()
    if c is not None:
        if c == 0:
            return ONE
        if c == 1:
            return p
        if c.denominator == 1 and c > 0:
            if len(p.t) == 1 or c <= 12:
                if len(p.t) == 1:
                    return _mono_pow(p, c)
                return int_power(p, int(c))
    if toplevel_bools(p) or toplevel_bools(q):
        return shannon2(p, q, power)
    if not p.t:
        if c is not None:
            return ZERO if c > 0 else INF
        if sign_of(q) == "pos":
            return ZERO
        return A(("fn", "pow", (p, q)))
    if is_nan(p) or is_nan(q):
        return NAN
    if len(p.t) == 1:
        return _mono_pow(p, c if c is not None else q)
    g, common = content(p)
    if common or g != 1:
        inv = {a: (-e if not isinstance(e, Poly) else -e) for a, e in common.items()}
        rest = rawmul(scale(p, 1 / g), norm_factors(inv)) if common else scale(p, 1 / g)
        if len(rest.t) > 1:
            e = c if c is not None else q
            r = rational_power(g, e)
            for a, x in common.items():
                r = rawmul(r, _mono_pow(Poly({((a, x),): Q(1)}), e))
            return rawmul(r, _pw(rest, c, q))
    return _pw(p, c, q)


def square_root(p):
    """Polynomial s with s*s == p (p of several monomials), or None."""
    n = len(p.t)
    k = 2
    while k * (k + 1) // 2 < n:
        k += 1
    if k * (k + 1) // 2 != n or k > 6:
        return None
    roots = []
    for m, c in p.t.items():
        if c > 0 and all(not isinstance(e, Poly) and e.denominator == 1 and e % 2 == 0 and not _is_bool_atom(a) and a != _E
                         for a, e in m):
            r = rational_power(c, Q(1, 2))
            rc = r.const()
            if rc is not None:
                roots.append(Poly({tuple((a, e / 2) for a, e in m): rc}))
    # a square has the squares of its monomials with, possibly, other even products among them
    if len(roots) != k:
        return None
    s = roots[0]
    for r in roots[1:]:
        x = rawmul(s_first(roots), r)
        (m, c), = x.t.items()
        v = p.t.get(m)
        if v is None or abs(v) != 2 * c:
            return None
        s = s + (r if v > 0 else -r)
    return s if rawmul(s, s) == p else None


def s_first(roots):
    return roots[0]


def _pw(base, c, q):
    sgn = 1
    if c is not None and c.denominator != 1 and (2 * c).denominator == 1:
        s = square_root(base)
        if s is not None:
            return power(fn_abs(s), P(2 * c))
    if c is not None and c.denominator == 1 and leading(base)[1] < 0:
        base = -base
        sgn = -1 if c % 2 else 1
    e = c if c is not None else q
    return scale(norm_factors({aid(("pw", base)): e}), Q(sgn))


def _mono_pow(p, e):
    """(coeff * mono) ** e, e Fraction or non-constant Poly."""
    (m, c), = p.t.items()
    r = ONE
    if c < 0:
        if is_int_exp(e):
            r = P(Q(-1) ** int(e))
            c = -c
        else:
            if not isinstance(e, Poly):
                # negative base, fractional power: only defined if the rest is negative; keep opaque
                return A(("fn", "pow", (p, P(e))))
            return A(("fn", "pow", (p, P(e))))
    r = rawmul(r, rational_power(c, e))
    for a, x in m:
        r = rawmul(r, _atom_pow(a, x, e))
    return r


def mulexp(x, e):
    if isinstance(x, Poly) or isinstance(e, Poly):
        r = rawmul(P(x), P(e))
        c = r.const()
        return r if c is None else c
    return x * e


def _atom_pow(a, x, e):
    if _is_bool_atom(a):
        return Poly({((a, Q(1)),): Q(1)})
    if is_int_exp(x) and x % 2 == 0 and not is_int_exp(e) and atom_sign(a) not in ("pos", "nn"):
        b = fn_abs(Poly({((a, Q(1)),): Q(1)}))
        return power(b, P(mulexp(x, e)))
    return norm_factors({a: mulexp(x, e)})


# ---------------------------------------------------------------- booleans
class Narrow(str):
    """The dtype of floating-point arrays narrower than double precision; equal to "float", but values stored are rounded."""


F32 = Narrow("float")
ROUND = [True]


def single(p, depth=3):
    """The value p stored in single precision."""
    c = p.const()
    if c is not None and abs(c.numerator) < 2 ** 24 and c.denominator & (c.denominator - 1) == 0 and c.denominator < 2 ** 24:
        return p
    if not ROUND[0] or is_nan(p) or is_int_poly(p):
        return p
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if abs(k) == 1 and len(m) == 1 and m[0][1] == 1:
            t = atom(m[0][0])
            if t[0] == "fn" and t[1] == "f32":
                return p
    if depth:
        for a in toplevel_bools(p):
            x, y = single(restrict(p, a, 1), depth - 1), single(restrict(p, a, 0), depth - 1)
            return blend(Poly({((a, Q(1)),): Q(1)}), x, y)
    return A(("fn", "f32", (p,)))


def toplevel_bools(p):
    """Ids of Iverson atoms occurring as factors of p's monomials."""
    out = []
    for m in p.t:
        for a, _ in m:
            if _atoms[a][0] in ("iv", "ivb", "ivs", "rany") and a not in out:
                out.append(a)
    return out


def restrict(p, a, val):
    """p with boolean factor atom a replaced by val (only at factor level)."""
    out = {}
    for m, c in p.t.items():
        hit = False
        for b, _ in m:
            if b == a:
                hit = True
                break
        if hit:
            if not val:
                continue
            m = tuple(x for x in m if x[0] != a)
        v = out.get(m)
        v = c if v is None else v + c
        if v:
            out[m] = v
        elif m in out:
            del out[m]
    return Poly(out)


def atom_poly(a):
    return Poly({((a, Q(1)),): Q(1)})


def blend(c, x, y):
    """if c then x else y (c a 0/1 Poly)."""
    if x == y:
        return x
    k = c.const()
    if k is not None:
        return x if k else y
    return add(rawmul(c, x), rawmul(ONE - c, y))


MAXB = 10


def shannon(p, f, depth=0):
    bs = toplevel_bools(p)
    if not bs:
        return f(p)
    if depth > MAXB:
        raise TooBig()
    a = bs[0]
    k = facts().lits.get(a)
    if k is not None:
        return shannon(restrict(p, a, k), f, depth)
    return blend(atom_poly(a), shannon(restrict(p, a, 1), f, depth + 1), shannon(restrict(p, a, 0), f, depth + 1))


def shannon2(p, q, f, depth=0):
    bs = toplevel_bools(p) or toplevel_bools(q)
    if not bs:
        return f(p, q)
    if depth > MAXB:
        raise TooBig()
    a = bs[0]
    k = facts().lits.get(a)
    if k is not None:
        return shannon2(restrict(p, a, k), restrict(q, a, k), f, depth)
    return blend(atom_poly(a), shannon2(restrict(p, a, 1), restrict(q, a, 1), f, depth + 1),
                 shannon2(restrict(p, a, 0), restrict(q, a, 0), f, depth + 1))


def with_facts(p):
    """p simplified by the literal facts currently assumed."""
    lits = facts().lits
    if not lits:
        return p
    for a in toplevel_bools(p):
        if a in lits:
            p = restrict(p, a, lits[a])
    return p


def atom_is_int(a):
    t = _atoms[a]
    k = t[0]
    if k == "sym":
        return syminfo(t[1]).integer
    if k in ("ix", "bv", "lv", "iv", "ivb", "ivs", "rany"):
        return True
    if k == "fn":
        return t[1] in ("ceil", "floor", "div", "mod", "len", "trunc", "rint")
    if k in ("sum", "rmax", "rmin"):
        return is_int_poly(t[2])
    return False


def is_int_poly(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not (is_int_exp(e) and e > 0 and atom_is_int(a)):
                return False
    return True


def atom_lo(a):
    """A known lower bound of the atom (rational) or None."""
    t = _atoms[a]
    if t[0] == "sym":
        i = syminfo(t[1])
        if i.lo is not None:
            return Q(i.lo)
        if i.sign in ("pos", "nn"):
            return Q(0)
        return None
    return Q(0) if atom_sign(a) in ("pos", "nn") else None


def _min_bound(p):
    """Lower bound of p from atom bounds: only monomials with positive coefficient & non-negative factors help."""
    b = Q(0)
    for m, c in p.t.items():
        if not m:
            b += c
            continue
        if c < 0:
            # upper bounds: integer symbols with declared hi
            if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]][0] == "sym" and syminfo(_atoms[m[0][0]][1]).hi is not None:
                b += c * Q(syminfo(_atoms[m[0][0]][1]).hi)
                continue
            if all(_is_bool_atom(a) for a, _ in m):
                b += c
                continue
            return None
        lo = Q(1)
        for a, e in m:
            l = atom_lo(a)
            if l is None or not is_int_exp(e):
                if is_int_exp(e) and e % 2 == 0 or atom_sign(a) in ("pos", "nn"):
                    lo = Q(0)
                    continue
                return None
            if e > 0:
                lo *= l ** int(e)
            else:
                lo = Q(0)
        b += c * lo
    return b


_LVB = {}


def prove_ge0(p, depth=2):
    b = _min_bound(p)
    if b is not None and b >= 0:
        return True
    if depth == 0:
        return False
    negs = {a for m, c in p.t.items() if c < 0 for a, _ in m}
    if not negs and p.t.get((), 0) >= 0:
        pass
    for f in facts().ge:
        # only use facts that can cancel a negative monomial of p
        if any(c < 0 and f.t.get(m, 0) < 0 for m, c in p.t.items()) or (p.t.get((), 0) < 0):
            for m, c in p.t.items():
                if c < 0 and f.t.get(m, 0) < 0:
                    k = c / f.t[m]
                    if prove_ge0(add(p, scale(f, -k)), depth - 1):
                        return True
            if prove_ge0(add(p, -f), depth - 1):
                return True
    return False


def prove_gt0(p):
    if is_int_poly(p):
        if prove_ge0(p - 1):
            return True
    if sign_of(p) == "pos":
        return True
    b = _min_bound(p)
    if b is not None and b > 0:
        return True
    return False


_gt = {}


_numsign = {}


def numeric_sign(p):
    """Sign of a term without symbols (numbers, e, pi and elementary functions of such), decided by interval-safe evaluation:
    only when the value exceeds the accumulated magnitude of its terms by far more than the rounding error."""
    r = _numsign.get(p, 0)
    if r != 0:
        return r
    r = None
    for a in deep_atoms(p):
        t = _atoms[a]
        if t[0] in ("E", "pi", "prime", "pw") or t[0] == "fn" and t[1] in ("log", "exp", "sqrt", "abs"):
            continue
        break
    else:
        try:
            env = Env("numeric")
            tot = mag = 0.0
            for m, c in p.t.items():
                v = ev(Poly({m: c}), env)
                tot += v
                mag += abs(v)
            if math.isfinite(mag) and abs(tot) > 1e-9 * mag:
                r = 1 if tot > 0 else -1
        except (EvalError, OverflowError, ZeroDivisionError, ValueError):
            pass
    _numsign[p] = r
    return r


def gt0(p):
    """[p > 0] as a 0/1 Poly."""
    p = with_facts(p)
    c = p.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    if toplevel_bools(p):
        return shannon(p, gt0)
    if is_nan(p):
        return ZERO
    ns = numeric_sign(p)
    if ns is not None:
        return ONE if ns > 0 else ZERO
    for m, cc in p.t.items():
        if any(a == _INF for a, _ in m):
            k = [x for x in m if x[0] != _INF]
            if not k:
                return ONE if cc > 0 else ZERO
            s = mono_sign(tuple(k))
            if s == "pos":
                return ONE if cc > 0 else ZERO
    s = sign_of(p)
    if s == "pos":
        return ONE
    if s in ("np", "neg", "zero"):
        return ZERO
    if prove_gt0(p):
        return ONE
    if prove_ge0(-p):
        return ZERO
    # normalise scale
    if len(p.t) >= 1:
        g, common = content(p)
        if common:
            p = rawmul(p, norm_factors({a: -e for a, e in common.items()}))
    lc = leading_nonconst(p)
    p = scale(p, 1 / abs(lc))
    if is_int_poly(p) and leading_nonconst(p) < 0:
        # p > 0  <=>  not (1 - p > 0)
        q = ONE - p
        a = aid(("iv", ">", q))
        return ONE - _lit(a)
    return _lit(aid(("iv", ">", p)))


def leading_nonconst(p):
    ms = [(m, c) for m, c in p.t.items() if m]
    return min(ms, key=lambda mc: _mkey(mc[0]))[1]


def _lit(a):
    k = facts().lits.get(a)
    if k is not None:
        return ONE if k else ZERO
    return atom_poly(a)


def eq0(p):
    p = with_facts(p)
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if toplevel_bools(p):
        return shannon(p, eq0)
    if is_nan(p):
        return ZERO
    if any(a == _INF for m in p.t for a, _ in m):
        return ZERO
    s = sign_of(p)
    if s in ("pos", "neg") or numeric_sign(p) is not None:
        return ZERO
    if prove_gt0(p) or prove_gt0(-p):
        return ZERO
    g, common = content(p)
    if common:
        p = rawmul(p, norm_factors({a: -e for a, e in common.items()}))
    if len(p.t) == 1:
        # a product vanishes iff one of its factors with a positive exponent does (a reciprocal never does)
        (m, c), = p.t.items()
        if len(m) > 1 or m[0][1] != 1:
            fs = []
            for a, e in m:
                if isinstance(e, Poly):
                    fs = None
                    break
                if e > 0:
                    fs.append(a)
            if fs is not None:
                r = ZERO
                for a in fs:
                    r = b_or(r, eq0(atom_poly(a)))
                return r
    p = scale(p, 1 / leading_nonconst(p))
    return _lit(aid(("iv", "=", p)))


def compare(op, x, y):
    """Comparison of two scalar Polys with IEEE NaN semantics at the leaves."""
    if has_ext(x) or has_ext(y):
        if toplevel_bools(x) or toplevel_bools(y):
            return shannon2(x, y, lambda a, b: compare(op, a, b))
        if is_nan(x) or is_nan(y):
            return ONE if op == "!=" else ZERO
        if x == y:      # INF against INF
            return ONE if op in ("==", ">=", "<=") else ZERO
    if op == ">":
        return gt0(x - y)
    if op == "<":
        return gt0(y - x)
    if op == ">=":
        return ONE - gt0(y - x)
    if op == "<=":
        return ONE - gt0(x - y)
    if op == "==":
        return eq0(x - y)
    return ONE - eq0(x - y)


def b_and(x, y):
    return rawmul(x, y)


def b_or(x, y):
    return x + y - rawmul(x, y)


def b_not(x):
    return ONE - x


def b_name(x):
    """Replace a boolean poly with more than a couple of monomials by a defined atom."""
    if len(x.t) <= 3:
        return x
    c = ONE - x
    if len(c.t) <= 3:
        return x
    return atom_poly(aid(("ivb", x)))


def bool_atom(name, *args):
    return _lit(aid(("ivs", name, tuple(args))))


# ---------------------------------------------------------------- functions
def fn_exp(p):
    if toplevel_bools(p):
        return shannon(p, fn_exp)
    if not p.t:
        return ONE
    if is_nan(p):
        return NAN
    if has_ext(p):
        s = gt0(p).const()
        if s is not None:
            return INF if s else ZERO
    r = ONE
    rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]][0] == "fn" and _atoms[m[0][0]][1] == "log":
            r = rawmul(r, power(_atoms[m[0][0]][2][0], P(c)))
        else:
            rest[m] = c
    q = Poly(rest)
    if q.t:
        c = q.const()
        r = rawmul(r, Poly({((_E, c if c is not None else q),): Q(1)}))
    return r


def fn_log(p):
    if toplevel_bools(p):
        return shannon(p, fn_log)
    if not p.t:
        return -INF
    if is_nan(p):
        return NAN
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = ZERO
        if c < 0:
            c = -c
        if c != 1:
            for n, s in ((c.numerator, 1), (c.denominator, -1)):
                for pr, k in prime_factors(n).items():
                    r = r + scale(A(("fn", "log", (P(pr),))), Q(k * s))
        for a, e in m:
            if a == _E:
                r = r + P(e)
            elif a == _INF:
                r = r + INF
            else:
                b = _atoms[a]
                if b[0] == "pw":
                    base = b[1]
                elif b[0] == "fn" and b[1] == "abs":
                    base = b[2][0]
                    if len(base.t) == 1:
                        r = r + rawmul(P(e), fn_log(base))
                        continue
                elif b[0] == "prime":
                    base = P(b[1])
                else:
                    base = atom_poly(a)
                r = r + rawmul(P(e), A(("fn", "log", (base,))))
        return r
    g, common = content(p)
    if common or g != 1:
        mono = norm_factors(dict(common)) if common else ONE
        rest = scale(p, 1 / g)
        if common:
            rest = rawmul(rest, norm_factors({a: -e for a, e in common.items()}))
        if len(rest.t) > 1:
            return fn_log(scale(mono, g)) + fn_log(rest) if rest != p else A(("fn", "log", (p,)))
    return A(("fn", "log", (p,)))


def fn_abs(p):
    if toplevel_bools(p):
        return shannon(p, fn_abs)
    c = p.const()
    if c is not None:
        return P(abs(c))
    if is_nan(p):
        return NAN
    ns = numeric_sign(p)
    if ns is not None:
        return p if ns > 0 else -p
    for m in p.t:
        if len(m) == 1 and m[0][0] == _INF and m[0][1] == 1 and not any(a == _INF for n in p.t if n != m for a, _ in n):
            return INF
    s = sign_of(p)
    if s in ("pos", "nn"):
        return p
    if s in ("neg", "np"):
        return -p
    if prove_ge0(p):
        return p
    if prove_ge0(-p):
        return -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = P(abs(c))
        rest = []
        for a, e in m:
            if mono_sign(((a, e),)) in ("pos", "nn"):
                r = rawmul(r, Poly({((a, e),): Q(1)}))
            elif is_int_exp(e):
                r = rawmul(r, norm_factors({aid(("fn", "abs", (atom_poly(a),))): e}))
            else:
                rest.append((a, e))
        if rest:
            r = rawmul(r, A(("fn", "abs", (Poly({tuple(rest): Q(1)}),))))
        return r
    g, common = content(p)
    if common:
        mono = norm_factors(dict(common))
        rest = rawmul(p, norm_factors({a: -e for a, e in common.items()}))
        if len(rest.t) > 1:
            return rawmul(mono, fn_abs(rest))
    lc = leading(p)[1]
    q = scale(p, 1 / lc)
    return scale(A(("fn", "abs", (q,))), abs(lc))


def fn_sqrt(p):
    return power(p, P(Q(1, 2)))


ODD = {"sin", "sinh", "tan", "arctan", "sign"}
EVEN = {"cos", "cosh"}


def fn(name, *args):
    """Generic function application; every argument is expanded over its Iverson factors."""
    args = tuple(P(a) for a in args)
    for i, a in enumerate(args):
        if toplevel_bools(a):
            return shannon(a, lambda v: fn(name, *(args[:i] + (v,) + args[i + 1:])))
    if any(is_nan(a) for a in args):
        return NAN
    if name == "abs":
        return fn_abs(args[0])
    if name == "exp":
        return fn_exp(args[0])
    if name == "log":
        return fn_log(args[0])
    c = args[0].const() if len(args) == 1 else None
    if name in ("ceil", "floor", "trunc", "rint"):
        if is_int_poly(args[0]):
            return args[0]
        if c is not None:
            return P(math.ceil(c) if name == "ceil" else math.floor(c) if name == "floor" else
                     (math.trunc(c) if name == "trunc" else round(c)))
        if name == "trunc" and sign_of(args[0]) in ("pos", "nn"):
            name = "floor"
        # split off integer constant part
        p = args[0]
        k = Q(math.floor(p.t.get((), Q(0))))
        if k:
            return fn(name, p - P(k)) + P(k)
        return A(("fn", name, (p,)))
    if name == "factorial" and c is not None and c.denominator == 1 and 0 <= c <= 50:
        return P(math.factorial(int(c)))
    if name == "sign":
        return gt0(args[0]) - gt0(-args[0])
    if name in ODD and args[0].t and leading(args[0])[1] < 0:
        return -fn(name, -args[0])
    if name in EVEN and args[0].t and leading(args[0])[1] < 0:
        return fn(name, -args[0])
    if name == "cos" and not args[0].t:
        return ONE
    if name in ODD and not args[0].t:
        return ZERO
    if name == "cos" and len(args[0].t) == 1:
        (m, k), = args[0].t.items()
        if m == ((aid(("pi",)), Q(1)),):
            k2 = (k * 2) % 4
            if k2.denominator == 1:
                return P([1, 0, -1, 0][int(k2)])
    if name == "div":
        x, y = args
        cx, cy = x.const(), y.const()
        if cy == 1:
            return x if is_int_poly(x) else fn("floor", x)
        if cx is not None and cy:
            return P(cx // cy)
        if prove_ge0(x) and prove_gt0(y - x):
            return ZERO
        # pull out multiples of y
        q, r = split_multiple(x, y)
        if q.t and is_int_poly(q) and prove_gt0(y):
            return q + fn("div", r, y)
    if name == "mod":
        x, y = args
        cx, cy = x.const(), y.const()
        if cy == 1 and is_int_poly(x):
            return ZERO
        if cx is not None and cy:
            return P(cx % cy)
        if prove_ge0(x) and prove_gt0(y - x):
            return x
        q, r = split_multiple(x, y)
        if q.t and is_int_poly(q) and prove_gt0(y):
            return fn("mod", r, y)
    if name in ("max", "min") and len(args) > 2:
        r = args[0]
        for z in args[1:]:
            r = fn(name, r, z)
        return r
    if name in ("max", "min"):
        x, y = args
        if x == y:
            return x
        d = compare(">=", x, y).const()
        if d is not None:
            return (x if d else y) if name == "max" else (y if d else x)
        lst = []
        for z in args:
            lst += flat_extremum(name, z)
        lst = list(dict.fromkeys(lst))
        common = {m: k for m, k in lst[0].t.items() if all(z.t.get(m) == k for z in lst[1:])}
        base = Poly(common) if common else ZERO
        if len(lst) == 1:
            return lst[0]
        lst = [z - base for z in lst] if common else lst
        a = tuple(sorted(lst, key=lambda z: show(z)))
        r = A(("fn", name, a))
        return base + r
    return A(("fn", name, args))


def flat_extremum(name, z):
    """Arguments of which z is the max/min (z = rest + max(args) gives rest + arg each)."""
    for m, c in z.t.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            t = _atoms[m[0][0]]
            if t[0] == "fn" and t[1] == name and not toplevel_bools(z):
                rest = z - Poly({m: c})
                return [rest + y for y in t[2]]
    return [z]


def split_multiple(x, y):
    """x = q*y + r by monomial division when y is a single monomial."""
    if len(y.t) != 1:
        return ZERO, x
    (my, cy), = y.t.items()
    dy = dict(my)
    q, r = ZERO, ZERO
    for m, c in x.t.items():
        d = dict(m)
        if all(a in d and not isinstance(d[a], Poly) and not isinstance(e, Poly) and d[a] >= e for a, e in dy.items()) \
                and (c / cy).denominator == 1:
            for a, e in dy.items():
                d[a] = d[a] - e
            q = q + scale(norm_factors(d), c / cy)
        else:
            r = r + Poly({m: c})
    return q, r


# ---------------------------------------------------------------- sums
def bv_level(p):
    lv_ = 0
    for a in deep_atoms(p):
        t = _atoms[a]
        if t[0] in ("sum", "rmax", "rmin", "rany"):
            lv_ = max(lv_, _level(a))
    return lv_


def _level(a):
    t = _atoms[a]
    return 1 + bv_level(t[2])


EXPAND = 40


def mk_sum(size, body, var):
    """sum of body over var (an atom tuple) = 0..size-1, normalised."""
    va = aid(var)
    c = size.const()
    if c is not None and c <= EXPAND:
        r = ZERO
        for k in range(int(c)):
            r = r + subst(body, {va: P(k)})
        return r
    # [var == e] factors pick a single term when 0 <= e < size is known
    out = ZERO
    groups = {}
    for m, cf in body.t.items():
        free, dep = [], []
        for a, e in m:
            if va in deep_atoms(Poly({((a, e),): Q(1)})):
                dep.append((a, e))
            else:
                free.append((a, e))
        groups.setdefault(tuple(dep), []).append((tuple(free), cf))
    for dep, lst in groups.items():
        fr = ZERO
        for f, cf in lst:
            fr = fr + Poly({f: cf})
        if not dep:
            out = out + rawmul(fr, size)
            continue
        pick = None
        for a, _ in dep:
            t = _atoms[a]
            if t[0] == "iv" and t[1] == "=":
                co = t[2].t.get(((va, Q(1)),))
                if co:
                    rest = t[2] - Poly({((va, Q(1)),): co})
                    if va not in deep_atoms(rest):
                        pick = (a, scale(rest, -1 / co))
                        break
        if pick:
            other = Poly({tuple(x for x in dep if x[0] != pick[0]): Q(1)})
            val = subst(other, {va: pick[1]})
            inr = b_and(compare(">=", pick[1], ZERO), compare("<", pick[1], size))
            out = out + rawmul(fr, rawmul(val, inr))
            continue
        b = Poly({dep: Q(1)})
        out = out + rawmul(fr, _sum_atom("sum", size, b, va))
    return out


def _sum_atom(kind, size, b, va):
    lvl = 1 + bv_level(b)
    b2 = subst(b, {va: bv(lvl)})
    if kind == "sum":
        # canonical order of directly nested sums: sum_i x sum_j y where body is exactly another sum
        if len(b2.t) == 1:
            (m, c), = b2.t.items()
            if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]][0] == "sum" and c == 1:
                inner = _atoms[m[0][0]]
                if bv_id(lvl) not in deep_atoms(inner[1]):
                    # swap if the other nesting is smaller in print order
                    i_lvl = _level(m[0][0])
                    core = inner[2]
                    tmp = ("bv", 10 ** 6)
                    sw = subst(core, {aid(("bv", i_lvl)): A(tmp)})
                    # inner over current var
                    r_in = _sum_raw(size, sw, bv_id(lvl))
                    r_out = _sum_raw(inner[1], r_in, aid(tmp))
                    a1 = Poly({((aid((kind, size, b2)), Q(1)),): Q(1)})
                    return min(a1, r_out, key=lambda z: show(z))
    return A((kind, size, b2))


def _sum_raw(size, b, va):
    lvl = 1 + bv_level(b)
    return A(("sum", size, subst(b, {va: bv(lvl)})))


def bv_id(k):
    return aid(("bv", k))


def mk_red(kind, size, body, var):
    """rmax/rmin/rany over var."""
    va = aid(var)
    c = size.const()
    if c is not None and c <= EXPAND and c >= 1:
        r = None
        for k in range(int(c)):
            x = subst(body, {va: P(k)})
            if r is None:
                r = x
            elif kind == "rany":
                r = b_or(r, x)
            else:
                r = fn(kind[1:], r, x)
        return r
    if kind == "rany":
        if c == 0:
            return ZERO
        k = body.const()
        if k is not None:
            if k == 0:
                return ZERO
            if prove_gt0(size):
                return ONE
        r = ZERO
        if va not in deep_atoms(body) and prove_gt0(size):
            return body
        lvl = 1 + bv_level(body)
        return _lit(aid((kind, size, subst(body, {va: bv(lvl)}))))
    if va not in deep_atoms(body):
        return body
    # extremum of (constant + varying part)
    free = {m: k for m, k in body.t.items() if all(va != a and va not in deep_atoms(atom_poly(a)) and
                                                   not (isinstance(e, Poly) and va in deep_atoms(e)) for a, e in m)}
    if free:
        base = Poly(free)
        return base + mk_red(kind, size, body - base, var)
    lvl = 1 + bv_level(body)
    return A((kind, size, subst(body, {va: bv(lvl)})))


# ---------------------------------------------------------------- substitution
def subst(p, mp):
    """Replace atoms (by id) with Polys, everywhere."""
    if not mp:
        return p
    return _subst(p, mp, {}, frozenset(mp))


def _subst(p, mp, memo, keys):
    r = memo.get(p)
    if r is not None:
        return r
    if not (deep_atoms(p) & keys):
        memo[p] = p
        return p
    out = ZERO
    for m, c in p.t.items():
        term = P(c)
        for a, e in m:
            base = _subst_atom(a, mp, memo, keys)
            e2 = _subst(e, mp, memo, keys) if isinstance(e, Poly) else e
            if base is None:
                base = Poly({((a, Q(1)),): Q(1)})
                if a == _E:
                    term = rawmul(term, fn_exp(P(e2)))
                    continue
            elif a == _E:
                term = rawmul(term, fn_exp(P(e2)))
                continue
            term = rawmul(term, power(base, P(e2)))
        out = out + term
    memo[p] = out
    return out


def _subst_atom(a, mp, memo, keys):
    if a in mp:
        return mp[a]
    t = _atoms[a]
    k = t[0]
    ch = children(a)
    if not ch or not any(deep_atoms(q) & keys for q in ch):
        return None
    if k == "sym":
        return A(("sym", t[1], tuple(_subst(q, mp, memo, keys) for q in t[2])))
    if k == "fn":
        args = tuple(_subst(q, mp, memo, keys) for q in t[2])
        if t[1] == "pow":
            return power(*args)
        return fn(t[1], *args)
    if k == "opq":
        return A(("opq", t[1], tuple(_subst(q, mp, memo, keys) if isinstance(q, Poly) else q for q in t[2])))
    if k == "ivs":
        return bool_atom(t[1], *(_subst(q, mp, memo, keys) if isinstance(q, Poly) else q for q in t[2]))
    if k == "iv":
        q = _subst(t[2], mp, memo, keys)
        return gt0(q) if t[1] == ">" else eq0(q)
    if k == "ivb":
        return b_name(_subst(t[1], mp, memo, keys))
    if k == "pw":
        return _subst(t[1], mp, memo, keys)
    if k in ("sum", "rmax", "rmin", "rany"):
        size = _subst(t[1], mp, memo, keys)
        lvl = _level(a)
        fresh = ("bv", 2 * 10 ** 6 + lvl)
        body = subst(t[2], {bv_id(lvl): A(fresh)})
        mp2 = {x: y for x, y in mp.items() if x != bv_id(lvl)}
        body = subst(body, mp2)
        return mk_sum(size, body, fresh) if k == "sum" else mk_red(k, size, body, fresh)
    return None


# ---------------------------------------------------------------- normal-form equality
def expand_defs(p):
    """Replace named booleans by their definitions."""
    ids = {a for a in deep_atoms(p) if _atoms[a][0] == "ivb"}
    n = 0
    while ids and n < 20:
        p = subst(p, {a: _atoms[a][1] for a in ids})
        ids = {a for a in deep_atoms(p) if _atoms[a][0] == "ivb"}
        n += 1
    return p


def _clear_pw(p):
    """Expand powers of multi-term bases whose exponents differ by integers between monomials."""
    for _ in range(6):
        bases = {}
        for m in p.t:
            for a, e in m:
                if _atoms[a][0] == "pw":
                    bases.setdefault(a, set())
        if not bases:
            return p
        changed = False
        for a in bases:
            exps = [dict(m).get(a, Q(0)) for m in p.t]
            nums = [e for e in exps if not isinstance(e, Poly)]
            classes = {}
            for e in nums:
                classes.setdefault(e % 1, []).append(e)
            if len(nums) != len(exps):
                # symbolic exponents: group those differing by integers from the first symbolic one
                continue
            lo = {k: min(v) for k, v in classes.items()}
            if any(e != lo[e % 1] for e in nums) or any(v < 0 for v in lo.values()):
                out = ZERO
                for m, c in p.t.items():
                    e = dict(m).get(a, Q(0))
                    l = lo[e % 1]
                    rest = Poly({tuple(x for x in m if x[0] != a): c})
                    k = int(e - l)
                    rest = rawmul(rest, int_power(_atoms[a][1], k))
                    frac = l % 1
                    if frac:
                        rest = rawmul(rest, norm_factors({a: frac}))
                    out = out + rest
                if out != p:
                    p = out
                    changed = True
                    break
        if not changed:
            return p
    return p


def leaf_zero(p):
    if not p.t:
        return True
    try:
        return not _clear_pw(p).t
    except TooBig:
        return False


def is_zero(p, maxatoms=11):
    """Proof (True) that p is identically zero under the current facts, or False (= not proved)."""
    p = with_facts(p)
    if not p.t:
        return True
    return _case_zero(p, {}, maxatoms)


def _consistent(lits):
    tr = [a for a, v in lits.items() if v]
    if len(tr) > 1 and contradictory(tr):
        return False
    # a false [q>0] with a true [p>0], p - q const <= 0 ... p>0 & q = p + c, c >= 0 false => contradiction
    for a, v in lits.items():
        if v or _atoms[a][0] != "iv" or _atoms[a][1] != ">":
            continue
        for b in tr:
            if _atoms[b][0] == "iv" and _atoms[b][1] == ">":
                c = (_atoms[a][2] - _atoms[b][2]).const()
                if c is not None and c >= 0:
                    return False
    return True


def _case_zero(p, lits, left):
    bs = toplevel_bools(p)
    if not bs:
        # booleans hidden inside functions are identified structurally
        return leaf_zero(p)
    if left <= 0:
        return False
    a = next((b for b in bs if _atoms[b][0] == "iv" and _atoms[b][1] == "="), bs[0])
    for v in (1, 0):
        l2 = dict(lits)
        l2[a] = v
        if not _consistent(l2):
            continue
        q = restrict(p, a, v)
        if v and _atoms[a][0] == "iv" and _atoms[a][1] == "=":
            q = _use_equality(q, _atoms[a][2])
        if q.t and not _case_zero(q, l2, left - 1):
            return False
    return True


def _use_equality(p, e):
    """Under e == 0 eliminate one atom that occurs linearly and nowhere else in e."""
    for m, c in e.t.items():
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]][0] in ("ix", "lv", "bv", "sym"):
            a = m[0][0]
            rest = e - Poly({m: c})
            if a not in deep_atoms(rest):
                return subst(p, {a: scale(rest, -1 / c)})
    return p


# ---------------------------------------------------------------- printing
def show(p, n=0):
    if not isinstance(p, Poly):
        return str(p)
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda mc: sorted(_sa(a) + "^" + str(e) for a, e in mc[0])):
        fs = []
        for a, e in sorted(m, key=lambda ae: _sa(ae[0])):
            if a == _E:
                fs.append(f"exp({show(P(e))})")
            elif not isinstance(e, Poly) and e == 1:
                fs.append(_sa(a))
            else:
                fs.append(f"{_sa(a)}^({show(P(e)) if isinstance(e, Poly) else e})")
        s = "*".join(fs)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = f"{c}*{s}"
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


_sac = {}


def _sa(a):
    r = _sac.get(a)
    if r is None:
        r = _sac[a] = _sa0(a)
    return r


def _sa0(a):
    t = _atoms[a]
    k = t[0]
    if k == "sym":
        return t[1] + (f"[{','.join(show(i) for i in t[2])}]" if t[2] else "")
    if k == "ix":
        return "nijkl"[t[1]] if t[1] < 5 else f"ix{t[1]}"
    if k == "bv":
        return f"b{t[1]}"
    if k == "lv":
        return t[1]
    if k == "pi":
        return "pi"
    if k == "E":
        return "e"
    if k == "prime":
        return str(t[1])
    if k == "pw":
        return f"({show(t[1])})"
    if k == "fn":
        return f"{t[1]}({', '.join(show(x) for x in t[2])})"
    if k in ("sum", "rmax", "rmin", "rany"):
        return f"{k}[b{_level(a)}<{show(t[1])}]({show(t[2])})"
    if k == "iv":
        return f"[{show(t[2])} {t[1]} 0]"
    if k == "ivb":
        return f"[{show(t[1])}]"
    if k == "ivs":
        return f"[{t[1]}({', '.join(show(x) for x in t[2])})]"
    if k == "ext":
        return t[1]
    return f"?{t[1]}({', '.join(show(x) if isinstance(x, Poly) else str(x) for x in t[2])})"


def short(p, n=300):
    s = show(p)
    return s if len(s) <= n else s[:n] + " ..."


# ---------------------------------------------------------------- evaluation at a valuation (refutation only)
class EvalError(Exception):
    pass


class Env:
    """A valuation of the symbols: sizes are given, other symbols are pseudo-random functions of their indices."""

    def __init__(self, seed, sizes=None, values=None, scale=None, ix=None, lits=None):
        self.seed, self.sizes, self.values = seed, dict(sizes or {}), dict(values or {})
        self.scale = dict(scale or {})
        self.bound = dict(ix or {})
        self.lits = dict(lits or {})
        self.memo = {}
        self.opaque = False
        self.shaky = False     # a comparison was decided by a difference that rounding could explain

    def rnd(self, *key):
        import hashlib
        h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(h[:7], "big") / float(1 << 56)

    def symval(self, name, idx):
        k = (name, idx)
        if k in self.values:
            return self.values[k]
        if not idx and name in self.sizes:
            return self.sizes[name]
        if name in self.values:
            v = self.values[name]
            return v(*idx) if callable(v) else v
        i = syminfo(name)
        if i.gen is not None:
            v = i.gen(self, *idx)
            self.values[k] = v
            return v
        u = self.rnd(name, idx)
        if i.integer:
            lo = i.lo if i.lo is not None else 0
            hi = i.hi if i.hi is not None else lo + 3
            return int(lo + int(u * (hi - lo + 1)))
        sc = self.scale.get(name, 1.0)
        if i.sign == "pos":
            return sc * (0.2 + 1.6 * u)
        if i.sign == "nn":
            return sc * (1.8 * u)
        return sc * (3.0 * u - 1.5)


def ev(p, env):
    key = (p, tuple(sorted(env.bound.items()))) if has_bound(p) else p
    if key in env.memo:
        return env.memo[key]
    tot = 0.0
    mag = 0.0
    for m, c in p.t.items():
        v = float(c)
        zero = False
        for a, e in m:
            if _is_bool_atom(a):
                b = ev_atom(a, env)
                if not b:
                    zero = True
                    break
        if zero:
            continue
        for a, e in m:
            if _is_bool_atom(a):
                continue
            x = ev(e, env) if isinstance(e, Poly) else float(e)
            if a == _E:
                v *= math.exp(x) if x < 700 else math.inf
                continue
            b = ev_atom(a, env)
            try:
                if x == 1:
                    v *= b
                elif x == int(x) and abs(x) < 100:
                    v *= (float(b) ** int(x)) if (b or x > 0) else math.inf
                elif b < 0:
                    v *= math.nan
                elif b == 0 and x < 0:
                    v *= math.inf
                else:
                    v *= float(b) ** x
            except OverflowError:
                v *= math.inf
        tot += v
        mag = max(mag, abs(v)) if not math.isnan(v) else mag
    env.memo[key] = tot
    if tot and abs(tot) < 1e-9 * mag:
        env.memo[("mag", key)] = mag
    return tot


_hb = {}


def has_bound(p):
    r = _hb.get(p)
    if r is None:
        r = _hb[p] = any(_atoms[a][0] in ("ix", "bv", "lv") for a in deep_atoms(p))
    return r


def ev_atom(a, env):
    t = _atoms[a]
    k = t[0]
    if k == "sym":
        idx = tuple(_rint(ev(i, env)) for i in t[2])
        return env.symval(t[1], idx)
    if k in ("ix", "bv", "lv"):
        if a in env.bound:
            return env.bound[a]
        raise EvalError(f"unbound {_sa(a)}")
    if k == "pi":
        return math.pi
    if k == "prime":
        return t[1]
    if k == "E":
        return math.e
    if k == "pw":
        return ev(t[1], env)
    if k == "iv":
        p = t[2]
        v = ev(p, env)
        if math.isnan(v):
            return False
        mag = env.memo.get(("mag", (p, tuple(sorted(env.bound.items()))) if has_bound(p) else p), 0.0)
        zero = abs(v) <= max(1e-13 * mag, 1e-18)
        if 1e-13 * mag < abs(v) < 1e-11 * mag:
            env.shaky = True
        if t[1] == ">":
            return v > 0 and not zero
        return zero
    if k == "ivb":
        return ev(t[1], env) > 0.5
    if k == "ivs":
        if a in env.lits:
            return env.lits[a]
        args = tuple(round(ev(x, env), 9) if isinstance(x, Poly) else x for x in t[2])
        return env.rnd("ivs", t[1], args) < 0.5
    if k in ("sum", "rmax", "rmin", "rany"):
        n = _rint(ev(t[1], env))
        if n > 400:
            raise EvalError("sum too long")
        b = bv_id(_level(a))
        old = env.bound.get(b)
        vals = []
        for i in range(n):
            env.bound[b] = i
            vals.append(ev(t[2], env))
        if old is None:
            env.bound.pop(b, None)
        else:
            env.bound[b] = old
        if k == "sum":
            return math.fsum(vals) if all(math.isfinite(x) for x in vals) else sum(vals)
        if k == "rany":
            return any(x > 0.5 for x in vals)
        if not vals:
            raise EvalError("empty reduction")
        if any(math.isnan(x) for x in vals):
            return math.nan
        return max(vals) if k == "rmax" else min(vals)
    if k == "ext":
        return math.inf if t[1] == "INF" else math.nan
    if k == "fn":
        xs = [ev(x, env) for x in t[2]]
        return ev_fn(t[1], xs, env)
    if k == "opq" and t[1] == "sorted" and OPQ_SORTED:
        n, i = t[2]
        arr = OPQ_SORTED[-1][_rint(ev(n, env))][1]
        old = dict(env.bound)
        memo = env.memo
        vals = env.memo.get(("sorted", n))
        if vals is None:
            vals = []
            for key, cell in arr.cells.items():
                m = _rint(ev(arr.ax[0][key[0]], env))
                for j in range(m):
                    env.bound[aid(("ix", 0))] = j
                    vals.append(ev(cell, env))
            env.bound.clear()
            env.bound.update(old)
            vals.sort()
            env.memo[("sorted", n)] = vals
        j = _rint(ev(i, env))
        if not 0 <= j < len(vals):
            raise EvalError("index outside a sorted array")
        return vals[j]
    raise EvalError(f"opaque value {_sa(a)[:80]}")


OPQ_SORTED = []


def _rint(x):
    r = round(x)
    if abs(x - r) > 1e-6:
        raise EvalError("non-integer index")
    return int(r)


def ev_fn(name, xs, env):
    x = xs[0]
    try:
        if name == "log":
            return math.log(abs(x)) if x else -math.inf
        if name == "abs":
            return abs(x)
        if name == "cos":
            return math.cos(x)
        if name == "sin":
            return math.sin(x)
        if name == "tan":
            return math.tan(x)
        if name in ("sinh", "cosh", "tanh"):
            return getattr(math, name)(x)
        if name in ("arctan",):
            return math.atan(x)
        if name == "arccos":
            return math.acos(x)
        if name == "ceil":
            return math.ceil(x - 1e-9)
        if name == "floor":
            return math.floor(x + 1e-9)
        if name == "trunc":
            return math.trunc(x)
        if name == "rint":
            return round(x)
        if name == "f32":
            m, e = math.frexp(x) if math.isfinite(x) else (x, 0)      # coarser than single precision, so that the loss shows
            return math.ldexp(round(m * 256) / 256, e) if math.isfinite(x) else x
        if name == "factorial":
            return math.gamma(x + 1)
        if name == "max":
            return max(xs)
        if name == "min":
            return min(xs)
        if name == "div":
            return math.floor(xs[0] / xs[1] + 1e-9)
        if name == "mod":
            return xs[0] - xs[1] * math.floor(xs[0] / xs[1] + 1e-9)
        if name == "pow":
            if xs[0] == 0:
                return 1.0 if xs[1] == 0 else (0.0 if xs[1] > 0 else math.inf)
            return xs[0] ** xs[1] if xs[0] > 0 or xs[1] == int(xs[1]) else math.nan
        if name == "erf":
            return math.erf(x)
        if name.startswith("u:"):          # uninterpreted function
            h = sum(ord(ch) * (k + 3) for k, ch in enumerate(name))
            t = sum(math.sin((0.7 + 0.31 * k + h % 7 / 10) * v + h % 11) * (k + 1) for k, v in enumerate(xs))
            return t + 0.37 * math.sin(3 * t + h % 5)
    except (ValueError, OverflowError):
        return math.nan
    raise EvalError(f"function {name}")


# ---------------------------------------------------------------- rounding errors of valuations
EPS = 2.3e-16


def everr(p, env):
    """Estimate of the absolute rounding error made by ev(p, env) (inf where it cannot be estimated)."""
    key = ("err", (p, tuple(sorted(env.bound.items()))) if has_bound(p) else p)
    if key in env.memo:
        return env.memo[key]
    tot = 0.0
    for m, c in p.t.items():
        v, rel = float(c), EPS
        zero = False
        for a, e in m:
            if _is_bool_atom(a):
                if not ev_atom(a, env):
                    zero = True
                    break
        if zero:
            continue
        slack = 0.0       # error of a vanishing factor
        for a, e in m:
            if _is_bool_atom(a):
                continue
            isp = isinstance(e, Poly)
            x = ev(e, env) if isp else float(e)
            ex = everr(e, env) if isp else 0.0
            if a == _E:
                v *= math.exp(x) if x < 700 else math.inf
                rel += ex + EPS * (1 + abs(x))
                continue
            b, eb = ev_atom(a, env), err_atom(a, env)
            if eb == math.inf or ex == math.inf:
                v = math.inf
                break
            if b == 0:
                if eb:
                    slack = math.inf if x < 1 else max(slack, eb)
                v *= 0.0 if x > 0 else (1.0 if x == 0 else math.inf)
                continue
            try:
                v *= abs(float(b)) ** x
            except OverflowError:
                v = math.inf
                break
            rel += abs(x) * eb / abs(b) + (ex * abs(math.log(abs(b))) if ex else 0.0) + EPS
        tot += math.inf if math.isinf(v) or math.isnan(v) else abs(v) * rel + slack
    val = ev(p, env)
    tot += EPS * abs(val)
    if tot < 1e-6 and val == int(val) and all(c.denominator == 1 and all(
            not isinstance(e, Poly) and e == int(e) and e >= 0 and (_is_bool_atom(a) or (
                err_atom(a, env) == 0 and ev_atom(a, env) == int(ev_atom(a, env)))) for a, e in m) for m, c in p.t.items()):
        tot = 0.0          # arithmetic on whole numbers
    if math.isnan(tot):
        tot = math.inf
    env.memo[key] = tot
    return tot


def err_atom(a, env):
    t = _atoms[a]
    k = t[0]
    if k in ("sym", "ix", "bv", "lv", "prime", "iv", "ivb", "ivs", "ext", "rany"):
        return 0.0
    if k in ("pi", "E"):
        return 4e-16
    if k == "pw":
        return everr(t[1], env)
    if k in ("sum", "rmax", "rmin"):
        n = _rint(ev(t[1], env))
        b = bv_id(_level(a))
        old = env.bound.get(b)
        errs, mag = [], 0.0
        for i in range(n):
            env.bound[b] = i
            errs.append(everr(t[2], env))
            mag += abs(ev(t[2], env))
        if old is None:
            env.bound.pop(b, None)
        else:
            env.bound[b] = old
        return sum(errs) + EPS * mag if k == "sum" else max(errs, default=0.0)
    if k == "opq" and t[1] == "sorted" and OPQ_SORTED:
        arr = OPQ_SORTED[-1][_rint(ev(t[2][0], env))][1]
        old, errs = dict(env.bound), []
        for key, cell in arr.cells.items():
            for j in range(_rint(ev(arr.ax[0][key[0]], env))):
                env.bound[aid(("ix", 0))] = j
                errs.append(everr(cell, env))
        env.bound.clear()
        env.bound.update(old)
        return max(errs, default=0.0)
    if k == "fn":
        xs = [ev(x, env) for x in t[2]]
        es = [everr(x, env) for x in t[2]]
        if any(e == math.inf for e in es):
            return math.inf
        v = ev_fn(t[1], xs, env)
        if isinstance(v, float) and not math.isfinite(v):
            return math.inf
        n, x, e = t[1], xs[0], es[0]
        r = EPS * (1 + abs(v))
        if n == "log":
            return e / abs(x) + r
        if n in ("abs", "max", "min"):
            return max(es)
        if n in ("cos", "sin"):
            return e + r
        if n in ("tanh", "arctan"):
            return e + r
        if n in ("erf",):
            return 2 * e + r
        if n == "rint" and abs(abs(x - math.floor(x)) - 0.5) <= 2 * e:
            return 1.0
        if n in ("ceil", "floor", "trunc", "rint", "div"):
            return 0.0
        if n == "f32":
            return e + r
        if n == "factorial":
            return abs(v) * (e * (1 + math.log(2 + abs(x))) + 1e-14)
        if n.startswith("u:"):
            return 100 * sum(es) * len(es) + 1e-13
        if n == "pow" and x > 0:
            return abs(v) * (abs(xs[1]) * e / x + abs(math.log(x)) * es[1] + 4 * EPS)
        if n == "pow" and x == 0 and not e and not es[1]:
            return 0.0
    return math.inf
