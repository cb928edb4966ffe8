"""C21-C23, C35: data files of the Slater densities and of the universal Gaussian basis set.

The loaders are interpreted over constant strings; every number of a data file is replaced by a symbol of its own, so a result is decided
for any numbers in a file of that shape."""
import os
import re
import tarfile

from ..core import *
from ..files import BASE
from . import rule

DATA = BASE + "bfit/data/"
KINDS = {"neutral": ("slater", {}), "anion": ("an", {"anion": True}), "cation": ("cat", {"cation": True})}
MAXOCC = {"S": 2, "P": 6, "D": 10, "F": 14}
LABELS = [f"{n}S" for n in range(1, 8)] + [f"{n}P" for n in range(2, 8)] + [f"{n}D" for n in range(3, 8)] + [f"{n}F" for n in range(4, 8)]
CLOSED = {"K": ["1S"], "L": ["2S", "2P"], "M": ["3S", "3P", "3D"], "N": ["4S", "4P", "4D", "4F"]}
XE = ["1S", "2S", "2P", "3S", "3P", "3D", "4S", "4P", "4D", "5S", "5P"]
RN = XE + ["4F", "5D", "6S", "6P"]


# ---------------------------------------------------------------- the distributed data
def archive(c):
    """{(kind, element): lines} of the data files distributed in the archive; (kind, element): None where a member is not a text file."""
    p = os.path.join(c.root, "bfit", "data", "data.tar")
    if not os.path.exists(p):
        raise Anchor("bfit/data/data.tar not found")
    out = {}
    with tarfile.open(p) as t:
        for m in t.getmembers():
            if not m.isfile():
                continue
            parts = os.path.normpath(m.name).split("/")
            el, _, ext = parts[-1].partition(".")
            if len(parts) != 2 or parts[0] not in KINDS or ext != KINDS[parts[0]][0]:
                continue
            out[parts[0], el] = lines_of(t.extractfile(m).read())
    if len(out) < 50:
        raise Anchor("bfit/data/data.tar has too few data files")
    return out


def lines_of(b):
    try:
        s = b.decode("utf8")
    except UnicodeDecodeError:
        return None
    if "\0" in s:
        return None
    return [x + "\n" for x in s.replace("\r\n", "\n").split("\n")]


def heavy_layout(lines):
    return any(x.strip().startswith("CHARGE") for x in lines[:4])


def loose(c):
    """Data files that lie unpacked in the tree."""
    out = {}
    for k in KINDS:
        d = os.path.join(c.root, "bfit", "data", k)
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            el, _, ext = f.partition(".")
            if ext == KINDS[k][0]:
                out[k, el] = lines_of(open(os.path.join(d, f), "rb").read())
    return out


NUM = re.compile(r"(?<![\w.])-?\d*\.\d+(?:[Ee][+-]?\d+)?")


class Tokens:
    """Replaces numbers of a text by numerals of the same format, each its own symbol."""

    def __init__(self, w, name="v"):
        self.n, self.map, self.name = 0, {}, name
        declare(name, "real")
        w.I.str_num = self.hook

    def new(self, old):
        self.n += 1
        neg = old.startswith("-")
        i, _, d = old.lstrip("-").partition(".")
        k = next((j for j, x in enumerate(d) if x in "Ee"), len(d))
        d, suffix = d[:k], d[k:]
        z = f"{self.n:0{len(i) + len(d)}d}"
        if len(z) > len(i) + len(d):
            raise Give("numeral too short")
        s = z[:len(i)] + "." + z[len(i):] + suffix
        v = sym(self.name, P(self.n))
        self.map[s] = v
        self.map["-" + s] = -v
        self.map["+" + s] = v
        return ("-" + s if neg else s), (-v if neg else v)

    def line(self, s):
        """(rewritten line, terms of its numbers in order)"""
        vals = []

        def f(m):
            t, v = self.new(m.group(0))
            vals.append(v)
            return t
        return NUM.sub(f, s), vals

    def hook(self, I, s, kind):
        v = self.map.get(s.strip()) if isinstance(s, str) else None
        if v is None:
            return None
        if kind == "int":
            raise Raised("ValueError", "invalid literal for int()")
        return Sc(v, "float")


def read_table(tok, lines):
    """Independent reading of a data file: (rewritten lines, tabulated terms)."""
    out = list(lines)
    d = dict(orbitals=[], energy=None, kinetic=None, potential=None, orb_energy=[], cusp=[], exps={}, coeffs={}, basis={})
    i = 0
    while i < len(lines) and lines[i].split("=")[0].strip() != "E":
        i += 1
    out[i], v = tok.line(lines[i])
    d["energy"], = v
    out[i + 1], v = tok.line(lines[i + 1])
    d["kinetic"], d["potential"] = v[:2]
    i += 2
    shell = labels = None
    while i < len(lines):
        w = lines[i].split()
        if w and w[0] in MAXOCC and all(re.fullmatch(r"\d[SPDF]", x) for x in w[1:]):
            shell, labels = w[0], w[1:]
            d["orbitals"] += labels
            d["exps"][shell], d["basis"][shell] = [], []
            for x in labels:
                d["coeffs"][x] = []
        elif w and w[0] == "BASIS/ORB.ENERGY":
            out[i], v = tok.line(lines[i])
            d["orb_energy"] += v
        elif w and w[0] == "CUSP":
            out[i], v = tok.line(lines[i])
            d["cusp"] += v
        elif w and re.fullmatch(r"\d[SPDF]", w[0]):
            out[i], v = tok.line(lines[i])
            if len(v) != len(labels) + 1 or w[0][1] != shell:
                raise Give(f"line {i + 1} of the data file has an unexpected number of columns")
            d["exps"][shell].append(v[0])
            d["basis"][shell].append(w[0])
            for x, y in zip(labels, v[1:]):
                d["coeffs"][x].append(y)
        elif not w and labels is not None:
            break
        i += 1
    return out, d


# ---------------------------------------------------------------- comparison
def column(w, v):
    """Terms of an array of shape (n, 1)."""
    a = w.A(v)
    if a.ndim != 2 or AR.axlen(a.ax[1]).const() != 1 or a.sel is not None:
        return None
    n = AR.axlen(a.ax[0]).const()
    if n is None:
        return None
    return [w.A(w.I.getitem(v, (Sc(P(i), "int"), Sc(ZERO_, "int")))).cells[()] for i in range(int(n))]


ZERO_ = P(0)


def same(c, ctx, rl, where, got, want, what):
    """One obligation for a list of terms."""
    if got is None:
        c.dunno(ctx, rl, where, f"{what}: shape not understood")
        return
    if len(got) != len(want):
        c.bad(ctx, rl, where, f"{what}: {len(got)} entries instead of {len(want)}")
        return
    for i, (x, y) in enumerate(zip(got, want)):
        if not is_zero(x - y):
            c.eq(ctx, rl, where, x, y, (), f"{what}, entry {i}")
            return
    c.ok(ctx, rl, where, f"{what}: {len(want)} entries")


def atom_obj(w, el, kind):
    kw = {k: w.bool(v) for k, v in KINDS[kind][1].items()}
    return w.new("density", "SlaterAtoms", el, **kw)


def strings(w, v):
    s = w.seq(v)
    return s if s is not None and all(isinstance(x, str) for x in s) else None


def entries(w, v):
    """Items of a dictionary with constant keys."""
    o = w.I.obj(v) if isinstance(v, Ref) else None
    if not isinstance(o, DictO):
        raise Give("not a dictionary")
    return o.items


def check_tables(c, w, ctx, ws, a, d, prefix=""):
    g = lambda n: w.get(a, n)
    for n, k in (("energy", "energy"), ("kinetic_energy", "kinetic"), ("potential_energy", "potential")):
        same(c, ctx, "energies", ws, [w.I.to_arr(g(n)).cells[()]], [d[k]], n)
    orb = strings(w, g("orbitals"))
    if orb != d["orbitals"]:
        c.bad(ctx, "orbitals", ws, f"orbitals {orb} instead of {d['orbitals']}")
        return
    c.ok(ctx, "orbitals", ws, "orbitals in file order")
    same(c, ctx, "orbital-energies", ws, column(w, g("orbitals_energy")), d["orb_energy"], "orbital energies")
    if d["cusp"]:
        same(c, ctx, "cusps", ws, column(w, g("orbitals_cusp")), d["cusp"], "cusp values")
    ex, co, bn = entries(w, g("orbitals_exp")), entries(w, g("orbitals_coeff")), entries(w, g("basis_numbers"))
    for s, v in d["exps"].items():
        if s not in ex or s not in bn:
            c.bad(ctx, "exponents", ws, f"no exponents for shell {s}")
            continue
        same(c, ctx, "exponents", ws, column(w, ex[s]), v, f"exponents of the {s} functions")
        same(c, ctx, "principal-numbers", ws, column(w, bn[s]), [P(int(b[0])) for b in d["basis"][s]], f"principal numbers of {s}")
    for o, v in d["coeffs"].items():
        if o not in co:
            c.bad(ctx, "coefficients", ws, f"no coefficients for orbital {o}")
            continue
        same(c, ctx, "coefficients", ws, column(w, co[o]), v, f"coefficients of {o}")


# ---------------------------------------------------------------- small templates
LIGHT = """      NAME   {conf}, 1S
   E =  -459.482072328
   T =   459.482072308     V =  -918.964144636     V/T =    -2.000000000
  ORBITAL ENERGIES AND EXPANSION COEFFICIENTS
"""
LIGHT_BLANKS = """      NAME   {conf}, 1S



   E =  -459.482072328
   T =   459.482072308     V =  -918.964144636     V/T =    -2.000000000

  ORBITAL ENERGIES AND EXPANSION COEFFICIENTS
"""
HEAVY = """      NAME   {conf}, 5I
      CHARGE = 66.000000
      SYMMETRY SPECIES               S     P     D     F
      NUMBER OF BASIS FUNCTIONS     13    10     7     6
      NUMBER OF CLOSED SHELLS        6     4     2     0
      NUMBER OF OPEN SHELLS          0     0     0     1
      OPEN SHELL OCCUPATION NUMBER   0     0     0    10
   E =-11641.452434124
   T = 11641.452478555     V =-23282.904912679     V/T =    -1.999999996
  ORBITAL ENERGIES AND EXPANSION COEFFICIENTS
"""


def template(conf, labels, heavy, blanks=False, wide=False, rows=2):
    """A data file with the given configuration string and orbitals. wide: more columns than orbitals."""
    s = (HEAVY if heavy else LIGHT_BLANKS if blanks else LIGHT).format(conf=conf)
    for sh in "SPDF":
        ls = [x for x in labels if x[1] == sh]
        if not ls:
            continue
        s += f"        {sh}                    " + "             ".join(ls) + " \n"
        s += "  BASIS/ORB.ENERGY" + "   -10.1234567" * len(ls) + "\n"
        if not heavy:
            s += "              CUSP" + "    1.1234567" * len(ls) + "\n"
        for r in range(rows):
            s += f"  {min(7, r + 1 + 'SPDF'.index(sh))}{sh}       52.549831" + "    -0.0002524" * (9 if wide else len(ls)) + "\n"
    return [x + "\n" for x in (s + "\n\n").split("\n")]


def expand(conf):
    """Occupations meant by a configuration string."""
    occ = {}
    for m in re.finditer(r"\[(XE|RN)\]|([KLMN])\(\d+\)|(\d[SPDF])\((\d+)\)", conf):
        if m.group(1):
            for x in (XE if m.group(1) == "XE" else RN):
                occ[x] = MAXOCC[x[1]]
        elif m.group(2):
            for x in CLOSED[m.group(2)]:
                occ[x] = MAXOCC[x[1]]
        else:
            occ[m.group(3)] = int(m.group(4))
    return {k: v for k, v in occ.items() if v}


def cases(el):
    return sorted({el.lower(), el.upper(), el.capitalize(), el[0].lower() + el[1:].upper()})


# ---------------------------------------------------------------- C21
@rule("C21")
def c21(c):
    ws = "bfit/_slater.py:load_slater_wfn"
    wi = c.anchor("density", "SlaterAtoms.__init__")
    c.anchor("_slater", "load_slater_wfn")
    arch = archive(c)
    for k, v in sorted(arch.items()):
        ctx = f"{k[0]} of {k[1]}"
        if v is None:
            c.bad(ctx, "archive-member", f"bfit/data/data.tar:{k[0]}/{k[1]}", "the archive member is not a text file of Slater functions")
        elif not re.match(r"\s+[A-Za-z]+[+-]?\s+\S+", v[0]):
            c.dunno(ctx, "archive-member", f"bfit/data/data.tar:{k[0]}/{k[1]}", "title line not understood")
        else:
            c.ok(ctx, "archive-member", f"bfit/data/data.tar:{k[0]}/{k[1]}", "title and configuration present")
    elements = sorted({e for _, e in arch})
    labels = ["1S", "2S", "2P"]

    def one(w, kind, el, name, files):
        """One constructor call in a virtual installation in which every data file of the archive exists."""
        ctx = f"{kind} of {el}, written {name}"
        path = f"{DATA}{kind}/{el}.{KINDS[kind][0]}"
        heavy = kind == "neutral" and files[kind, el]
        tok = Tokens(w)
        # every other file is one with different numbers and another configuration
        lines, d = read_table(tok, template("[XE]6S(2)5D(1)" if files[kind, el] else "1S(2)2S(2)2P(3)", labels, files[kind, el]))
        other = {p: template("[XE]6S(2)" if h else "1S(2)", ["1S"], h) for p, h in w.paths.items() if p != path}
        w.I.vfs = {**other, path: lines}
        w.I.opened = []
        o = w.run(lambda: atom_obj(w, name, kind))
        if o.exc is not None:
            c.bad(ctx, "accepts-species", ws, f"SlaterAtoms({name!r}, {kind}) is rejected with {clsname(o.exc)}: {exc_text(o.exc)}, "
                  f"but {kind}/{el}.{KINDS[kind][0]} is distributed")
            return
        if not w.no_raise("accepts-species", ws, o):
            return
        if w.I.opened != [path]:
            c.bad(ctx, "file-read", ws, f"reads {w.I.opened} instead of {path}")
            return
        c.ok(ctx, "file-read", ws, path)
        check_tables(c, w, ctx, ws, o.value, d)

    files = {k: v is not None and heavy_layout(v) for k, v in arch.items()}
    for kind in KINDS:
        for el in sorted(e for k, e in files if k == kind):
            def go(w, kind=kind, el=el):
                w.paths = {f"{DATA}{k}/{e}.{KINDS[k][0]}": h for (k, e), h in files.items()}
                for name in cases(el) if c.thorough else cases(el)[::2] + cases(el)[1:2]:
                    one(w, kind, el, name, files)
            c.context(f"{kind} of {el}", "file-read", ws, go)

    def rejected(w, kind, el):
        w.I.vfs = {}
        for name in cases(el):
            o = w.run(lambda: atom_obj(w, name, kind))
            w.must_raise("unsupported-species", ws, o, "ValueError", f"{kind} of {name}, for which no data set is distributed")
    for kind in ("anion", "cation"):
        def go(w, kind=kind):
            for el in elements:
                if (kind, el) not in arch:
                    rejected(w, kind, el)
        c.context(f"{kind}s without a data set", "unsupported-species", ws, go)

    def both(w):
        w.I.vfs = {}
        for el in ("h", "C", "Xe", "cs", "he", "AG", "lr"):
            for kw in ({"anion": True, "cation": True},):
                o = w.run(lambda: w.new("density", "SlaterAtoms", el, **{k: w.bool(v) for k, v in kw.items()}))
                w.must_raise("both-charges", wi, o, "ValueError", f"{el} with anion and cation")
                o = w.run(lambda: w.new("density", "SlaterAtoms", el, w.bool(True), w.bool(True)))
                w.must_raise("both-charges", wi, o, "ValueError", f"{el} with anion and cation")
    c.context("anion and cation together", "both-charges", wi, both)

    def types(w):
        w.I.vfs = {f"{DATA}{k}/{e}.{KINDS[k][0]}": template("1S(2)", ["1S"], False) for k, e in files}
        I = w.I
        for what, v in (("an integer", w.int(6)), ("a float", w.flt(Q(3, 2))), ("None", None), ("a list", I.new(ListO(["h"]))),
                        ("a tuple", ("h",)), ("an empty string", ""), ("'h1'", "h1"), ("'1h'", "1h"), ("'c '", "c "), ("'6'", "6"),
                        ("'c-'", "c-"), ("'he+'", "he+"), ("an array", w.arr("r2", P(3))), ("'../h'", "../h")):
            for kind in KINDS:
                o = w.run(lambda: atom_obj(w, v, kind))
                w.must_raise("element-type", wi, o, "TypeError", f"{kind} with {what} as element")
    c.context("elements that are not strings of letters", "element-type", wi, types)


# ---------------------------------------------------------------- C22
@rule("C22")
def c22(c):
    ws = "bfit/_slater.py:load_slater_wfn"
    c.anchor("_slater", "load_slater_wfn")
    arch = archive(c)

    def one(w, ctx, kind, el, conf, heavy, order=None):
        occ = expand(conf)
        labels = order or [x for x in LABELS if x in occ]
        tok = Tokens(w)
        w.I.vfs = {f"{DATA}{kind}/{el}.{KINDS[kind][0]}": read_lines(tok, template(conf, labels, heavy, wide=True, rows=1))}
        o = w.run(lambda: atom_obj(w, el, kind))
        if not w.no_raise("accepts-configuration", ws, o, f"configuration {conf}"):
            return
        a = o.value
        got = strings(w, w.get(a, "orbitals"))
        if got is None or sorted(got) != sorted(labels):
            c.bad(ctx, "occupation", ws, f"{conf}: orbitals {got}")
            return
        same(c, ctx, "occupation", ws, column(w, w.get(a, "orbitals_occupation")), [P(occ[x]) for x in got], f"occupations for {conf}")
        s = w.get(a, "configuration")
        if not isinstance(s, str):
            c.dunno(ctx, "configuration", ws, f"{conf}: configuration not a constant string")
        elif expand(s) != occ or "," in s or " " in s:
            c.bad(ctx, "configuration", ws, f"{conf}: reported configuration {s}")
        else:
            c.ok(ctx, "configuration", ws, s)

    def from_archive(w, kind):
        for (k, el), v in sorted(arch.items()):
            if k != kind or v is None or el in ("cs",) and k == "cation":
                continue
            conf = v[0].split()[1].replace(",", "")
            if not expand(conf):
                c.dunno(w.ctx, "occupation", ws, f"{k} {el}: configuration {conf} not understood")
                continue
            one(w, f"{k} of {el}", k, el, conf, heavy_layout(v))
    for kind in KINDS:
        c.context(f"configurations of the distributed {kind} files", "occupation", ws, lambda w, kind=kind: from_archive(w, kind))

    def generic(w, before, after, heavy, el):
        inner = expand(before)
        for x in LABELS:
            if x in inner or x in expand(after):
                continue
            for n in range(1, MAXOCC[x[1]] + 1):
                conf = f"{before}{x}({n}){after}"
                one(w, w.ctx, "neutral", el, conf, heavy)
    for before, after, heavy, el in (("", "", False, "ar"), ("K(2)", "", False, "i"), ("K(2)L(8)", "5S(1)", False, "i"), ("K(2)L(8)M(18)", "", False, "ag"),
                                     ("K(2)L(8)M(18)N(32)", "5S(2)", False, "ag"), ("[XE]", "", True, "dy"), ("[XE]6S(2)", "5D(1)", True, "ta"),
                                     ("[RN]", "", True, "lr"), ("[RN]7S(2)", "5F(11)", True, "u")):
        c.context(f"subshell X(n) in {before}X(n){after}", "occupation", ws,
                  lambda w, b=before, a=after, h=heavy, e=el: generic(w, b, a, h, e))

    def partly(w):
        # a closed shell of which one subshell is written out with fewer electrons
        full_ = {"K": "K(2)", "L": "K(2)L(8)", "M": "K(2)L(8)M(18)", "N": "K(2)L(8)M(18)N(32)"}
        for i, (k, pre) in enumerate(full_.items()):
            for x in LABELS:
                if x[0] == str(i + 1):
                    for n in range(1, MAXOCC[x[1]]):
                        one(w, w.ctx, "neutral", "i", f"{pre}{x}({n})", False)
    c.context("closed shell with one subshell written out", "occupation", ws, partly)

    def full(w):
        for conf in ("".join(f"{x}({MAXOCC[x[1]]})" for x in LABELS), "".join(f"{x}({max(1, MAXOCC[x[1]] - 1)})" for x in LABELS),
                     "".join(f"{x}(1)" for x in reversed(LABELS)), "K(2)L(8)M(18)N(32)5S(2)5P(6)5D(10)", "K(2)2S(1)2P(3)",
                     "K(2)L(8)3S(2)3P(6)4S(0)3D(10)", "K(2)L(8)M(18)4S(2)4P(6)5S(0)4D(10)", "L(8)", "M(18)", "N(32)", "L(8)M(18)"):
            one(w, w.ctx, "neutral", "i", conf, False)
        for conf in ("[XE]", "[RN]", "[XE]4F(14)6S(2)5D(10)6P(6)", "[RN]7S(2)5F(14)6D(10)7P(6)", "[RN]7S(2)6D(0)5F(3)", "[XE]6S(2)5D(0)4F(10)"):
            one(w, w.ctx, "neutral", "lr", conf, True)
        # the orbitals need not be listed by shell in ascending order of energy
        one(w, w.ctx, "neutral", "i", "K(2)L(8)M(18)4S(1)4P(2)4D(3)", False, order=["4S", "1S", "3S", "2S", "4P", "2P", "3P", "4D", "3D"])
    c.context("further configurations", "occupation", ws, full)


def read_lines(tok, lines):
    return [tok.line(x)[0] if i else x for i, x in enumerate(lines)]


# ---------------------------------------------------------------- C35
@rule("C35")
def c35(c):
    ws = "bfit/_slater.py:load_slater_wfn"
    c.anchor("_slater", "load_slater_wfn")
    arch = archive(c)
    here = loose(c)
    for k, v in sorted(here.items()):
        ctx, wh = f"{k[0]} of {k[1]}", f"bfit/data/{k[0]}/{k[1]}.{KINDS[k[0]][0]}"
        if k in arch and arch[k] != v:
            c.bad(ctx, "unpacked-file", wh, "the unpacked data file differs from the archive member")
        else:
            c.ok(ctx, "unpacked-file", wh)
    for (kind, el), v in sorted({**arch, **{k: v for k, v in here.items() if v is not None}}.items()):
        if v is None or (kind, el) == ("cation", "cs"):
            continue          # reported by C21

        def go(w, kind=kind, el=el, v=v):
            ctx = f"{kind} of {el}"
            tok = Tokens(w)
            lines, d = read_table(tok, v)
            w.I.vfs = {f"{DATA}{kind}/{el}.{KINDS[kind][0]}": lines}
            o = w.run(lambda: atom_obj(w, el, kind))
            if w.no_raise("accepts-file", ws, o, f"data file {kind}/{el}"):
                check_tables(c, w, ctx, ws, o.value, d)
        c.context(f"{kind} of {el}", "coefficients", ws, go)

    def shapes(w):
        for blanks in (False, True):
            for labels in (["1S"], ["1S", "2S", "2P"], ["1S", "2S", "3S", "2P", "3P", "3D"],
                           ["1S", "2S", "3S", "4S", "5S", "6S", "7S", "2P", "3P", "4P", "5P", "6P", "3D", "4D", "5D", "6D", "4F", "5F"]):
                for heavy in (False, True):
                    if heavy and blanks:
                        continue
                    for rows in (1, 4):
                        tok = Tokens(w)
                        full = [x for x in labels if x[1] in "SPDF"]
                        conf = "".join(f"{x}(1)" for x in full if not heavy or x not in XE)
                        lines, d = read_table(tok, template(("[XE]" if heavy else "") + conf, full, heavy, blanks, rows=rows))
                        el = "dy" if heavy else "i"
                        w.I.vfs = {f"{DATA}neutral/{el}.slater": lines}
                        o = w.run(lambda: atom_obj(w, el, "neutral"))
                        if w.no_raise("accepts-file", ws, o, "template data file"):
                            check_tables(c, w, w.ctx, ws, o.value, d)
    c.context("tables of other shapes", "coefficients", ws, shapes)


# ---------------------------------------------------------------- C23
HEAD = """# Elements                             References
# --------                             ----------
# H He Li S Si: a reference, Journal of Physics 108, 5225 (1998).
#



BASIS "ao basis" PRINT
"""


@rule("C23")
def c23(c):
    ws = c.anchor("parse_ugbs", "get_ugbs_exponents")
    f = lambda w: w.ns("parse_ugbs", "get_ugbs_exponents")
    path = DATA + "ygbs"

    def small(w, literal=False):
        """A table in which symbols of elements are prefixes of each other and shells are interleaved."""
        texts = iter(("2.5", "0.125", "2.5", "31.0", "0.125", "0.125", "7.0", "1.0E+03", "2.5", "0.5") * 20)
        tok = Tokens(w, "ug")
        want, s = {}, HEAD
        seq = [("H", "SSS"), ("He", "SS"), ("C", "SPSPS"), ("Cl", "SSPP"), ("Co", "SPD"), ("S", "PSPS"), ("Si", "SP"), ("Sc", "DPS"),
               ("P", "SSP"), ("F", "PS"), ("Fe", "SPDD"), ("D", "S"), ("N", "SP"), ("Nd", "SPDFFS"), ("U", "FDPSS"), ("Uu", "FS")]
        vals = {}
        for el, shells in seq:
            s += f"#BASIS SET: ({len(shells)}{el.lower()})\n"
            for sh in shells:
                if literal:
                    t = next(texts)
                    v, u = P(Q(t)), "1.0000000"
                else:
                    t, v = tok.new("13739.0854166734")
                    u, _ = tok.new("1.0000000")
                s += f"{el}    {sh}\n  {t}           {u}\n"
                vals.setdefault(el, {x: [] for x in "SPDF"})[sh].append(v)
        s += "END\n"
        w.I.vfs = {path: [x + "\n" for x in s.split("\n")]}
        order = [n for el, _ in seq for n in cases(el)]
        run(w, vals, order)
        run(w, {"Xx": {x: [] for x in "SPDF"}, "H": vals["H"]}, ["Xx", "xx", "H", "xX", "h"])

    def run(w, vals, order):
        low = {k.lower(): v for k, v in vals.items()}
        for name in order:
            w.I.opened = []
            o = w.run(lambda: w.call(f(w), name))
            if not w.no_raise("lookup-accepts", ws, o, f"element {name}"):
                continue
            if w.I.opened != [path]:
                c.bad(w.ctx, "file-read", ws, f"reads {w.I.opened} instead of {path}")
                continue
            e = entries(w, o.value)
            if sorted(e) != ["D", "F", "P", "S"]:
                c.bad(w.ctx, "shells", ws, f"{name}: shells {sorted(e)}")
                continue
            for sh in "SPDF":
                items = w.seq(e[sh])
                if items is None:
                    c.dunno(w.ctx, "exponents", ws, f"{name} {sh}: not a list")
                    continue
                same(c, w.ctx, "exponents", ws, [w.I.to_arr(x).cells[()] for x in items], low[name.lower()][sh], f"{sh} exponents of {name}")
                # what the caller does with a result must not show in later lookups
                w.meth(e[sh], "append", w.flt(sym("E0")))
    c.context("table with symbolic exponents", "exponents", ws, small)
    c.context("table with equal and unordered exponents", "exponents", ws, lambda w: small(w, True))

    def real(w, names):
        tok = Tokens(w, "ug")
        raw = open(os.path.join(c.root, "bfit", "data", "ygbs"), encoding="utf8").read().split("\n")
        out, want, el, sh = [], {}, None, None
        n = {x.lower() for x in names}
        for x in raw:
            p = x.split()
            if el is not None:
                if el in n:
                    x, v = tok.line(x)
                    want.setdefault(el, {y: [] for y in "SPDF"})[sh].append(v[0])
                el = None
            elif len(p) == 2 and p[0].isalpha() and p[1] in "SPDF" and not x.startswith("#"):
                el, sh = p[0].lower(), p[1]
            out.append(x + "\n")
        if not want:
            raise Give("distributed table not understood")
        w.I.vfs = {path: out}
        run(w, want, names)
    names = ["H", "rn", "SI"] if not c.thorough else ["H", "rn", "SI", "he", "C", "s", "Sc", "xE", "W", "po", "cs", "PO", "hg", "F", "b"]
    for x in names:
        c.context(f"distributed table, element {x}", "exponents", ws, lambda w, x=x: real(w, [x]))
