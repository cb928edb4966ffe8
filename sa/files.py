"""Files, paths and regular expressions over constant strings (constant folding); file contents are supplied by the rule in I.vfs."""
import posixpath
import re

from .terms import P
from .values import *
from .npmodel import reg, FUN, boolsc, intval, CONST

BASE = "/pkg/"            # where the analysed package is taken to be installed


class Raised_(Exception):
    pass


def Raised(cls, msg):
    from .npmodel import Raised as R
    return R(cls, msg)


def text(x):
    if isinstance(x, PathS):
        return x.p
    if isinstance(x, str):
        return x
    return None


class FileS(Stub):
    """An open text file: the lines of the virtual file and a position kept in the abstract heap."""
    clsname = "file"

    def __init__(self, I, path, lines):
        self.path, self.lines = path, lines
        self.pos = I.new(DictO({"p": 0}))
        self.types = ["io.TextIOWrapper", "io.TextIOBase", "io.IOBase"]

    def at(self, I):
        return I.obj(self.pos).items["p"]

    def move(self, I, k):
        I.put(self.pos, DictO({"p": k}))

    def take(self, I):
        k = self.at(I)
        if not isinstance(k, int):
            raise Unknown("file position")
        if k >= len(self.lines):
            return ""
        self.move(I, k + 1)
        return self.lines[k]

    def lazy(self, I):
        while True:
            s = self.take(I)
            if s == "":
                return
            yield s

    def iterate(self, I):
        return list(self.lazy(I))

    def some(self, I, a):
        """readlines with a size hint: whole lines until their total size reaches the hint."""
        hint = intval(a[0]) if a and a[0] is not None else 0
        if hint <= 0:
            return self.rest(I)
        out, n = [], 0
        for s in self.lazy(I):
            out.append(s)
            n += len(s)
            if n >= hint:
                break
        return out

    def rest(self, I):
        return list(self.lazy(I))

    def get(self, I, name):
        f = {"readline": lambda I, a, k: self.take(I), "__next__": lambda I, a, k: self.nxt(I),
             "readlines": lambda I, a, k: I.new(ListO(self.some(I, a))), "read": lambda I, a, k: "".join(self.rest(I)),
             "close": lambda I, a, k: None, "__iter__": lambda I, a, k: self, "__enter__": lambda I, a, k: self,
             "__exit__": lambda I, a, k: None, "flush": lambda I, a, k: None,
             "seek": lambda I, a, k: self.seek(I, a)}.get(name)
        if f is None:
            if name == "name":
                return self.path
            raise Unknown(f"file attribute {name}")
        return PyFn(f, "file." + name)

    def seek(self, I, a):
        if len(a) != 1 or a[0].p.const() != 0:
            raise Unknown("seek")
        self.move(I, 0)

    def nxt(self, I):
        s = self.take(I)
        if s == "":
            raise Raised("StopIteration", "")
        return s


def open_file(I, p, mode="r", *a, **k):
    s = text(p)
    if s is None:
        return I.unknown("open of an unknown path")
    if not isinstance(mode, str) or "w" in mode or "a" in mode or "x" in mode or "b" in mode:
        return I.unknown(f"open mode {mode}")
    s = posixpath.normpath(s)
    I.opened.append(s)
    v = I.vfs.get(s)
    if v is None:
        raise Raised("FileNotFoundError", f"No such file or directory: '{s}'")
    return FileS(I, s, v)


FUN["builtins.open"] = FUN["io.open"] = FUN["codecs.open"] = open_file


class PathS(Stub):
    clsname = "path"

    def __init__(self, p):
        self.p = posixpath.normpath(p) if p else "."
        self.types = ["pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "os.PathLike"]

    def get(self, I, name):
        p = self.p
        if name == "parent":
            return PathS(posixpath.dirname(p) or ".")
        if name == "name":
            return posixpath.basename(p)
        if name == "stem":
            return posixpath.splitext(posixpath.basename(p))[0]
        if name == "suffix":
            return posixpath.splitext(p)[1]
        if name == "parents":
            out = []
            q = p
            while posixpath.dirname(q) != q:
                q = posixpath.dirname(q)
                out.append(PathS(q))
            return tuple(out)
        fs = {"resolve": lambda I, a, k: self, "absolute": lambda I, a, k: self, "expanduser": lambda I, a, k: self,
              "joinpath": lambda I, a, k: PathS(posixpath.join(p, *[text(x) for x in a])),
              "with_name": lambda I, a, k: PathS(posixpath.join(posixpath.dirname(p), a[0])),
              "with_suffix": lambda I, a, k: PathS(posixpath.splitext(p)[0] + a[0]),
              "exists": lambda I, a, k: boolsc(P(int(exists(I, p)))), "is_file": lambda I, a, k: boolsc(P(int(p in I.vfs))),
              "open": lambda I, a, k: open_file(I, self, *a, **k), "as_posix": lambda I, a, k: p, "__str__": lambda I, a, k: p,
              "__fspath__": lambda I, a, k: p,
              "read_text": lambda I, a, k: "".join(open_file(I, self).rest(I))}
        if name in fs:
            return PyFn(fs[name], "path." + name)
        raise Unknown(f"path attribute {name}")

    def binop(self, I, op, o, swapped):
        if op != "Div" or text(o) is None:
            return None
        return PathS(posixpath.join(text(o), self.p) if swapped else posixpath.join(self.p, text(o)))


def exists(I, p):
    p = posixpath.normpath(p)
    return p in I.vfs or any(q.startswith(p + "/") for q in I.vfs)


def _path(I, *a):
    if any(text(x) is None for x in a):
        return I.unknown("path of an unknown string")
    return PathS(posixpath.join(*[text(x) for x in a]) if a else ".")


FUN["pathlib.Path"] = FUN["pathlib.PurePath"] = FUN["pathlib.PosixPath"] = _path


@reg("importlib.resources.files")
def res_files(I, m="bfit"):
    if isinstance(m, ModV):
        m = m.name
    if not isinstance(m, str):
        return I.unknown("importlib.resources.files")
    return PathS(BASE + m.replace(".", "/"))


def pathfun(name, f):
    def g(I, *a, **k):
        if any(text(x) is None for x in a):
            return I.unknown(f"os.path.{name} of an unknown string")
        return f(I, *[text(x) for x in a])
    FUN["os.path." + name] = FUN["posixpath." + name] = g


pathfun("join", lambda I, *a: posixpath.join(*a))
pathfun("dirname", lambda I, p: posixpath.dirname(p))
pathfun("basename", lambda I, p: posixpath.basename(p))
pathfun("split", lambda I, p: posixpath.split(p))
pathfun("splitext", lambda I, p: posixpath.splitext(p))
for _n in ("abspath", "realpath", "normpath"):
    pathfun(_n, lambda I, p: posixpath.normpath(p))
pathfun("exists", lambda I, p: boolsc(P(int(exists(I, p)))))
pathfun("isfile", lambda I, p: boolsc(P(int(posixpath.normpath(p) in I.vfs))))
FUN["os.fspath"] = lambda I, p: text(p) if text(p) is not None else I.unknown("fspath")
CONST["os.sep"] = CONST["os.path.sep"] = "/"
CONST["os.linesep"] = "\n"


@reg("inspect.getfile", "inspect.getsourcefile", "inspect.getabsfile")
def getfile(I, f):
    if isinstance(f, FuncV):
        return BASE + f.module.rel
    if isinstance(f, ModV):
        return BASE + f.rel
    return I.unknown("getfile")


# ---------------------------------------------------------------- regular expressions on constant strings
FLAGS = {n: getattr(re, n) for n in ("IGNORECASE", "I", "MULTILINE", "M", "DOTALL", "S", "VERBOSE", "X", "ASCII", "A")}


def flag(x):
    if x is None:
        return 0
    if isinstance(x, Ext) and x.name.split(".")[-1] in FLAGS:
        return FLAGS[x.name.split(".")[-1]]
    if isinstance(x, Sc) and x.p.const() is not None:
        return int(x.p.const())
    raise Unknown("regular expression flag")


def rt(x):
    if not isinstance(x, str):
        raise Unknown("regular expression on an unknown string")
    return x


def conv(I, v):
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, tuple):
        return tuple(conv(I, x) for x in v)
    if isinstance(v, list):
        return I.new(ListO([conv(I, x) for x in v]))
    if isinstance(v, int):
        return Sc(P(v), "int")
    if isinstance(v, re.Match):
        return MatchS(v)
    raise Unknown("regular expression result")


class MatchS(Stub):
    clsname = "match"

    def __init__(self, m):
        self.m = m
        self.types = ["re.Match"]

    def _a(self, a):
        return [x if isinstance(x, str) else intval(x) for x in a]

    def get(self, I, name):
        if name in ("group", "groups", "start", "end", "span"):
            def f(I, a, k):
                try:
                    return conv(I, getattr(self.m, name)(*self._a(a)))
                except IndexError:
                    raise Raised("IndexError", "no such group")
            return PyFn(f, "match." + name)
        if name == "groupdict":
            return PyFn(lambda I, a, k: I.new(DictO({x: conv(I, y) for x, y in self.m.groupdict().items()})))
        if name == "string":
            return self.m.string
        raise Unknown(f"match attribute {name}")

    def getitem(self, I, i):
        try:
            return conv(I, self.m[self._a([i])[0]])
        except IndexError:
            raise Raised("IndexError", "no such group")


class PatternS(Stub):
    clsname = "pattern"

    def __init__(self, p):
        self.p = p
        self.types = ["re.Pattern"]

    def get(self, I, name):
        if name in ("search", "match", "fullmatch", "findall", "finditer", "split", "sub"):
            return PyFn(lambda I, a, k: apply(I, self.p, name, a, k), "pattern." + name)
        if name == "pattern":
            return self.p.pattern
        raise Unknown(f"pattern attribute {name}")


def apply(I, p, name, a, k):
    b = [intval(x) if isinstance(x, Sc) else (x if x is None else rt(x)) for x in a]
    kk = {n: (intval(x) if isinstance(x, Sc) else rt(x)) for n, x in k.items()}
    if name == "sub" and a and not isinstance(a[0], str):
        raise Unknown("re.sub with a function")
    r = getattr(p, name)(*b, **kk)
    if name == "finditer":
        r = list(r)
    return conv(I, r)


def compile_(p, flags=None):
    if isinstance(p, PatternS):
        return p.p
    return re.compile(rt(p), flag(flags))


def refun(name):
    def g(I, p, *a, flags=None, **k):
        a = list(a)
        n = 2 if name == "sub" else 1
        if name in ("search", "match", "fullmatch", "findall", "finditer") and len(a) > n:
            flags = a.pop()
        return apply(I, compile_(p, flags), name, a, k)
    FUN["re." + name] = g


for _n in ("search", "match", "fullmatch", "findall", "finditer", "split", "sub"):
    refun(_n)
FUN["re.compile"] = lambda I, p, flags=None: PatternS(compile_(p, flags))
FUN["re.escape"] = lambda I, s: re.escape(rt(s))
