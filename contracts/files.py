"""Text files: what is read from one (rows of numbers) and what is written to one."""
import pathlib

import z3

from pyvc.values import Builtin, SNum, SSeq, SV, Unsupported

WORDS = z3.Function("words of line", z3.IntSort(), z3.IntSort())
NUMBER = z3.Function("number", z3.IntSort(), z3.IntSort(), z3.RealSort())


class Word(SV):
    """The j-th word of the i-th line: a text that spells a number."""

    __slots__ = ("i", "j")

    def __init__(self, i, j):
        self.i, self.j = i, j

    def vc_float(self, eng):
        return SNum(NUMBER(self.i, self.j))

    def vc_subst(self, pairs):
        return Word(z3.substitute(self.i, *pairs), z3.substitute(self.j, *pairs))


class Line(SV):
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def vc_subst(self, pairs):
        return Line(z3.substitute(self.i, *pairs))

    def vc_getattr(self, eng, name, node):
        if name == "split":
            def split(sep=None):
                if sep is not None:
                    raise Unsupported("split at a separator")
                eng.fact(WORDS(self.i) >= 0) if not eng.binders else None
                return SSeq(WORDS(self.i), lambda j: Word(self.i, j))

            return Builtin(name, split)
        if name in ("strip", "rstrip", "lstrip"):
            return Builtin(name, lambda: self)
        raise Unsupported(f"str.{name} of a line")


class Text(SV):
    """The whole text of a file."""

    __slots__ = ("lines",)

    def __init__(self, lines):
        self.lines = lines

    def vc_getattr(self, eng, name, node):
        if name == "splitlines":
            return Builtin(name, lambda: self.lines)
        raise Unsupported(f"str.{name} of a file's text")


def lines(eng):
    n = z3.Int("lines of the file")
    eng.fact(n >= 0)
    x = z3.Int("x!line")
    eng.fact(z3.ForAll([x], WORDS(x) >= 0, patterns=[WORDS(x)]))
    return SSeq(n, Line)


class Path(SV):
    """A path; files are read and written through it.  Openings, readings and writings are recorded as effects."""

    __slots__ = ("lines", "like")

    def __init__(self, eng):
        self.lines, self.like = lines(eng), pathlib.PosixPath

    def vc_getattr(self, eng, name, node):
        if name == "open":
            def open_(mode="r"):
                eng.effect("open", [self, mode], {})
                return Handle(self, mode)

            return Builtin(name, open_)
        if name == "read_text":
            return Builtin(name, lambda: Text(self.lines))
        if name == "write_text":
            def write_text(text):
                eng.effect("open", [self, "w"], {})
                eng.effect("write", [text], {})

            return Builtin(name, write_text)
        raise Unsupported(f"Path.{name}")


class Handle(SV):
    __slots__ = ("path", "mode")

    def __init__(self, path, mode):
        self.path, self.mode = path, mode

    def reading(self, eng):
        if self.mode not in ("r", "rt"):
            raise Unsupported("reading a file that is not open for reading")

    def vc_iter(self, eng):
        self.reading(eng)
        return eng.to_iter(self.path.lines)

    def vc_getattr(self, eng, name, node):
        if name in ("__enter__", "__exit__", "close", "flush"):
            return Builtin(name, lambda *a: self if name == "__enter__" else None)
        if name == "readlines":
            self.reading(eng)
            return Builtin(name, lambda: self.path.lines)
        if name == "read":
            self.reading(eng)
            return Builtin(name, lambda: Text(self.path.lines))
        if name == "write":
            def write(text):
                eng.effect("write", [text], {})

            return Builtin(name, write)
        raise Unsupported(f"file.{name}")


def written(eng, path):
    """The text the file has in the end: None if it is not known (or the file was not overwritten)."""
    from pyvc.engine import as_parts
    from pyvc.values import SStr

    parts = None
    for name, args, kwargs in eng.trace:
        if name == "open" and args[0] is path:
            if args[1] in ("w", "wt", "w+"):
                parts = []
            elif args[1] in ("r", "rt"):
                continue
            elif args[1] not in ("a", "at"):
                return None
        elif name == "write":
            if parts is None:
                return None
            parts.extend(as_parts(args[0]))
    return None if parts is None else SStr(parts)
