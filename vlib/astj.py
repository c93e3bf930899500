"""Independent view of a source file: clang's own AST, from -ast-dump=json."""
import json
import re

from . import core
from .core import run
from .dr import comp_of, flags_for, SUP

ARITH = {
    "bool", "_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int",
    "long", "unsigned long", "long long", "unsigned long long", "__int128", "unsigned __int128",
    "wchar_t", "char8_t", "char16_t", "char32_t", "float", "double", "long double", "_Float16", "__float128", "__bf16",
}
FLOATS = {"float", "double", "long double", "_Float16", "__float128", "__bf16"}
SIGNED = {"char", "signed char", "short", "int", "long", "long long", "__int128", "wchar_t"} 


class Node:
    __slots__ = ("kind", "b", "e", "type", "quals", "vc", "op", "postfix", "cast", "parent", "kids", "raw", "macro",
                 "inmain", "order", "role", "main")

    def __repr__(self):
        return "<%s %s:%s %s %s %s>" % (self.kind, self.b, self.e, self.type, self.vc, self.op)


def strip_type(t):
    if not t:
        return None, set()
    q = t.get("desugaredQualType") or t.get("qualType")
    quals = set()
    words = q.split()
    while words and words[0] in ("const", "volatile", "_Atomic", "__restrict"):
        quals.add(words.pop(0))
    while words and words[-1] in ("const", "volatile"):
        quals.add(words.pop())
    return " ".join(words), quals


class Ast:
    def __init__(self, path, flags=(), timeout=120):
        r = run([comp_of(path), "-w", *flags_for(path, flags), "-I", SUP, "-fsyntax-only", "-Xclang", "-ast-dump=json", path],
                timeout=timeout, fsize_mb=None)
        if r.rc:
            raise core.HarnessError("ast dump failed: " + core.text(r.err))
        self.path = path
        self.cpp = not path.endswith(".c")
        with open(path, "rb") as f:
            self.data = f.read()
        root = json.loads(r.out)
        self.nodes = []
        self.file = None
        self.n = 0
        import sys
        lim = sys.getrecursionlimit()
        if lim < 20000:
            sys.setrecursionlimit(20000)
        self.root = self._walk(root, None)
        by = {}
        for n in self.nodes:
            if n.main and n.b is not None:
                by.setdefault((n.b, n.e), []).append(n)
        self.by_range = by

    def _loc(self, l):
        """Returns (file, offset, toklen, macro). Must be called in print order."""
        if not l:
            return None
        if "spellingLoc" in l or "expansionLoc" in l:
            s = l.get("spellingLoc") or {}
            e = l.get("expansionLoc") or {}
            if "file" in s:
                self.file = s["file"]
            sf = self.file
            if "file" in e:
                self.file = e["file"]
            return (self.file, e.get("offset"), e.get("tokLen", 0), True)
        if "file" in l:
            self.file = l["file"]
        if "offset" not in l:
            return None
        return (self.file, l["offset"], l.get("tokLen", 0), False)

    def _walk(self, raw, parent):
        n = Node()
        n.kind = raw.get("kind")
        n.raw = raw
        n.parent = parent
        n.kids = []
        n.order = self.n
        self.n += 1
        n.b = n.e = None
        n.macro = False
        n.main = False
        n.type, n.quals, n.vc, n.op, n.postfix, n.cast = None, set(), raw.get("valueCategory"), raw.get("opcode"), raw.get("isPostfix"), raw.get("castKind")
        self.nodes.append(n)
        for k, v in raw.items():
            if k == "loc":
                self._loc(v)
            elif k == "range":
                b = self._loc(v.get("begin"))
                e = self._loc(v.get("end"))
                if b and e:
                    n.macro = b[3] or e[3]
                    if b[0] == self.path and e[0] == self.path:
                        n.main = True
                        n.b, n.e = b[1], e[1] + e[2]
                        if e[3]:
                            n.e = self._macro_end(n.e)
            elif k == "type":
                n.type, n.quals = strip_type(v)
            elif k in ("inner", "array_filler"):
                for c in v:
                    n.kids.append(self._walk(c, n) if c else None)
            elif isinstance(v, dict):
                self._other(v)
            elif isinstance(v, list) and k not in ("inner", "array_filler"):
                for c in v:
                    if isinstance(c, dict):
                        self._other(c)
        return n

    def _other(self, v):
        """Keeps the elided-file state right for nested location-bearing objects."""
        for k, x in v.items():
            if k in ("loc", "begin", "end", "beginLoc", "endLoc") and isinstance(x, dict):
                self._loc(x)
            elif k == "range" and isinstance(x, dict):
                self._loc(x.get("begin"))
                self._loc(x.get("end"))
            elif isinstance(x, dict):
                self._other(x)
            elif isinstance(x, list):
                for c in x:
                    if isinstance(c, dict):
                        self._other(c)

    def _macro_end(self, e):
        """End of a function-like macro use whose name ends at e."""
        d = self.data
        i = e
        while i < len(d) and d[i] in b" \t\n\\":
            i += 1
        if i >= len(d) or d[i:i + 1] != b"(":
            return e
        depth = 0
        while i < len(d):
            c = d[i:i + 1]
            if c == b"(":
                depth += 1
            elif c == b")":
                depth -= 1
                if depth == 0:
                    return i + 1
            i += 1
        return e

    def text(self, n):
        return self.data[n.b:n.e]

    def exprs_at(self, rng):
        ns = [n for n in self.by_range.get(rng, ()) if n.vc]
        return [n for n in ns if not n.macro] or ns


def is_lvalue(n):
    return n.vc == "lvalue"


BINNAME = {"Mul": "*", "Div": "/", "Rem": "%", "Add": "+", "Sub": "-", "Shl": "<<", "Shr": ">>", "LT": "<", "GT": ">",
           "LE": "<=", "GE": ">=", "EQ": "==", "NE": "!=", "And": "&", "Xor": "^", "Or": "|", "LAnd": "&&", "LOr": "||",
           "Assign": "=", "MulAssign": "*=", "DivAssign": "/=", "RemAssign": "%=", "AddAssign": "+=", "SubAssign": "-=",
           "ShlAssign": "<<=", "ShrAssign": ">>=", "AndAssign": "&=", "XorAssign": "^=", "OrAssign": "|="}
UNNAME = {"PreInc": "++", "PreDec": "--", "PostInc": "++", "PostDec": "--", "Minus": "-", "Not": "~", "LNot": "!", "Plus": "+"}
OPNAME = {v: k for k, v in BINNAME.items()}
