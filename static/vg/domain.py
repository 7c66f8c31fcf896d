"""Domains of the parameters: shape, kind and range of every input the obligations quantify over.

A declaration is a string
    kind[dims] lo..hi
kind: i (integer), n (integer known to be >= 0), f (real), b (boolean), s (string), i32;
dims: sizes separated by commas, each an integer, a size name (NOAREA) or a linear expression
(2*NSTEPS+1); lo/hi: expressions over size names and other scalar parameters.
`=NOAREA` declares a scalar that is the size itself, `=3` a constant.
"""
import ast
import re

from . import terms as T
from .arrays import LB, UB, UPPER

SIZES = {
    "NOAREA": (1, 3),
    "NFCST": (1, 3),
    "NUNITS": (1, 4),
    "NLINES": (1, 4),
    "NX": (1, 3),
}

_rx = re.compile(r"^(i32|i|n|f|b|s)(?:\[([^\]]*)\])?(?:\s+(.+?)\.\.(.+))?$")


class Dom:
    __slots__ = ("name", "kind", "dims", "lo", "hi", "fn", "const", "scalar", "src", "alt")

    def __init__(self, name, decl, fn=None):
        self.name, self.fn, self.const = name, fn, None
        self.dims, self.lo, self.hi = (), None, None
        self.scalar = True
        self.src = None
        self.alt = None
        if decl.startswith("="):
            self.kind = "const"
            self.const = decl[1:].strip()
            return
        m = _rx.match(decl.strip())
        if not m:
            raise ValueError("domain %s: %r" % (name, decl))
        self.kind = m.group(1)
        if m.group(2) is not None:
            self.scalar = False
            self.dims = tuple(x.strip() for x in m.group(2).split(",")) if m.group(2).strip() else ()
        if m.group(3) is not None:
            self.src = (m.group(3).strip(), m.group(4).strip())
            self.lo = compile(m.group(3).strip(), "<lo>", "eval")
            self.hi = compile(m.group(4).strip(), "<hi>", "eval")


def size(name):
    if name in FIXED:
        return T.C(FIXED[name])
    LB["n:" + name] = 1 if SIZES.get(name, (1, 3))[0] >= 1 else 0
    return T.sym("n:" + name, "i")


def dim_term(s):
    return _expr(ast.parse(s, mode="eval").body)


def _expr(e):
    if isinstance(e, ast.Constant):
        return T.C(e.value)
    if isinstance(e, ast.Name):
        return size(e.id)
    if isinstance(e, ast.BinOp):
        a, b = _expr(e.left), _expr(e.right)
        f = {ast.Add: T.add, ast.Sub: T.sub, ast.Mult: T.mul, ast.FloorDiv: T.fdiv}[type(e.op)]
        return f(a, b)
    if isinstance(e, ast.UnaryOp):
        return T.neg(_expr(e.operand))
    raise ValueError(ast.dump(e))


FIXED = {}  # sizes with a fixed value (bounded analysis)


def bounds_of(name, d):
    LB.pop(name, None), UB.pop(name, None), UPPER.pop(name, None)
    if d.kind not in ("i", "n", "i32") or d.src is None:
        return
    if d.kind == "n":
        LB[name] = 0
    try:
        lo = dim_term(d.src[0])
        if lo.op == "c":
            LB[name] = lo.args[0]
    except (ValueError, SyntaxError, KeyError, TypeError):
        pass
    try:
        hi = dim_term(d.src[1])
    except (ValueError, SyntaxError, KeyError, TypeError):
        return
    UPPER[name] = T.add(hi, T.ONE)
    if hi.op == "c":
        UB[name] = hi.args[0]


def make_param(ip, st, name, d):
    """abstract value of a parameter"""
    bounds_of(name, d)
    if d.kind == "const":
        v = _expr(ast.parse(d.const, mode="eval").body)
        return v
    dt = {"n": "i", "s": "o"}.get(d.kind, d.kind)
    adt = {"n": "nat", "s": "o"}.get(d.kind, d.kind)
    if d.scalar:
        if d.kind == "n":
            LB.setdefault(name, 0)
        if d.kind == "s":
            return T.fn("strsym", T.sym(name, "f"))
        return T.sym(name, {"n": "i", "i32": "i"}.get(d.kind, d.kind))
    dims = tuple(dim_term(x) for x in d.dims)
    from .values import K

    a = T.arr(name, adt)
    T.DIMS[a] = dims
    return ip.new(st, dims, dt, T.sel(a, *K[: len(dims)]) if dims else T.sym(name, {"n": "i", "i32": "i"}.get(d.kind, d.kind)), name)
