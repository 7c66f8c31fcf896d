"""Random interpretation of value-graph terms (after Gulwani and Necula): two terms whose normal
forms differ are told apart, or not, by giving their free symbols random values of their domains and
comparing.  Only terms are interpreted, never statements; loops without a closed form stay
uninterpreted (a fold is known by its start and by its step on arbitrary carried values)."""
import hashlib
import copy
import math
import re
from fractions import Fraction

from . import terms as T

sys_limit = 20000


class Unknown(Exception):
    """the value depends on something the analysis could not represent"""


class Skip(Exception):
    """the valuation is outside the domain of the term (division by zero, ...)"""


class Unb:
    def __repr__(self):
        return "<unbound>"


UNB = Unb()
INF = float("inf")


def H(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


_bound_rx = re.compile(r"^(b\d+$|mu\d|K\d)|#")
_bn = {}


def bound_names(t):
    r = _bn.get(t.id)
    if r is None:
        r = _bn[t.id] = tuple(sorted(n for n in t.fv if _bound_rx.search(n)))
    return r


class Closure:
    __slots__ = ("dims", "f")

    def __init__(self, dims, f):
        self.dims, self.f = dims, f


class Uf:
    """array-valued uninterpreted result"""

    __slots__ = ("key", "dtype", "dom", "dims")

    def __init__(self, key, dtype, dom, dims=None):
        self.key, self.dtype, self.dom, self.dims = key, dtype, dom, dims


def canon(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Fraction):
        return v.numerator if v.denominator == 1 else float("%.9g" % v)
    if isinstance(v, float):
        if v != v:
            return "nan"
        if v.is_integer() and abs(v) < 1e15:
            return int(v)
        return float("%.9g" % v)
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if v is UNB:
        raise Skip("unbound argument")
    return v


def fr(v):
    return v


class Valuation:
    def __init__(self, seed, doms, sizes, uf=None, fixed=None):
        self.seed, self.doms, self.sizes, self.uf = seed, doms, sizes, uf or {}
        self.fixed = fixed or {}
        self.memo = {}
        self.elems = {}
        self.folds = False
        self.work = 0
        self.whole = H(seed, "whole") % 5 == 0  # only whole numbers: equality of two quantities is likely
        self.pool = ()  # constants of the compared expressions: values near them are drawn more often

    # ------------------------------------------------------------ symbols
    def size(self, n):
        if n in self.fixed:
            return self.fixed[n]
        if self.present is not None:
            return self.present.size(n)
        r = self.sizes.get(n, (1, 3))
        if isinstance(r, list):
            return r[H(self.seed, "size", n) % len(r)]
        lo, hi = r
        return lo + H(self.seed, "size", n) % (hi - lo + 1)

    past = present = None

    class _NS(dict):
        def __init__(self, val):
            self.val = val

        def __missing__(self, k):
            return self.val.name_value(k)

    def name_value(self, k):
        if k in self.doms and self.doms[k].scalar and self.doms[k].const != k:
            d = self.doms[k]
            if d.kind == "const":
                return eval(d.const, {}, Valuation._NS(self))
            return self.elem(k, ())
        return self.size(k)

    def rng(self, d, idx=None):
        ns = Valuation._NS(self)
        if idx is not None:
            for j, i in enumerate(idx):
                ns["I%d" % j] = i
        return eval(d.lo, {"min": min, "max": max}, ns), eval(d.hi, {"min": min, "max": max}, ns)

    def near(self, kind, lo, hi, u):
        c = self.pool[u // 3 % len(self.pool)]
        d = (0, 0, 1, -1)[u // 1000 % 4]
        if kind == "f":
            v = c + Fraction(d, (1, 97, 10007)[u // 4000 % 3])
            return v if lo is None or lo <= v <= hi else None
        if c.denominator != 1:
            return None
        v = int(c) + d
        if lo is None:
            lo, hi = (0, 60) if kind == "n" else (-60, 60)
        return v if lo <= v <= hi else None

    def gen(self, kind, lo, hi, u):
        if self.pool and u >> 20 & 1 and kind in ("f", "i", "n"):
            v = self.near(kind, lo, hi, u >> 21)
            if v is not None:
                return v
        if kind in ("i", "n", "i32"):
            if lo is None:
                lo, hi = (0, 4) if kind == "n" else (-3, 5)
            lo, hi = math.ceil(lo), math.floor(hi)
            if hi < lo:
                raise Skip("empty domain")
            # ends of the range are drawn more often
            if hi - lo > 6 and u % 7 == 0:
                return lo if u % 2 else hi
            return lo + (u // 14) % (hi - lo + 1)
        if kind == "b":
            return (u // 7) % 2 == 1
        if kind == "f":
            if lo is None:
                lo, hi = -2, 4
            m, u = u % 3, u // 3
            if self.whole and math.floor(hi) > math.ceil(lo):
                m = 0
            if m == 0:
                a, b = math.ceil(lo), math.floor(hi)
                if b >= a:
                    return a + u % (b - a + 1)
            span = Fraction(hi).limit_denominator(10**6) - Fraction(lo).limit_denominator(10**6)
            den = 8 if m == 1 else 1009
            return Fraction(lo).limit_denominator(10**6) + span * (u % (den + 1)) / den
        if kind == "s":
            return "s%d" % (u % 5)
        raise Unknown(kind)

    def elem(self, name, idx):
        key = (name, idx)
        v = self.elems.get(key)
        if v is None:
            v = self.elems[key] = self.elem_(name, idx)
        return v

    def elem_(self, name, idx):
        d = self.doms.get(name)
        if d is None:
            if name.startswith("n:"):
                return self.size(name[2:])
            raise Unknown("symbol %s" % name)
        d = d.alt or d
        if name.startswith("earlier:"):  # argument of an earlier call: the same as now, or another one
            if H(self.seed, "again", name) % 2:
                return self.elem(name[8:], idx)
            if self.past is None:
                self.past = copy.copy(self)
                self.past.seed, self.past.elems, self.past.present = H(self.seed, "past"), {}, self
            return self.past.elem(name[8:], idx)
        u = H(self.seed, name, idx)
        if d.fn is not None:
            return d.fn(self, idx, u)
        if d.kind == "const":
            return self.name_value(name)
        lo, hi = self.rng(d, idx) if d.lo is not None else (None, None)
        if idx:
            mode = H(self.seed, "mode", name) % 8
            if mode == 0:
                u = H(self.seed, name)  # a constant array
            elif mode == 1 and d.kind in ("f", "i") and lo is not None and lo < 0 < hi:
                lo = 0
            elif mode == 2 and d.kind in ("f", "i", "n") and lo is not None and lo <= 0 <= hi and u % 5:
                return 0  # a sparse array
        return self.gen(d.kind, lo, hi, u)

    def ufval(self, key, dtype, dom, idx):
        u = H(self.seed, "uf", key, idx)
        if dom is not None:
            if dom.fn is not None:
                return dom.fn(self, idx, u)
            if dom.kind == "const":
                return self.name_value(dom.const)
            lo, hi = self.rng(dom, idx) if dom.lo is not None else (None, None)
            return self.gen(dom.kind, lo, hi, u)
        kind = {"nat": "n", "o": "s"}.get(dtype, dtype)
        if kind not in ("i", "n", "i32", "b", "f", "s"):
            kind = "f"
        return self.gen(kind, None, None, u)

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env):
        bn = _bn.get(t.id)
        if bn is None:
            bn = bound_names(t)
        if not bn:
            key = t.id
        elif len(bn) == 1:
            key = (t.id, env.get(bn[0]))
        else:
            key = (t.id, *[env.get(n) for n in bn])
        r = self.memo.get(key, self)
        if r is not self:
            if isinstance(r, Exception):
                raise r
            return r
        self.work += 1
        if self.work > 3000000:
            raise Unknown("too much work")
        try:
            r = self.ev_(t, env)
        except (Unknown, Skip) as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def n(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction, float)):
            return v
        if v is UNB:
            raise Skip("unbound used")
        if isinstance(v, str):
            return int.from_bytes(b"\1" + v.encode(), "big")  # comparison of names
        raise Unknown("not a number")

    def ev_(self, t, env):
        op, a = t.op, t.args
        f = getattr(self, "e_" + op, None)
        if f is None:
            if op in T._BINDERS:
                return self.e_reduce(t, env)
            if op == "add?":
                return sum(float(self.n(x, env)) for x in a)
            raise Unknown(op)
        return f(t, a, env)

    def e_c(self, t, a, env):
        return a[0]

    def e_str(self, t, a, env):
        return a[0]

    def e_true(self, t, a, env):
        return True

    def e_false(self, t, a, env):
        return False

    def e_unbound(self, t, a, env):
        return UNB

    def e_none(self, t, a, env):
        return None

    def e_inf(self, t, a, env):
        return float(a[0])

    def e_top(self, t, a, env):
        raise Unknown(a[0])

    def e_sym(self, t, a, env):
        if a[0] in env:
            return env[a[0]]
        v = self.elem(a[0], ())
        return v

    def e_arr(self, t, a, env):
        if a[0] in env:
            return env[a[0]]
        d = self.doms.get(a[0])
        if d is None or d.scalar:
            return Uf(("arr", a[0]), a[1], None)
        dims = tuple(self.ev(self._dim(x), {}) for x in d.dims)
        return Closure(dims, lambda idx: self.elem(a[0], idx))

    def _dim(self, s):
        from .domain import dim_term

        return dim_term(s)

    def e_poly(self, t, a, env):
        s = 0
        for m, c in a:
            p = c
            for x, e in m:
                v = self.n(x, env)
                if e != 1:
                    v = v ** e
                if isinstance(v, float) and isinstance(p, Fraction):
                    p = float(p)
                elif isinstance(p, float) and isinstance(v, Fraction):
                    v = float(v)
                p = p * v
                if p == 0 and not (isinstance(v, float) and math.isinf(v)):
                    # the remaining factors still have to be defined
                    pass
            if isinstance(s, float) and isinstance(p, Fraction):
                p = float(p)
            elif isinstance(p, float) and isinstance(s, Fraction):
                s = float(s)
            s = s + p
        if isinstance(s, Fraction) and s.denominator == 1:
            s = s.numerator
        return s

    def truth(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        if v is UNB:
            raise Skip("unbound condition")
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        if isinstance(v, str):
            return v != ""
        raise Unknown("truth")

    def e_ite(self, t, a, env):
        return self.ev(a[1] if self.truth(a[0], env) else a[2], env)

    def _sign(self, x):
        if isinstance(x, float):
            if x != x:
                raise Skip("nan")
            return 0 if abs(x) < 1e-9 else (-1 if x < 0 else 1)
        return -1 if x < 0 else (1 if x > 0 else 0)

    def e_lt0(self, t, a, env):
        return self._sign(self.n(a[0], env)) < 0

    def e_le0(self, t, a, env):
        return self._sign(self.n(a[0], env)) <= 0

    def e_eq0(self, t, a, env):
        return self._sign(self.n(a[0], env)) == 0

    def e_eqs(self, t, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if x is UNB or y is UNB:
            raise Skip("unbound")
        return canon(x) == canon(y)

    def e_and(self, t, a, env):
        exc = None
        for x in a:
            try:
                if not self.truth(x, env):
                    return False
            except (Skip, Unknown) as e:
                exc = exc or e
        if exc:
            raise exc
        return True

    def e_or(self, t, a, env):
        exc = None
        for x in a:
            try:
                if self.truth(x, env):
                    return True
            except (Skip, Unknown) as e:
                exc = exc or e
        if exc:
            raise exc
        return False

    def e_not(self, t, a, env):
        return not self.truth(a[0], env)

    def e_sel(self, t, a, env):
        base = a[0]
        idx = []
        for x in a[1:]:
            v = self.n(x, env)
            if isinstance(v, Fraction):
                raise Skip("fractional index")
            if isinstance(v, float):
                if math.isinf(v) or v != v or not v.is_integer():
                    raise Skip("index")
                v = int(v)
            idx.append(v)
        idx = tuple(idx)
        if base.op == "arr" and base.args[0] not in env:
            return self.elem(base.args[0], idx)
        b = self.ev(base, env)
        return self.at(b, idx)

    def at(self, b, idx):
        if isinstance(b, Closure):
            return b.f(idx)
        if isinstance(b, Uf):
            return self.ufval(b.key, b.dtype, b.dom, idx)
        if isinstance(b, tuple) and len(idx) == 1:
            if 0 <= idx[0] < len(b):
                return b[idx[0]]
            raise Skip("index")
        raise Unknown("sel of %s" % type(b).__name__)

    def e_lam(self, t, a, env):
        bs, dims, body = a
        dv = tuple(self.n(d, env) for d in dims)
        names = [b.args[0] for b in bs]

        def f(idx):
            e = dict(env)
            e.update(zip(names, idx))
            return self.ev(body, e)

        return Closure(dv, f)

    def positions(self, dims, limit=48):
        size = 1
        for d in dims:
            size *= max(d, 0)
        if size <= 0:
            return []
        if size <= limit:
            out = [()]
            for d in dims:
                out = [o + (i,) for o in out for i in range(d)]
            return out
        pos = []
        for k in range(limit):
            p = []
            for j, d in enumerate(dims):
                u = H(self.seed, "pos", k, j, d)
                p.append((0, d - 1, min(1, d - 1))[u % 3] if (u // 3) % 4 == 0 else (u // 12) % d)
            pos.append(tuple(p))
        return pos

    def within(self, dims, limit=240):
        """positions of the leading part of an array"""
        out = [()]
        for d in dims:
            out = [o + (i,) for o in out for i in range(d)]
        if len(out) > limit:
            out.sort(key=lambda p: H(self.seed, "win", *p))
            out = out[:limit]
        return out

    def value(self, v):
        """hashable value of an argument"""
        if isinstance(v, Closure):
            return ("A", v.dims) + tuple(canon(self.value(v.f(p))) for p in self.positions(v.dims))
        if isinstance(v, Uf):
            if v.dims is not None:  # by its elements, like any other array
                return ("A", v.dims) + tuple(canon(self.value(self.ufval(v.key, v.dtype, v.dom, p))) for p in self.positions(v.dims))
            return ("U", v.key)
        if isinstance(v, tuple):
            return tuple(self.value(x) for x in v)
        return canon(v)

    def e_tup(self, t, a, env):
        return tuple(self.value(self.ev(x, env)) for x in a)

    e_fmt = None

    def e_fmt(self, t, a, env):
        out = []
        for x in a:
            v = self.ev(x, env) if isinstance(x, T.Term) else x
            if isinstance(v, tuple) and v and v[0] == "fmt":
                out.extend(v[1:])
            else:
                out.append(self.value(v))
        return ("fmt",) + tuple(out)

    def e_masked(self, t, a, env):
        v = self.ev(a[0], env)
        return ("M",) + tuple(canon(v.f(p)) for p in self.positions(v.dims))

    def e_call(self, t, a, env):
        h = self.uf.get(("call", a[0]))
        if a[0].startswith("nondet:") and not a[0].startswith(("nondet:time", "nondet:datetime")):
            return self.gen("f", 0, 1, H(self.seed, "nondet", a[0], a[1].args[0]))  # some number: no determined result can depend on it
        vals = tuple(self.value(self.ev(x, env)) if isinstance(x, T.Term) else x for x in a[1:])
        if h is not None:
            return h(self, *vals)
        if a[0].startswith("nondet:"):
            raise Unknown("nondeterministic " + a[0])
        if a[0].startswith("parse_") and vals and isinstance(vals[0], tuple):
            r = self.parse(a[0][6:], vals)
            if r is not None:
                return r
        if a[0] in ("int", "float") and len(vals) == 1 and isinstance(vals[0], str):
            try:
                return int(vals[0]) if a[0] == "int" else Fraction(vals[0].strip())
            except ValueError:
                raise Skip("not a number")
        key = ("call", a[0], vals)
        if t.int_:
            return self.gen("i", 0, 6, H(self.seed, "uf", key))
        if a[0] == "draw":
            return self.gen("f", 0, 1, H(self.seed, "uf", key))
        return Uf(key, "f", self.uf.get(a[0]))

    def e_out(self, t, a, env):
        c, key, dtype = a
        if c.op == "fold" or c.op == "foldprefix":
            return self.fold_out(c, key, dtype, env)
        if c.op == "call":
            vals = tuple(self.value(self.ev(x, env)) if isinstance(x, T.Term) else x for x in c.args[1:])
            dom = self.uf.get("%s.%s" % (c.args[0], key)) or self.uf.get(key)
            k = (c.args[0], key, H("call", vals))
            if dom is not None and not dom.scalar or dom is None and t in self.array_outs():
                return Uf(k, dtype, dom, self.out_dims(t, key, c, vals, env))
            if dtype in ("i", "f", "b", "nat", "o", "i32") and dom is not None:
                return self.ufval(k, dtype, dom, ())
            r = Lazy(self, k, dtype, dom)
            r.dims = self.out_dims(t, key, c, vals, env)
            return r
        raise Unknown("out")

    def out_dims(self, t, key, c, vals, env):
        """dimensions of an array a call returns or changes"""
        ds = T.DIMS.get(t)
        if ds is not None:
            try:
                return tuple(self.n(d, env) for d in ds)
            except (Unknown, Skip):
                return None
        for n, v in zip(c.args[1::2], vals[1::2]):
            if isinstance(n, T.Term) and n.op == "str" and n.args[0] == key and isinstance(v, tuple) and len(v) > 1 and v[0] == "A":
                return v[1]
        return None

    def array_outs(self):
        return ()

    def e_recip(self, t, a, env):
        v = self.n(a[0], env)
        if v == 0:
            raise Skip("division by zero")
        return 1 / v if isinstance(v, float) else Fraction(1) / v

    def e_divzero(self, t, a, env):
        raise Skip("division by zero")

    def e_fdiv(self, t, a, env):
        x, y = self.n(a[0], env), self.n(a[1], env)
        if y == 0:
            raise Skip("division by zero")
        return math.floor(x / y) if isinstance(x, float) or isinstance(y, float) else int(x // y)

    def e_mod(self, t, a, env):
        x, y = self.n(a[0], env), self.n(a[1], env)
        if y == 0:
            raise Skip("division by zero")
        return x % y

    def e_trunc(self, t, a, env):
        v = self.n(a[0], env)
        if isinstance(v, float):
            if math.isinf(v) or v != v:
                raise Skip("int of inf")
            r = round(v)
            if abs(v - r) < 1e-9:
                return int(r)
        return int(v)

    def e_floor(self, t, a, env):
        v = self.n(a[0], env)
        if isinstance(v, float):
            if math.isinf(v) or v != v:
                raise Skip("floor of inf")
            r = round(v)
            if abs(v - r) < 1e-9:
                return int(r)
        return math.floor(v)

    def e_round(self, t, a, env):
        v, k = self.n(a[0], env), self.n(a[1], env)
        if k == 0:
            return round(v)
        return round(v, int(k))

    def e_sqrt(self, t, a, env):
        v = self.n(a[0], env)
        if v < 0:
            raise Skip("sqrt of negative")
        if isinstance(v, int):
            r = math.isqrt(v)
            if r * r == v:
                return r
        return math.sqrt(v)

    def e_pow(self, t, a, env):
        x, y = self.n(a[0], env), self.n(a[1], env)
        try:
            if isinstance(y, int) and abs(y) < 64:
                return Fraction(x) ** y if not isinstance(x, float) else x ** y
            r = float(x) ** float(y)
        except (ZeroDivisionError, OverflowError):
            raise Skip("power")
        if isinstance(r, complex):
            raise Skip("power")
        return r

    def e_min(self, t, a, env):
        return min(self.n(x, env) for x in a)

    def e_max(self, t, a, env):
        return max(self.n(x, env) for x in a)

    def e_wrap32(self, t, a, env):
        v = self.n(a[0], env)
        if not isinstance(v, int):
            raise Skip("wrap")
        return (v + 2**31) % 2**32 - 2**31

    def e_grp(self, t, a, env):
        return self.ev(a[0], env)

    def e_fn(self, t, a, env):
        name = a[0]
        vals = [self.ev(x, env) if isinstance(x, T.Term) else x for x in a[1:]]
        if name == "isclose":
            return abs(vals[0]) < 1e-8
        if name in ("exp", "log", "sin", "cos", "tan", "arctan", "log10", "log2", "expm1", "log1p") and isinstance(vals[0], (int, float, Fraction)):
            try:
                return getattr(math, {"arctan": "atan"}.get(name, name))(float(vals[0]))
            except (ValueError, OverflowError):
                raise Skip(name)
        h = self.uf.get(("fn", name))
        if h is not None:
            return h(self, *vals)
        if name == "strsym":
            return "s%d" % (H(self.seed, "strsym", canon(vals[0])) % 5)
        if name.startswith("str"):
            r = self.string(name, vals)
            if r is not None:
                return r
        u = H(self.seed, "fn", name, tuple(self.value(v) for v in vals))
        if t.bool_:
            return u % 2 == 1
        if t.int_:
            return u % 7
        return ("F", u)

    def parse(self, what, vals):
        try:
            if what == "float":
                return tuple(Fraction(x.strip()) for x in vals[0])
            if what == "int":
                return tuple(int(x) for x in vals[0])
        except (ValueError, AttributeError):
            raise Skip("not a number")
        if what == "len":
            return len(vals[0])
        if what == "item":
            if not -len(vals[0]) <= vals[1] < len(vals[0]):
                raise Skip("not so many numbers")
            return vals[0][vals[1]]

    def string(self, name, vals):
        s = vals[0]
        if not isinstance(s, str):
            return None
        try:
            if name == "strnotint":
                try:
                    int(s)
                    return False
                except ValueError:
                    return True
            if name == "strslice":
                return s[vals[1]:vals[2]:vals[3]]
            if name == "stritem":
                return s[vals[1]]
            if name in ("strstrip", "strlstrip", "strrstrip", "strupper", "strlower", "strreplace", "strzfill", "strljust", "strrjust"):
                return getattr(s, name[3:])(*vals[1:])
            if name in ("strsplit",):
                return tuple(s.split(*[v for v in vals[1:]]))
            if name in ("strstartswith", "strendswith", "strisdigit", "strfind", "strcount", "strindex"):
                return getattr(s, name[3:])(*vals[1:])
        except Exception:
            raise Skip("string operation")
        return None

    # ------------------------------------------------------------ binders
    def bounds(self, a, env):
        lo, hi = self.n(a[1], env), self.n(a[2], env)
        if isinstance(hi, float) and math.isinf(hi):
            raise Unknown("unbounded")
        if isinstance(lo, Fraction) or isinstance(hi, Fraction):
            raise Skip("bounds")
        return int(lo), int(hi)

    def e_sum(self, t, a, env):
        lo, hi = self.bounds(a, env)
        nm = a[0].args[0]
        s = 0
        e = dict(env)
        for i in range(lo, hi):
            e[nm] = i
            x = self.n(a[3], e)
            if isinstance(s, float) or isinstance(x, float):
                s = float(s) + float(x)
            else:
                s = s + x
        return s

    def e_prod(self, t, a, env):
        lo, hi = self.bounds(a, env)
        nm = a[0].args[0]
        s = 1
        e = dict(env)
        for i in range(lo, hi):
            e[nm] = i
            x = self.n(a[3], e)
            s = float(s) * float(x) if isinstance(x, float) or isinstance(s, float) else s * x
        return s

    def e_exists(self, t, a, env):
        lo, hi = self.bounds(a, env)
        nm = a[0].args[0]
        e = dict(env)
        exc = None
        for i in range(lo, hi):
            e[nm] = i
            try:
                if self.truth(a[3], e):
                    return True
            except (Skip, Unknown) as x:
                exc = exc or x
        if exc:
            raise exc
        return False

    def e_last(self, t, a, env):
        lo, hi = self.bounds(a, env)
        nm = a[0].args[0]
        e = dict(env)
        for i in range(hi - 1, lo - 1, -1):
            e[nm] = i
            if self.truth(a[3], e):
                return self.ev(a[4], e)
        return self.ev(a[5], env)

    def e_firsti(self, t, a, env):
        lo, hi = self.bounds(a, env)
        nm = a[0].args[0]
        e = dict(env)
        for i in range(lo, hi):
            e[nm] = i
            if self.truth(a[3], e):
                return i
        return self.ev(a[4], env)

    def e_kth(self, t, a, env):
        lo, hi = self.bounds(a, env)
        k = int(self.n(a[4], env))
        e = dict(env)
        vs = []
        for i in range(lo, hi):
            e[a[0].args[0]] = i
            vs.append(self.n(a[3], e))
        if not 0 <= k < len(vs):
            raise Skip("rank")
        return lo + sorted(range(len(vs)), key=vs.__getitem__)[k]

    def e_reduce(self, t, env):
        a = t.args
        lo, hi = self.bounds(a, env)
        if hi <= lo:
            raise Skip("empty reduction")
        nm = a[0].args[0]
        e = dict(env)
        vs = []
        for i in range(lo, hi):
            e[nm] = i
            vs.append(self.n(a[3], e))
        op = t.op
        if op == "maxr":
            return max(vs)
        if op == "minr":
            return min(vs)
        if op == "argmax":
            return lo + vs.index(max(vs))
        if op == "argmin":
            return lo + vs.index(min(vs))
        raise Unknown(op)

    # ------------------------------------------------------------ folds
    def fold_out(self, c, key, dtype, env):
        self.folds = True
        extra = ()
        if c.op == "foldprefix":
            extra = (self.n(c.args[1], env),)
            c = c.args[0]
        sig = self.fold_sig(c, env)
        k = ("fold", sig, key) + extra
        return Lazy(self, k, dtype, None)

    def fold_sig(self, c, env):
        b, lo, hi, names, mus, inits, nexts = c.args
        key = ("sig", c.id) + tuple(repr(env.get(n)) for n in bound_names(c))
        if key in self.memo:
            return self.memo[key]
        lv, hv = self.value(self.ev(lo, env)), self.value(self.ev(hi, env))
        iv = tuple(self.value_or(x, env) for x in inits)
        steps = []
        for r in range(4):
            e = dict(env)
            e[b.args[0]] = self.gen("i", 0, 4, H(self.seed, "it", r))
            for n, mu in zip(names, mus):
                if mu.op == "arr":
                    e[mu.args[0]] = MuArr(self, (r, n), mu.args[1])
                else:
                    e[mu.args[0]] = self.gen({"nat": "n"}.get(mu.args[1], mu.args[1]), None, None, H(self.seed, "mu", r, n))
            for x in nexts:
                steps.append(self.value_or(x, e))
        sig = H(names, lv, hv, iv, tuple(steps))
        self.memo[key] = sig
        return sig

    def value_or(self, x, env):
        try:
            v = self.ev(x, env)
            if v is UNB:
                return "unb"
            return self.value(v)
        except Skip:
            return "skip"


class MuArr(Closure):
    __slots__ = ()

    def __init__(self, val, key, dtype):
        Closure.__init__(self, (), None)
        kind = {"nat": "n", "o": "s"}.get(dtype, dtype)
        self.f = lambda idx: val.gen(kind, None, None, H(val.seed, "muarr", key, idx))


class Lazy(Uf):
    """result of an uninterpreted operation whose rank is not known yet: indexing gives an element"""

    __slots__ = ("val",)

    def __init__(self, val, key, dtype, dom):
        Uf.__init__(self, key, dtype, dom)
        self.val = val


def _lazy_patch():
    """a Lazy used as a scalar"""
    n0 = Valuation.n
    t0 = Valuation.truth

    def n(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, Uf):
            v = self.ufval(v.key, v.dtype, v.dom, ())
            return int(v) if isinstance(v, bool) else v
        return n0(self, t, env)

    def truth(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, Uf):
            v = self.ufval(v.key, v.dtype, v.dom, ())
            return bool(v)
        return t0(self, t, env)

    Valuation.n, Valuation.truth = n, truth


_lazy_patch()


def same(a, b):
    if a is UNB or b is UNB:
        return a is b
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if a == b:
            return True
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
