"""Hash-consed terms of the value graph and their normal form.

Numbers are exact rationals.  Arithmetic is kept as polynomials over atoms; comparisons as sign
conditions of polynomials; control flow as `ite`; loops as binders (sum / exists / last / ...).
Bound variables are canonical (locally nameless by binder height), so alpha-equivalent terms are the
same object and equality of normal forms is object identity.
"""
from fractions import Fraction
import itertools

_table = {}
_count = itertools.count()
_fresh = itertools.count()


class Term:
    __slots__ = ("op", "args", "id", "h", "fv", "int_", "bool_", "top_", "fold_")

    def __repr__(self):
        return show(self)


def _mk(op, args, h, fv, int_=False, bool_=False, top_=False, fold_=False):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, next(_count)
        t.h, t.fv, t.int_, t.bool_, t.top_, t.fold_ = h, fv, int_, bool_, top_, fold_
        _table[key] = t
    return t


_EMPTY = frozenset()


def _node(op, args, int_=False, bool_=False, top_=False, fold_=False):
    """generic node: args may contain Terms and python constants"""
    h = 0
    fv = _EMPTY
    for a in args:
        if isinstance(a, Term):
            if a.h > h:
                h = a.h
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            top_ = top_ or a.top_
            fold_ = fold_ or a.fold_
    return _mk(op, args, h, fv, int_, bool_, top_, fold_)


# ---------------------------------------------------------------- leaves
def C(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return _mk("inf", (repr(v),), 0, _EMPTY)
        v = Fraction(repr(v))
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = v.numerator
    return _mk("c", (v,), 0, _EMPTY, int_=isinstance(v, int))


def S(s):
    return _mk("str", (s,), 0, _EMPTY)


def sym(name, kind="f"):
    return _mk("sym", (name, kind), 0, frozenset((name,)), int_=kind == "i", bool_=kind == "b")


def arr(name, dtype="f"):
    return _mk("arr", (name, dtype), 0, frozenset((name,)))


def fresh(kind="i", prefix="v"):
    return sym("%s#%d" % (prefix, next(_fresh)), kind)


TRUE = _mk("true", (), 0, _EMPTY, bool_=True)
FALSE = _mk("false", (), 0, _EMPTY, bool_=True)
UNBOUND = _mk("unbound", (), 0, _EMPTY)
ZERO = C(0)
ONE = C(1)


def top(reason):
    return _mk("top", (reason,), 0, _EMPTY, top_=True)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
def num(t):
    """coerce a bool term to a number"""
    if t.bool_:
        return ite(t, ONE, ZERO)
    return t


def to_poly(t):
    if t.bool_:
        t = num(t)
    if t.op == "c":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = []
    int_ = True
    h = 0
    fv = _EMPTY
    top_ = fold_ = False
    for m, c in d.items():
        if isinstance(c, Fraction) and c.denominator == 1:
            c = c.numerator
        if not isinstance(c, int):
            int_ = False
        for a, e in m:
            if not a.int_:
                int_ = False
            if a.h > h:
                h = a.h
            fv = fv | a.fv
            top_ = top_ or a.top_
            fold_ = fold_ or a.fold_
        items.append((m, c))
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return _mk("poly", tuple(items), h, fv, int_, False, top_, fold_)


def add(*ts):
    for t in ts:
        if t.op in ("inf", "unbound"):
            return _node("add?", ts)
    d = {}
    for t in ts:
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def scale(t, k):
    if t.op == "inf":
        return C(float(t.args[0]) * (1 if k > 0 else -1))
    return from_poly({m: c * k for m, c in to_poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # recip(x) * x is left alone: x may be zero
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if not pa or not pb:
        return ZERO
    if len(pa) * len(pb) > 80:
        # keep as a product of atoms
        fa = a if len(pa) == 1 else _node("grp", (a,), int_=a.int_)
        fb = b if len(pb) == 1 else _node("grp", (b,), int_=b.int_)
        pa, pb = to_poly(fa), to_poly(fb)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def div(a, b):
    b = num(b)
    if b.op == "c":
        if b.args[0] == 0:
            return _node("divzero", (num(a),))
        return scale(num(a), Fraction(1) / b.args[0])
    return mul(a, _node("recip", (b,)))


def fdiv(a, b):
    a, b = num(a), num(b)
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return C(a.args[0] // b.args[0])
    if b is ONE and a.int_:
        return a
    if b.op == "c" and a.int_ and isinstance(b.args[0], int) and b.args[0] > 0:
        # pull out multiples of b
        q, r = {}, {}
        for m, c in to_poly(a).items():
            if m != () and isinstance(c, int) and c % b.args[0] == 0:
                q[m] = c // b.args[0]
            else:
                r[m] = c
        if q:
            return add(from_poly(q), fdiv(from_poly(r), b))
    return _node("fdiv", (a, b), int_=True)


def mod(a, b):
    a, b = num(a), num(b)
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return C(a.args[0] % b.args[0])
    if b is ONE and a.int_:
        return ZERO
    if b.op == "c" and a.int_ and isinstance(b.args[0], int) and b.args[0] > 0:
        r = {}
        for m, c in to_poly(a).items():
            if m != () and isinstance(c, int) and c % b.args[0] == 0:
                continue
            r[m] = c
        return _mod1(from_poly(r), b)
    return _mod1(a, b)


def _mod1(a, b):
    if b.op == "c" and isinstance(b.args[0], int) and b.args[0] > 1 and 2**32 % b.args[0] == 0:
        u = _unwrap(a)
        if u is not a:
            return mod(u, b)
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return C(a.args[0] % b.args[0])
    return _node("mod", (a, b), int_=a.int_ and b.int_)


def trunc(t, memo=None):
    t = num(t)
    if t.int_:
        return t
    if t.op == "c":
        return C(int(t.args[0]))
    if t.op == "ite":
        memo = {} if memo is None else memo
        r = memo.get(t.id)
        if r is None:
            r = memo[t.id] = ite(t.args[0], trunc(t.args[1], memo), trunc(t.args[2], memo))
        return r
    return _node("trunc", (t,), int_=True)


def floor(t):
    t = num(t)
    if t.int_:
        return t
    if t.op == "c":
        return C(t.args[0].__floor__())
    return _node("floor", (t,), int_=True)


def ceil(t):
    return neg(floor(neg(t)))


def rnd(t, n=ZERO):
    t = num(t)
    if t.int_ and n is ZERO:
        return t
    return _node("round", (t, n), int_=n is ZERO)


def fn(name, *args):
    return _node("fn", (name,) + args)


def sqrt(t):
    t = num(t)
    if t.op == "c" and t.args[0] in (0, 1):
        return t
    return _node("sqrt", (t,))


def pow_(a, b):
    a, b = num(a), num(b)
    if b.op == "c":
        e = b.args[0]
        if e == Fraction(1, 2):
            return sqrt(a)
        if isinstance(e, int) and 0 <= e <= 6:
            r = ONE
            for _ in range(e):
                r = mul(r, a)
            return r
        if e == -1:
            return div(ONE, a)
        if a.op == "c" and isinstance(e, int) and abs(e) < 64 and a.args[0] != 0:
            return C(Fraction(a.args[0]) ** e)
    return _node("pow", (a, b))


def wrap32(t):
    t = num(t)
    if t.op == "c":
        return C((t.args[0] + 2**31) % 2**32 - 2**31)
    if t.op in ("wrap32", "w32in"):
        return t
    if t.op == "ite":
        return ite(t.args[0], wrap32(t.args[1]), wrap32(t.args[2]))
    if t.op == "sel" and len(t.args[0].args) > 1 and t.args[0].op == "arr" and t.args[0].args[1] == "i32":
        return t
    t2 = _unwrap(t)
    if t2 is not t:
        return wrap32(t2)
    return _node("wrap32", (t,), int_=True)


def _unwrap(t):
    """modulo 2**32, wrap32 inside an integer polynomial is the identity"""
    if t.op == "wrap32":
        return t.args[0]
    if t.op != "poly" or not t.int_:
        return t
    ch = False
    r = ZERO
    for m, c in t.args:
        f = C(c)
        for a, e in m:
            if a.op == "wrap32":
                a = a.args[0]
                ch = True
            for _ in range(e):
                f = mul(f, a)
        r = add(r, f)
    return r if ch else t


def abs_(t):
    t = num(t)
    if t.op == "c":
        return C(abs(t.args[0]))
    return ite(lt(t, ZERO), neg(t), t)


def _flat(op, ts):
    out = []
    for t in ts:
        t = num(t)
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


def min_(*ts):
    return _minmax("min", ts)


def max_(*ts):
    return _minmax("max", ts)


def _minmax(op, ts):
    ts = _flat(op, ts)
    consts = [t for t in ts if t.op == "c"]
    rest = {t.id: t for t in ts if t.op != "c"}
    out = [rest[k] for k in sorted(rest)]
    if consts:
        f = min if op == "min" else max
        out.append(C(f(t.args[0] for t in consts)))
    if len(out) == 1:
        return out[0]
    return _node(op, tuple(out), int_=all(t.int_ for t in out))


# ---------------------------------------------------------------- conditions
def _normsign(p):
    """divide by |leading coefficient|"""
    d = to_poly(p)
    lead = max((m for m in d if m != ()), key=lambda m: tuple((a.id, e) for a, e in m))
    k = abs(d[lead])
    if k != 1:
        p = from_poly({m: Fraction(c) / k for m, c in d.items()})
    return p, d[lead] > 0


def lt(a, b):
    a, b = num(a), num(b)
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if x.op == "inf":
            if y.op == "inf":
                return C(float(a.args[0]) < float(b.args[0]))
            return C((float(x.args[0]) < 0) if s == 1 else (float(x.args[0]) > 0))
    p = sub(a, b)
    if p.op == "c":
        return C(p.args[0] < 0)
    if p.int_:
        # p < 0  <=>  p + 1 <= 0; scale integer polynomials by their content
        return _le_int(add(p, ONE))
    q, _ = _normsign(p)
    return _node("lt0", (q,), bool_=True)


def le(a, b):
    a, b = num(a), num(b)
    if a.op == "inf" or b.op == "inf":
        return or_(lt(a, b), C(a is b))
    p = sub(a, b)
    if p.op == "c":
        return C(p.args[0] <= 0)
    if p.int_:
        return _le_int(p)
    q, _ = _normsign(p)
    return _node("le0", (q,), bool_=True)


def _le_int(p):
    from math import gcd

    if p.op == "c":
        return C(p.args[0] <= 0)
    d = to_poly(p)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        d = {m: (c // g if m != () else -((-c) // g)) for m, c in d.items()}
        p = from_poly(d)
    return _node("le0", (p,), bool_=True)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "str" or b.op == "str":
        if a.op == b.op:
            return FALSE
        if a.op == "c" or b.op == "c":
            return FALSE
        x, y = sorted((a, b), key=lambda t: t.id)
        return _node("eqs", (x, y), bool_=True)
    if a.bool_ and b.bool_:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = num(a), num(b)
    if a.op == "inf" or b.op == "inf":
        return FALSE
    p = sub(a, b)
    if p.op == "c":
        return C(p.args[0] == 0)
    d = to_poly(p)
    lead = max((m for m in d if m != ()), key=lambda m: tuple((x.id, e) for x, e in m))
    p = from_poly({m: Fraction(c) / d[lead] for m, c in d.items()})
    return _node("eq0", (p,), bool_=True)


def ne(a, b):
    return not_(eq(a, b))


def truth(t):
    if t.bool_:
        return t
    if t.op == "str":
        return C(t.args[0] != "")
    if t.op == "unbound":
        return t
    return ne(t, ZERO)


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":
        return lt(ZERO, t.args[0])
    if t.op == "lt0":
        return le(ZERO, t.args[0])
    r = _NOT.get(t.id)
    if r is not None:
        return r
    if t.op == "and":
        r = or_(*[not_(x) for x in t.args])
    elif t.op == "or":
        r = and_(*[not_(x) for x in t.args])
    else:
        r = _node("not", (t,), bool_=True)
    _NOT[t.id] = r
    return r


_NOT = {}
_ANDOR = {}


def and_(*ts):
    return _andor("and", ts, TRUE, FALSE)


def or_(*ts):
    return _andor("or", ts, FALSE, TRUE)


def _andor(op, ts, unit, zero):
    key = (op,) + tuple(sorted(set(t.id for t in ts)))
    r = _ANDOR.get(key)
    if r is None:
        r = _ANDOR[key] = _andor_(op, ts, unit, zero)
    return r


def _andor_(op, ts, unit, zero):
    d = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if not t.bool_:
            t = truth(t)
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            stack.extend(t.args)
        else:
            d[t.id] = t
    if not d:
        return unit
    for t in d.values():
        n = not_(t)
        if n.id in d:
            return zero
    out = [d[k] for k in sorted(d)]
    # absorption: a and (a or b) = a ; drop disjunctions/conjunctions containing a member
    dual = "or" if op == "and" else "and"
    keep = []
    for t in out:
        if t.op == dual:
            if any(x.id in d for x in t.args):
                continue
            # unit resolution: a and (not a or b) -> a and b
            rem = [x for x in t.args if not_(x).id not in d]
            if len(rem) != len(t.args):
                return _andor(op, [x for x in out if x is not t] + [(_andor(dual, rem, zero, unit))], unit, zero)
        keep.append(t)
    if len(keep) == 1:
        return keep[0]
    # common factor: (g and a) or (g and b) = g and (a or b); dually
    if all(t.op == dual for t in keep):
        common = set(x.id for x in keep[0].args)
        for t in keep[1:]:
            common &= set(x.id for x in t.args)
        if common:
            fac = [x for x in keep[0].args if x.id in common]
            rest = [_andor(dual, [x for x in t.args if x.id not in common], zero, unit) for t in keep]
            return _andor(dual, fac + [_andor(op, rest, unit, zero)], zero, unit)
    return _node(op, tuple(keep), bool_=True)


def ite(c, a, b):
    if not c.bool_:
        c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.bool_ and b.bool_:
        return or_(and_(c, a), and_(not_(c), b))
    sp = ("str", "unbound", "inf", "top")
    if a.op in sp or b.op in sp:
        return _ite_raw(c, a, b)
    if a.bool_ and not (b.bool_):
        a = num(a)
    if b.bool_ and not (a.bool_):
        b = num(b)
    # ite(c, x + p, x + q) = x + ite(c, p, q)
    pa, pb = to_poly(a), to_poly(b)
    common = {m: k for m, k in pa.items() if pb.get(m) == k}
    if common and (len(common) < len(pa) or len(common) < len(pb)):
        if not (len(common) == 1 and () in common):
            ra = from_poly({m: k for m, k in pa.items() if m not in common})
            rb = from_poly({m: k for m, k in pb.items() if m not in common})
            return add(from_poly(common), _ite_raw2(c, ra, rb))
    return _ite_raw2(c, a, b)


def _ite_raw2(c, a, b):
    # canonical polarity for sign conditions: keep as given, but prefer zero in the else branch
    if a is ZERO and b is not ZERO:
        c, a, b = not_(c), b, a
        if c.op == "not":
            return _ite_raw(c.args[0], b, a)
    # nested: ite(c, ite(d, x, y), y) = ite(c and d, x, y)
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    return _ite_raw(c, a, b)


def _ite_raw(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return _node("ite", (c, a, b), int_=a.int_ and b.int_)


# ---------------------------------------------------------------- arrays / calls
def sel(base, *idx):
    """element of an array-valued base (symbol, call output, lam)"""
    idx = tuple(num(i) for i in idx)
    if base.op == "lam":
        return apply_lam(base, idx)
    dt = "f"
    if base.op in ("arr", "out"):
        dt = base.args[1] if base.op == "arr" else base.args[2]
    return _node("sel", (base,) + idx, int_=dt in ("i", "i32", "nat"), bool_=dt == "b")


def call(name, *args):
    return _node("call", (name,) + args)


def out(callterm, key, dtype="f"):
    """one output of an opaque call; dtype 'f','i','b' or with suffix for scalars"""
    return _node("out", (callterm, key, dtype), int_=dtype == "i", bool_=dtype == "b")


# ---------------------------------------------------------------- binders
def _b(h, kind="i"):
    return sym("b%d" % h, kind)


_BINDERS = {"sum", "exists", "last", "firsti", "lasti", "maxr", "minr", "argmax", "argmin", "prod", "kth"}


def _close(v, *bodies):
    h = max(t.h for t in bodies)
    b = _b(h + 1)
    return b, h + 1, [subst(t, {v: b}) for t in bodies]


def _binder(op, v, lo, hi, bodies, int_=False, bool_=False, extra=()):
    b, h, bodies = _close(v, *bodies)
    args = (b, lo, hi) + tuple(bodies) + tuple(extra)
    fv = _EMPTY
    hh = h
    top_ = fold_ = False
    for t in bodies:
        fv = fv | (t.fv - {b.args[0]})
    for t in (lo, hi) + tuple(extra):
        fv = fv | t.fv
        hh = max(hh, t.h)
    for t in (lo, hi) + tuple(extra) + tuple(bodies):
        top_ = top_ or t.top_
        fold_ = fold_ or t.fold_
    return _mk(op, args, hh, fv, int_, bool_, top_, fold_)


def _empty(lo, hi):
    p = sub(hi, lo)
    return p.op == "c" and p.args[0] <= 0


def _single(lo, hi):
    p = sub(hi, lo)
    return p.op == "c" and p.args[0] == 1


def nlen(lo, hi):
    return max_(sub(hi, lo), ZERO)


def solve_for(v, e):
    """e: eq0-normalised polynomial; returns expression for v if it occurs linearly with coefficient +-1"""
    d = to_poly(e)
    k = d.get(((v, 1),))
    if k not in (1, -1):
        return None
    rest = {m: c for m, c in d.items() if m != ((v, 1),)}
    for m in rest:
        for a, _ in m:
            if v.args[0] in a.fv:
                return None
    r = from_poly(rest)
    return neg(r) if k == 1 else r


def _conj(c):
    return list(c.args) if c.op == "and" else [c]


def find_delta(v, cond):
    """a conjunct v == e (e free of v, int) of cond: returns (e, remaining condition)"""
    cs = _conj(cond)
    for i, c in enumerate(cs):
        if c.op == "eq0" and v.args[0] in c.fv:
            e = solve_for(v, c.args[0])
            if e is not None and e.int_:
                return e, and_(*(cs[:i] + cs[i + 1:]))
    # a*v <= e < a*v + a pins v to e // a
    for i, c in enumerate(cs):
        if c.op != "le0" or v.args[0] not in c.fv:
            continue
        d = to_poly(c.args[0])
        a = d.get(((v, 1),))
        if not isinstance(a, int) or a < 2:
            continue
        e = sub(scale(v, a), c.args[0])
        if v.args[0] in e.fv or not e.int_:
            continue
        other = le(sub(e, add(scale(v, a), C(a - 1))), ZERO)
        for j, c2 in enumerate(cs):
            if c2 is other:
                return fdiv(e, C(a)), and_(*[x for k, x in enumerate(cs) if k not in (i, j)])
    return None


def zsplit(t):
    """t = cond ? val : 0"""
    if t is ZERO:
        return FALSE, ZERO
    if t.op == "ite":
        c, a, b = t.args
        if a.op == "ite" or b.op == "ite" or a is ZERO or b is ZERO:
            ca, va = zsplit(a)
            cb, vb = zsplit(b)
            cond = or_(and_(c, ca), and_(not_(c), cb))
            if ca is FALSE:
                return cond, vb
            if cb is FALSE:
                return cond, va
            return cond, ite(c, va, vb)
    return TRUE, t


def sum_(v, lo, hi, body):
    body = num(body)
    lo, hi = num(lo), num(hi)
    if _empty(lo, hi) or body is ZERO:
        return ZERO
    if _single(lo, hi):
        return subst(body, {v: lo})
    if v.args[0] not in body.fv:
        return mul(nlen(lo, hi), body)
    d = to_poly(body)
    out_ = ZERO
    for m, c in d.items():
        inv, dep = {}, []
        for a, e in m:
            if v.args[0] in a.fv:
                dep.append((a, e))
            else:
                inv[a] = e
        factor = from_poly({tuple(sorted(inv.items(), key=lambda ae: ae[0].id)): c})
        if not dep:
            out_ = add(out_, mul(factor, nlen(lo, hi)))
            continue
        # merge ite factors: ite(c, x, 0) * rest
        cond, val = TRUE, ONE
        for a, e in dep:
            if a.op == "ite":
                zc, zv = zsplit(a)
                if zc is not TRUE and (a.args[2] is ZERO and a.args[1].op != "ite" or find_delta(v, zc) is not None):
                    cond = and_(cond, zc)
                    a = zv
                elif a.args[2] is ZERO:
                    cond = and_(cond, a.args[0])
                    a = a.args[1]
            for _ in range(e):
                val = mul(val, a)
        if cond is FALSE:
            continue
        if len(to_poly(val)) > 1:
            out_ = add(out_, mul(factor, sum_(v, lo, hi, ite(cond, val, ZERO) if cond is not TRUE else val)) if cond is TRUE
                       else mul(factor, _sum_guard(v, lo, hi, cond, val)))
            continue
        out_ = add(out_, mul(factor, _sum_guard(v, lo, hi, cond, val)))
    return out_


def _sum_guard(v, lo, hi, cond, val):
    if cond is not TRUE:
        dl = find_delta(v, cond)
        if dl is not None:
            e, rest = dl
            return ite(and_(le(lo, e), lt(e, hi), subst(rest, {v: e})), subst(val, {v: e}), ZERO)
        # conjuncts independent of v move out
        ind = [c for c in _conj(cond) if v.args[0] not in c.fv]
        if ind:
            dep = [c for c in _conj(cond) if v.args[0] in c.fv]
            return ite(and_(*ind), _sum_guard(v, lo, hi, and_(*dep), val), ZERO)
        p = to_poly(val)
        if len(p) > 1:
            r = ZERO
            for m, c in p.items():
                r = add(r, sum_(v, lo, hi, ite(cond, from_poly({m: c}), ZERO)))
            return r
        (m, c), = p.items()
        if c != 1:
            return scale(_sum_guard(v, lo, hi, cond, from_poly({m: 1})), c)
        if m and any(v.args[0] not in a.fv for a, _ in m):
            fac = from_poly({tuple((a, e) for a, e in m if v.args[0] not in a.fv): 1})
            rest = from_poly({tuple((a, e) for a, e in m if v.args[0] in a.fv): 1})
            return mul(fac, _sum_guard(v, lo, hi, cond, rest))
        body = _ite_raw2(cond, val, ZERO)
    else:
        body = val
        if v.args[0] not in body.fv:
            return mul(nlen(lo, hi), body)
    return _binder("sum", v, lo, hi, [body], int_=body.int_)


def prod_(v, lo, hi, body):
    body = num(body)
    if _empty(lo, hi) or body is ONE:
        return ONE
    if _single(lo, hi):
        return subst(body, {v: lo})
    return _binder("prod", v, lo, hi, [body], int_=body.int_)


def exists(v, lo, hi, cond):
    if not cond.bool_:
        cond = truth(cond)
    if cond is FALSE or _empty(lo, hi):
        return FALSE
    if v.args[0] not in cond.fv:
        return and_(cond, lt(lo, hi))
    if _single(lo, hi):
        return subst(cond, {v: lo})
    if cond.op == "or":
        return or_(*[exists(v, lo, hi, c) for c in cond.args])
    dl = find_delta(v, cond)
    if dl is not None:
        e, rest = dl
        return and_(le(lo, e), lt(e, hi), subst(rest, {v: e}))
    if cond.op == "and":
        ind = [c for c in cond.args if v.args[0] not in c.fv]
        if ind:
            return and_(*ind, exists(v, lo, hi, and_(*[c for c in cond.args if v.args[0] in c.fv])))
    return _binder("exists", v, lo, hi, [cond], bool_=True)


def forall(v, lo, hi, cond):
    return not_(exists(v, lo, hi, not_(truth(cond))))


def last(v, lo, hi, cond, val, default):
    """value of val at the last v in [lo, hi) satisfying cond, else default"""
    if not cond.bool_:
        cond = truth(cond)
    if cond is FALSE or _empty(lo, hi) or val is default and v.args[0] not in val.fv:
        return default
    if cond is TRUE:
        return ite(lt(lo, hi), subst(val, {v: sub(hi, ONE)}), default)
    if v.args[0] not in cond.fv:
        return ite(and_(cond, lt(lo, hi)), subst(val, {v: sub(hi, ONE)}), default)
    dl = find_delta(v, cond)
    if dl is not None:
        e, rest = dl
        return ite(and_(le(lo, e), lt(e, hi), subst(rest, {v: e})), subst(val, {v: e}), default)
    if v.args[0] not in val.fv:
        return ite(exists(v, lo, hi, cond), val, default)
    if cond.op == "and":
        ind = [c for c in cond.args if v.args[0] not in c.fv]
        if ind:
            return ite(and_(*ind), last(v, lo, hi, and_(*[c for c in cond.args if v.args[0] in c.fv]), val, default), default)
    boolean = val.bool_ and default.bool_
    return _binder("last", v, lo, hi, [cond, val], int_=val.int_ and default.int_, bool_=boolean, extra=(default,))


def firsti(v, lo, hi, cond, default):
    """first v in [lo, hi) with cond, else default"""
    if cond is FALSE or _empty(lo, hi):
        return default
    if cond is TRUE:
        return ite(lt(lo, hi), lo, default)
    return _binder("firsti", v, lo, hi, [cond], int_=True, extra=(default,))


def lasti(v, lo, hi, cond, default):
    if cond is FALSE or _empty(lo, hi):
        return default
    if cond is TRUE:
        return ite(lt(lo, hi), sub(hi, ONE), default)
    return last(v, lo, hi, cond, v, default)


def reduce_(op, v, lo, hi, body):
    """maxr / minr / argmax / argmin (first) over [lo, hi)"""
    body = num(body)
    if _single(lo, hi):
        return lo if op.startswith("arg") else subst(body, {v: lo})
    if not op.startswith("arg") and v.args[0] not in body.fv:
        return body
    return _binder(op, v, lo, hi, [body], int_=op.startswith("arg") or body.int_)


def kth(v, lo, hi, body, k):
    """the index in [lo, hi) whose value of body has rank k (the first of equal ones first)"""
    if _single(lo, hi):
        return lo
    return _binder("kth", v, lo, hi, [num(body)], int_=True, extra=(k,))


DIMS = {}  # array terms of known dimensions


def lam(vs, dims, body):
    """array as a term: canonical bound variables"""
    h = body.h
    b = [_b(h + 1 + i) for i in range(len(vs))]
    body2 = subst(body, dict(zip(vs, b)))
    fv = body2.fv - {x.args[0] for x in b}
    top_, fold_ = body2.top_, body2.fold_
    hh = h + len(vs)
    for d in dims:
        fv = fv | d.fv
        hh = max(hh, d.h)
    # eta: lam k. sel(A, k) = A
    if body2.op == "sel" and body2.args[1:] == tuple(b) and all(x.args[0] not in body2.args[0].fv for x in b):
        if DIMS.get(body2.args[0]) == tuple(dims):
            return body2.args[0]
    return _mk("lam", (tuple(b), tuple(dims), body2), hh, fv, body2.int_, body2.bool_, top_, fold_)


def apply_lam(l, idx):
    b, dims, body = l.args
    return subst(body, dict(zip(b, idx)))


def fold(v, lo, hi, names, mus, inits, nexts):
    """loop-carried system that has no closed form; compared step-wise, never iterated.
    names: role names; mus: mu symbols (sym/arr terms); returns the fold node"""
    h = max([t.h for t in nexts] + [0])
    b = _b(h + 1)
    ren = {v: b}
    for n, m in zip(names, mus):
        if m.op == "arr":
            ren[m] = arr("mu%d:%s" % (h + 1, n), m.args[1])
        else:
            ren[m] = sym("mu%d:%s" % (h + 1, n), m.args[1])
    nx = tuple(subst(t, ren) for t in nexts)
    bound = {b.args[0]} | {x.args[0] for x in ren.values()}
    fv = _EMPTY
    for t in nx:
        fv = fv | (t.fv - bound)
    for t in inits:
        fv = fv | t.fv
    fv = fv | lo.fv | hi.fv
    hh = max([h + 1, lo.h, hi.h] + [t.h for t in inits])
    top_ = any(t.top_ for t in nx) or any(t.top_ for t in inits)
    return _mk("fold", (b, lo, hi, tuple(names), tuple(ren[m] for m in mus), tuple(inits), nx), hh, fv, False, False, top_, True)


# ---------------------------------------------------------------- substitution
def subst(t, m):
    """simultaneous substitution of symbols (Term sym/arr -> Term)"""
    names = {}
    for k, v in m.items():
        if k is not v:
            names[k.args[0]] = v
    if not names:
        return t
    return _subst(t, names, frozenset(names), {})


def _subst(t, names, keys, memo):
    if not (t.fv & keys):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    op, a = t.op, t.args
    if op == "sym" or op == "arr":
        r = names[a[0]]
        if op == "sym" and t.bool_ and not r.bool_:
            r = truth(r)
    elif op == "poly":
        r = {}
        for mono, c in a:
            f = {(): c}
            simple = True
            for at, e in mono:
                na = _subst(at, names, keys, memo)
                if na is not at:
                    simple = False
            if simple:
                r[mono] = r.get(mono, 0) + c
                continue
            f = C(c)
            for at, e in mono:
                na = _subst(at, names, keys, memo)
                if na.op == "inf":
                    na = _node("grp", (na,))
                for _ in range(e):
                    f = mul(f, na)
            for mm, cc in to_poly(f).items():
                r[mm] = r.get(mm, 0) + cc
        r = from_poly(r)
    elif op in _BINDERS:
        b, lo, hi = a[0], a[1], a[2]
        lo2, hi2 = _subst(lo, names, keys, memo), _subst(hi, names, keys, memo)
        v = fresh("i")
        nb = 2 if op == "last" else 1
        bodies = []
        for body in a[3:3 + nb]:
            body = subst(body, {b: v})
            bodies.append(_subst(body, names, keys, {}))
        ext = [_subst(x, names, keys, memo) for x in a[3 + nb:]]
        if op == "sum":
            r = sum_(v, lo2, hi2, bodies[0])
        elif op == "prod":
            r = prod_(v, lo2, hi2, bodies[0])
        elif op == "exists":
            r = exists(v, lo2, hi2, bodies[0])
        elif op == "last":
            r = last(v, lo2, hi2, bodies[0], bodies[1], ext[0])
        elif op == "firsti":
            r = firsti(v, lo2, hi2, bodies[0], ext[0])
        elif op == "kth":
            r = kth(v, lo2, hi2, bodies[0], ext[0])
        else:
            r = reduce_(op, v, lo2, hi2, bodies[0])
    elif op == "lam":
        bs, dims, body = a
        vs = [fresh("i") for _ in bs]
        body = subst(body, dict(zip(bs, vs)))
        r = lam(vs, [_subst(d, names, keys, memo) for d in dims], _subst(body, names, keys, {}))
    elif op == "fold":
        b, lo, hi, nms, mus, inits, nexts = a
        v = fresh("i")
        ren = {b: v}
        fm = []
        for mu in mus:
            f_ = arr("mu#%d" % next(_fresh), mu.args[1]) if mu.op == "arr" else sym("mu#%d" % next(_fresh), mu.args[1])
            ren[mu] = f_
            fm.append(f_)
        nx = [_subst(subst(x, ren), names, keys, {}) for x in nexts]
        r = fold(v, _subst(lo, names, keys, memo), _subst(hi, names, keys, memo), nms, fm,
                 [_subst(x, names, keys, memo) for x in inits], nx)
    else:
        na = tuple(_subst(x, names, keys, memo) if isinstance(x, Term) else x for x in a)
        r = rebuild(op, na, t)
        if op == "out" and r is not t and t in DIMS and r not in DIMS:
            DIMS[r] = tuple(_subst(d, names, keys, memo) for d in DIMS[t])
    memo[t.id] = r
    return r


def rebuild(op, a, t):
    if op == "ite":
        return ite(*a)
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "not":
        return not_(a[0])
    if op == "lt0":
        return lt(a[0], ZERO)
    if op == "le0":
        return le(a[0], ZERO)
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "eqs":
        return eq(a[0], a[1])
    if op == "sel":
        return sel(a[0], *a[1:])
    if op == "recip":
        return div(ONE, a[0])
    if op == "fdiv":
        return fdiv(*a)
    if op == "mod":
        return mod(*a)
    if op == "trunc":
        return trunc(a[0])
    if op == "floor":
        return floor(a[0])
    if op == "sqrt":
        return sqrt(a[0])
    if op == "pow":
        return pow_(*a)
    if op == "min":
        return min_(*a)
    if op == "max":
        return max_(*a)
    if op == "wrap32":
        return wrap32(a[0])
    if op == "grp":
        return a[0] if len(to_poly(a[0])) <= 1 or a[0].op == "inf" else _node("grp", a, int_=a[0].int_)
    if op == "round":
        return rnd(*a)
    if op == "add?":
        return add(*a)
    return _node(op, a, int_=t.int_, bool_=t.bool_)


# ---------------------------------------------------------------- traversal / printing
def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == "poly":
            for m, _ in x.args:
                stack.extend(a for a, _ in m)
        else:
            for a in x.args:
                if isinstance(a, Term):
                    stack.append(a)
                elif isinstance(a, tuple):
                    stack.extend(y for y in a if isinstance(y, Term))


def show(t, depth=12):
    if depth == 0:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, depth - 1) if isinstance(x, Term) else str(x)
    if op == "c":
        v = a[0]
        return str(v) if isinstance(v, int) else ("%g" % float(v))
    if op in ("sym", "arr"):
        return a[0]
    if op == "str":
        return repr(a[0])
    if op == "poly":
        parts = []
        for m, c in a:
            ms = "*".join(s(x) + ("^%d" % e if e != 1 else "") for x, e in m)
            if not ms:
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append("-" + ms)
            else:
                parts.append("%s*%s" % (c if isinstance(c, int) else "%g" % float(c), ms))
        return "(" + " + ".join(parts) + ")"
    if op == "sel":
        return "%s[%s]" % (s(a[0]), ",".join(s(x) for x in a[1:]))
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    if op in ("lt0", "le0", "eq0"):
        return "%s%s0" % (s(a[0]), {"lt0": "<", "le0": "<=", "eq0": "=="}[op])
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(x) for x in a) + ")"
    if op in _BINDERS:
        return "%s{%s in [%s,%s)}(%s)" % (op, s(a[0]), s(a[1]), s(a[2]), "; ".join(s(x) for x in a[3:]))
    if op == "lam":
        return "[%s<%s: %s]" % (",".join(s(x) for x in a[0]), ",".join(s(x) for x in a[1]), s(a[2]))
    if op == "fold":
        return "fold{%s in [%s,%s)}(%s)" % (s(a[0]), s(a[1]), s(a[2]), ", ".join("%s:=%s" % (n, s(x)) for n, x in zip(a[3], a[6])))
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))
