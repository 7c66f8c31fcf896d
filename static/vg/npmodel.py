"""Expressions, Python builtins and the numpy / pandas subset of the abstract interpreter."""
import ast
import inspect
import re

from . import terms as T
from .arrays import LB, Unsupported, decide, nonneg
from .terms import FALSE, ONE, TRUE, ZERO, Term
from .values import Arr, Builtin, Content, Func, K, Masked, NONE, Ref, Rng, Slice, State, Tup, When, Zip

BUILTINS = {"range", "len", "sum", "any", "all", "min", "max", "abs", "int", "float", "round", "enumerate", "zip", "list",
            "tuple", "dict", "set", "sorted", "map", "print", "pow", "str", "bool", "isinstance", "open", "reversed",
            "divmod", "filter", "type", "repr", "ValueError", "TypeError", "IndexError", "RuntimeError", "next", "iter",
            "Exception", "KeyError", "slice", "hasattr", "getattr", "NotImplementedError", "__file__", "frozenset"}
PURE = {"len", "int", "float", "print", "range", "sum", "any", "all", "min", "max", "abs", "round", "enumerate", "zip", "isinstance", "str", "list", "tuple", "sorted", "pow", "bool"}
PURE_METHODS = {"copy", "sum", "any", "all", "min", "max", "astype", "argmax", "argmin", "argsort", "strip", "split", "write", "to_numpy", "tolist", "item", "format", "clip", "mean", "dot", "nonzero", "reshape", "flatten", "ravel", "cumsum", "random"}

WRITERS = {"fill_diagonal", "put", "copyto", "place", "putmask", "put_along_axis", "shuffle", "at", "fill", "sort", "partition", "itemset", "setflags", "setfield"}

FILE_SEQ = 0
PLAIN = set()  # texts put together without format specifications


def unbound_when(t, memo=None):
    """condition under which a variable has not been assigned"""
    if t.op == "unbound":
        return T.TRUE
    if t.op != "ite":
        return T.FALSE
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        x, y = unbound_when(t.args[1], memo), unbound_when(t.args[2], memo)
        r = memo[t.id] = T.FALSE if x is y is T.FALSE else T.or_(T.and_(t.args[0], x), T.and_(T.not_(t.args[0]), y))
    return r


def plain(p):
    """the text of a path of constant parts"""
    if isinstance(p, Term) and p.op == "call" and p.args[0] == "path" and all(x.op == "str" for x in p.args[1:]):
        return T.S("/".join(x.args[0] for x in p.args[1:]))
    return p


def path(*parts):
    """file path: the parts joined"""
    out = []
    for p in parts:
        if p.op == "call" and p.args[0] == "path":
            out.extend(p.args[1:])
        elif p.op == "str":
            out.extend(T.S(x) for x in p.args[0].split("/") if x not in ("", "."))
        else:
            out.append(p)
    return T.call("path", *out)


OPERATORS = dict(mul=ast.Mult, add=ast.Add, sub=ast.Sub, truediv=ast.Div, floordiv=ast.FloorDiv, mod=ast.Mod, matmul=ast.MatMult)


class ImpureComp(Exception):
    pass


def last_wins(items):
    """entries of a dictionary: of equal keys the later value counts, at the place of the earlier one"""
    out = {}
    for k, v in items:
        out[k] = v
    return tuple(out.items())


def float_literal(x):
    """does the expression hold a number written with a decimal point, so that an array made of it holds floating-point numbers?"""
    if isinstance(x, ast.Constant):
        return isinstance(x.value, float)
    if isinstance(x, (ast.List, ast.Tuple)):
        return any(float_literal(y) for y in x.elts)
    if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
        return float_literal(x.elt)
    if isinstance(x, ast.UnaryOp):
        return not isinstance(x.op, ast.Not) and float_literal(x.operand)
    if isinstance(x, ast.BinOp):
        return float_literal(x.left) or float_literal(x.right)
    if isinstance(x, ast.IfExp):
        return float_literal(x.body) and float_literal(x.orelse)
    return False


def literal(x):
    return all(not isinstance(y, (ast.Name, ast.Call, ast.Subscript)) for y in ast.walk(x))


class NpMixin:
    # ------------------------------------------------------------ expressions
    def expr(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st, fr)

    def truth(self, v, st):
        if isinstance(v, Term):
            if v.op == "none":
                return FALSE
            if v.op == "top":
                raise Unsupported("condition: " + v.args[0])
            return decide(T.truth(v))
        if isinstance(v, Arr):
            if not v.dims:
                return T.truth(self.read(st, v, []))
            if all(d is ONE for d in v.dims):
                return T.truth(self.read(st, v, [ZERO] * len(v.dims)))
            raise Unsupported("truth of array")
        its = self.seq_items(st, v) if not isinstance(v, (Func, Builtin)) else None
        if its is not None:
            return TRUE if its else FALSE
        if isinstance(v, Masked) or isinstance(v, (Ref, Rng)) and not (isinstance(v, Ref) and v.kind not in ("list", "dict")):
            try:
                return decide(T.truth(self.b_len([v], {}, st, None)))
            except Unsupported:
                pass
        if isinstance(v, (Func, Builtin)):
            return TRUE
        raise Unsupported("truth of %s" % type(v).__name__)

    def name(self, n, st, fr, node=None):
        if n in st.env:
            return st.env[n]
        cl = getattr(fr, "closure", None)
        if cl and n in cl:
            return cl[n]
        v = self.lookup_global(fr.mod, n, st)
        if v is None:
            return T.UNBOUND
        return v

    def e_Name(self, e, st, fr):
        v = self.name(e.id, st, fr, e)
        c = T.FALSE
        if isinstance(v, Term):
            if v.op == "ite":
                c = unbound_when(v)
        else:
            c = st.env.get("?" + e.id, T.FALSE)
        if c is not T.FALSE:
            st.err = T.or_(st.err, c)
        return v

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return "..."
        if isinstance(v, str):
            return T.S(v)
        if isinstance(v, bytes):
            return T.S(repr(v))
        if isinstance(v, complex):
            raise Unsupported("complex")
        return T.C(v)

    def e_Tuple(self, e, st, fr):
        return Tup(self.elts(e.elts, st, fr))

    def e_List(self, e, st, fr):
        return self.mk_list(st, self.elts(e.elts, st, fr))

    def e_Set(self, e, st, fr):
        return Tup(self.elts(e.elts, st, fr))

    def elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.seq_items(st, self.expr(x.value, st, fr))
                if it is None:
                    raise Unsupported("star")
                out += it
            else:
                out.append(self.expr(x, st, fr))
        return out

    def e_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict **")
            kt = self.expr(k, st, fr)
            items.append((self.dict_key(kt), self.expr(v, st, fr)))
        oid = self.new_oid()
        st.heap[oid] = last_wins(items)
        return Ref("dict", oid)

    def dict_key(self, kt):
        if isinstance(kt, Term) and kt.op == "str":
            return kt.args[0]
        if isinstance(kt, Term) and kt.op == "c":
            return kt.args[0]
        if kt is TRUE or kt is FALSE:
            return 1 if kt is TRUE else 0  # equal keys
        if isinstance(kt, Tup):
            return tuple(self.dict_key(x) for x in kt.items)
        raise Unsupported("dict key")

    def const_dict_key(self, kt):
        if isinstance(kt, Tup):
            return all(self.const_dict_key(x) for x in kt.items)
        return isinstance(kt, Term) and (kt.op in ("str", "c") or kt is TRUE or kt is FALSE)

    def key_is(self, key, k):
        """condition under which a key of unknown value is the known one"""
        if isinstance(k, When):
            return T.and_(k.cond, self.key_is(key, k.key))
        if isinstance(k, tuple):
            if not isinstance(key, Tup) or len(key.items) != len(k):
                return FALSE
            return T.and_(*[self.key_is(x, y) for x, y in zip(key.items, k)])
        if not isinstance(key, Term):
            return FALSE
        if isinstance(k, Term):
            return T.eq(key, k)
        if key.bool_ and not isinstance(k, str):
            return key if k == 1 else T.not_(key) if k == 0 else FALSE
        return T.eq(key, self.key_term(k))

    def pick(self, st, cases, other):
        """the value of the first case whose condition holds"""
        from .interp import _Merge

        r = other
        for c, v in reversed(cases):
            if c is FALSE:
                continue
            if c is TRUE or r is None:
                r = v
                continue
            if isinstance(v, Term) and isinstance(r, Term):
                r = T.ite(c, v, r)
                continue
            out = State()
            out.heap = st.heap
            r = _Merge(self, c, st, st, out).value(v, r)
        return T.UNBOUND if r is None else r

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.expr(e.test, st, fr), st)
        if c is TRUE:
            return self.expr(e.body, st, fr)
        if c is FALSE:
            return self.expr(e.orelse, st, fr)
        # operands are pure in the supported subset; errors are gated
        a, b = st.copy(), st.copy()
        x = self.expr(e.body, a, fr)
        y = self.expr(e.orelse, b, fr)
        imp = self.impure(st, a) or self.impure(st, b)
        for o in (a, b):
            for k, v in o.heap.items():
                if k not in st.heap:
                    st.heap[k] = v
        st.err = a.err if a.err is b.err else T.ite(c, a.err, b.err)
        if imp:
            m = self.merge(c, a, b)
            self.adopt(st, m)
        if isinstance(x, Term) and isinstance(y, Term):
            return T.ite(c, x, y)
        from .interp import _Merge

        out = State()
        m = _Merge(self, c, a, b, out)
        m.heap()
        r = m.value(x, y)
        st.heap = out.heap
        return r

    def e_BoolOp(self, e, st, fr):
        vals = []
        is_and = isinstance(e.op, ast.And)
        guard = TRUE
        err = st.err
        raws = []
        for x in e.values:
            before = None if guard is TRUE else st.copy()
            st.err = FALSE
            raw = self.expr(x, st, fr)
            raws.append(raw)
            v = self.truth(raw, st)
            err = T.or_(err, T.and_(guard, st.err))
            if before is not None and self.impure(before, st):
                # a later operand is evaluated only if the earlier ones let it
                self.adopt(st, self.merge(guard, st, before))
            vals.append(v)
            guard = T.and_(guard, v if is_and else T.not_(v))
            if guard is FALSE:
                break
        st.err = err
        if all(isinstance(r, Term) and r.bool_ for r in raws[:-1]) and isinstance(raws[-1], Term) and (raws[-1].bool_ or raws[-1].top_):
            return T.and_(*vals) if is_and else T.or_(*vals)
        # the value of the operand that decides
        r = raws[-1]
        for v, x in reversed(list(zip(vals[:-1], raws[:-1]))):
            c = T.not_(v) if is_and else v
            if c is TRUE:
                r = x
            elif c is not FALSE:
                if isinstance(x, Term) and isinstance(r, Term):
                    r = T.ite(c, x, r)
                else:
                    return T.and_(*vals) if is_and else T.or_(*vals)
        return r

    def adopt(self, st, m):
        st.heap, st.eff = m.heap, m.eff
        if any(st.env.get(k) is not v for k, v in m.env.items()):
            st.env.clear()
            st.env.update(m.env)

    def impure(self, before, st):
        """has an evaluation changed an object that existed before, a variable, or had an effect?"""
        if len(st.eff) != len(before.eff) or any(a is not b for a, b in zip(st.eff, before.eff)):
            return True
        if any(st.heap.get(k) is not c for k, c in before.heap.items()):
            return True
        return any(st.env.get(k) is not c for k, c in before.env.items()) or len(st.env) != len(before.env)

    def e_UnaryOp(self, e, st, fr):
        v = self.expr(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return T.not_(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Term):
                return v if v.top_ and v.op == "top" else T.neg(v)
            return self.elementwise(st, T.neg, [v])
        if isinstance(e.op, ast.UAdd):
            return v
        # ~
        if isinstance(v, Term) and not v.bool_:
            return T.sub(T.neg(v), ONE)
        return self.elementwise(st, lambda x: T.not_(x) if x.bool_ else T.sub(T.neg(x), ONE), [v])

    def e_BinOp(self, e, st, fr):
        a = self.expr(e.left, st, fr)
        b = self.expr(e.right, st, fr)
        return self.binop(e.op, a, b, st)

    def e_NamedExpr(self, e, st, fr):
        v = self.expr(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    OPS = {
        ast.Add: T.add, ast.Sub: T.sub, ast.Mult: T.mul, ast.Div: T.div, ast.FloorDiv: T.fdiv, ast.Mod: T.mod, ast.Pow: T.pow_,
    }

    def texty(self, t):
        return t.op in ("str", "fmt") or t.op == "fn" and t.args[0].startswith("str") or t.op == "sel" and t.args[0].op == "arr" and t.args[0].args[1] == "o"

    def binop(self, op, a, b, st):
        if isinstance(a, Term) and a.op == "top":
            return a
        if isinstance(b, Term) and b.op == "top":
            return b
        if isinstance(op, ast.MatMult):
            return self.matmul(st, a, b)
        if isinstance(op, ast.Div) and isinstance(a, Term) and a.op == "call" and a.args[0] == "path":
            return path(a, b)
        if isinstance(op, ast.Add) and isinstance(a, Term) and isinstance(b, Term) and self.texty(a) and self.texty(b):
            return self.cat(a, b)
        if isinstance(a, Term) and (a.op == "str" or a.op == "fmt"):
            if isinstance(op, ast.Mod):
                return self.fmt_percent(a, b, st)
            if isinstance(op, ast.Add) and isinstance(b, Term):
                return self.cat(a, b)
            if isinstance(op, ast.Mult) and isinstance(b, Term) and b.op == "c":
                return T.S(a.args[0] * b.args[0]) if a.op == "str" else T.top("str *")
        if isinstance(b, Term) and b.op in ("str", "fmt") and isinstance(op, ast.Add) and isinstance(a, Term):
            return self.cat(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                its = None
                if isinstance(y, Term) and (isinstance(x, Tup) or isinstance(x, Ref) and x.kind == "list"):
                    its = self.seq_items(st, x)
                    if its is not None:
                        if y.op == "c":
                            return self.mk_list(st, its * y.args[0])
                        if len(its) == 1 and isinstance(its[0], Term):
                            oid = self.new_oid()
                            st.heap[oid] = Content([y], self.val_dtype(st, its[0]), its[0])
                            return Ref("list", oid)
        if isinstance(op, ast.Add) and isinstance(a, (Tup, Ref)) and isinstance(b, (Tup, Ref)):
            x, y = self.seq_items(st, a), self.seq_items(st, b)
            if x is None or y is None:
                p, q = self.to_array(st, a), self.to_array(st, b)
                r = self.concat(st, [p, q])
                return Ref("list", r.oid)
            return Tup(x + y) if isinstance(a, Tup) else self.mk_list(st, x + y)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            def f(x, y):
                if not (x.bool_ and y.bool_):
                    raise Unsupported("bit operation")
                if isinstance(op, ast.BitAnd):
                    return T.and_(x, y)
                if isinstance(op, ast.BitOr):
                    return T.or_(x, y)
                return T.or_(T.and_(x, T.not_(y)), T.and_(T.not_(x), y))
        elif isinstance(op, (ast.LShift, ast.RShift)):
            def f(x, y):
                p = T.pow_(T.C(2), y)
                return T.mul(x, p) if isinstance(op, ast.LShift) else T.fdiv(x, p)
        else:
            f = self.OPS.get(type(op))
            if f is None:
                raise Unsupported("operator")
        if isinstance(a, Term) and isinstance(b, Term):
            for x in (a, b):
                if x.op in ("none",):
                    raise Unsupported("None arithmetic")
            return f(a, b)
        return self.elementwise(st, f, [a, b])

    def e_Compare(self, e, st, fr):
        l = self.expr(e.left, st, fr)
        out = None
        for op, r in zip(e.ops, e.comparators):
            r = self.expr(r, st, fr)
            c = self.compare(op, l, r, st)
            out = c if out is None else T.and_(self.truth(out, st), self.truth(c, st))
            l = r
        return out

    CMP = {ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: T.gt, ast.GtE: T.ge, ast.Eq: T.eq, ast.NotEq: T.ne}

    def compare(self, op, l, r, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if r is NONE or l is NONE:
                same = l is NONE and r is NONE
                if isinstance(l, Term) and l.op in ("ite", "top", "unbound"):
                    raise Unsupported("is None")
                return T.C(same if isinstance(op, ast.Is) else not same)
            if isinstance(l, Term) and isinstance(r, Term):
                c = T.eq(l, r)
                return c if isinstance(op, ast.Is) else T.not_(c)
            if l is r or isinstance(l, Arr) and isinstance(r, Arr) and l.oid != r.oid:
                return T.C((l is r) == isinstance(op, ast.Is))
            raise Unsupported("is")
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(r, Ref) and r.kind == "dict" and not (self.const_dict_key(l) and self.known_keys(st.heap[r.oid] or ())):
                c = self.dict_has(r, l, st)
                return c if isinstance(op, ast.In) else T.not_(c)
            its = self.seq_items(st, r)
            if its is None:
                if isinstance(r, (Arr, Masked)):
                    sp, cond, val, dt = self.space(st, r)
                    c = self.reduce_space("any", sp, cond, T.eq(val, l))
                    return c if isinstance(op, ast.In) else T.not_(c)
                if isinstance(r, Rng) and r.step == 1:
                    c = T.and_(T.le(r.lo, l), T.lt(l, r.hi))
                    return c if isinstance(op, ast.In) else T.not_(c)
                if isinstance(r, Term) and r.op == "str" and isinstance(l, Term) and l.op == "str":
                    return T.C((l.args[0] in r.args[0]) == isinstance(op, ast.In))
                raise Unsupported("in")
            c = T.or_(*[T.eq(l, x) for x in its]) if its else FALSE
            return c if isinstance(op, ast.In) else T.not_(c)
        f = self.CMP[type(op)]
        if isinstance(l, Term) and isinstance(r, Term):
            for x in (l, r):
                if x.op == "top":
                    return x
            if f in (T.eq, T.ne) and (l.op == "c" or r.op == "c") and (l.int_ or r.int_) and (nonneg(T.sub(T.sub(r, l), ONE)) or nonneg(T.sub(T.sub(l, r), ONE))):
                return T.C(f is T.ne)
            if (l.op == "none" or r.op == "none") and f in (T.eq, T.ne):
                return T.C((l is r) == (f is T.eq))
            return f(l, r)
        if isinstance(l, (Tup, Ref)) and isinstance(r, (Tup, Ref)):
            a, b = self.seq_items(st, l), self.seq_items(st, r)
            if a is not None and b is not None and f in (T.eq, T.ne):
                c = T.and_(*[T.eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
                return c if f is T.eq else T.not_(c)
        return self.elementwise(st, f, [l, r], "b")

    # ------------------------------------------------------------ subscripts
    def index_items(self, sl, st, fr):
        if isinstance(sl, ast.Tuple):
            return [self.index_item(x, st, fr) for x in sl.elts]
        v = self.index_item(sl, st, fr)
        if isinstance(v, Tup) and not isinstance(sl, ast.Slice):
            # A[(i, j)] / A[np.nonzero(..)]
            return list(v.items)
        return [v]

    def index_item(self, x, st, fr):
        if isinstance(x, ast.Slice):
            f = lambda y: None if y is None else self.scalar(self.expr(y, st, fr), st)
            return Slice(f(x.lower), f(x.upper), f(x.step))
        return self.expr(x, st, fr)

    def scalar(self, v, st):
        if isinstance(v, Arr) and not v.dims:
            return self.read(st, v, [])
        if isinstance(v, Arr) and all(d is ONE for d in v.dims):
            return self.read(st, v, [ZERO] * len(v.dims))
        if isinstance(v, Term):
            return v
        raise Unsupported("scalar expected")

    def e_Subscript(self, e, st, fr):
        base = self.expr(e.value, st, fr)
        items = self.index_items(e.slice, st, fr)
        return self.subscript(base, items, st)

    def subscript(self, base, items, st):
        if isinstance(base, Term):
            if base.op == "top":
                return base
            return self.str_index(base, items, st)
        if isinstance(base, Arr):
            return self.getitem(st, base, items)
        if isinstance(base, Masked):
            if len(items) == 1 and len(base.dims) == 1 and isinstance(items[0], (Term, Slice)):
                i = items[0]
                v, w = T.fresh("i"), T.fresh("i")
                LB[v.args[0]] = LB[w.args[0]] = 0
                c = T.subst(base.cond, {K[0]: v})
                count = T.sum_(v, ZERO, base.dims[0], T.num(c))
                if isinstance(i, Slice):
                    if i.step not in (None, NONE, ONE):
                        raise Unsupported("index of selection")
                    rank = T.sum_(w, ZERO, K[0], T.num(T.subst(base.cond, {K[0]: w})))
                    g = [base.cond]
                    for e, f in ((i.lo, lambda x: T.le(x, rank)), (i.hi, lambda x: T.lt(rank, x))):
                        if e not in (None, NONE):
                            g.append(f(T.ite(T.lt(e, ZERO), T.add(count, e), e)))
                    return Masked(base.dims, T.and_(*g), base.val, base.dtype)
                if i.op == "c" and i.args[0] == -1:
                    st.err = T.or_(st.err, T.not_(T.exists(v, ZERO, base.dims[0], c)))
                    return T.last(v, ZERO, base.dims[0], c, T.subst(base.val, {K[0]: v}), T.UNBOUND)
                if i.op == "c" and i.args[0] == 0:
                    p = T.firsti(v, ZERO, base.dims[0], c, T.C(-1))
                    st.err = T.or_(st.err, T.not_(T.exists(v, ZERO, base.dims[0], c)))
                    return T.subst(base.val, {K[0]: p})
                if not i.bool_:
                    k = T.ite(T.lt(i, ZERO), T.add(count, i), i)
                    st.err = T.or_(st.err, T.lt(k, ZERO), T.le(count, k))
                    return T.subst(base.val, {K[0]: T.kth(v, ZERO, base.dims[0], T.ite(c, ZERO, ONE), k)})
            raise Unsupported("index of selection")
        if isinstance(base, (Tup, Rng, Zip)) or isinstance(base, Ref) and base.kind in ("list", "dict"):
            if isinstance(base, Ref) and base.kind == "dict":
                return self.dict_get(base, items[0] if len(items) == 1 else Tup(items), st)
            its = self.seq_items(st, base)
            if its is None:
                if isinstance(base, Ref) and isinstance(st.heap[base.oid], Content):
                    c = st.heap[base.oid]
                    return self.getitem(st, Arr(base.oid, c.dims), items)
                if isinstance(base, Rng):
                    return self.subscript(self.to_array(st, base), items, st)
                raise Unsupported("index of dynamic list")
            i = items[0]
            if isinstance(i, Slice):
                g = lambda x: None if x in (None, NONE) else x.args[0] if x.op == "c" else self.bad("slice")
                r = its[slice(g(i.lo), g(i.hi), g(i.step))]
                return Tup(r) if isinstance(base, Tup) else self.mk_list(st, r)
            if isinstance(i, Term) and i.op == "c":
                if not -len(its) <= i.args[0] < len(its):
                    st.err = TRUE
                    return T.UNBOUND
                return its[i.args[0]]
            if isinstance(i, Term):
                if its and not all(isinstance(x, Term) for x in its) and len(its) <= 16:
                    n = len(its)
                    cases = [(T.or_(T.eq(i, T.C(j)), T.eq(i, T.C(j - n))), x) for j, x in enumerate(its)]
                    st.err = T.or_(st.err, T.not_(T.or_(*[c for c, _ in cases])))
                    return self.pick(st, cases, None)
                a = self.to_array(st, base)
                return self.getitem(st, a, [i])
            raise Unsupported("list index")
        if isinstance(base, Ref) and base.kind == "table":
            col = self.text(items[0])
            if isinstance(col, Term) and col.op == "str":
                return self.column(base, col.args[0], st)
            if isinstance(col, Ref):
                its = [self.text(x) for x in self.seq_items(st, col) or ()]
                if its and all(isinstance(x, Term) and x.op == "str" for x in its):
                    cols = [self.column(base, x.args[0], st) for x in its]
                    bodies = [self.body(st, c) for c in cols]
                    b = bodies[-1]
                    for i in range(len(bodies) - 2, -1, -1):
                        b = T.ite(T.eq(K[1], T.C(i)), bodies[i], b)
                    return self.new(st, [cols[0].dims[0], T.C(len(cols))], "f", b)
        if isinstance(base, Ref) and base.kind == "mapping":
            return self.map_lookup(st.heap[base.oid], items[0], st)
        raise Unsupported("subscript of %s" % (base.kind if isinstance(base, Ref) else type(base).__name__))

    def bad(self, m):
        raise Unsupported(m)

    def const_key(self, p):
        return bool(p) and (isinstance(p[0], Tup) or isinstance(p[0], Term) and p[0].op in ("c", "str"))

    def mapping(self, spaces, g, kf, vf, st):
        """dictionary over the elements of a sequence of any length: of equal keys the last one counts"""
        if len(spaces) != 1 or spaces[0][2] or spaces[0][0] is not ZERO:
            raise Unsupported("dict()")
        v = T.fresh("i")
        LB[v.args[0]] = 0
        n = spaces[0][1]
        self.upper[v.args[0]] = n
        s2 = st.copy()
        cond, el = g([v], s2)
        k = kf(el, s2)
        x = vf(el, s2)
        if not isinstance(k, Term) or not isinstance(x, Term) or s2.eff is not st.eff:
            raise Unsupported("dict()")
        oid = self.new_oid()
        st.heap[oid] = ("mapping", v, n, cond, k, x)
        return Ref("mapping", oid)

    def map_lookup(self, m, key, st):
        _, v, n, cond, k, x = m
        if not isinstance(key, Term):
            raise Unsupported("dict key")
        w = T.fresh("i")
        LB[w.args[0]] = 0
        sub = {v: w}
        c = T.and_(T.subst(cond, sub), T.eq(T.subst(k, sub), key))
        st.err = T.or_(st.err, T.not_(T.exists(w, ZERO, n, c)))
        return T.last(w, ZERO, n, c, T.subst(x, sub), T.UNBOUND)

    def sym_key(self, kt):
        """key of known or unknown value"""
        if self.const_dict_key(kt):
            return self.dict_key(kt)
        if isinstance(kt, Tup):
            return tuple(self.sym_key(x) for x in kt.items)
        if isinstance(kt, Term) and kt.op not in ("top", "unbound"):
            return kt
        raise Unsupported("dict key")

    def known_keys(self, c):
        def known(k):
            return all(known(x) for x in k) if isinstance(k, tuple) else not isinstance(k, (Term, When))

        return all(known(k) for k, _ in c)

    def dict_has(self, base, key, st):
        c = st.heap[base.oid]
        if not isinstance(c, tuple):
            raise Unsupported("dict unknown")
        return T.or_(*[self.key_is(key, k) for k, _ in c]) if c else FALSE

    def dict_put(self, base, key, v, st):
        c = st.heap[base.oid]
        if not isinstance(c, tuple):
            raise Unsupported("dict unknown")
        k = self.sym_key(key)
        if self.known_keys(c) and self.const_dict_key(key):
            out = [(kk, v if kk == k else vv) for kk, vv in c]
        else:
            out = [(kk, v if kk == k else self.pick(st, [(self.key_is(key, kk), v)], vv)) for kk, vv in c]
        if not any(kk == k for kk, _ in c):
            out.append((k, v))
        st.heap[base.oid] = tuple(out)

    def dict_get(self, base, key, st):
        c = st.heap[base.oid]
        if not isinstance(c, tuple):
            raise Unsupported("dict unknown")
        if not self.const_dict_key(key) or not self.known_keys(c):
            cases = [(self.key_is(key, k), v) for k, v in c]
            if base.oid not in self.given:
                st.err = T.or_(st.err, T.not_(T.or_(*[x for x, _ in cases])))
            elif not all(isinstance(v, Term) for _, v in cases):
                raise Unsupported("dict key")
            return self.pick(st, cases, None if not all(isinstance(v, Term) for _, v in cases) else T.UNBOUND)
        k = self.dict_key(key)
        for kk, v in c:
            if kk == k and type(kk) == type(k):
                return v
        if base.oid in self.given:
            raise Unsupported("the parameter has no entry %s" % k)
        st.err = TRUE
        return T.UNBOUND

    def str_index(self, base, items, st):
        if base.op == "str" and len(items) == 1:
            i = items[0]
            g = lambda x: None if x in (None, NONE) else x.args[0] if x.op == "c" else self.bad("str slice")
            if isinstance(i, Slice):
                return T.S(base.args[0][slice(g(i.lo), g(i.hi), g(i.step))])
            return T.S(base.args[0][g(i)])
        if len(items) == 1:
            i = items[0]
            if isinstance(i, Slice) and self.is_split(base):
                a = self.to_array(st, self.pieces(st, base))
                return Ref("list", self.copy_arr(st, self.getitem(st, a, items)).oid)
            if isinstance(i, Slice):
                z = lambda x: NONE if x is None else x
                return T.fn("strslice", base, z(i.lo), z(i.hi), z(i.step))
            if isinstance(i, Term) and self.is_split(base) and i.op == "c" and i.args[0] < 0:
                i = T.add(self.parts(base), i)
            if isinstance(i, Term):
                if base.op == "fn" and base.args[0] == "split":
                    return T.call("item", base, i) if not (base.op == "x") else None
                return T.fn("stritem", base, i)
        raise Unsupported("index of scalar")

    def set_subscript(self, base, items, v, st):
        if isinstance(base, Arr):
            return self.setitem(st, base, items, v)
        if isinstance(base, Ref) and base.kind == "dict":
            c = st.heap[base.oid]
            if not isinstance(c, tuple):
                raise Unsupported("dict unknown")
            return self.dict_put(base, items[0] if len(items) == 1 else Tup(items), v, st)
        if isinstance(base, Ref) and base.kind == "list":
            c = st.heap[base.oid]
            i = items[0]
            if isinstance(c, list) and isinstance(i, Slice):
                g = lambda x: None if x in (None, NONE) else x.args[0] if x.op == "c" else self.bad("slice")
                new = self.seq_items(st, v)
                if new is None:
                    raise Unsupported("store into list")
                c = list(c)
                c[slice(g(i.lo), g(i.hi), g(i.step))] = new
                st.heap[base.oid] = c
                return
            if isinstance(c, list) and isinstance(i, Term) and i.op == "c" and -len(c) <= i.args[0] < len(c):
                c = list(c)
                c[i.args[0]] = v
                st.heap[base.oid] = c
                return
            if isinstance(c, list) and isinstance(i, Term) and isinstance(v, Term) and all(isinstance(x, Term) for x in c):
                st.heap[base.oid] = [T.ite(T.eq(i, T.C(j)), v, x) for j, x in enumerate(c)]
                return
            if isinstance(c, Content):
                a = Arr(base.oid, c.dims)
                if c.dtype == "i" and self.val_dtype(st, v) == "f":
                    st.heap[base.oid] = Content(c.dims, "f", c.body)
                return self.setitem(st, a, items, v)
        if isinstance(base, Term) and base.top_:
            return self.written_through(st, base)
        raise Unsupported("store into %s" % type(base).__name__)

    def func_attr(self, f, a, st):
        """cell of an attribute of a function; module-level statements may set it"""
        init = T.UNBOUND
        for n in f.mod.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and t.value.id == f.name for t in n.targets):
                init = n.value
        return self.cell(("attr", f.mod.name, f.name, a), init, f.mod, st)

    def b_hasattr(self, a, kw, st, fr):
        if isinstance(a[0], Func) and isinstance(a[1], Term) and a[1].op == "str":
            v = self.func_attr(a[0], a[1].args[0], st)[0]
            if not isinstance(v, Term) or v.op not in ("ite", "top"):
                return T.C(v is not T.UNBOUND)
        raise Unsupported("hasattr")

    def b_getattr(self, a, kw, st, fr):
        if isinstance(a[0], Func) and isinstance(a[1], Term) and a[1].op == "str":
            v = self.func_attr(a[0], a[1].args[0], st)[0]
            if not isinstance(v, Term) or v.op not in ("ite", "top"):
                return a[2] if v is T.UNBOUND and len(a) > 2 else v
        raise Unsupported("getattr")

    def e_Attribute(self, e, st, fr):
        if isinstance(e.value, ast.Name) and e.value.id not in st.env:
            g = self.name(e.value.id, st, fr)
        else:
            g = self.expr(e.value, st, fr)
        a = e.attr
        if isinstance(g, Func) and not a.startswith("__"):
            v = self.func_attr(g, a, st)[0]
            if v is T.UNBOUND or isinstance(v, Term) and v.op == "ite":
                st.err = T.or_(st.err, TRUE if v is T.UNBOUND else unbound_when(v))
            return v
        if isinstance(g, Builtin) and g.self_ is None:
            full = g.name + "." + a
            if g.name.startswith("module:"):
                m = self.loader.get(g.name[7:])
                v = self.lookup_global(m, a, st) if m else None
                if v is None:
                    sub = self.loader.get(g.name[7:] + "." + a)
                    if sub:
                        return Builtin(full)
                    raise Unsupported(full)
                return v
            m = self.loader.get(g.name)
            if m is not None:
                v = self.lookup_global(m, a, st)
                if v is not None:
                    return v
                if self.loader.get(full):
                    return Builtin(full)
            if a == "newaxis":
                return NONE
            if a in ("nan",):
                return T.top("nan")
            if a in ("inf",):
                return T.C(float("inf"))
            if a == "pi":
                return T.C(3.141592653589793)
            if self.loader.get(full):
                return Builtin(full)
            return Builtin(full)
        if isinstance(g, Arr):
            if a == "shape":
                return Tup(g.dims)
            if a == "size":
                return self.prod_dims(g.dims)
            if a == "ndim":
                return T.C(len(g.dims))
            if a == "T":
                return self.transpose(st, g)
            if a == "dtype":
                return Builtin("dtype:" + self.dtype(st, g))
            if a == "flat":
                return self.reshape(st, g, [T.C(-1)])
        if isinstance(g, Masked):
            if a == "size":
                return self.reduce_all(st, "sum", Masked(g.dims, g.cond, ONE, "i"))
            if a == "shape":
                return Tup([self.reduce_all(st, "sum", Masked(g.dims, g.cond, ONE, "i"))])
        if isinstance(g, Ref) and g.kind == "table":
            if a == "shape":
                return Tup([self.rows(g, st), T.top("columns")])
            if a == "values":
                raise Unsupported("table values")
            if a in ("loc", "iloc", "at"):
                raise Unsupported("table loc")
        if isinstance(g, Term) and g.op == "top":
            return g
        if isinstance(g, Arr) and a in ("values", "iloc", "iat"):
            return g
        return Builtin(a, g)

    # ------------------------------------------------------------ comprehension
    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr)

    def e_DictComp(self, e, st, fr):
        g = e.generators[0]
        if len(e.generators) != 1 or g.ifs:
            raise Unsupported("dict comprehension")
        its = self.seq_items(st, self.expr(g.iter, st, fr))
        if its is None:
            sp, g_ = self.iteration(self.expr(g.iter, st, fr), st)
            saved = dict(st.env)

            def part(node):
                def f(el, s):
                    self.assign(g.target, el, s, fr)
                    return self.expr(node, s, fr)
                return f

            r = self.mapping(sp, g_, part(e.key), part(e.value), st)
            st.env = saved
            return r
        out = []
        saved = dict(st.env)
        for x in its:
            self.assign(g.target, x, st, fr)
            out.append((self.dict_key(self.expr(e.key, st, fr)), self.expr(e.value, st, fr)))
        st.env = saved
        oid = self.new_oid()
        st.heap[oid] = last_wins(out)
        return Ref("dict", oid)

    def comp(self, e, st, fr):
        gens = e.generators
        saved = dict(st.env)
        before = st.copy()
        try:
            r = self.comp_(e, gens, st, fr)
        except ImpureComp:
            st.heap, st.eff, st.err = before.heap, before.eff, before.err
            st.env = saved
            return self.comp_loop(e, st, fr)
        finally:
            st.env = saved
        return r

    def comp_loop(self, e, st, fr):
        """a comprehension whose element has effects: the loop it stands for"""
        acc = "[]%d" % e.lineno
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [e.elt], []))]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        body = [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load()))] + body
        for b in body:
            ast.copy_location(b, e)
            ast.fix_missing_locations(b)
        out = self.block(body, st, fr)
        if out is None:
            raise Unsupported("comprehension that always fails")
        r = out.env[acc]
        st.heap, st.eff, st.err = out.heap, out.eff, out.err
        return r

    def comp_(self, e, gens, st, fr):
        g = gens[0]
        it = self.expr(g.iter, st, fr)
        items = self.seq_items(st, it)
        if items is not None and (len(items) <= self.unroll or not isinstance(it, (Rng, Arr))):
            out = []
            for x in items:
                self.assign(g.target, x, st, fr)
                ok = TRUE
                for c in g.ifs:
                    ok = T.and_(ok, self.truth(self.expr(c, st, fr), st))
                if ok is FALSE:
                    continue
                if len(gens) > 1:
                    sub = self.comp_(e, gens[1:], st, fr)
                    sub = self.seq_items(st, sub)
                    if sub is None or ok is not TRUE:
                        raise Unsupported("nested comprehension")
                    out += sub
                    continue
                v = self.expr(e.elt, st, fr)
                if ok is not TRUE:
                    # selection of a static number of candidates
                    return self.static_filter(e, g, items, st, fr)
                out.append(v)
            return self.mk_list(st, out)
        spaces, f = self.iteration(it, st)
        if any(s[2] for s in spaces):
            raise Unsupported("descending comprehension")
        vs = []
        for lo, hi, _ in spaces:
            v = T.fresh("i", "v")
            LB[v.args[0]] = 0
            n = T.sub(hi, lo)
            vs.append((v, n if nonneg(n) else T.max_(n, ZERO), lo))
            self.upper[v.args[0]] = n
        s2 = st.copy()
        guard, elem = f([T.add(v, lo) for v, n, lo in vs], s2)
        self.assign(g.target, elem, s2, fr)
        for c in g.ifs:
            guard = T.and_(guard, self.truth(self.expr(c, s2, fr), s2))
        dims = [n for _, n, _ in vs]
        back = {v: K[i] for i, (v, _, _) in enumerate(vs)}
        if len(gens) > 1:
            inner = self.comp_(e, gens[1:], s2, fr)
            if isinstance(inner, Ref) and inner.kind == "list" and isinstance(s2.heap[inner.oid], Content):
                c = s2.heap[inner.oid]
                inner = Masked(c.dims, TRUE, c.body, c.dtype)
            if isinstance(inner, Ref) and inner.kind == "list" and isinstance(s2.heap[inner.oid], list):
                inner = self.to_array(s2, inner)
                inner = Masked(inner.dims, TRUE, self.body(s2, inner), self.dtype(s2, inner))
            if not isinstance(inner, Masked):
                raise Unsupported("nested comprehension")
            n0 = len(dims)
            sh = {K[i]: K[i + n0] for i in range(len(inner.dims))}
            if any(v.args[0] in d.fv for d in inner.dims for v, _, _ in vs):
                raise Unsupported("ragged comprehension")
            cond = T.and_(T.subst(guard, back), T.subst(T.subst(inner.cond, sh), back))
            val = T.subst(T.subst(inner.val, sh), back)
            return Masked(dims + list(inner.dims), cond, val, inner.dtype)
        val = self.expr(e.elt, s2, fr)
        if any(s2.heap.get(k) is not c for k, c in st.heap.items()) or s2.eff is not st.eff and tuple(s2.eff) != tuple(st.eff):
            raise ImpureComp()
        for k, c in s2.heap.items():
            if k not in st.heap:
                st.heap[k] = c
        err = T.and_(guard, s2.err) if s2.err is not st.err else FALSE
        if err is not FALSE:
            for v, n, lo in vs:
                err = T.exists(v, ZERO, n, err)
            st.err = T.or_(st.err, err)
        if isinstance(val, Tup) and guard is TRUE and len(dims) == 1 and val.items and all(isinstance(x, Term) for x in val.items):
            # list of tuples: rows of a matrix
            b = val.items[-1]
            for i in range(len(val.items) - 2, -1, -1):
                b = T.ite(T.eq(K[1], T.C(i)), val.items[i], b)
            oid = self.new_oid()
            dt = "o" if any(x.op == "str" for x in val.items) else "f"
            st.heap[oid] = Content(dims + [T.C(len(val.items))], dt, T.subst(b, back))
            return Ref("list", oid)
        if isinstance(val, Ref) and val.kind == "list":
            val = self.to_array(s2, val)
        if isinstance(val, Arr):
            r = len(val.dims)
            if guard is not TRUE or len(dims) != 1:
                raise Unsupported("comprehension of arrays")
            if any(v.args[0] in d.fv for d in val.dims for v, _, _ in vs):
                raise Unsupported("ragged comprehension")
            b = T.subst(self.read(s2, val, K[1:r + 1]), back)
            oid = self.new_oid()
            st.heap[oid] = Content(dims + list(val.dims), self.dtype(s2, val), b)
            return Ref("list", oid)
        if not isinstance(val, Term):
            raise Unsupported("comprehension of objects")
        dt = self.val_dtype(s2, val)
        if val.op == "str" or val.op == "sel" and val.args[0].op == "arr" and val.args[0].args[1] == "o" or val.op == "fn" and val.args[0].startswith("str"):
            dt = "o"
        val = T.subst(val, back)
        guard = T.subst(guard, back)
        if guard is TRUE and len(dims) == 1:
            oid = self.new_oid()
            st.heap[oid] = Content(dims, dt, val)
            return Ref("list", oid)
        return Masked(dims, guard, val, dt)

    def static_filter(self, e, g, items, st, fr):
        conds, vals = [], []
        for x in items:
            self.assign(g.target, x, st, fr)
            ok = TRUE
            for c in g.ifs:
                ok = T.and_(ok, self.truth(self.expr(c, st, fr), st))
            v = self.expr(e.elt, st, fr)
            if not isinstance(v, Term):
                raise Unsupported("filter of objects")
            conds.append(ok)
            vals.append(v)
        cb, vb = conds[-1], vals[-1]
        for i in range(len(conds) - 2, -1, -1):
            q = T.eq(K[0], T.C(i))
            cb = T.or_(T.and_(q, conds[i]), T.and_(T.not_(q), cb))
            vb = T.ite(q, vals[i], vb)
        return Masked([T.C(len(items))], cb, vb, self.infer(vb, [self.val_dtype(st, v) for v in vals]))

    # ------------------------------------------------------------ calls
    def e_Lambda(self, e, st, fr):
        return Func(e, fr.mod, {**(getattr(fr, "closure", None) or {}), **st.env}, "<lambda>")

    def e_JoinedStr(self, e, st, fr):
        parts = []
        plain = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(T.S(v.value))
            else:
                x = self.expr(v.value, st, fr)
                parts.append(x if isinstance(x, Term) else self.snapshot(st, x))
                plain = plain and v.format_spec is None and v.conversion == -1
        out = T._node("fmt", tuple(parts) if plain else tuple(parts) + (T.S(""),))
        if plain:
            PLAIN.add(out)
        return out

    def text(self, t):
        """the string a term of constants stands for (a key, a column name)"""
        if isinstance(t, Term) and t.op == "fmt" and t in PLAIN or isinstance(t, Term) and t.op == "fn" and t.args[0] == "str":
            parts = t.args if t.op == "fmt" else t.args[1:]
            parts = [self.text(x) for x in parts]
            if all(x.op == "str" or x.op == "c" and isinstance(x.args[0], int) for x in parts):
                return T.S("".join(str(x.args[0]) for x in parts))
        return t

    def cat(self, a, b):
        if a.op == "str" and b.op == "str":
            return T.S(a.args[0] + b.args[0])
        pa = list(a.args) if a.op == "fmt" else [a]
        pb = list(b.args) if b.op == "fmt" else [b]
        out = T._node("fmt", tuple(pa + pb))
        if all(x.op != "fmt" or x in PLAIN for x in (a, b)):
            PLAIN.add(out)
        return out

    def fmt_percent(self, f, args, st):
        import re

        if f.op != "str":
            return T.top("format")
        vals = list(args.items) if isinstance(args, Tup) else [args]
        vals = [v if isinstance(v, Term) else self.scalar(v, st) if isinstance(v, Arr) else self.snapshot(st, v) for v in vals]
        parts = re.split(r"(%[-+ #0-9.]*[a-zA-Z%])", f.args[0])
        out = []
        i = 0
        for p in parts:
            if p.startswith("%") and len(p) > 1:
                if p.endswith("%"):
                    out.append(T.S("%"))
                    continue
                if i >= len(vals):
                    st.err = TRUE
                    return T.top("format arity")
                v = vals[i]
                if p[-1] in "di":
                    v = T.trunc(v) if v.op not in ("unbound", "top", "str") else v
                out.append(v)
                i += 1
            elif p:
                out.append(T.S(p))
        if i != len(vals):
            st.err = TRUE
        return T._node("fmt", tuple(out))

    def e_Call(self, e, st, fr):
        # method on an object or function
        f = self.expr(e.func, st, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st, fr)
                its = self.seq_items(st, v)
                if its is None:
                    c = st.heap.get(v.oid) if isinstance(v, Ref) and v.kind == "list" else None
                    if isinstance(c, Content) and len(c.dims) == 2 and c.dims[1].op == "c" and isinstance(f, Builtin) and f.name == "zip" and len(e.args) == 1:
                        st.err = T.or_(st.err, T.le(c.dims[0], ZERO))  # nothing to unpack
                        cols = []
                        for i in range(c.dims[1].args[0]):
                            oid = self.new_oid()
                            st.heap[oid] = Content([c.dims[0]], c.dtype, T.subst(c.body, {K[1]: T.C(i)}))
                            cols.append(Ref("list", oid))
                        return Tup(cols)
                    raise Unsupported("star argument")
                args += its
            else:
                args.append(self.expr(a, st, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.expr(k.value, st, fr)
                c = st.heap.get(v.oid) if isinstance(v, Ref) and v.kind == "dict" else None
                if not isinstance(c, tuple):
                    raise Unsupported("** argument")
                for kk, x in c:
                    kw[kk] = x
            else:
                kw[k.arg] = self.expr(k.value, st, fr)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st, e)
        if isinstance(f, Builtin):
            if f.self_ is None:
                if f.name in ("numpy.full", "numpy.array", "numpy.asarray", "np.full", "np.array", "np.asarray"):
                    k = 1 if f.name.endswith("full") else 0
                    x = e.args[k] if len(e.args) > k else next((q.value for q in e.keywords if q.arg == "fill_value"), None)
                    if x is not None and len(e.args) <= k + 1 and "dtype" not in kw and float_literal(x):
                        kw["dtype"] = T.S("float")
                    elif x is not None and not literal(x) and "dtype" not in kw:
                        r = self.call_builtin(f.name, args, kw, st, fr, e)
                        if isinstance(r, Arr) and isinstance(self.body(st, r), Term) and not self.body(st, r).fv:
                            self.unsure.add(r.oid)  # 0 or 0.0: the sort of the number has been lost on the way
                        return r
                return self.call_builtin(f.name, args, kw, st, fr, e)
            return self.call_method(f.name, f.self_, args, kw, st, fr, e)
        if isinstance(f, Term) and f.op == "top":
            for a in list(args) + list(kw.values()):
                self.havoc_val(st, a, "unknown call")
            return f
        raise Unsupported("call of %s" % type(f).__name__)

    # ---- builtins
    def call_builtin(self, name, args, kw, st, fr, node):
        short = name.split(".")[-1]
        if name in ("numpy." + short, "np." + short):
            return self.np_call(short, args, kw, st, fr)
        m = getattr(self, "b_" + name.replace(".", "_"), None)
        if m is not None:
            return m(args, kw, st, fr)
        if name.startswith("numpy."):
            return self.np_call(name[6:], args, kw, st, fr)
        if name.startswith("math."):
            return self.math_call(short, args, kw, st)
        if name.startswith("pandas."):
            return self.pd_call(short, args, kw, st, fr)
        if name.startswith("operator.") and short in OPERATORS and len(args) == 2:
            return self.binop(OPERATORS[short](), args[0], args[1], st)
        if name in ("sys.exit", "exit", "quit", "os._exit"):
            st.env["^exit"] = TRUE
            return NONE
        if name.startswith("random.") or name.startswith("secrets."):
            return T._node("call", ("nondet:" + name, T.fresh("i")))
        if name in ("time.time", "time.perf_counter", "datetime.datetime.now", "os.getpid", "os.urandom", "uuid.uuid4"):
            return T._node("call", ("nondet:" + name, T.fresh("i")))
        if name in ("ValueError", "TypeError", "IndexError", "RuntimeError", "Exception", "KeyError", "NotImplementedError"):
            return T.S(name)
        if name == "copy.copy":
            return self.shallow(args[0], st)
        if name == "copy.deepcopy":
            return self.deepcopy(args[0], st)
        if name == "os.path.join" or name == "pathlib.Path":
            return path(*[self.snapshot(st, a) for a in args])
        if name == "pickle.dump":
            return self.pickled((list(args) + [kw.get("obj")])[0], args[1] if len(args) > 1 else kw.get("file"), st)
        if name == "pickle.dumps":
            oid = self.new_oid()
            st.heap[oid] = [self.snapshot(st, (list(args) + [kw.get("obj")])[0])]
            return Ref("pickled", oid)
        if name in ("collections.OrderedDict",):
            return self.b_dict(args, kw, st, fr)
        if name in ("bisect.bisect_left", "bisect.bisect_right", "bisect.bisect"):
            x = args[1]
            v = T.fresh("i")
            LB[v.args[0]] = 0
            a = self.to_array(st, args[0])
            if isinstance(a, Arr) and isinstance(x, Term):
                el = self.read(st, a, [v])
                c = T.lt(el, x) if name.endswith("left") else T.le(el, x)
                return T.sum_(v, ZERO, a.dims[0], T.num(c))
        raise Unsupported("call %s" % name)

    def shallow(self, v, st):
        if isinstance(v, Ref) and v.kind in ("dict", "list"):
            oid = self.new_oid()
            st.heap[oid] = list(st.heap[v.oid]) if isinstance(st.heap[v.oid], list) else st.heap[v.oid]
            return Ref(v.kind, oid)
        return v if isinstance(v, Tup) else self.deepcopy(v, st)

    def deepcopy(self, v, st):
        if isinstance(v, Arr):
            return self.copy_arr(st, v)
        if isinstance(v, Ref) and v.kind == "dict":
            c = st.heap[v.oid]
            if not isinstance(c, tuple):
                raise Unsupported("copy unknown dict")
            oid = self.new_oid()
            st.heap[oid] = tuple((k, self.deepcopy(x, st)) for k, x in c)
            return Ref("dict", oid)
        if isinstance(v, Ref) and v.kind == "list":
            oid = self.new_oid()
            st.heap[oid] = st.heap[v.oid]
            if isinstance(st.heap[oid], list):
                st.heap[oid] = [self.deepcopy(x, st) for x in st.heap[oid]]
            return Ref("list", oid)
        if isinstance(v, Tup):
            return Tup([self.deepcopy(x, st) for x in v.items])
        return v

    def b_range(self, a, kw, st, fr):
        a = [self.scalar(x, st) for x in a]
        for x in a:
            if x.top_:
                raise Unsupported("range of unknown")
        if len(a) == 1:
            return Rng(ZERO, a[0], 1)
        if len(a) == 2:
            return Rng(a[0], a[1], 1)
        if a[2].op != "c" or a[2].args[0] == 0:
            raise Unsupported("range step")
        return Rng(a[0], a[1], a[2].args[0])

    def b_len(self, a, kw, st, fr):
        v = a[0]
        if isinstance(v, Arr):
            return v.dims[0]
        if isinstance(v, Rng):
            return self.rng_len(v)
        if isinstance(v, Masked):
            return self.reduce_all(st, "sum", Masked(v.dims, v.cond, ONE, "i"))
        if isinstance(v, Ref) and v.kind == "table":
            return self.rows(v, st)
        if isinstance(v, Ref) and v.kind == "lines":
            return st.heap[v.oid][0]
        if self.is_split(v):
            return self.parts(v)
        if isinstance(v, Ref) and v.kind == "list" and isinstance(st.heap[v.oid], Content):
            return st.heap[v.oid].dims[0]
        if isinstance(v, Ref) and v.kind == "list" and isinstance(st.heap[v.oid], Masked):
            return self.b_len([st.heap[v.oid]], kw, st, fr)
        its = self.seq_items(st, v)
        if its is not None:
            return T.C(len(its))
        if isinstance(v, Term) and v.op == "str":
            return T.C(len(v.args[0]))
        if isinstance(v, Term):
            return T._node("call", ("len", v), int_=True)
        raise Unsupported("len")

    def b_sum(self, a, kw, st, fr):
        v = a[0]
        start = a[1] if len(a) > 1 else kw.get("start", ZERO)
        its = self.seq_items(st, v) if isinstance(v, (Tup, Ref, Zip)) else None
        if its is not None:
            r = start
            for x in its:
                r = self.binop(ast.Add(), r, x, st)
            return r
        if isinstance(v, Arr) and len(v.dims) > 1:
            r = self.reduce_axis(st, "sum", v, 0)
        else:
            r = self.reduce_all(st, "sum", v)
        return self.binop(ast.Add(), start, r, st) if start is not ZERO else r

    def b_any(self, a, kw, st, fr):
        return self.anyall("any", a[0], st)

    def b_all(self, a, kw, st, fr):
        return self.anyall("all", a[0], st)

    def anyall(self, op, v, st):
        its = self.seq_items(st, v) if isinstance(v, (Tup, Ref, Zip)) else None
        if its is not None:
            c = [self.truth(x, st) for x in its]
            return T.or_(*c) if op == "any" else T.and_(*c)
        return self.reduce_all(st, op, v)

    def minmax(self, op, a, kw, st):
        f = T.min_ if op == "min" else T.max_
        if "key" in kw:
            raise Unsupported("key")
        if len(a) == 1:
            v = a[0]
            its = self.seq_items(st, v)
            if its is not None:
                if not its:
                    if "default" in kw:
                        return kw["default"]
                    st.err = TRUE
                    return T.UNBOUND
                return f(*[self.scalar(x, st) for x in its])
            r = self.reduce_all(st, op, v)
            if "default" in kw:
                sp, cond, val, dt = self.space(st, v)
                return T.ite(self.reduce_space("any", sp, cond, TRUE), r, kw["default"])
            return r
        return f(*[self.scalar(x, st) for x in a])

    def b_min(self, a, kw, st, fr):
        return self.minmax("min", a, kw, st)

    def b_max(self, a, kw, st, fr):
        return self.minmax("max", a, kw, st)

    def b_abs(self, a, kw, st, fr):
        return T.abs_(a[0]) if isinstance(a[0], Term) else self.elementwise(st, T.abs_, [a[0]])

    def b_int(self, a, kw, st, fr):
        if not a:
            return ZERO
        v = self.scalar(a[0], st)
        if v.op == "str":
            try:
                return T.C(int(v.args[0]))
            except ValueError:
                raise Unsupported("int of string")
        p = self.parsed(v, "int")
        if p is not None:
            return p
        if v.op == "fn" and v.args[0].startswith("str") or v.op == "sel" and v.args[0].op == "arr" and v.args[0].args[1] == "o":
            st.err = T.or_(st.err, T._node("fn", ("strnotint", v), bool_=True))
            return T._node("call", ("int", v), int_=True)
        if v.op == "unbound":
            return v
        return T.trunc(v)

    def b_float(self, a, kw, st, fr):
        if not a:
            return ZERO
        v = self.scalar(a[0], st)
        if v.op == "str":
            return T.C(float(v.args[0]))
        p = self.parsed(v, "float")
        if p is not None:
            return p
        if v.op == "fn" and v.args[0].startswith("str") or v.op == "sel" and v.args[0].op == "arr" and v.args[0].args[1] == "o":
            return T._node("call", ("float", v))
        return T.num(v) if v.op != "unbound" else v

    def parsed(self, v, what):
        """the number in a piece of a split text"""
        if v.op == "fn" and v.args[0] == "stritem" and self.is_split(v.args[1]):
            return T._node("call", ("parse_item", T._node("call", ("parse_" + what, v.args[1])), v.args[2]), int_=what == "int")

    @staticmethod
    def is_split(v):
        return isinstance(v, Term) and v.op == "fn" and v.args[0] == "strsplit"

    def pieces(self, st, v):
        """the pieces of a split text, as a list"""
        oid = self.new_oid()
        st.heap[oid] = Content([self.parts(v)], "o", T.fn("stritem", v, K[0]))
        return Ref("list", oid)

    def b_bool(self, a, kw, st, fr):
        return self.truth(a[0], st)

    def b_str(self, a, kw, st, fr):
        v = a[0]
        if isinstance(v, Term):
            if v.op == "sel" and v.args[0].op == "arr" and v.args[0].args[1] == "o" or v.op == "fn" and v.args[0].startswith("str"):
                return v
            return v if v.op in ("str", "fmt") else T.fn("str", v)
        raise Unsupported("str")

    def b_repr(self, a, kw, st, fr):
        return T.fn("str", self.snapshot(st, a[0]))

    def b_round(self, a, kw, st, fr):
        v = self.scalar(a[0], st)
        n = a[1] if len(a) > 1 else kw.get("ndigits", ZERO)
        return T.rnd(v, ZERO if n is NONE else n)

    def b_pow(self, a, kw, st, fr):
        return self.binop(ast.Pow(), a[0], a[1], st)

    def b_divmod(self, a, kw, st, fr):
        return Tup([self.binop(ast.FloorDiv(), a[0], a[1], st), self.binop(ast.Mod(), a[0], a[1], st)])

    def b_enumerate(self, a, kw, st, fr):
        return Zip("enum", [a[0]], a[1] if len(a) > 1 else kw.get("start", ZERO))

    def b_zip(self, a, kw, st, fr):
        return Zip("zip", a)

    def b_reversed(self, a, kw, st, fr):
        v = a[0]
        if isinstance(v, Rng):
            n = self.rng_len(v)
            last = T.add(v.lo, T.scale(T.sub(n, ONE), v.step))
            return Rng(last, T.sub(v.lo, T.C(v.step)), -v.step)
        its = self.seq_items(st, v)
        if its is not None:
            return Tup(reversed(its))
        raise Unsupported("reversed")

    def b_list(self, a, kw, st, fr):
        if not a:
            return self.mk_list(st, [])
        v = a[0]
        its = self.seq_items(st, v)
        if its is not None:
            return self.mk_list(st, its)
        if isinstance(v, Arr):
            c = self.copy_arr(st, v)
            return Ref("list", c.oid)
        if isinstance(v, Rng):
            return Ref("list", self.to_array(st, v).oid)
        if isinstance(v, Ref) and v.kind == "list":
            oid = self.new_oid()
            st.heap[oid] = st.heap[v.oid]
            return Ref("list", oid)
        if isinstance(v, Masked):
            return v
        if isinstance(v, Ref) and v.kind in ("mapping", "lines"):
            return v
        if isinstance(v, Term) and v.op in ("fn", "call"):
            return v
        raise Unsupported("list()")

    def b_tuple(self, a, kw, st, fr):
        if not a:
            return Tup(())
        its = self.seq_items(st, a[0])
        if its is not None:
            return Tup(its)
        return self.b_list(a, kw, st, fr)

    def b_set(self, a, kw, st, fr):
        if a:
            its = self.seq_items(st, a[0])
            if its is not None and all(isinstance(x, Term) and x.op in ("c", "str") for x in its):
                u = []
                for x in its:
                    if x not in u:
                        u.append(x)
                return Tup(u)
        raise Unsupported("set()")

    b_frozenset = b_set

    def b_dict(self, a, kw, st, fr):
        items = []
        if a:
            v = a[0]
            if isinstance(v, Ref) and v.kind == "dict":
                return self.deepcopy_shallow(v, st)
            its = self.seq_items(st, v)
            if its is not None and not all(self.const_key(self.seq_items(st, x)) for x in its):
                its = None
            if its is None:
                if kw:
                    raise Unsupported("dict()")
                sp, g = self.iteration(v, st)
                part = lambda el, i: self.seq_items(st, el[0] if isinstance(el, (list, tuple)) and len(el) == 1 else el)[i]
                return self.mapping(sp, g, lambda el, s: part(el, 0), lambda el, s: part(el, 1), st)
            for x in its:
                p = self.seq_items(st, x)
                items.append((self.dict_key(p[0]), p[1]))
        items += list(kw.items())
        oid = self.new_oid()
        st.heap[oid] = last_wins(items)
        return Ref("dict", oid)

    def deepcopy_shallow(self, v, st):
        oid = self.new_oid()
        st.heap[oid] = st.heap[v.oid]
        return Ref(v.kind, oid)

    def b_dict_fromkeys(self, a, kw, st, fr):
        """used for the distinct elements of a sequence, in the order of their first occurrence"""
        if len(a) != 1:
            raise Unsupported("dict.fromkeys")
        x = self.to_array(st, a[0])
        if not isinstance(x, Arr) or len(x.dims) != 1:
            raise Unsupported("dict.fromkeys")
        b = self.body(st, x)
        u = T.fresh("i")
        LB[u.args[0]] = 0
        seen = T.exists(u, ZERO, K[0], T.eq(T.subst(b, {K[0]: u}), b))
        return Masked(x.dims, T.not_(seen), b, self.dtype(st, x))

    def ranked(self, st, v, axis, positions, reverse=False):
        """sorted values (or their positions) along an axis"""
        if isinstance(v, (Tup, Ref, Rng)):
            v = self.to_array(st, v)
        if isinstance(v, Masked):
            if len(v.dims) != 1 or reverse or positions:
                raise Unsupported("sort of a selection")
            u, w = T.fresh("i"), T.fresh("i")
            LB[u.args[0]] = LB[w.args[0]] = 0
            key = T.ite(T.subst(v.cond, {K[0]: u}), T.num(T.subst(v.val, {K[0]: u})), T.C(float("inf")))
            before = T.sum_(w, ZERO, K[0], T.ite(T.subst(v.cond, {K[0]: w}), ONE, ZERO))
            return Masked(v.dims, v.cond, T.subst(v.val, {K[0]: T.kth(u, ZERO, v.dims[0], key, before)}), v.dtype)
        if not isinstance(v, Arr) or not v.dims:
            raise Unsupported("sort")
        n = len(v.dims)
        i = axis % n
        u = T.fresh("i")
        LB[u.args[0]] = 0
        at = lambda x: self.read(st, v, [x if j == i else K[j] for j in range(n)])
        key = T.num(at(u))
        k = T.kth(u, ZERO, v.dims[i], T.neg(key) if reverse else key, K[i])
        return self.new(st, v.dims, "i" if positions else self.dtype(st, v), k if positions else at(k))

    def axis_of(self, a, kw, k=1, default=-1):
        x = kw.get("axis", a[k] if len(a) > k else None)
        if x is None:
            return default
        if x is NONE or x.op != "c":
            raise Unsupported("axis")
        return int(x.args[0])

    def np_sort(self, a, kw, st, fr):
        return self.ranked(st, a[0], self.axis_of(a, kw), False)

    def np_argsort(self, a, kw, st, fr):
        return self.ranked(st, a[0], self.axis_of(a, kw), True)

    def np_median(self, a, kw, st, fr):
        raise Unsupported("median")

    def b_sorted(self, a, kw, st, fr):
        its = self.seq_items(st, a[0])
        if its is not None and all(isinstance(x, Term) and x.op == "c" for x in its) and not kw:
            return self.mk_list(st, sorted(its, key=lambda t: t.args[0]))
        if set(kw) <= {"reverse"} and kw.get("reverse", T.FALSE) in (TRUE, T.FALSE):
            return self.ranked(st, a[0], -1, False, kw.get("reverse") is TRUE)
        raise Unsupported("sorted")

    def b_map(self, a, kw, st, fr):
        f, v = a[0], a[1]
        if len(a) > 2:
            v = Zip("zip", a[1:])
        its = self.seq_items(st, v)
        call = lambda x, s: (self.call_func(f, [x] if len(a) == 2 else list(x.items), {}, s) if isinstance(f, Func)
                             else self.call_builtin(f.name, [x], {}, s, fr, None) if f.self_ is None
                             else self.call_method(f.name, f.self_, [x], {}, s, fr, None))
        if its is not None:
            return self.mk_list(st, [call(x, st) for x in its])
        if isinstance(v, Term) and isinstance(f, Builtin) and f.name in ("float", "int"):
            # map(float, <split string>): the parsed numbers of that string
            t = T._node("call", ("parse_" + f.name, v))
            n = self.parts(v)
            oid = self.new_oid()
            st.heap[oid] = Content([n], f.name[0], T._node("call", ("parse_item", t, K[0]), int_=f.name == "int"))
            return Ref("list", oid)
        spaces, g = self.iteration(v, st)
        if len(spaces) != 1 or spaces[0][2]:
            raise Unsupported("map")
        lo, hi, _ = spaces[0]
        u = T.fresh("i", "v")
        LB[u.args[0]] = 0
        self.upper[u.args[0]] = T.sub(hi, lo)
        s2 = st.copy()
        guard, el = g([T.add(u, lo)], s2)
        r = call(el, s2)
        for k, c in s2.heap.items():
            if k not in st.heap:
                st.heap[k] = c
        n = T.sub(hi, lo)
        if isinstance(r, Term):
            val = T.subst(r, {u: K[0]})
            dt = self.val_dtype(st, val)
            if guard is TRUE:
                oid = self.new_oid()
                st.heap[oid] = Content([n], dt, val)
                return Ref("list", oid)
            return Masked([n], T.subst(guard, {u: K[0]}), val, dt)
        if isinstance(r, Tup) and guard is TRUE and all(isinstance(x, Term) for x in r.items):
            b = r.items[-1]
            for i in range(len(r.items) - 2, -1, -1):
                b = T.ite(T.eq(K[1], T.C(i)), r.items[i], b)
            oid = self.new_oid()
            st.heap[oid] = Content([n, T.C(len(r.items))], "o", T.subst(b, {u: K[0]}))
            return Ref("list", oid)
        raise Unsupported("map of objects")

    def parts(self, v):
        """number of pieces of a split text: the declared one for a column of well-formed texts"""
        from .domain import dim_term

        t, sep = v, None
        while t.op == "fn" and t.args[0] in ("strsplit", "strstrip") or t.op == "call" and t.args[0] == "str":
            if t.args[0] == "strsplit":
                sep = t.args[2:]
            t = t.args[1]
        if t.op == "sel" and t.args[0].op == "arr" and sep == (T.S(","),):
            d = self.tables.get("parts", {}).get(t.args[0].args[0])
            if d is not None:
                return dim_term(d)
        return T._node("call", ("parse_len", v), int_=True)

    def b_filter(self, a, kw, st, fr):
        raise Unsupported("filter")

    def b_print(self, a, kw, st, fr):
        return NONE

    def b_isinstance(self, a, kw, st, fr):
        v, t = a
        if isinstance(v, Arr):
            if isinstance(t, Builtin):
                return T.C(t.name.endswith("ndarray"))
        if isinstance(v, Term) and v.op not in ("top",):
            if isinstance(t, Builtin) and t.name.endswith("ndarray"):
                return FALSE
            if isinstance(t, Builtin) and t.name in ("int", "float") and (v.op == "str" or v is NONE):
                return FALSE
            if isinstance(t, Builtin) and t.name == "int" and v.int_ and not v.bool_ and v.op == "sym":
                return TRUE
        raise Unsupported("isinstance")

    def b_type(self, a, kw, st, fr):
        raise Unsupported("type")

    def b_slice(self, a, kw, st, fr):
        a = [None if x is NONE else x for x in a]
        if len(a) == 1:
            return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)

    def b_open(self, a, kw, st, fr):
        oid = self.new_oid()
        mode = a[1] if len(a) > 1 else kw.get("mode", T.S("r"))
        st.heap[oid] = [a[0], mode]
        if isinstance(mode, Term) and mode.op == "str" and "w" in mode.args[0]:
            st.eff = st.eff + (("write", "truncate", (self.snapshot(st, a[0]),)),)
        return Ref("file", oid)

    def pickled(self, v, f, st):
        """one object is written to a binary file: what, and where"""
        if not (isinstance(f, Ref) and f.kind == "file" and isinstance(st.heap.get(f.oid), list)):
            raise Unsupported("pickle to something not opened here")
        path, mode = st.heap[f.oid]
        what = st.heap[v.oid][0] if isinstance(v, Ref) and v.kind == "pickled" else self.snapshot(st, v)
        mode = "".join(sorted(set(mode.args[0]) - {"+"})) if isinstance(mode, Term) and mode.op == "str" else mode
        st.eff = st.eff + (("call", "pickle.dump", (("obj", what), ("file", plain(self.snapshot(st, path))), ("mode", T.S(mode) if isinstance(mode, str) else mode))),)
        return NONE

    # ---- methods
    def call_method(self, name, obj, args, kw, st, fr, node):
        if isinstance(obj, Ref):
            return self.ref_method(name, obj, args, kw, st, fr)
        if isinstance(obj, Term):
            if obj.op == "top":
                if name in WRITERS or name in ("append", "extend", "insert", "pop", "clear", "update", "resize", "reverse", "setdefault"):
                    self.written_through(st, obj)
                for a in args:
                    self.havoc_val(st, a, "unknown method")
                return obj
            return self.term_method(name, obj, args, kw, st)
        if isinstance(obj, (Arr, Masked)):
            return self.arr_method(name, obj, args, kw, st, fr)
        if isinstance(obj, Tup):
            if name == "index" or name == "count":
                c = [T.eq(x, args[0]) for x in obj.items]
                if name == "count":
                    return T.add(*[T.num(x) for x in c])
                r = T.UNBOUND
                for i in range(len(c) - 1, -1, -1):
                    r = T.ite(c[i], T.C(i), r)
                return r
        raise Unsupported("method %s" % name)

    def ref_method(self, name, obj, args, kw, st, fr):
        c = st.heap.get(obj.oid)
        if obj.kind == "list":
            if isinstance(c, list):
                if name == "append":
                    st.heap[obj.oid] = list(c) + [args[0]]
                    return NONE
                if name == "extend":
                    its = self.seq_items(st, args[0])
                    if its is None:
                        if not c:
                            a = self.to_array(st, args[0])
                            if isinstance(a, Arr):
                                st.heap[obj.oid] = Content(a.dims, self.dtype(st, a), self.body(st, a))
                                return NONE
                        raise Unsupported("extend")
                    st.heap[obj.oid] = list(c) + its
                    return NONE
                if name == "pop":
                    i = args[0].args[0] if args else -1
                    c = list(c)
                    v = c.pop(i)
                    st.heap[obj.oid] = c
                    return v
                if name == "index" or name == "count":
                    return self.call_method(name, Tup(c), args, kw, st, fr, None)
                if name == "copy":
                    return self.mk_list(st, c)
                if name == "insert" and args[0].op == "c":
                    c = list(c)
                    c.insert(args[0].args[0], args[1])
                    st.heap[obj.oid] = c
                    return NONE
                if name == "reverse":
                    st.heap[obj.oid] = list(reversed(c))
                    return NONE
            if isinstance(c, Content):
                if name == "copy":
                    return self.b_list([obj], {}, st, fr)
                if name == "append" and isinstance(args[0], Term):
                    a = Arr(obj.oid, c.dims)
                    n = self.concat(st, [a, self.to_array(st, self.mk_list(st, [args[0]]))])
                    st.heap[obj.oid] = st.heap[n.oid]
                    return NONE
            raise Unsupported("list.%s" % name)
        if obj.kind == "dict":
            if not isinstance(c, tuple):
                raise Unsupported("dict unknown")
            if name == "items":
                return Tup([Tup((self.key_term(k), v)) for k, v in c])
            if name == "keys":
                return Tup([self.key_term(k) for k, _ in c])
            if name == "values":
                return Tup([v for _, v in c])
            if name == "get":
                if not self.const_dict_key(args[0]) or not self.known_keys(c):
                    return self.pick(st, [(self.key_is(args[0], k), v) for k, v in c], args[1] if len(args) > 1 else NONE)
                k = self.dict_key(args[0])
                for kk, v in c:
                    if kk == k:
                        return v
                return args[1] if len(args) > 1 else NONE
            if name == "update":
                new = list(c)
                add = list(kw.items())
                if args and isinstance(args[0], Ref) and args[0].kind == "dict":
                    add = list(st.heap[args[0].oid]) + add
                elif args:
                    raise Unsupported("update")
                for k, v in add:
                    new = [(kk, vv) for kk, vv in new if kk != k] + [(k, v)]
                st.heap[obj.oid] = tuple(new)
                return NONE
            if name == "copy":
                return self.deepcopy_shallow(obj, st)
            if name == "pop":
                k = self.dict_key(args[0])
                v = self.dict_get(obj, args[0], st)
                st.heap[obj.oid] = tuple(x for x in c if x[0] != k)
                return v
        if obj.kind == "file":
            if name == "write" and isinstance(args[0], Ref) and args[0].kind == "pickled":
                return self.pickled(args[0], obj, st)
            if name == "write":
                v = args[0]
                parts = v.args if isinstance(v, Term) and v.op == "fmt" else (v,)
                st.eff = st.eff + (("write", "text", tuple(parts)),)
                return NONE
            if name == "writelines":
                raise Unsupported("writelines")
            if name in ("close", "flush", "__enter__"):
                return NONE
            if name in ("readlines", "read"):
                path = c[0]
                oid = self.new_oid()
                call_ = T.call("lines", self.snapshot(st, path))
                n = T._node("call", ("nlines", self.snapshot(st, path)), int_=True)
                if name == "readlines" and self.linesof and self.is_param(self.snapshot(st, path)):
                    from .domain import dim_term

                    st.heap[oid] = Content([dim_term(self.linesof["count"])], "o", T.sel(T.arr(self.linesof["name"], "o"), K[0]))
                    return Ref("list", oid)
                if name == "readlines":
                    st.heap[oid] = (n, lambda i: T._node("fn", ("strline", call_, i)))
                    return Ref("lines", oid)
        if obj.kind == "rng":
            seed, cnt = c
            if name == "random":
                n = args[0] if args else kw.get("size")
                if n is None or n is NONE:
                    st.heap[obj.oid] = (seed, T.add(cnt, ONE))
                    return T.call("draw", seed, cnt)
                if isinstance(n, Tup) and len(n.items) == 1:
                    n = n.items[0]
                if isinstance(n, Term):
                    st.heap[obj.oid] = (seed, T.add(cnt, n))
                    return self.new(st, [n], "f", T.call("draw", seed, T.add(cnt, K[0])))
            if name == "choice":
                return self.rng_choice(obj, seed, cnt, args, kw, st)
            st.heap[obj.oid] = (seed, T.top("rng"))
            return T.call("draw:" + name, seed, cnt, *[self.snapshot(st, a) for a in args])
        raise Unsupported("%s.%s" % (obj.kind, name))

    def term_method(self, name, t, args, kw, st):
        if name in ("copy", "item", "conjugate"):
            return t
        if name == "open" and (t.op == "str" or t.op == "call" and t.args[0] == "path"):
            return self.b_open([t] + list(args), kw, st, None)
        if name == "astype":
            return self.cast(self.np_dtype(args[0] if args else kw.get("dtype")), t)
        if name in ("any", "all"):
            return T.truth(t)
        if name in ("sum", "max", "min", "mean"):
            return T.num(t)
        if name == "tolist":
            return t
        if name == "is_integer":
            return T.eq(T.trunc(t), t)
        if name == "format" and t.op == "str":
            import re

            parts = re.split(r"(\{[^}]*\})", t.args[0])
            out, i = [], 0
            for p in parts:
                if p.startswith("{"):
                    key = p[1:-1].split(":")[0]
                    if key == "":
                        v = args[i]
                        i += 1
                    elif key.isdigit():
                        v = args[int(key)]
                    else:
                        v = kw[key]
                    out.append(v if isinstance(v, Term) else self.snapshot(st, v))
                elif p:
                    out.append(T.S(p))
            return T._node("fmt", tuple(out))
        if name == "join":
            raise Unsupported("join")
        if t.op == "str":
            if name in ("strip", "lower", "upper", "lstrip", "rstrip") and not args:
                return T.S(getattr(t.args[0], name)())
            if name == "startswith":
                return T.C(t.args[0].startswith(args[0].args[0]))
            if name == "split" and not args:
                return self.mk_list(st, [T.S(x) for x in t.args[0].split()])
        if name == "split" and not args and not kw and t.op == "fn" and t.args[0] == "strstrip" and len(t.args) == 2:
            t = t.args[1]
        if name in ("strip", "split", "lower", "upper", "replace", "lstrip", "rstrip", "rsplit", "splitlines", "encode", "decode"):
            return T.fn("str" + name, t, *[self.snapshot(st, a) for a in args])
        if name in ("startswith", "endswith", "isdigit"):
            if name == "startswith" and args and isinstance(args[0], Term) and args[0].op == "str":
                return T.eq(T.fn("strslice", t, NONE, T.C(len(args[0].args[0])), NONE), args[0])
            return T._node("fn", ("str" + name, t) + tuple(self.snapshot(st, a) for a in args), bool_=True)
        if name == "reshape":
            # parsed numbers of a string
            return self.term_reshape(t, args, st)
        raise Unsupported("method %s of scalar" % name)

    def term_reshape(self, t, args, st):
        raise Unsupported("reshape of scalar")

    def arr_method(self, name, a, args, kw, st, fr):
        axis = kw.get("axis")
        if name in ("sum", "max", "min", "any", "all", "prod", "mean", "argmax", "argmin"):
            if axis is None and args and isinstance(args[0], Term):
                axis = args[0]
            ax = None if axis is None or axis is NONE else axis.args[0]
            if set(kw) - {"axis", "keepdims"} - ({"initial"} if name in ("max", "min") else set()):
                raise Unsupported("%s(%s=)" % (name, ", ".join(kw)))
            kd = kw.get("keepdims") is TRUE
            r = self.reduce_axis(st, name, a, ax, kd)
            if "initial" in kw and name in ("max", "min"):
                f = T.max_ if name == "max" else T.min_
                r = self.elementwise(st, lambda x: f(x, kw["initial"]), [r])
            return r
        if kw.get("copy") is FALSE or name in ("flatten", "ravel") and (args or kw):
            raise Unsupported("%s(%s)" % (name, ", ".join(kw)))
        if name == "argsort":
            return self.ranked(st, a, self.axis_of(args, kw, 0), True)
        if name == "sort":
            snap = st.copy()
            r = self.ranked(snap, a, self.axis_of(args, kw, 0), False)
            self.store(st, a, lambda idx: self.value_at(snap, r, idx))
            return NONE
        if name == "astype":
            return self.copy_arr(st, a, self.np_dtype(args[0] if args else kw.get("dtype")))
        if name == "copy":
            return self.copy_arr(st, a)
        if name in ("to_numpy", "ravel", "squeeze") and isinstance(a, Arr) and len(a.dims) == 1:
            return a if name != "squeeze" else a
        if name in ("flatten", "ravel"):
            return self.reshape(st, a, [T.C(-1)])
        if name == "tolist":
            c = self.copy_arr(st, a)
            return Ref("list", c.oid) if isinstance(c, Arr) else c
        if name == "item" and isinstance(a, Arr):
            if not args:
                # exactly one element
                for d in a.dims:
                    if d is not ONE:
                        pass
                return self.read(st, a, [ZERO] * len(a.dims))
            return self.getitem(st, a, args)
        if name == "reshape":
            sh = args[0] if len(args) == 1 and isinstance(args[0], (Tup, Ref)) else Tup(args)
            return self.reshape_order(st, a, self.seq_items(st, sh), kw)
        if name == "clip":
            return self.np_call("clip", [a] + args, kw, st, fr)
        if name == "fill":
            self.setitem(st, a, ["..."] if False else [Slice(None, None, None)] * len(a.dims), args[0])
            return NONE
        if name == "dot":
            return self.matmul(st, a, args[0])
        if name == "nonzero":
            return self.np_call("nonzero", [a], {}, st, fr)
        if name == "transpose" and not args:
            return self.transpose(st, a)
        if name in ("cumsum", "round"):
            return self.np_call(name, [a] + args, kw, st, fr)
        if name == "tobytes":
            raise Unsupported("tobytes")
        if name == "sort":
            self.havoc(st, a, "sort")
            return NONE
        if name == "take":
            return self.np_take([a] + list(args), kw, st, fr)
        raise Unsupported("array.%s" % name)

    # ------------------------------------------------------------ numpy
    def np_dtype(self, d):
        if d is None or d is NONE:
            return "f"
        n = d.name if isinstance(d, Builtin) else d.args[0] if isinstance(d, Term) and d.op == "str" else ""
        n = n.split(".")[-1].split(":")[-1]
        if n in ("int32", "intc", "i32", "i4"):
            return "i32"
        if n in ("int", "int64", "int_", "i", "intp", "int16", "int8", "i8", "longlong"):
            if n in ("int16", "int8"):
                raise Unsupported("dtype")
            return "i"
        if n in ("bool", "bool_", "b"):
            return "b"
        if n in ("object", "o", "str"):
            return "o"
        if n in ("float", "float64", "f", "float_", "double", "f8"):
            return "f"
        raise Unsupported("dtype %s" % n)

    def shape_of(self, v, st):
        if isinstance(v, Term):
            return [v]
        its = self.seq_items(st, v)
        if its is None:
            raise Unsupported("shape")
        return [self.scalar(x, st) for x in its]

    def np_call(self, f, a, kw, st, fr):
        m = getattr(self, "np_" + f.replace(".", "_"), None)
        self.known_keywords(m, f, kw)
        if m is not None:
            return m(a, kw, st, fr)
        if f in ("add", "subtract", "multiply", "divide", "true_divide", "power", "mod", "remainder", "floor_divide"):
            op = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div,
                  "power": ast.Pow, "mod": ast.Mod, "remainder": ast.Mod, "floor_divide": ast.FloorDiv}[f]()
            r = self.binop(op, a[0], a[1], st)
            return self.out_arg(r, kw, st)
        if f in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
            op = {"less": ast.Lt, "less_equal": ast.LtE, "greater": ast.Gt, "greater_equal": ast.GtE, "equal": ast.Eq, "not_equal": ast.NotEq}[f]()
            return self.compare(op, a[0], a[1], st)
        if f in ("sum", "any", "all", "prod", "mean", "argmax", "argmin", "max", "min", "amax", "amin"):
            v = a[0]
            if isinstance(v, (Tup, Ref)):
                v = self.to_array(st, v)
            kw = dict(kw)
            if len(a) > 1:
                kw["axis"] = a[1]
            if isinstance(v, Term):
                return self.term_method({"amax": "max", "amin": "min"}.get(f, f), v, [], {}, st)
            return self.arr_method({"amax": "max", "amin": "min"}.get(f, f), v, [], kw, st, fr)
        if f in ("int32", "int64", "int_", "float64", "bool_", "intp"):
            return self.cast(self.np_dtype(Builtin(f)), self.scalar(a[0], st)) if a else ZERO
        if f in ("log", "exp", "sin", "cos", "log10", "log2", "tan", "sign"):
            return self.elementwise(st, lambda x: T.fn(f, T.num(x)), [a[0]], "f")
        if f.startswith("random."):
            if f == "random.default_rng":
                return self.mk_rng(a, kw, st)
            return T._node("call", ("nondet:" + f, T.fresh("i")))
        raise Unsupported("np.%s" % f)

    READS = {}

    def known_keywords(self, m, f, kw):
        """a keyword argument the model of the function does not look at makes the call unknown"""
        for k in kw:
            if k in ("order", "kind", "subok", "like", "casting", "seed") or k == "copy" and kw[k] is not FALSE:
                continue
            if m is None:
                ok = k == "out" and f in ("add", "subtract", "multiply", "divide", "true_divide", "power", "mod", "remainder", "floor_divide") \
                    or k in ("axis", "keepdims", "initial") and f in ("sum", "any", "all", "prod", "mean", "argmax", "argmin", "max", "min", "amax", "amin") \
                    or f.startswith("random.")
            else:
                if m.__func__ not in self.READS:
                    self.READS[m.__func__] = inspect.getsource(m).split("\n", 1)[1]
                src = self.READS[m.__func__]
                ok = '"%s"' % k in src or re.search(r"\bkw\b\s*[,)]", src)
            if not ok:
                raise Unsupported("np.%s(%s=)" % (f, k))

    def mk_rng(self, a, kw, st):
        seed = a[0] if a else kw.get("seed", NONE)
        if seed is NONE:
            seed = T._node("call", ("nondet:default_rng", T.fresh("i")))
        oid = self.new_oid()
        st.heap[oid] = (self.snapshot(st, seed), ZERO)
        return Ref("rng", oid)

    def rng_choice(self, obj, seed, cnt, args, kw, st):
        """rng.choice(a, size, p=p): for every number drawn, the first element whose cumulated probability exceeds it"""
        size = args[1] if len(args) > 1 else kw.get("size", NONE)
        if len(args) > 2 or set(kw) - {"size", "p"} or "p" not in kw or not isinstance(size, Term) or size is NONE:
            raise Unsupported("choice")
        a = self.to_array(st, args[0])
        p = self.to_array(st, kw["p"])
        if len(a.dims) != 1 or len(p.dims) != 1 or a.dims[0] is not p.dims[0]:
            raise Unsupported("choice")
        st.heap[obj.oid] = (seed, T.add(cnt, size))
        u = T.fresh("i")
        w = T.fresh("i")
        LB[u.args[0]] = LB[w.args[0]] = 0
        total = T.sum_(w, ZERO, p.dims[0], self.read(st, p, [w]))
        cdf = T.sum_(w, ZERO, T.add(u, ONE), self.read(st, p, [w]))
        draw = T.call("draw", seed, T.add(cnt, K[0]))
        k = T.sum_(u, ZERO, p.dims[0], T.num(T.le(cdf, T.mul(draw, total))))
        return self.new(st, [size], self.dtype(st, a), self.read(st, a, [k]))

    def b_numpy_random_default_rng(self, a, kw, st, fr):
        return self.mk_rng(a, kw, st)

    def out_arg(self, r, kw, st):
        o = kw.get("out")
        if isinstance(o, Arr):
            snap = st.copy()
            self.store(st, o, lambda idx: self.value_at(snap, r, idx))
            return o
        return r

    def filled(self, v, a, kw, st, default="f"):
        shape = self.shape_of(a[0] if a else kw["shape"], st)
        d = a[1] if len(a) > 1 else kw.get("dtype")
        dt = default if d is None else self.np_dtype(d)
        for s in shape:
            if s.top_:
                raise Unsupported("unknown shape")
        return self.new(st, shape, dt, self.cast(dt, v))

    def np_zeros(self, a, kw, st, fr):
        return self.filled(ZERO, a, kw, st)

    def np_ones(self, a, kw, st, fr):
        return self.filled(ONE, a, kw, st)

    def np_empty(self, a, kw, st, fr):
        return self.filled(T.UNBOUND, a, kw, st)

    def np_full(self, a, kw, st, fr):
        v = self.scalar(a[1] if len(a) > 1 else kw["fill_value"], st)
        d = a[2] if len(a) > 2 else kw.get("dtype")
        dt = self.val_dtype(st, v) if d is None else self.np_dtype(d)
        return self.new(st, self.shape_of(a[0], st), dt, self.cast(dt, v))

    def like(self, v, a, kw, st):
        x = self.to_array(st, a[0])
        d = a[1] if len(a) > 1 else kw.get("dtype")
        dt = self.dtype(st, x) if d is None else self.np_dtype(d)
        return self.new(st, x.dims, dt, self.cast(dt, v))

    def np_zeros_like(self, a, kw, st, fr):
        return self.like(ZERO, a, kw, st)

    def np_ones_like(self, a, kw, st, fr):
        return self.like(ONE, a, kw, st)

    def np_empty_like(self, a, kw, st, fr):
        return self.like(T.UNBOUND, a, kw, st)

    def np_full_like(self, a, kw, st, fr):
        return self.like(a[1], [a[0]] + list(a[2:]), kw, st)

    def np_arange(self, a, kw, st, fr):
        r = self.b_range(a, {}, st, fr)
        n = self.rng_len(r)
        dt = "i" if r.lo.int_ and r.hi.int_ else "f"
        if kw.get("dtype") is not None:
            dt = self.np_dtype(kw["dtype"])
        return self.new(st, [n], dt, T.add(r.lo, T.scale(K[0], r.step)))

    def np_array(self, a, kw, st, fr):
        v = a[0]
        if isinstance(v, Term) and v.op == "call" and v.args[0].startswith("parse_"):
            n = T._node("call", ("nparsed", v), int_=True)
            r = self.new(st, [n], "f" if v.args[0].endswith("float") else "i", T._node("sel", (v, K[0])))
        else:
            r = self.to_array(st, v)
        if isinstance(r, Arr) or isinstance(r, Masked):
            d = a[1] if len(a) > 1 else kw.get("dtype")
            return self.copy_arr(st, r, self.np_dtype(d) if d is not None else None)
        return r

    def np_asarray(self, a, kw, st, fr):
        r = a[0]
        d = a[1] if len(a) > 1 else kw.get("dtype")
        if isinstance(r, Arr) and (d is None or self.np_dtype(d) == self.dtype(st, r)):
            return r
        return self.np_array(a, kw, st, fr)

    np_ascontiguousarray = np_asarray
    np_asanyarray = np_asarray

    def np_copy(self, a, kw, st, fr):
        return self.copy_arr(st, self.to_array(st, a[0]))

    def np_where(self, a, kw, st, fr):
        if len(a) == 1:
            return self.np_nonzero(a, kw, st, fr)
        return self.elementwise(st, lambda c, x, y: T.ite(T.truth(c), x, y), a)

    def np_nonzero(self, a, kw, st, fr):
        v = self.to_array(st, a[0])
        if not isinstance(v, Arr):
            raise Unsupported("nonzero")
        c = T.truth(self.body(st, v))
        return Tup([Masked(v.dims, c, K[i], "i") for i in range(len(v.dims))])

    def np_flatnonzero(self, a, kw, st, fr):
        v = self.to_array(st, a[0])
        if isinstance(v, Arr) and len(v.dims) == 1:
            return self.np_nonzero([v], kw, st, fr).items[0]
        raise Unsupported("flatnonzero")

    def np_argwhere(self, a, kw, st, fr):
        v = self.to_array(st, a[0])
        if isinstance(v, Arr) and len(v.dims) >= 2:
            return Zip("zip", list(self.np_nonzero([v], kw, st, fr).items))  # rows of indices
        raise Unsupported("argwhere")

    def np_count_nonzero(self, a, kw, st, fr):
        v = a[0]
        if isinstance(v, (Tup, Ref)):
            v = self.to_array(st, v)
        r = self.elementwise(st, lambda x: T.truth(x), [v], "b")
        ax = kw.get("axis") or (a[1] if len(a) > 1 else None)
        return self.reduce_axis(st, "sum", r, None if ax is None or ax is NONE else ax.args[0])

    def np_minimum(self, a, kw, st, fr):
        return self.out_arg(self.elementwise(st, T.min_, a[:2]), kw, st)

    def np_maximum(self, a, kw, st, fr):
        return self.out_arg(self.elementwise(st, T.max_, a[:2]), kw, st)

    np_fmin = np_minimum
    np_fmax = np_maximum

    def np_abs(self, a, kw, st, fr):
        return self.elementwise(st, T.abs_, [a[0]])

    np_absolute = np_abs
    np_fabs = np_abs

    def np_negative(self, a, kw, st, fr):
        return self.elementwise(st, T.neg, [a[0]])

    def np_sqrt(self, a, kw, st, fr):
        return self.elementwise(st, T.sqrt, [a[0]])

    def np_square(self, a, kw, st, fr):
        return self.elementwise(st, lambda x: T.mul(x, x), [a[0]])

    def np_floor(self, a, kw, st, fr):
        return self.elementwise(st, T.floor, [a[0]])

    def np_ceil(self, a, kw, st, fr):
        return self.elementwise(st, T.ceil, [a[0]])

    def np_trunc(self, a, kw, st, fr):
        return self.elementwise(st, T.trunc, [a[0]])

    np_fix = np_trunc

    def np_rint(self, a, kw, st, fr):
        return self.elementwise(st, T.rnd, [a[0]])

    def np_round(self, a, kw, st, fr):
        n = a[1] if len(a) > 1 else kw.get("decimals", ZERO)
        return self.elementwise(st, lambda x: T.rnd(x, n), [a[0]])

    np_around = np_round

    def np_clip(self, a, kw, st, fr):
        lo = a[1] if len(a) > 1 else kw.get("min", kw.get("a_min"))
        hi = a[2] if len(a) > 2 else kw.get("max", kw.get("a_max"))
        lo = None if lo is NONE else lo
        hi = None if hi is NONE else hi

        def f(x, *b):
            i = 0
            if lo is not None:
                x = T.max_(x, b[i])
                i += 1
            if hi is not None:
                x = T.min_(x, b[i])
            return x

        return self.out_arg(self.elementwise(st, f, [a[0]] + [b for b in (lo, hi) if b is not None]), kw, st)

    def np_dot(self, a, kw, st, fr):
        return self.matmul(st, a[0], a[1])

    np_matmul = np_dot
    np_inner = np_dot

    def np_outer(self, a, kw, st, fr):
        x, y = self.to_array(st, a[0]), self.to_array(st, a[1])
        return self.new(st, [x.dims[0], y.dims[0]], "f", T.mul(self.read(st, x, [K[0]]), self.read(st, y, [K[1]])))

    def np_subtract_outer(self, a, kw, st, fr):
        x, y = self.to_array(st, a[0]), self.to_array(st, a[1])
        return self.new(st, [x.dims[0], y.dims[0]], "f", T.sub(self.read(st, x, [K[0]]), self.read(st, y, [K[1]])))

    def np_reshape(self, a, kw, st, fr):
        return self.reshape_order(st, a[0], self.shape_of(a[1], st), kw)

    def reshape_order(self, st, a, shape, kw):
        o = kw.get("order")
        if o is None or o.op == "str" and o.args[0] == "C":
            return self.reshape(st, a, shape)
        if o.op == "str" and o.args[0] == "F" and isinstance(a, Arr):
            return self.transpose(st, self.reshape(st, self.transpose(st, a), list(reversed(list(shape)))))
        raise Unsupported("reshape order")

    def np_ravel(self, a, kw, st, fr):
        return self.reshape(st, a[0], [T.C(-1)])

    def np_transpose(self, a, kw, st, fr):
        return self.transpose(st, a[0])

    def np_squeeze(self, a, kw, st, fr):
        v = a[0]
        if isinstance(v, Arr):
            return self.reshape(st, v, [d for d in v.dims if d is not ONE])
        return v

    def np_concatenate(self, a, kw, st, fr):
        parts = self.seq_items(st, a[0])
        if parts is None:
            raise Unsupported("concatenate")
        ax = a[1] if len(a) > 1 else kw.get("axis", ZERO)
        return self.concat(st, parts, ax.args[0])

    def np_hstack(self, a, kw, st, fr):
        parts = [self.to_array(st, p) for p in self.seq_items(st, a[0])]
        r = len(parts[0].dims) if isinstance(parts[0], Arr) else 1
        return self.concat(st, parts, 0 if r == 1 else 1)

    def np_vstack(self, a, kw, st, fr):
        parts = [self.to_array(st, p) for p in self.seq_items(st, a[0])]
        parts = [self.reshape(st, p, [ONE] + list(p.dims)) if len(p.dims) == 1 else p for p in parts]
        return self.concat(st, parts, 0)

    def np_stack(self, a, kw, st, fr):
        parts = [self.to_array(st, p) for p in self.seq_items(st, a[0])]
        ax = kw.get("axis", a[1] if len(a) > 1 else ZERO).args[0]
        if ax < 0:
            ax += len(parts[0].dims) + 1
        parts = [self.reshape(st, p, list(p.dims[:ax]) + [ONE] + list(p.dims[ax:])) for p in parts]
        return self.concat(st, parts, ax)

    def np_column_stack(self, a, kw, st, fr):
        parts = [self.to_array(st, p) for p in self.seq_items(st, a[0])]
        parts = [self.reshape(st, p, [p.dims[0], ONE]) if len(p.dims) == 1 else p for p in parts]
        return self.concat(st, parts, 1)

    def np_append(self, a, kw, st, fr):
        ax = kw.get("axis")
        x, y = self.to_array(st, a[0]), self.to_array(st, a[1])
        if ax is None:
            y = y if isinstance(y, Arr) and y.dims else self.to_array(st, self.mk_list(st, [self.scalar(y, st)]))
            x = x if len(x.dims) == 1 else self.reshape(st, x, [T.C(-1)])
            y = y if len(y.dims) == 1 else self.reshape(st, y, [T.C(-1)])
            return self.concat(st, [x, y])
        return self.concat(st, [x, y], ax.args[0])

    def np_delete(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        obj = self.scalar(a[1] if len(a) > 1 else kw["obj"], st)
        ax = kw.get("axis", a[2] if len(a) > 2 else None)
        if ax is None or ax is NONE:
            if len(x.dims) != 1:
                raise Unsupported("delete")
            ax = ZERO
        ax = ax.args[0]
        obj = self.norm_index(st, obj, x.dims[ax])
        idx = list(K[: len(x.dims)])
        idx[ax] = T.ite(T.lt(K[ax], obj), K[ax], T.add(K[ax], ONE))
        dims = list(x.dims)
        dims[ax] = T.sub(dims[ax], ONE)
        body = T.ite(T.lt(K[ax], obj), self.read(st, x, list(K[: len(x.dims)])),
                     self.read(st, x, [T.add(k, ONE) if i == ax else k for i, k in enumerate(K[: len(x.dims)])]))
        return self.new(st, dims, self.dtype(st, x), body)

    def np_insert(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        if len(x.dims) != 1:
            raise Unsupported("insert")
        p = self.norm_index(st, self.scalar(a[1], st), T.add(x.dims[0], ONE), False)
        v = self.scalar(a[2], st)
        body = T.ite(T.lt(K[0], p), self.read(st, x, [K[0]]), T.ite(T.eq(K[0], p), v, self.read(st, x, [T.sub(K[0], ONE)])))
        return self.new(st, [T.add(x.dims[0], ONE)], self.dtype(st, x), body)

    def np_pad(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        w = a[1] if len(a) > 1 else kw["pad_width"]
        if len(a) > 2 and not (a[2].op == "str" and a[2].args[0] == "constant") or "mode" in kw and kw["mode"].args[0] != "constant":
            raise Unsupported("pad mode")
        cv = kw.get("constant_values", ZERO)
        n = len(x.dims)
        if isinstance(w, Term):
            ws = [(w, w)] * n
        else:
            its = self.seq_items(st, w)
            if all(isinstance(i, Term) for i in its):
                ws = [(its[0], its[1] if len(its) > 1 else its[0])] * n
            else:
                ws = [tuple(self.seq_items(st, i)) for i in its]
                if len(ws) == 1:
                    ws = ws * n
        dims, idx, g = [], [], []
        for (b, c), d, k in zip(ws, x.dims, K):
            dims.append(T.add(d, b, c))
            idx.append(T.sub(k, b))
            if b is not ZERO:
                g.append(T.le(b, k))
            if c is not ZERO:
                g.append(T.lt(k, T.add(b, d)))
        body = T.ite(T.and_(*g), self.read(st, x, idx), cv)
        return self.new(st, dims, self.dtype(st, x), body)

    def np_identity(self, a, kw, st, fr):
        return self.new(st, [a[0], a[0]], "f", T.ite(T.eq(K[0], K[1]), ONE, ZERO))

    def np_eye(self, a, kw, st, fr):
        return self.np_identity(a, kw, st, fr)

    def np_diag(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        if len(x.dims) == 2:
            return self.new(st, [x.dims[0]], self.dtype(st, x), self.read(st, x, [K[0], K[0]]))
        return self.new(st, [x.dims[0], x.dims[0]], self.dtype(st, x), T.ite(T.eq(K[0], K[1]), self.read(st, x, [K[0]]), ZERO))

    np_diagonal = np_diag

    def np_fill_diagonal(self, a, kw, st, fr):
        x = a[0]
        if not isinstance(x, Arr) or len(x.dims) != 2 or len(a) != 2 or kw:
            raise Unsupported("fill_diagonal")
        v = a[1] if isinstance(a[1], Term) else self.to_array(st, a[1])
        if isinstance(v, Arr) and (len(v.dims) != 1 or v.dims[0] is not x.dims[0]):
            raise Unsupported("fill_diagonal")
        snap = st.copy()
        self.store(st, x, lambda idx: T.ite(T.eq(idx[0], idx[1]), v if isinstance(v, Term) else self.value_at(snap, v, [idx[0]]), self.read(snap, x, idx)))
        return NONE

    def np_select(self, a, kw, st, fr):
        """the value of the first condition that holds"""
        conds, vals = self.seq_items(st, a[0]), self.seq_items(st, a[1])
        if conds is None or vals is None or len(conds) != len(vals):
            raise Unsupported("select")
        r = kw.get("default", a[2] if len(a) > 2 else ZERO)
        for c, v in zip(reversed(conds), reversed(vals)):
            r = self.np_call("where", [c, v, r], {}, st, fr)
        return r

    def np_choose(self, a, kw, st, fr):
        vals = self.seq_items(st, a[1])
        if not isinstance(a[0], Term) or vals is None or not all(isinstance(v, Term) for v in vals) or len(a) > 2 or kw:
            raise Unsupported("choose")
        st.err = T.or_(st.err, T.lt(a[0], ZERO), T.le(T.C(len(vals)), a[0]))
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = T.ite(T.eq(a[0], T.C(i)), vals[i], r)
        return r

    def np_put(self, a, kw, st, fr):
        if not isinstance(a[0], Arr) or len(a[0].dims) != 1 or len(a) != 3 or kw:
            raise Unsupported("put")
        self.setitem(st, a[0], [a[1]], a[2])
        return NONE

    def np_trace(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        if len(x.dims) != 2 or len(a) > 1 or kw:
            raise Unsupported("trace")
        v = T.fresh("i", "v")
        return T.sum_(v, ZERO, T.min_(x.dims[0], x.dims[1]), self.read(st, x, [v, v]))

    def np_tile(self, a, kw, st, fr):
        raise Unsupported("tile")

    def np_repeat(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        n = a[1]
        if isinstance(x, Arr) and len(x.dims) == 1 and isinstance(n, Term):
            return self.new(st, [T.mul(x.dims[0], n)], self.dtype(st, x), self.read(st, x, [T.fdiv(K[0], n)]))
        if isinstance(x, Term) and isinstance(n, Term):
            return self.new(st, [n], self.val_dtype(st, x), x)
        ax = kw.get("axis")
        if isinstance(x, Arr) and ax is not None and ax.op == "c" and isinstance(n, Term):
            i = ax.args[0] % len(x.dims)
            dims = list(x.dims)
            dims[i] = T.mul(dims[i], n)
            return self.new(st, dims, self.dtype(st, x), self.read(st, x, [T.fdiv(k, n) if j == i else k for j, k in enumerate(K[: len(dims)])]))
        raise Unsupported("repeat")

    def np_cumsum(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        ax = kw.get("axis", a[1] if len(a) > 1 else None)
        n = len(x.dims)
        if ax is None or ax is NONE:
            if n != 1:
                raise Unsupported("cumsum")
            i = 0
        else:
            i = ax.args[0] % n
        u = T.fresh("i")
        LB[u.args[0]] = 0
        idx = [u if j == i else K[j] for j in range(n)]
        dt = self.dtype(st, x)
        return self.new(st, x.dims, "i" if dt == "b" else dt, T.sum_(u, ZERO, T.add(K[i], ONE), T.num(self.read(st, x, idx))))

    def np_add_accumulate(self, a, kw, st, fr):
        return self.np_cumsum([a[0]], {"axis": kw.get("axis", ZERO)}, st, fr)

    def np_subtract_at(self, a, kw, st, fr):
        v = a[2]
        neg = Masked(v.dims, v.cond, T.neg(v.val), v.dtype) if isinstance(v, Masked) else self.elementwise(st, T.neg, [self.to_array(st, v) if isinstance(v, (Ref, Tup)) else v])
        return self.np_add_at([a[0], a[1], neg], kw, st, fr)

    def np_add_at(self, a, kw, st, fr):
        x, idx, v = a
        items = list(idx.items) if isinstance(idx, Tup) else [idx]
        snap = st.copy()
        items = [self.prep_item(st, it) for it in self.expand_items(st, x, [self.conv_item(st, it) for it in items])]
        if all(self.is_basic(i) for i in items):
            vw = self.view(st, x, items)
            self.store(st, vw, lambda ii: T.add(self.read(snap, vw, ii), self.value_at(snap, v, ii)))
            return NONE
        plan = self.plan(st, x, items)
        c = st.heap[x.oid]
        ks = K[: len(c.dims)]
        if plan[0] == "fancy":
            _, dims, where = plan
            vs = [T.fresh("i") for _ in dims]
            for w in vs:
                LB[w.args[0]] = 0
            w, _ = where(vs)
            cond = TRUE
            val = self.value_at(snap, self.to_array(st, v), vs)
            dd = dims
        else:
            _, _, cond, where, mdims, tail = plan
            if tail:
                raise Unsupported("add.at")
            vs = [T.fresh("i") for _ in mdims]
            for x_ in vs:
                LB[x_.args[0]] = 0
            sub = dict(zip(K, vs))
            w = where(vs)
            cond = T.subst(cond, sub)
            val = T.subst(v.val, sub) if isinstance(v, Masked) else v
            if not isinstance(val, Term):
                raise Unsupported("add.at value")
            dd = mdims
        b = self.base_index(x, w)
        g = T.and_(cond, *[T.eq(k, e) for k, e in zip(ks, b)])
        r = T.ite(g, val, ZERO)
        for u, n in reversed(list(zip(vs, dd))):
            r = T.sum_(u, ZERO, n, r)
        st.heap[x.oid] = Content(c.dims, c.dtype, self.assume_in(self.cast(c.dtype, T.add(c.body, r)), c.dims), c.name)
        return NONE

    def np_bincount(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        w = kw.get("weights", a[1] if len(a) > 1 else None)
        ml = kw.get("minlength", a[2] if len(a) > 2 else ZERO)
        u = T.fresh("i")
        LB[u.args[0]] = 0
        xi = self.read(st, x, [u])
        val = ONE if w is None or w is NONE else self.value_at(st, self.to_array(st, w), [u])
        n = T.max_(T.add(T.reduce_("maxr", u, ZERO, x.dims[0], xi), ONE), ml)
        # assume the index range does not exceed minlength when given
        if ml is not ZERO:
            n = ml
        return self.new(st, [n], "f" if w is not None else "i", T.sum_(u, ZERO, x.dims[0], T.ite(T.eq(xi, K[0]), val, ZERO)))

    def np_diff(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        if len(x.dims) != 1:
            raise Unsupported("diff")
        return self.new(st, [T.sub(x.dims[0], ONE)], self.dtype(st, x), T.sub(self.read(st, x, [T.add(K[0], ONE)]), self.read(st, x, [K[0]])))

    def np_searchsorted(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        side = kw.get("side", a[2] if len(a) > 2 else T.S("left")).args[0]

        def f(v):
            u = T.fresh("i")
            LB[u.args[0]] = 0
            el = self.read(st, x, [u])
            return T.sum_(u, ZERO, x.dims[0], T.num(T.lt(el, v) if side == "left" else T.le(el, v)))

        return self.elementwise(st, f, [a[1]], "i")

    def np_digitize(self, a, kw, st, fr):
        x = self.to_array(st, a[1])
        right = kw.get("right", FALSE)

        def f(v):
            u = T.fresh("i")
            LB[u.args[0]] = 0
            el = self.read(st, x, [u])
            return T.sum_(u, ZERO, x.dims[0], T.num(T.lt(el, v) if right is TRUE else T.le(el, v)))

        return self.elementwise(st, f, [a[0]], "i")

    def np_isclose(self, a, kw, st, fr):
        return self.elementwise(st, lambda x, y: T._node("fn", ("isclose", T.sub(x, y)), bool_=True), a[:2], "b")

    def np_logical_and(self, a, kw, st, fr):
        return self.elementwise(st, lambda x, y: T.and_(T.truth(x), T.truth(y)), a[:2], "b")

    def np_logical_or(self, a, kw, st, fr):
        return self.elementwise(st, lambda x, y: T.or_(T.truth(x), T.truth(y)), a[:2], "b")

    def np_logical_not(self, a, kw, st, fr):
        return self.elementwise(st, lambda x: T.not_(T.truth(x)), a[:1], "b")

    def np_linalg_inv(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        c = T.call("inv", self.snapshot(st, x))
        return self.new(st, x.dims, "f", T.sel(T.out(c, "inv", "f"), K[0], K[1]))

    def np_linalg_norm(self, a, kw, st, fr):
        return T.call("norm", self.snapshot(st, a[0]))

    def np_ix_(self, a, kw, st, fr):
        out = []
        n = len(a)
        for i, x in enumerate(a):
            x = self.to_array(st, x)
            out.append(self.reshape(st, x, [x.dims[0] if j == i else ONE for j in range(n)]))
        return Tup(out)

    def np_meshgrid(self, a, kw, st, fr):
        raise Unsupported("meshgrid")

    def np_einsum(self, a, kw, st, fr):
        if not (isinstance(a[0], Term) and a[0].op == "str") or kw:
            raise Unsupported("einsum")
        spec = a[0].args[0].replace(" ", "")
        xs = [self.to_array(st, x) for x in a[1:]]
        ins, arrow, out = spec.partition("->")
        ins = ins.split(",")
        if "." in spec or len(ins) != len(xs) or any(len(i) != len(x.dims) for i, x in zip(ins, xs)):
            raise Unsupported("einsum")
        letters = "".join(ins)
        if not arrow:
            out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        dims = {}
        for i, x in zip(ins, xs):
            for c, d in zip(i, x.dims):
                dims.setdefault(c, d)
        at = {c: K[j] for j, c in enumerate(out)}
        inner = [c for c in dict.fromkeys(letters) if c not in out]
        for c in inner:
            at[c] = T.fresh("i")
            LB[at[c].args[0]] = 0
        r = ONE
        for i, x in zip(ins, xs):
            r = T.mul(r, T.num(self.read(st, x, [at[c] for c in i])))
        for c in inner:
            r = T.sum_(at[c], ZERO, dims[c], r)
        dt = "i" if all(self.dtype(st, x) in ("i", "b") for x in xs) else "f"
        return self.mk(st, [dims[c] for c in out], dt, r)

    def np_ndindex(self, a, kw, st, fr):
        dims = self.shape_of(a[0], st) if len(a) == 1 else [self.scalar(x, st) for x in a]
        return Zip("product", [Rng(ZERO, d) for d in dims])

    def np_ndenumerate(self, a, kw, st, fr):
        return Zip("ndenum", [self.to_array(st, a[0])])

    def b_itertools_product(self, a, kw, st, fr):
        if kw:
            n = kw["repeat"].args[0]
            a = list(a) * n
        return Zip("product", a)

    def b_next(self, a, kw, st, fr):
        v = a[0]
        its = self.seq_items(st, v)
        if its is not None:
            if its:
                return its[0]
            if len(a) > 1:
                return a[1]
        if isinstance(v, Ref) and v.kind == "list":
            c = st.heap.get(v.oid)
            if isinstance(c, Masked):
                v = c
            elif isinstance(c, Content) and len(c.dims) == 1:
                v = Masked(c.dims, TRUE, c.body, c.dtype)
        if isinstance(v, Masked) and len(v.dims) == 1:
            u = T.fresh("i")
            LB[u.args[0]] = 0
            c = T.subst(v.cond, {K[0]: u})
            ex = T.exists(u, ZERO, v.dims[0], c)
            r = T.subst(v.val, {K[0]: T.firsti(u, ZERO, v.dims[0], c, T.C(-1))})
            if len(a) > 1:
                if not isinstance(a[1], Term):
                    raise Unsupported("next")
                return T.ite(ex, r, a[1])
            st.err = T.or_(st.err, T.not_(ex))
            return r
        raise Unsupported("next")

    def np_multiply_outer(self, a, kw, st, fr):
        return self.np_outer(a, kw, st, fr)

    def np_add_outer(self, a, kw, st, fr):
        x, y = self.to_array(st, a[0]), self.to_array(st, a[1])
        return self.new(st, [x.dims[0], y.dims[0]], "f", T.add(self.read(st, x, [K[0]]), self.read(st, y, [K[1]])))

    def ufunc_reduce(self, name):
        def f(a, kw, st, fr):
            kw = dict(kw)
            kw.setdefault("axis", a[1] if len(a) > 1 else ZERO)
            v = a[0]
            return self.np_call(name, [v], kw, st, fr)
        return f

    def np_add_reduce(self, a, kw, st, fr):
        return self.ufunc_reduce("sum")(a, kw, st, fr)

    def np_multiply_reduce(self, a, kw, st, fr):
        return self.ufunc_reduce("prod")(a, kw, st, fr)

    def np_maximum_reduce(self, a, kw, st, fr):
        return self.ufunc_reduce("max")(a, kw, st, fr)

    def np_minimum_reduce(self, a, kw, st, fr):
        return self.ufunc_reduce("min")(a, kw, st, fr)

    def np_logical_or_reduce(self, a, kw, st, fr):
        return self.ufunc_reduce("any")(a, kw, st, fr)

    def np_logical_and_reduce(self, a, kw, st, fr):
        return self.ufunc_reduce("all")(a, kw, st, fr)

    def np_errstate(self, a, kw, st, fr):
        for k in ("all", "divide", "over", "under", "invalid"):
            if kw.get(k, T.S("ignore")) not in (T.S("ignore"), T.S("warn"), NONE):
                raise Unsupported("errstate")
        return NONE

    def np_take(self, a, kw, st, fr):
        x = self.to_array(st, a[0])
        ax = kw.get("axis", a[2] if len(a) > 2 else NONE)
        if ax is NONE:
            if len(x.dims) > 1:
                raise Unsupported("take from a table")
            ax = ZERO
        if "mode" in kw or len(a) > 3 or not isinstance(ax, Term) or ax.op != "c":
            raise Unsupported("take")
        ax = T.C(int(ax.args[0]) % len(x.dims))
        items = [Slice(None, None, None)] * ax.args[0] + [a[1]]
        return self.getitem(st, x, items)

    def np_copyto(self, a, kw, st, fr):
        self.setitem(st, a[0], [Slice(None, None, None)] * len(a[0].dims), a[1])
        return NONE

    def np_expand_dims(self, a, kw, st, fr):
        ax = (a[1] if len(a) > 1 else kw["axis"]).args[0]
        x = a[0]
        ax = ax % (len(x.dims) + 1)
        return self.reshape(st, x, list(x.dims[:ax]) + [ONE] + list(x.dims[ax:]))

    # ------------------------------------------------------------ math
    def math_call(self, f, a, kw, st):
        a = [self.scalar(x, st) for x in a]
        if f == "floor":
            return T.floor(a[0])
        if f == "ceil":
            return T.ceil(a[0])
        if f == "trunc":
            return T.trunc(a[0])
        if f == "sqrt":
            return T.sqrt(a[0])
        if f == "fabs":
            return T.abs_(a[0])
        if f == "pow":
            return T.pow_(a[0], a[1])
        if f == "isclose":
            return T._node("fn", ("isclose", T.sub(a[0], a[1])), bool_=True)
        return T.fn(f, *a)

    # ------------------------------------------------------------ pandas
    def pd_call(self, f, a, kw, st, fr):
        if f == "read_csv":
            p = self.snapshot(st, a[0])
            name = self.table_name(p)
            if name not in self.tables:
                raise Unsupported("table %s" % name)
            for k, v in kw.items():
                if not (k in ("sep", "delimiter") and v is T.S(",") or k == "header" and v is ZERO):
                    raise Unsupported("read_csv %s" % k)
            if len(a) != 1:
                raise Unsupported("read_csv")
            oid = self.new_oid()
            st.heap[oid] = ("table", name)
            return Ref("table", oid)
        raise Unsupported("pd.%s" % f)

    def table_name(self, p):
        """file name in the input directory (a parameter)"""
        if p.op == "call" and p.args[0] == "path" and len(p.args) == 3:
            d, l = p.args[1:]
            if l.op == "str" and self.is_param(d):
                return l.args[0]
        return T.show(p)

    def is_param(self, t):
        return t.op == "fn" and t.args[0] == "strsym" or t.op == "sel" and t.args[0].op == "arr" and t.args[0].args[1] == "o"

    def rows(self, t, st):
        from .domain import dim_term

        return dim_term(self.tables[st.heap[t.oid][1]][0])

    def column(self, t, col, st):
        from .domain import Dom, make_param

        name = st.heap[t.oid][1]
        rows, cols = self.tables[name]
        if col not in cols:
            raise Unsupported("no column %s in %s" % (col, name))
        v = cols[col]
        nm = "csv:%s:%s" % (name, col)
        return make_param(self, st, nm, v if isinstance(v, Dom) else Dom(nm, v))
