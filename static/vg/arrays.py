"""Array operations of the abstract interpreter: views, fancy indexing, masks, reductions."""
from . import terms as T
from .values import Arr, Content, K, Masked, NONE, Ref, Rng, Slice, Tup
from .terms import Term, ZERO, ONE, TRUE, FALSE


class Unsupported(Exception):
    pass


LB = {}  # lower bounds of symbols (sizes, loop variables)
UB = {}  # inclusive constant upper bounds of symbols
UPPER = {}  # exclusive symbolic upper bounds: symbol or array name -> term


def ub(t, memo=None):
    """constant upper bound of an integer term, or None"""
    t = T.num(t)
    if t.op == "c":
        return t.args[0]
    if t.op == "sym":
        return UB.get(t.args[0])
    if t.op == "sel" and t.args[0].op == "arr":
        return UB.get(t.args[0].args[0])
    if t.op == "poly":
        l = lb(T.neg(t))
        return None if l is None else -l
    if t.op == "min":
        v = [x for x in map(ub, t.args) if x is not None]
        return min(v) if v else None
    if t.op == "max":
        v = [ub(x) for x in t.args]
        return None if None in v else max(v)
    if t.op == "mod" and t.args[1].op == "c" and t.args[1].args[0] > 0 and t.int_:
        return t.args[1].args[0] - 1
    if t.op == "fdiv" and t.args[1].op == "c" and t.args[1].args[0] > 0:
        u = ub(t.args[0])
        return None if u is None else u // t.args[1].args[0]
    if t.op == "ite":
        memo = {} if memo is None else memo
        if t.id not in memo:
            a = ub(t.args[1], memo)
            b = None if a is None else ub(t.args[2], memo)
            memo[t.id] = None if b is None else max(a, b)
        return memo[t.id]
    return None


def lb(t, memo=None):
    """constant lower bound of an integer term, or None"""
    t = T.num(t)
    if t.op == "c":
        return t.args[0]
    if t.op == "sym":
        return LB.get(t.args[0])
    if t.op == "poly":
        s = 0
        for m, c in t.args:
            if m == ():
                s += c
                continue
            if c < 0:
                if len(m) != 1 or m[0][1] != 1:
                    return None
                u = ub(m[0][0])
                if u is None:
                    return None
                s += c * u
                continue
            p = 1
            for a, e in m:
                l = lb(a)
                if l is None or l < 0:
                    return None
                p *= l ** e
            s += c * p
        return s
    if t.op == "max":
        v = [lb(x) for x in t.args]
        v = [x for x in v if x is not None]
        return max(v) if v else None
    if t.op == "min":
        v = [lb(x) for x in t.args]
        return None if None in v else min(v)
    if t.op == "ite":
        memo = {} if memo is None else memo
        if t.id not in memo:
            a = lb(t.args[1], memo)
            b = None if a is None else lb(t.args[2], memo)
            memo[t.id] = None if b is None else min(a, b)
        return memo[t.id]
    if t.op == "mod" and t.args[1].op == "c" and t.args[1].args[0] > 0:
        return 0
    if t.op == "fdiv" and t.args[1].op == "c" and t.args[1].args[0] > 0:
        l = lb(t.args[0])
        return None if l is None else l // t.args[1].args[0]
    if t.op == "sel" and t.args[0].op == "arr" and t.args[0].args[1] == "nat":
        return 0
    if t.op in ("sum",):
        b = t.args[3]
        if b.op == "ite" and b.args[1] is ONE and b.args[2] is ZERO:
            return 0
        l = lb(b)
        return 0 if l is not None and l >= 0 else None
    return None


def nonneg(t):
    l = lb(t)
    return l is not None and l >= 0


def decide(t):
    """a condition simplified with the constant bounds of its symbols"""
    if t.op == "le0":
        l = lb(t.args[0])
        if l is not None and l > 0:
            return FALSE
        l = lb(T.neg(t.args[0]))
        if l is not None and l >= 0:
            return TRUE
    elif t.op == "lt0":
        l = lb(t.args[0])
        if l is not None and l >= 0:
            return FALSE
    elif t.op == "not":
        r = decide(t.args[0])
        if r is not t.args[0]:
            return T.not_(r)
    elif t.op == "and":
        r = [decide(x) for x in t.args]
        if any(x is not y for x, y in zip(r, t.args)):
            return T.and_(*r)
    elif t.op == "or":
        r = [decide(x) for x in t.args]
        if any(x is not y for x, y in zip(r, t.args)):
            return T.or_(*r)
    return t


class ArrayOps:
    """mixin; needs self.new_oid()"""

    # ------------------------------------------------------------ construction
    def new(self, st, dims, dtype, body, name=None):
        oid = self.new_oid()
        st.heap[oid] = Content(dims, dtype, body, name)
        return Arr(oid, dims)

    def mk(self, st, dims, dtype, body):
        """array of an expression; rank 0 -> scalar term"""
        if len(dims) == 0:
            return body
        return self.new(st, dims, dtype, body)

    # ------------------------------------------------------------ reading
    def base_index(self, a, idx):
        out = []
        for ax in a.axes:
            if ax[0] == "f":
                out.append(ax[1])
            else:
                _, va, start, step = ax
                i = idx[va]
                out.append(T.add(start, i if step == 1 else T.scale(i, step)))
        return out

    def read(self, st, a, idx):
        c = st.heap[a.oid]
        b = self.base_index(a, idx)
        if not isinstance(c, Content):
            return T.top("not an array")
        m = {K[i]: b[i] for i in range(len(b)) if b[i] is not K[i]}
        return T.subst(c.body, m) if m else c.body

    def body(self, st, a):
        return self.read(st, a, K[: len(a.dims)])

    def dtype(self, st, a):
        c = st.heap[a.oid]
        return c.dtype if isinstance(c, Content) else "f"

    def cast(self, dtype, v):
        if v.op in ("unbound", "top", "str", "none"):
            return v
        if dtype == "i":
            if v.op == "inf":
                return T._node("grp", (v,))
            return T.trunc(v)
        if dtype == "i32":
            return T.wrap32(T.trunc(v))
        if dtype == "f":
            return T.num(v)
        if dtype == "b":
            return T.truth(v)
        return v

    # ------------------------------------------------------------ writing
    def store(self, st, a, valf, cond=None, cast=True):
        """A[view] = valf(view index terms) where cond(view index terms)"""
        c = st.heap[a.oid]
        if not isinstance(c, Content):
            raise Unsupported("store into non-array")
        vidx = [None] * len(a.dims)
        g = []
        ks = K[: len(c.dims)]
        subs = {}
        for k, ax, bd in zip(ks, a.axes, c.dims):
            if ax[0] == "f":
                e = ax[1]
                g.append(T.eq(k, e))
                # under the gate, a loop variable in e is a function of k
                if e.op == "sym" and e.args[1] == "i" and "#" in e.args[0]:
                    subs.setdefault(e, k)
                elif e.op == "poly":
                    for m, cc in e.args:
                        if len(m) == 1 and m[0][1] == 1 and cc in (1, -1) and m[0][0].op == "sym" and "#" in m[0][0].args[0]:
                            s = T.solve_for(m[0][0], T.sub(e, k))
                            if s is not None and m[0][0] not in subs:
                                subs[m[0][0]] = s
                            break
            else:
                _, va, start, step = ax
                if step == 1:
                    vidx[va] = T.sub(k, start)
                    if start is not ZERO:
                        g.append(T.le(start, k))
                    end = T.add(start, a.dims[va])
                    if end is not bd:
                        g.append(T.lt(k, end))
                else:
                    d = T.sub(k, start)
                    q = T.fdiv(d, T.C(abs(step)))
                    if step < 0:
                        q = T.neg(q)
                        g.append(T.eq(T.mod(d, T.C(-step)), ZERO)) if step != -1 else None
                    else:
                        g.append(T.eq(T.mod(d, T.C(step)), ZERO))
                    vidx[va] = q
                    g.append(T.le(ZERO, q))
                    g.append(T.lt(q, a.dims[va]))
        for i, v in enumerate(vidx):
            if v is None:
                vidx[i] = ZERO
        v = valf(vidx)
        if cast:
            v = self.cast(c.dtype, v)
        if cond is not None:
            g.append(cond(vidx))
        if any(ax[0] == "f" for ax in a.axes) and v.fv and not self.dense:
            # reads of the written cell itself: A[e] is A[k] under the gate k == e
            at = {}
            for k, ax in zip(ks, a.axes):
                if ax[0] == "f" and ax[1] is not k:
                    at[k] = ax[1]
            for own in list(T.walk(c.body)):
                if own.op == "sel" and own.args[1:] and set(own.args[1:]) <= set(ks) and own.args[0].op == "arr":
                    img = T.subst(own, at)
                    if img is not own and own.args[0].args[0] in v.fv:
                        v = replace_node(v, img, own)
        if subs:
            # chained substitutions: a solution may mention another loop variable
            v = T.subst(v, subs)
        gate = T.and_(*g)
        body = T.ite(gate, v, c.body)
        if self.dense:
            body = self.by_element(c.dims, body)
        st.heap[a.oid] = Content(c.dims, c.dtype, body, c.name)
        if a.oid in self.phi:
            self.forget_aliases(st, a.oid)

    def by_element(self, dims, body):
        """the body of a small array of fixed size as one case per element"""
        if any(d.op != "c" for d in dims):
            return body
        shape = [int(d.args[0]) for d in dims]
        n = 1
        for d in shape:
            n *= d
        if not 0 < n <= 25:
            return body
        import itertools

        r = None
        for idx in reversed(list(itertools.product(*[range(d) for d in shape]))):
            e = T.subst(body, {K[j]: T.C(i) for j, i in enumerate(idx)})
            r = e if r is None else T.ite(T.and_(*[T.eq(K[j], T.C(i)) for j, i in enumerate(idx)]), e, r)
        return r

    def forget_aliases(self, st, oid):
        """an object that is another one only on some paths has been written: the other one is unknown"""
        for o in self.phi[oid]:
            c = st.heap.get(o)
            if isinstance(c, Content):
                st.heap[o] = Content(c.dims, c.dtype, T.top("written under another name"), c.name)

    # ------------------------------------------------------------ views
    def norm_index(self, st, i, dim, check=True):
        i = T.num(i)
        if i.op == "top":
            return i
        if i.op == "c":
            if i.args[0] < 0:
                i = T.add(dim, i)
            elif check:
                self.bound(st, i, dim)
            return i
        if not i.int_:
            if i.op in ("inf", "unbound", "str", "none"):
                return T.top("bad index")
        if not nonneg(i):
            i2 = T.ite(T.lt(i, ZERO), T.add(i, dim), i)
        else:
            i2 = i
        if check:
            self.bound(st, i, dim)
        return i2

    def bound(self, st, i, dim):
        p = T.sub(dim, i)
        if p.op == "c" and p.args[0] >= 1:
            return
        if nonneg(T.sub(p, ONE)):
            if nonneg(i):
                return
            c = FALSE
        elif self.below(i, dim):
            c = FALSE
        else:
            c = T.le(dim, i)
        if not nonneg(i):
            c = T.or_(c, T.lt(i, T.neg(dim)))
        st.err = T.or_(st.err, c)

    def below(self, i, dim):
        """i < dim from the symbolic upper bound of one atom of i"""
        d = T.to_poly(i)
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                a = m[0][0]
                n = a.args[0] if a.op == "sym" else a.args[0].args[0] if a.op == "sel" and a.args[0].op == "arr" else None
                u = UPPER.get(n) if n else None
                if u is None and a.op == "sym":
                    u = self.upper.get(a.args[0])
                if u is not None and nonneg(T.sub(dim, T.add(T.sub(i, a), u))):
                    return True
        return False

    def slice_range(self, s, dim):
        """start, length, step for a slice over an axis of length dim"""
        step = 1
        if s.step is not None and s.step is not NONE:
            if s.step.op != "c":
                raise Unsupported("slice step")
            step = s.step.args[0]

        def clip(x, default):
            if x is None or x is NONE:
                return default
            x = T.num(x)
            if x.op == "c" and x.args[0] < 0:
                r = T.add(dim, x)
                return r if nonneg(r) else T.max_(r, ZERO)
            if not nonneg(x):
                x = T.ite(T.lt(x, ZERO), T.max_(T.add(x, dim), ZERO), x)
            d = T.sub(dim, x)
            if nonneg(d) or self.below(T.sub(x, ONE), dim):
                return x
            return T.min_(x, dim)

        if step == 1:
            if s.lo in (None, NONE) and s.hi in (None, NONE):
                return ZERO, dim, 1
            lo, hi = clip(s.lo, ZERO), clip(s.hi, dim)
            n = T.sub(hi, lo)
            if not nonneg(n):
                n = T.max_(n, ZERO)
            return lo, n, 1
        if step > 1:
            lo, hi = clip(s.lo, ZERO), clip(s.hi, dim)
            n = T.fdiv(T.add(T.sub(hi, lo), T.C(step - 1)), T.C(step))
            return lo, (n if nonneg(n) else T.max_(n, ZERO)), step
        if step == -1:
            if s.lo in (None, NONE) and s.hi in (None, NONE):
                return T.sub(dim, ONE), dim, -1
        raise Unsupported("negative slice")

    def expand_items(self, st, a, items):
        """pad with full slices, expand Ellipsis; newaxis kept"""
        used = 0
        for it in items:
            if it is NONE or it == "...":
                continue
            if isinstance(it, Masked) or (isinstance(it, Arr) and self.dtype(st, it) == "b"):
                used += len(it.dims) if not isinstance(it, Masked) or it.dtype == "mask" else 1
            else:
                used += 1
        n = len(a.dims)
        out = []
        for it in items:
            if it == "...":
                out += [Slice(None, None, None)] * (n - used)
                used = n
            else:
                out.append(it)
        out += [Slice(None, None, None)] * (n - used)
        if used > n:
            raise Unsupported("too many indices")
        return out

    def view(self, st, a, items):
        """basic indexing only: returns Arr view"""
        dims, newpos = [], {}
        va = 0
        for it in items:
            if it is NONE:
                dims.append(ONE)
                continue
            if isinstance(it, Slice):
                lo, n, step = self.slice_range(it, a.dims[va])
                newpos[va] = ("s", len(dims), lo, step)
                dims.append(n)
            else:
                newpos[va] = ("i", self.norm_index(st, it, a.dims[va]))
            va += 1
        axes = []
        for ax in a.axes:
            if ax[0] == "f":
                axes.append(ax)
                continue
            _, v, start, step = ax
            p = newpos[v]
            if p[0] == "i":
                axes.append(("f", T.add(start, T.scale(p[1], step))))
            else:
                axes.append(("a", p[1], T.add(start, T.scale(p[2], step)), step * p[3]))
        return Arr(a.oid, dims, axes)

    @staticmethod
    def is_basic(it):
        return it is NONE or isinstance(it, Slice) or isinstance(it, Term)

    def to_array(self, st, v):
        """convert lists / ranges / tuples to arrays"""
        if isinstance(v, Arr) or isinstance(v, Masked) or isinstance(v, Term):
            return v
        if isinstance(v, Rng):
            n = self.rng_len(v)
            return self.new(st, [n], "i", T.add(v.lo, T.scale(K[0], v.step)))
        if isinstance(v, (Tup, Ref)):
            items = self.seq_items(st, v)
            if items is None:
                if isinstance(v, Ref) and v.kind == "list":
                    c = st.heap[v.oid]
                    if isinstance(c, Content):
                        return self.new(st, c.dims, c.dtype, c.body)
                raise Unsupported("array of dynamic sequence")
            items = [self.to_array(st, x) for x in items]
            n = len(items)
            if n == 0:
                return self.new(st, [ZERO], "f", ZERO)
            if all(isinstance(x, Term) for x in items):
                body = items[-1]
                for i in range(n - 2, -1, -1):
                    body = T.ite(T.eq(K[0], T.C(i)), items[i], body)
                if any(x.op in ("str",) or x.op == "none" for x in items):
                    dt = "o"
                elif all(x.bool_ for x in items):
                    dt = "b"
                elif all(x.int_ or x.bool_ for x in items):
                    dt = "i"
                else:
                    dt = "f"
                return self.new(st, [T.C(n)], dt, body)
            if all(isinstance(x, Arr) for x in items):
                d0 = items[0].dims
                r = len(d0)
                bodies = [T.subst(self.read(st, x, K[1:r + 1]), {}) for x in items]
                body = bodies[-1]
                for i in range(n - 2, -1, -1):
                    body = T.ite(T.eq(K[0], T.C(i)), bodies[i], body)
                dts = [self.dtype(st, x) for x in items]
                dt = dts[0] if len(set(dts)) == 1 else "f"
                return self.new(st, [T.C(n)] + list(d0), dt, body)
        raise Unsupported("to_array %s" % type(v).__name__)

    def rng_len(self, r):
        n = T.sub(r.hi, r.lo)
        if r.step < 0:
            n = T.neg(n)
        s = abs(r.step)
        if s != 1:
            n = T.fdiv(T.add(n, T.C(s - 1)), T.C(s))
        return n if nonneg(n) else T.max_(n, ZERO)

    def as_mask(self, st, it):
        """boolean array used as an index -> Masked with dtype 'b' marker (multi-axis)"""
        return Masked(it.dims, T.truth(self.body(st, it)), TRUE, "mask")

    # ------------------------------------------------------------ getitem
    def getitem(self, st, a, items):
        items = [self.prep_item(st, it) for it in self.expand_items(st, a, [self.conv_item(st, it) for it in items])]
        if all(self.is_basic(it) for it in items):
            v = self.view(st, a, items)
            if len(v.dims) == 0:
                return self.read(st, v, [])
            return v
        if any(isinstance(it, Term) and it.top_ for it in items):
            return T.top("index")
        plan = self.plan(st, a, items)
        if plan is None:
            raise Unsupported("index")
        kind = plan[0]
        if kind == "fancy":
            _, dims, where = plan
            idx, _ = where(list(K[: len(dims)]))
            val = self.read(st, a, idx)
            return self.mk(st, dims, self.dtype(st, a), val)
        if kind == "masked":
            _, vdims, cond, where, mdims, tail = plan
            nm = len(mdims)
            if tail:
                # A[mask] with trailing full axes is a masked space with extra axes: unsupported unless reduced
                return Masked(list(mdims) + list(tail), cond, self.read(st, a, where(list(K[: nm + len(tail)]))), self.dtype(st, a))
            return Masked(mdims, cond, self.read(st, a, where(list(K[:nm]))), self.dtype(st, a))

    def conv_item(self, st, it):
        if isinstance(it, (Tup, Ref, Rng)):
            if isinstance(it, Tup) and len(it.items) == 1 and isinstance(it.items[0], Masked):
                return it.items[0]
            return self.to_array(st, it)
        if isinstance(it, Term) and it.bool_ and it.op not in ("true", "false"):
            return T.num(it)
        return it

    def prep_item(self, st, it):
        if isinstance(it, Arr):
            if self.dtype(st, it) == "b":
                return self.as_mask(st, it)
            if len(it.dims) == 0:
                return self.read(st, it, [])
        return it

    def plan(self, st, a, items):
        """how advanced indexing walks the view `a`.
        ('fancy', result dims, f(result idx) -> (view idx, None)) or
        ('masked', .., cond over K0.. of the mask space, f(mask idx + tail idx) -> view idx, mask dims, tail dims)"""
        masks = [it for it in items if isinstance(it, Masked)]
        if masks:
            m0 = masks[0]
            if any(m.cond is not m0.cond or m.dims != m0.dims for m in masks):
                return None
            nm = len(m0.dims)
            pos = []  # per view axis: function(kidx)
            tail = []
            va = 0
            for it in items:
                if it is NONE:
                    return None
                if isinstance(it, Masked):
                    if it.dtype == "mask":
                        for j in range(nm):
                            pos.append(("k", j))
                            va += 1
                    else:
                        pos.append(("v", self.norm_index(st, it.val, a.dims[va], False)))
                        va += 1
                elif isinstance(it, Slice):
                    lo, n, step = self.slice_range(it, a.dims[va])
                    pos.append(("s", nm + len(tail), lo, step))
                    tail.append(n)
                    va += 1
                elif isinstance(it, Arr):
                    return None
                else:
                    pos.append(("c", self.norm_index(st, it, a.dims[va])))
                    va += 1

            def where(k):
                out = []
                sub = {K[j]: k[j] for j in range(nm) if k[j] is not K[j]}
                for p in pos:
                    if p[0] == "k":
                        out.append(k[p[1]])
                    elif p[0] == "v":
                        out.append(T.subst(p[1], sub) if sub else p[1])
                    elif p[0] == "c":
                        out.append(p[1])
                    else:
                        out.append(T.add(p[2], T.scale(k[p[1]], p[3])))
                return out

            return ("masked", None, m0.cond, where, m0.dims, tail)
        # integer arrays
        advs = [(i, it) for i, it in enumerate(items) if isinstance(it, Arr)]
        rank = max(len(it.dims) for _, it in advs)
        bd = [ONE] * rank
        for _, it in advs:
            for j, d in enumerate(it.dims):
                p = rank - len(it.dims) + j
                if d is not ONE:
                    if bd[p] is not ONE and bd[p] is not d:
                        self.mismatch(st, bd[p], d)
                    bd[p] = d
        adv_pos = [i for i, it in enumerate(items) if isinstance(it, Arr) or (isinstance(it, Term) and it is not NONE)]
        contiguous = adv_pos == list(range(adv_pos[0], adv_pos[-1] + 1))
        dims = []
        placed = None
        spec = []
        va = 0
        if not contiguous:
            placed = 0
            dims += bd
        for i, it in enumerate(items):
            if it is NONE:
                dims.append(ONE)
                continue
            if isinstance(it, Slice):
                lo, n, step = self.slice_range(it, a.dims[va])
                spec.append(("s", len(dims), lo, step))
                dims.append(n)
            elif isinstance(it, Arr):
                if placed is None:
                    placed = len(dims)
                    dims += bd
                spec.append(("v", it, a.dims[va]))
            else:
                if contiguous and placed is None and adv_pos[0] == i:
                    placed = len(dims)
                    dims += bd
                spec.append(("c", self.norm_index(st, it, a.dims[va])))
            va += 1
        heap = dict(st.heap)

        class H:
            pass

        snap = H()
        snap.heap = heap
        snap.err = FALSE

        def where(r):
            out = []
            for s in spec:
                if s[0] == "s":
                    out.append(T.add(s[2], T.scale(r[s[1]], s[3])))
                elif s[0] == "c":
                    out.append(s[1])
                else:
                    it = s[1]
                    n = len(it.dims)
                    ii = []
                    for j in range(n):
                        d = it.dims[j]
                        ii.append(ZERO if d is ONE else r[placed + rank - n + j])
                    v = self.read(snap, it, ii)
                    out.append(self.norm_index(snap, v, s[2], False) if not nonneg_index(v) else v)
            return out, (placed, rank)

        return ("fancy", dims, where)

    # ------------------------------------------------------------ setitem
    def value_at(self, st, value, idx, one=()):
        """value broadcast to an index tuple"""
        if isinstance(value, Term):
            return value
        if isinstance(value, Arr):
            n = len(value.dims)
            if n > len(idx):
                lead = n - len(idx)
                if any(d is not ONE for d in value.dims[:lead]):
                    raise Unsupported("value rank")
                ii = [ZERO] * lead + list(idx)
            else:
                ii = list(idx[len(idx) - n:])
            ii = [ZERO if d is ONE else T.ite(T.eq(d, ONE), ZERO, i) if d in one else i for d, i in zip(value.dims, ii)]
            return self.read(st, value, ii)
        raise Unsupported("value")

    def setitem(self, st, a, items, value):
        value = self.to_array(st, value) if isinstance(value, (Tup, Ref, Rng)) else value
        items = [self.prep_item(st, it) for it in self.expand_items(st, a, [self.conv_item(st, it) for it in items])]
        snap_state = st.copy()
        if all(self.is_basic(it) for it in items):
            v = self.view(st, a, items)
            snap_state = st.copy()
            if isinstance(value, Masked):
                raise Unsupported("masked value into slice")
            one = set()
            if isinstance(value, Arr):
                for d, n in zip(reversed(value.dims), reversed(v.dims)):
                    if d is not ONE and d is not n:
                        # a value of length one is broadcast, any other length must agree
                        bad = T.and_(T.ne(d, n), T.ne(d, ONE))
                        st.err = T.or_(st.err, bad)
                        if bad is not FALSE:
                            one.add(d)
            self.store(st, v, lambda idx: self.value_at(snap_state, value, idx, one))
            return
        if any(isinstance(it, Term) and it.top_ for it in items):
            self.havoc(st, a, "index")
            return
        plan = self.plan(st, a, items)
        if plan is None:
            raise Unsupported("index store")
        if plan[0] == "masked":
            _, _, cond, where, mdims, tail = plan
            nm = len(mdims)
            ident = all(isinstance(it, Masked) and it.dtype == "mask" or isinstance(it, Slice) and it.lo in (None, NONE) and it.hi in (None, NONE) for it in items)
            if isinstance(value, Masked):
                valk = self.same_mask(st, Masked(mdims, cond, TRUE, "mask"), value)
            else:
                valk = None
            if ident:
                def valf(idx):
                    if valk is not None:
                        return T.subst(valk, dict(zip(K[:nm], idx[:nm])))
                    if isinstance(value, Term):
                        return value
                    if isinstance(value, Arr) and len(value.dims) <= len(tail):
                        return self.value_at(snap_state, value, idx)
                    if isinstance(value, Arr) and len(value.dims) == 1 and nm == 1 and not tail:
                        # position of idx within the mask
                        u = T.fresh("i")
                        p = T.sum_(u, ZERO, idx[0], T.num(T.subst(cond, {K[0]: u})))
                        return self.read(snap_state, value, [p])
                    raise Unsupported("masked store of array")

                self.store(st, a, valf, lambda idx: T.subst(cond, dict(zip(K[:nm], idx[:nm]))))
                return
            # scatter over the mask space
            vs = [T.fresh("i") for _ in range(nm)]
            for v in vs:
                LB[v.args[0]] = 0
            ts = [T.fresh("i") for _ in tail]
            for v in ts:
                LB[v.args[0]] = 0
            sub = dict(zip(K[:nm], vs))
            w = where(vs + ts)
            cnd = T.subst(cond, sub)
            if valk is not None:
                val = T.subst(valk, sub)
            elif isinstance(value, Term):
                val = value
            elif isinstance(value, Arr) and len(value.dims) == 1 and nm == 1 and not tail:
                u = T.fresh("i")
                val = self.read(snap_state, value, [T.sum_(u, ZERO, vs[0], T.num(T.subst(cond, {K[0]: u})))])
            else:
                raise Unsupported("masked scatter")
            self.scatter(st, a, w, list(zip(vs, mdims)) + list(zip(ts, tail)), cnd, val)
            return
        _, dims, where = plan
        vs = [T.fresh("i") for _ in dims]
        for v in vs:
            LB[v.args[0]] = 0
        w, _ = where(vs)
        val = self.value_at(snap_state, value, vs) if not isinstance(value, Masked) else None
        if val is None:
            raise Unsupported("masked value in fancy store")
        self.scatter(st, a, w, list(zip(vs, dims)), TRUE, val)

    def scatter(self, st, a, w, vs, cond, val):
        """A[w(vs)] = val(vs) for all vs in their ranges (last one wins)"""
        c = st.heap[a.oid]
        old = c.body
        ks = K[: len(c.dims)]
        b = self.base_index(a, w)
        g = [cond]
        for k, e in zip(ks, b):
            g.append(T.eq(k, e))
        gate = T.and_(*g)
        v = self.cast(c.dtype, val)
        body = self.scatter_last(vs, gate, v, old)
        st.heap[a.oid] = Content(c.dims, c.dtype, self.assume_in(body, c.dims), c.name)
        if a.oid in self.phi:
            self.forget_aliases(st, a.oid)

    def scatter_last(self, vs, gate, val, old):
        """nested last over several variables"""
        if not vs:
            return T.ite(gate, val, old)
        # eliminate variables bound by a unit-coefficient equation first
        for i, (v, n) in enumerate(vs):
            if v.args[0] not in gate.fv and v.args[0] not in val.fv:
                gate = T.and_(gate, T.lt(ZERO, n))
                return self.scatter_last(vs[:i] + vs[i + 1:], gate, val, old)
            dl = T.find_delta(v, gate)
            if dl is not None:
                e, rest = dl
                gate2 = T.and_(T.le(ZERO, e), T.lt(e, n), T.subst(rest, {v: e}))
                return self.scatter_last(vs[:i] + vs[i + 1:], gate2, T.subst(val, {v: e}), old)
        if len(vs) == 1:
            v, n = vs[0]
            return T.last(v, ZERO, n, gate, val, old)
        (v, n), rest = vs[0], vs[1:]
        # outer variable: last v for which the inner space is hit
        inner_hit = gate
        for u, m in reversed(rest):
            inner_hit = T.exists(u, ZERO, m, inner_hit)
        inner_val = self.scatter_last(rest, gate, val, ZERO)
        return T.last(v, ZERO, n, inner_hit, inner_val, old)

    def assume_in(self, body, dims):
        """simplify with 0 <= Ki < dims[i]"""
        facts = set()
        for k, d in zip(K, dims):
            facts.add(T.le(ZERO, k).id)
            f = T.lt(k, d)
            facts.add(f.id)
            p = T.sub(d, ONE)
            facts.add(T.le(k, p).id)
            if d is ONE:
                body = T.subst(body, {k: ZERO})
        return assume(body, facts)

    def havoc(self, st, a, why):
        c = st.heap[a.oid]
        if isinstance(c, Content):
            st.heap[a.oid] = Content(c.dims, c.dtype, T.top("havoc: " + why), c.name)
        else:
            st.heap[a.oid] = None

    # ------------------------------------------------------------ elementwise
    def elementwise(self, st, f, vals, dtype=None):
        """apply f to broadcast values"""
        vals = [self.to_array(st, v) if isinstance(v, (Tup, Rng, Ref)) else v for v in vals]
        for v in vals:
            if isinstance(v, Term) and v.op == "top":
                return v
        if any(isinstance(v, Masked) for v in vals):
            m = next(v for v in vals if isinstance(v, Masked))
            args = []
            for v in vals:
                if isinstance(v, Masked):
                    args.append(self.same_mask(st, m, v))
                elif isinstance(v, Term):
                    args.append(v)
                elif isinstance(v, Arr) and len(v.dims) == 0:
                    args.append(self.read(st, v, []))
                else:
                    raise Unsupported("masked op array")
            val = f(*args)
            return Masked(m.dims, m.cond, val, dtype or self.infer(val, [self.val_dtype(st, v) for v in vals]))
        rank = max([len(v.dims) for v in vals if isinstance(v, Arr)] + [0])
        dims = [ONE] * rank
        for v in vals:
            if isinstance(v, Arr):
                off = rank - len(v.dims)
                for j, d in enumerate(v.dims):
                    if d is ONE:
                        continue
                    if dims[off + j] is ONE:
                        dims[off + j] = d
                    elif dims[off + j] is not d:
                        self.mismatch(st, dims[off + j], d)
        args = []
        for v in vals:
            if isinstance(v, Arr):
                off = rank - len(v.dims)
                args.append(self.read(st, v, [ZERO if d is ONE else K[off + j] for j, d in enumerate(v.dims)]))
            elif isinstance(v, Term):
                args.append(v)
            else:
                raise Unsupported("elementwise %s" % type(v).__name__)
        val = f(*args)
        return self.mk(st, dims, dtype or self.infer(val, [self.val_dtype(st, v) for v in vals]), val)

    def same_mask(self, st, m, v):
        """value of a masked operand aligned with mask m: the k-th selected value belongs to the k-th position of m"""
        if v.cond is m.cond:
            return v.val
        same = tuple(v.dims) == tuple(m.dims)
        if not same and (len(v.dims) != 1 or len(m.dims) != 1):
            raise Unsupported("different masks")
        d = FALSE
        if same:
            vs = [T.fresh("i") for _ in v.dims]
            for x in vs:
                LB[x.args[0]] = 0
            sub = dict(zip(K, vs))
            d = T.not_(T.eq(T.subst(v.cond, sub), T.subst(m.cond, sub)))
            for x, n in zip(reversed(vs), reversed(v.dims)):
                d = T.exists(x, ZERO, n, d)
        else:
            d = TRUE
        if len(v.dims) != 1:
            return T.ite(d, T.top("masks select different positions"), v.val)
        u, w, i, j = (T.fresh("i") for _ in range(4))
        for x in (u, w, i, j):
            LB[x.args[0]] = 0
        count = lambda x, var, hi: T.sum_(var, ZERO, hi, T.num(T.subst(x.cond, {K[0]: var})))  # noqa: E731
        nv, nm = count(v, i, v.dims[0]), count(m, j, m.dims[0])
        # one selected value is broadcast; otherwise the numbers of selected positions must agree
        st.err = T.or_(st.err, T.and_(d, T.ne(nv, nm), T.ne(nv, ONE)))
        rank = T.ite(T.eq(nv, ONE), ZERO, count(m, w, K[0]))
        at = T.kth(u, ZERO, v.dims[0], T.ite(T.subst(v.cond, {K[0]: u}), ZERO, ONE), rank)
        return T.ite(d, T.subst(v.val, {K[0]: at}), v.val)

    def mismatch(self, st, d1, d2):
        p = T.sub(d1, d2)
        if p.op == "c" and p.args[0] != 0:
            st.err = TRUE
        else:
            c = T.ne(d1, d2)
            st.err = T.or_(st.err, c)

    def val_dtype(self, st, v):
        if isinstance(v, Arr):
            return self.dtype(st, v)
        if isinstance(v, Masked):
            return v.dtype
        if isinstance(v, Term):
            return "b" if v.bool_ else "i" if v.int_ else "f"
        return "f"

    def infer(self, val, dts):
        if val.bool_:
            return "b"
        if val.op in ("str",):
            return "o"
        if all(d in ("i", "i32", "b") for d in dts) and val.int_:
            return "i"
        if "o" in dts:
            return "o"
        if val.int_ and all(d in ("i", "i32", "b") for d in dts):
            return "i"
        return "f"

    # ------------------------------------------------------------ reductions
    def space(self, st, v):
        """iteration space of a value for reductions: (list of (var, n)), cond, val"""
        if isinstance(v, (Tup, Ref, Rng)):
            v = self.to_array(st, v)
        if isinstance(v, Masked):
            vs = [T.fresh("i") for _ in v.dims]
            for x in vs:
                LB[x.args[0]] = 0
            sub = dict(zip(K, vs))
            return list(zip(vs, v.dims)), T.subst(v.cond, sub), T.subst(v.val, sub), v.dtype
        if isinstance(v, Arr):
            vs = [T.fresh("i") for _ in v.dims]
            for x in vs:
                LB[x.args[0]] = 0
            return list(zip(vs, v.dims)), TRUE, self.read(st, v, vs), self.dtype(st, v)
        raise Unsupported("space")

    def reduce_all(self, st, op, v):
        if isinstance(v, Term):
            return v
        sp, cond, val, dt = self.space(st, v)
        return self.reduce_space(op, sp, cond, val)

    def reduce_space(self, op, sp, cond, val):
        if op == "sum":
            r = T.ite(cond, T.num(val), ZERO)
            for v, n in reversed(sp):
                r = T.sum_(v, ZERO, n, r)
            return r
        if op == "prod":
            r = T.ite(cond, T.num(val), ONE)
            for v, n in reversed(sp):
                r = T.prod_(v, ZERO, n, r)
            return r
        if op in ("any", "all"):
            r = T.and_(cond, T.truth(val)) if op == "any" else T.or_(T.not_(cond), T.truth(val))
            for v, n in reversed(sp):
                r = T.exists(v, ZERO, n, r) if op == "any" else T.forall(v, ZERO, n, r)
            return r
        if op in ("max", "min"):
            if cond is not TRUE:
                val = T.ite(cond, T.num(val), T.C(float("-inf" if op == "max" else "inf")))
            r = T.num(val)
            for v, n in reversed(sp):
                r = T.reduce_("maxr" if op == "max" else "minr", v, ZERO, n, r)
            return r
        if op in ("argmax", "argmin"):
            if len(sp) != 1 or cond is not TRUE:
                raise Unsupported(op)
            v, n = sp[0]
            return T.reduce_(op, v, ZERO, n, T.num(val))
        if op == "mean":
            s = self.reduce_space("sum", sp, cond, val)
            c = self.reduce_space("sum", sp, cond, ONE)
            return T.div(s, c)
        raise Unsupported(op)

    def reduce_axis(self, st, op, v, axis, keepdims=False):
        if isinstance(v, (Tup, Ref, Rng)):
            v = self.to_array(st, v)
        if isinstance(v, Term):
            return v
        if axis is None:
            return self.reduce_all(st, op, v)
        if isinstance(v, Masked):
            if len(v.dims) == 1:
                return self.reduce_all(st, op, v)
            raise Unsupported("axis of masked")
        if axis < 0:
            axis += len(v.dims)
        x = T.fresh("i")
        LB[x.args[0]] = 0
        idx = []
        dims = []
        j = 0
        for i, d in enumerate(v.dims):
            if i == axis:
                idx.append(x)
                if keepdims:
                    dims.append(ONE)
                    j += 1
            else:
                idx.append(K[j])
                dims.append(d)
                j += 1
        r = self.reduce_space(op, [(x, v.dims[axis])], TRUE, self.read(st, v, idx))
        dt = self.dtype(st, v)
        if op in ("any", "all"):
            dt = "b"
        elif op.startswith("arg"):
            dt = "i"
        elif dt == "b":
            dt = "i"
        return self.mk(st, dims, dt, r)

    def matmul(self, st, a, b):
        a = self.to_array(st, a) if not isinstance(a, Arr) else a
        b = self.to_array(st, b) if not isinstance(b, Arr) else b
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return self.elementwise(st, T.mul, [a, b])
        ra, rb = len(a.dims), len(b.dims)
        if ra == 0 or rb == 0:
            return self.elementwise(st, T.mul, [a, b])
        x = T.fresh("i")
        LB[x.args[0]] = 0
        n = a.dims[-1]
        nb = b.dims[0] if rb == 1 else b.dims[-2]
        if n is not nb:
            self.mismatch(st, n, nb)
        if ra == 1 and rb == 1:
            return T.sum_(x, ZERO, n, T.mul(self.read(st, a, [x]), self.read(st, b, [x])))
        if ra == 2 and rb == 1:
            return self.new(st, [a.dims[0]], "f", T.sum_(x, ZERO, n, T.mul(self.read(st, a, [K[0], x]), self.read(st, b, [x]))))
        if ra == 1 and rb == 2:
            return self.new(st, [b.dims[1]], "f", T.sum_(x, ZERO, n, T.mul(self.read(st, a, [x]), self.read(st, b, [x, K[0]]))))
        if ra == 2 and rb == 2:
            return self.new(st, [a.dims[0], b.dims[1]], "f", T.sum_(x, ZERO, n, T.mul(self.read(st, a, [K[0], x]), self.read(st, b, [x, K[1]]))))
        raise Unsupported("matmul rank")

    def copy_arr(self, st, v, dtype=None):
        if isinstance(v, (Tup, Ref, Rng)):
            v = self.to_array(st, v)
        if isinstance(v, Term):
            return self.cast(dtype, v) if dtype else v
        if isinstance(v, Masked):
            return Masked(v.dims, v.cond, self.cast(dtype, v.val) if dtype else v.val, dtype or v.dtype)
        b = self.body(st, v)
        dt = dtype or self.dtype(st, v)
        if dtype:
            b = self.cast(dtype, b)
        return self.new(st, v.dims, dt, b)

    def transpose(self, st, v):
        if not isinstance(v, Arr) or len(v.dims) < 2:
            return v
        n = len(v.dims)
        axes = [ax if ax[0] == "f" else ("a", n - 1 - ax[1], ax[2], ax[3]) for ax in v.axes]
        return Arr(v.oid, tuple(reversed(v.dims)), axes)

    def prod_dims(self, dims):
        p = ONE
        for d in dims:
            p = T.mul(p, d)
        return p

    def reshape(self, st, v, shape):
        if isinstance(v, (Tup, Ref, Rng)):
            v = self.to_array(st, v)
        if isinstance(v, Term):
            v = self.new(st, [], "f", v)
        if isinstance(v, Masked):
            raise Unsupported("reshape masked")
        total = self.prod_dims(v.dims)
        shape = list(shape)
        known = [s for s in shape if not (s.op == "c" and s.args[0] == -1)]
        if len(known) != len(shape):
            rest = self.prod_dims(known)
            q = T.div(total, rest)
            if not q.int_:
                # cancel symbolic sizes
                cand = [d for d in v.dims]
                for s in known:
                    if s in cand:
                        cand.remove(s)
                    elif s is not ONE:
                        cand = None
                        break
                if cand is None:
                    q = T.fdiv(total, rest)
                else:
                    q = self.prod_dims(cand)
            shape = [q if (s.op == "c" and s.args[0] == -1) else s for s in shape]
        shape = tuple(shape)
        nz = [d for d in v.dims if d is not ONE]
        ns = [d for d in shape if d is not ONE]
        if nz == ns:
            # only unit axes inserted / removed: stays a view
            mp = {}
            src = [i for i, d in enumerate(v.dims) if d is not ONE]
            dst = [i for i, d in enumerate(shape) if d is not ONE]
            for s, d in zip(src, dst):
                mp[s] = d
            axes = []
            for ax in v.axes:
                if ax[0] == "f":
                    axes.append(ax)
                elif ax[1] in mp:
                    axes.append(("a", mp[ax[1]], ax[2], ax[3]))
                else:
                    axes.append(("f", ax[2]))
            return Arr(v.oid, shape, axes)
        if total.op == "call":  # the size of a text
            st.err = T.or_(st.err, T.not_(T.eq(total, self.prod_dims(shape))))
        lin = ZERO
        for i, d in enumerate(shape):
            lin = T.add(T.mul(lin, d), K[i])
        idx = []
        rem = lin
        for i in range(len(v.dims)):
            stride = self.prod_dims(v.dims[i + 1:])
            if i == len(v.dims) - 1:
                idx.append(rem)
            else:
                idx.append(T.fdiv(rem, stride))
                rem = T.mod(rem, stride)
        return self.new(st, shape, self.dtype(st, v), self.read(st, v, idx))

    def concat(self, st, parts, axis=0):
        parts = [self.to_array(st, p) if not isinstance(p, Arr) else p for p in parts]
        parts = [self.new(st, [ONE], self.val_dtype(st, p), p) if isinstance(p, Term) else p for p in parts]
        if any(isinstance(p, Masked) for p in parts):
            raise Unsupported("concat masked")
        r = len(parts[0].dims)
        off = ZERO
        segs = []
        for p in parts:
            segs.append((off, p))
            off = T.add(off, p.dims[axis])
        body = None
        for o, p in reversed(segs):
            idx = [T.sub(K[i], o) if i == axis else K[i] for i in range(r)]
            b = self.read(st, p, idx)
            body = b if body is None else T.ite(T.lt(K[axis], T.add(o, p.dims[axis])), b, body)
        dims = list(parts[0].dims)
        dims[axis] = off
        dts = [self.dtype(st, p) for p in parts]
        dt = dts[0] if len(set(dts)) == 1 else ("o" if "o" in dts else "f")
        return self.new(st, dims, dt, body)


def nonneg_index(v):
    return nonneg(v) or (v.op == "sel" and v.args[0].op == "arr" and v.args[0].args[1] == "nat")


_assume_cache = {}


def assume(t, facts):
    """replace the given condition nodes (by id) by TRUE, their negations by FALSE"""
    memo = {}
    neg = {}

    def rec(x):
        if x.id in facts:
            return TRUE
        r = memo.get(x.id)
        if r is not None:
            return r
        op, a = x.op, x.args
        if op in ("le0", "lt0"):
            n = T.not_(x)
            if n.id in facts:
                r = FALSE
            else:
                r = x
        elif op == "ite":
            c = rec(a[0])
            r = T.ite(c, rec(a[1]), rec(a[2])) if c is not TRUE and c is not FALSE else rec(a[1] if c is TRUE else a[2])
        elif op == "and":
            r = T.and_(*[rec(y) for y in a])
        elif op == "or":
            r = T.or_(*[rec(y) for y in a])
        elif op == "not":
            r = T.not_(rec(a[0]))
        elif op == "poly":
            ch = False
            out = ZERO
            parts = []
            for m, c in a:
                f = T.C(c)
                mch = False
                for at, e in m:
                    na = rec(at)
                    if na is not at:
                        mch = True
                    parts.append(na)
                if mch:
                    ch = True
            if ch:
                for m, c in a:
                    f = T.C(c)
                    for at, e in m:
                        na = rec(at)
                        for _ in range(e):
                            f = T.mul(f, na)
                    out = T.add(out, f)
                r = out
            else:
                r = x
        elif op == "last" :
            # only the default can be simplified cheaply
            d = rec(a[5])
            if d is not a[5]:
                v = T.fresh("i")
                s = {a[0]: v}
                r = T.last(v, a[1], a[2], T.subst(a[3], s), T.subst(a[4], s), d)
            else:
                r = x
        else:
            r = x
        memo[x.id] = r
        return r

    return rec(t)


def replace_node(t, node, new):
    """replace a sel(mu, K..) node everywhere outside of rebinding"""
    memo = {}

    def rec(x):
        if x is node:
            return new
        if node.args[0].args[0] not in x.fv:
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        op, a = x.op, x.args
        if op == "poly":
            out = ZERO
            for m, c in a:
                f = T.C(c)
                for at, e in m:
                    na = rec(at)
                    for _ in range(e):
                        f = T.mul(f, na)
                out = T.add(out, f)
            r = out
        elif op in T._BINDERS or op in ("lam", "fold"):
            # bodies are closed under alpha: open with fresh variable, rewrite, close
            if op in T._BINDERS:
                nb = 2 if op == "last" else 1
                v = T.fresh("i")
                bodies = [rec(T.subst(y, {a[0]: v})) for y in a[3:3 + nb]]
                lo, hi = rec(a[1]), rec(a[2])
                ext = [rec(y) for y in a[3 + nb:]]
                f = {"sum": T.sum_, "prod": T.prod_, "exists": T.exists, "last": T.last, "firsti": T.firsti, "kth": T.kth}.get(op)
                r = f(v, lo, hi, *bodies, *ext) if f else T.reduce_(op, v, lo, hi, *bodies)
            elif op == "lam":
                vs = [T.fresh("i") for _ in a[0]]
                r = T.lam(vs, [rec(d) for d in a[1]], rec(T.subst(a[2], dict(zip(a[0], vs)))))
            else:
                r = x
        else:
            r = T.rebuild(op, tuple(rec(y) if isinstance(y, Term) else y for y in a), x)
            if op == "out" and x in T.DIMS and r not in T.DIMS:
                T.DIMS[r] = tuple(rec(d) for d in T.DIMS[x])
        memo[x.id] = r
        return r

    return rec(t)
