"""Abstract values and states of the interpreter (interp.py)."""
from . import terms as T

K = [T.sym("K%d" % i, "i") for i in range(8)]
NONE = T._node("none", ())


class Arr:
    """reference to (a view of) an array object of the heap.
    axes: one entry per axis of the object: ('f', term) or ('a', view axis, start, step)"""

    __slots__ = ("oid", "dims", "axes")

    def __init__(self, oid, dims, axes=None):
        self.oid, self.dims = oid, tuple(dims)
        self.axes = tuple(("a", i, T.ZERO, 1) for i in range(len(self.dims))) if axes is None else tuple(axes)

    def same(self, o):
        return isinstance(o, Arr) and self.oid == o.oid and self.dims == o.dims and self.axes == o.axes


class Content:
    """array content: element K0,K1,.. is `body`"""

    __slots__ = ("dims", "dtype", "body", "name")

    def __init__(self, dims, dtype, body, name=None):
        self.dims, self.dtype, self.body, self.name = tuple(dims), dtype, body, name


class Masked:
    """the elements `val` of an index space [0,dims) that satisfy cond (terms over K0..), in C order"""

    __slots__ = ("dims", "cond", "val", "dtype")

    def __init__(self, dims, cond, val, dtype):
        self.dims, self.cond, self.val, self.dtype = tuple(dims), cond, val, dtype


class Ref:
    """list / dict / rng / file / table"""

    __slots__ = ("kind", "oid")

    def __init__(self, kind, oid):
        self.kind, self.oid = kind, oid


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Rng:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class Zip:
    """parallel iteration over values; kind 'zip' or 'enum' (start)"""

    __slots__ = ("kind", "items", "start")

    def __init__(self, kind, items, start=None):
        self.kind, self.items, self.start = kind, tuple(items), start


class Func:
    __slots__ = ("node", "mod", "env", "name", "bound")

    def __init__(self, node, mod, env=None, name=None):
        self.node, self.mod, self.env, self.name = node, mod, env, name


class Builtin:
    __slots__ = ("name", "self_")

    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_


class Slice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class State:
    __slots__ = ("env", "heap", "eff", "err", "pc")

    def __init__(self):
        self.env, self.heap, self.eff, self.err, self.pc = {}, {}, (), T.FALSE, T.TRUE

    def copy(self):
        s = State()
        s.env, s.heap, s.eff, s.err, s.pc = dict(self.env), dict(self.heap), self.eff, self.err, self.pc
        return s


class When:
    """key of a dictionary entry that is there only under a condition"""

    def __init__(self, cond, key):
        self.cond, self.key = cond, key

    def __eq__(self, o):
        return isinstance(o, When) and self.cond is o.cond and self.key == o.key

    def __hash__(self):
        return hash((id(self.cond), self.key))
