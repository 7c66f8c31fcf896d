"""Abstract interpreter: Python source -> value graph.

Nothing of the analysed program is executed: statements are read from the syntax tree and turned into
terms (terms.py).  Branches are merged with ite, loops become binders (sum, exists, last, ...) or an
uninterpreted `fold` of their step; a construct outside the supported subset becomes `top`.
"""
from collections import ChainMap
import ast
import sys
import copy
import os

from . import terms as T
from .arrays import ArrayOps, LB, UB, ub, Unsupported, assume, nonneg, replace_node
from .terms import FALSE, ONE, TRUE, ZERO, Term
from .values import (Arr, Builtin, Content, Func, K, Masked, NONE, Ref, Rng, Slice, State, Tup, When, Zip)
from . import npmodel

UNROLL = 8


class Frame:
    def __init__(self, func, mod):
        self.func, self.mod = func, mod
        self.returns = []  # (state, value)
        self.base = 0
        self.loops = []  # list of dict(cont=[], brk=[])


class Module:
    def __init__(self, name, tree, path):
        self.name, self.tree, self.path = name, tree, path
        self.globals = None
        self.funcs, again = {}, set()
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                (again.add if n.name in self.funcs else self.funcs.setdefault)(*([n.name] if n.name in self.funcs else [n.name, n]))
                continue
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.funcs:
                # f = decorator(f)
                name, e = n.targets[0].id, n.value
                if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Name) and e.args[0].id == name:
                    f = self.funcs[name]
                    f = ast.copy_location(ast.FunctionDef(**{k: getattr(f, k) for k in f._fields}), f)
                    f.decorator_list = [e.func] + list(f.decorator_list)
                    self.funcs[name] = f
                    continue
            if not isinstance(n, ast.ClassDef):
                again.update(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in self.funcs)
        for name in again:  # bound twice
            self.funcs.pop(name)
        self.again = again


class Loader:
    """modules of the analysed tree, parsed from the current working copy"""

    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.consulted = {}

    def get(self, dotted):
        if dotted in self.mods:
            return self.mods[dotted]
        p = os.path.join(self.root, *dotted.split("."))
        path = None
        for c in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(c):
                path = c
        if path is None:
            self.mods[dotted] = None
            return None
        src = open(path, newline=None).read()
        m = Module(dotted, ast.parse(src), path)
        self.mods[dotted] = m
        self.consulted[dotted] = path
        return m

    def add_source(self, dotted, src):
        m = Module(dotted, ast.parse(src), "<spec %s>" % dotted)
        self.mods[dotted] = m
        return m


class Loc:
    """one loop-carried location"""

    def __init__(self, kind, key, mu, init, nxt, dims=None, dtype=None, name=None):
        self.kind, self.key, self.mu, self.init, self.next = kind, key, mu, init, nxt
        self.dims, self.dtype, self.name = dims, dtype, name
        self.final = self.prefix = None


class Interp(ArrayOps, npmodel.NpMixin):
    def __init__(self, loader, opaque=None, while_gate=0, max_depth=12, unroll=UNROLL):
        self.loader = loader
        self.opaque = opaque or {}
        self.upper = {}
        self._oid = 0
        self.depth = 0
        self.splits = 0
        self.phi = {}
        self.max_depth = max_depth
        self.while_gate = while_gate
        self.unroll = unroll
        self.notes = []
        self.functions = set()
        self.loops = 0
        self.dry = 0
        self.files = 0
        self.resigned = set()  # opaque functions with other parameters than in the reference
        self.unsure = set()  # arrays whose element type is not certain
        self.called = set()  # opaque functions met
        self.cells = {}  # state that outlives a call: module variables, default arguments, attributes and caches of functions
        self.other_name = {}  # unknown value -> objects it may be another name of
        self.cellinit = {}  # contents of the objects they start with
        self.sigs = {}  # their parameters, in order
        self.canon = {}  # parameters of the reference definitions, in order

    given = ()  # dictionaries that are parameters
    dense = False  # small arrays of fixed size are kept element by element
    errors_seen = False  # failing is compared on its own: what a failing path returns does not matter
    tables, linesof = {}, {}  # files: columns and rows, number of lines

    def new_oid(self):
        self._oid += 1
        return self._oid

    def note(self, node, msg):
        if not self.dry:
            self.notes.append((getattr(node, "lineno", 0), msg))

    # ------------------------------------------------------------ names
    def mod_globals(self, mod):
        if mod.globals is not None:
            return mod.globals
        g = mod.globals = {}
        for n in mod.tree.body:
            self.global_stmt(mod, g, n)
            self.global_effects(g, n)
        return g

    def global_effects(self, g, n):
        """module variables that a statement of the module itself may write through"""
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        hit = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                hit.update(y.id for y in ast.walk(x.value) if isinstance(y, ast.Name))
            elif isinstance(x, ast.Call) and not isinstance(n, (ast.Assign, ast.AnnAssign)):
                hit.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name))
        for h in hit:
            if isinstance(g.get(h), tuple) and g[h][0] == "const":
                g[h] = ODD

    def global_bind(self, g, name, e, mod):
        """NAME = e at module level"""
        old = g.get(name)
        if old is None:
            g[name] = ("const", e)
        elif isinstance(old, Func) and name in mod.funcs:
            pass  # f = decorator(f)
        else:
            g[name] = ODD

    def global_odd(self, g, n):
        """names bound in a way that is not followed"""
        if isinstance(n, ast.Expr):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    g[x.target.id] = ODD
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            g[n.name] = ODD
            return
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                g[x.id] = ODD
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                g[x.name] = ODD
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    g[(a.asname or a.name).split(".")[0]] = ODD

    def global_stmt(self, mod, g, n):
        if isinstance(n, ast.FunctionDef):
            g[n.name] = Func(mod.funcs[n.name], mod, None, n.name) if n.name in mod.funcs and n.name not in g else ODD
        elif isinstance(n, ast.Import):
            for a in n.names:
                g[a.asname or a.name.split(".")[0]] = Builtin(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                parts = mod.name.split(".")[: -n.level]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == "*":
                    if base != "__future__":
                        g.setdefault("*", []).append(base)
                    continue
                m = self.loader.get(base)
                if m is not None:
                    g[a.asname or a.name] = ("lazy", base, a.name)
                    if a.name not in m.funcs and self.loader.get(base + "." + a.name):
                        g[a.asname or a.name] = ("module", base + "." + a.name)
                else:
                    g[a.asname or a.name] = Builtin(base + "." + a.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.global_bind(g, n.targets[0].id, n.value, mod)
        elif isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets) and isinstance(n.value, ast.Constant):
            for t in n.targets:
                self.global_bind(g, t.id, n.value, mod)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(
                n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(n.targets[0].elts) and all(
                isinstance(t, ast.Name) for t in n.targets[0].elts) and not any(isinstance(v, ast.Starred) for v in n.value.elts):
            for t, v in zip(n.targets[0].elts, n.value.elts):
                self.global_bind(g, t.id, v, mod)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.global_bind(g, n.target.id, n.value, mod)
        elif isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            pass
        elif isinstance(n, ast.If) and (isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING" or isinstance(n.test, ast.Attribute) and n.test.attr == "TYPE_CHECKING"):
            for s in n.orelse:
                self.global_stmt(mod, g, s)
        elif isinstance(n, ast.Try) and all(isinstance(s, (ast.Import, ast.ImportFrom)) for s in n.body) and not n.orelse and not n.finalbody:
            # the fallback of an import that works is not used
            for s in n.body:
                self.global_stmt(mod, g, s)
                for a in s.names:
                    if (a.name if isinstance(s, ast.Import) else s.module or "").split(".")[0] not in KNOWN_MODULES and not getattr(s, "level", 0):
                        g[(a.asname or a.name).split(".")[0]] = ODD
        elif not isinstance(n, ast.AnnAssign):
            self.global_odd(g, n)

    def lookup_global(self, mod, name, st):
        g = self.mod_globals(mod)
        if name not in g:
            for base in g.get("*", ()):
                m = self.loader.get(base)
                v = self.lookup_global(m, name, st) if m is not None and not name.startswith("_") else None
                if m is None or v is not None and not isinstance(v, Builtin):
                    return T.top("%s from a star import" % name)
            if name in npmodel.BUILTINS:
                return Builtin(name)
            return None
        v = g[name]
        if isinstance(v, tuple):
            if v[0] == "odd":
                return T.top("module variable %s" % name)
            if v[0] == "lazy":
                m = self.loader.get(v[1])
                r = self.lookup_global(m, v[2], st)
                if r is None:
                    return T.top("import %s" % name)
                return r
            if v[0] == "module":
                return Builtin("module:" + v[1])
            if v[0] == "const" and (("global", mod.name, name) in self.cells or isinstance(v[1], LASTING)):
                return self.cell(("global", mod.name, name), v[1], mod, st)[0]
            if v[0] == "const":
                fr = Frame(None, mod)
                s2 = State()
                s2.heap = st.heap
                try:
                    return self.expr(v[1], s2, fr)
                except Unsupported as e:
                    return T.top(str(e))
        return v

    # ------------------------------------------------------------ state that outlives a call
    def cell(self, key, expr, mod, st):
        """content of the cell of a module variable, a default argument, an attribute or a cache of a function"""
        if key not in self.cells:
            s2 = State()
            s2.heap = dict(st.heap)
            if isinstance(expr, ast.AST):
                try:
                    v = self.expr(expr, s2, Frame(None, mod))
                except Unsupported as e:
                    v = T.top(str(e))
            else:
                v = expr(s2) if callable(expr) else expr
            oid = self.new_oid()
            s2.heap[oid] = [v]
            self.cells[key] = oid, tuple((k, x) for k, x in s2.heap.items() if k not in st.heap)
            self.cellinit.update(self.cells[key][1])
        oid, init = self.cells[key]
        if oid not in st.heap:
            for k, x in init:
                st.heap.setdefault(k, x)
        return st.heap[oid]

    def keep_cells(self, st):
        """the initial content of all cells known so far"""
        for oid, init in self.cells.values():
            for k, x in init:
                st.heap.setdefault(k, x)

    def outlives(self, st):
        """is anything kept for later calls?"""
        return any(st.heap.get(k, x) is not x for k, x in self.cellinit.items())

    def declared_global(self, fn):
        r = GLOBALS.get(id(fn))
        if r is None:
            r = GLOBALS[id(fn)] = fn, frozenset(x for n in ast.walk(fn) if isinstance(n, ast.Global) for x in n.names)
        return r[1]

    def cached_call(self, f, args, kwargs, st, node):
        """functools.cache and lru_cache: the result of the first call with equal arguments"""
        env = self.bind(f, args, kwargs, st)
        vals = [env[k] for k in env]
        if any(isinstance(v, Arr) or isinstance(v, Ref) and v.kind in ("list", "dict", "set") for v in vals):
            st.err = TRUE  # not hashable
            return T._node("unbound", ("not hashable",))
        if not all(isinstance(v, Term) or isinstance(v, Tup) and all(isinstance(x, Term) for x in v.items) for v in vals):
            raise Unsupported("cache key")
        memo = self.cell(("memo", f.mod.name, f.name), lambda s2: self.mk_dict(s2, ()), f.mod, st)[0]
        key = Tup(vals)
        c = self.dict_has(memo, key, st)
        if c is TRUE:
            return self.dict_get(memo, key, st)
        hit, miss = st.copy(), st.copy()
        v = self.call_func(f, args, kwargs, miss, node, cached=True)
        self.dict_put(memo, key, v, miss)
        if c is FALSE:
            st.heap, st.eff, st.err = miss.heap, miss.eff, miss.err
            return v
        w = self.dict_get(memo, key, hit)
        hit.err = st.err
        out = State()
        m = _Merge(self, c, hit, miss, out)
        m.heap()
        m.env()
        r = m.value(w, v)
        m.finish()
        st.heap, st.eff, st.err = out.heap, out.eff, out.err
        return r

    def mk_dict(self, st, items):
        oid = self.new_oid()
        st.heap[oid] = tuple(items)
        return Ref("dict", oid)

    # ------------------------------------------------------------ calls
    def call_func(self, f, args, kwargs, st, node=None, cached=False):
        """inline a user function; mutates st (heap, eff, err) and returns the value"""
        fn = f.node
        if getattr(fn, "decorator_list", None) and not cached and (f.name or fn.name) not in self.opaque:
            for d in fn.decorator_list:
                n = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
                if n in ("lru_cache", "cache"):
                    return self.cached_call(f, args, kwargs, st, node)
                if n not in PLAIN_DECORATORS:
                    return self.call_func(self.decorated(f, st), args, kwargs, st, node)
        name = f.name or getattr(fn, "name", "<lambda>")
        if name in self.opaque:
            return self.call_opaque(f, name, args, kwargs, st, node)
        self.depth += 1
        try:
            if self.depth > self.max_depth:
                raise Unsupported("call depth")
            env = self.bind(f, args, kwargs, st)
            fr = Frame(fn, f.mod)
            fr.base = self._oid + 1
            sub = State()
            sub.env, sub.heap, sub.eff, sub.err, sub.pc = env, st.heap, st.eff, st.err, TRUE
            fr.closure = f.env
            if isinstance(fn, ast.Lambda):
                v = self.expr(fn.body, sub, fr)
                st.heap, st.eff, st.err = sub.heap, sub.eff, sub.err
                return v
            if not self.dry:
                self.functions.add("%s.%s" % (f.mod.name, name))
            end = self.block(fn.body, sub, fr)
            if end is not None:
                fr.returns.append((end, NONE))
            out, val = self.join_returns(fr.returns)
            if out is None:
                st.err = TRUE
                return NONE
            st.heap, st.eff, st.err = out.heap, out.eff, out.err
            self.last_env = out.env
            return val
        finally:
            self.depth -= 1

    def decorated(self, f, st):
        """what the decorators of a function, run once when its module is read, make of it"""
        fn = f.node
        if f.env is not None:
            raise Unsupported("decorator of an inner function")
        bare = BARE.get(id(fn))
        if bare is None:
            n = ast.FunctionDef(**{k: getattr(fn, k) for k in fn._fields if k != "decorator_list"}, decorator_list=[])
            bare = BARE[id(fn)] = fn, ast.copy_location(n, fn)

        def make(s2):
            v = Func(bare[1], f.mod, None, f.name or fn.name)
            for d in reversed(fn.decorator_list):
                n = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
                if n in PLAIN_DECORATORS:
                    continue
                g = self.expr(d, s2, Frame(None, f.mod))
                if not isinstance(g, Func):
                    raise Unsupported("decorator %s" % n)
                v = self.call_func(g, [v], {}, s2)
                if not isinstance(v, Func):
                    raise Unsupported("decorator %s" % n)
            return v

        return self.cell(("decorated", f.mod.name, f.name or fn.name), make, f.mod, st)[0]

    def bind(self, f, args, kwargs, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(names):])
            else:
                raise Unsupported("too many arguments for %s" % f.name)
        elif a.vararg:
            env[a.vararg.arg] = Tup(())
        if a.kwarg:
            own = names + [x.arg for x in a.kwonlyargs]
            env[a.kwarg.arg] = self.mk_dict(st, [(k, v) for k, v in kwargs.items() if k not in own])
            kwargs = {k: v for k, v in kwargs.items() if k in own}
        for k, v in kwargs.items():
            if k not in names and k not in [x.arg for x in a.kwonlyargs]:
                raise Unsupported("keyword %s" % k)
            env[k] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n not in defs:
                    raise Unsupported("missing argument %s of %s" % (n, f.name))
                if isinstance(defs[n], LASTING):
                    env[n] = self.cell(("default", f.mod.name, f.name or "", n), defs[n], f.mod, st)[0]
                    continue
                s2 = State()
                s2.heap = st.heap
                env[n] = self.expr(defs[n], s2, Frame(None, f.mod))
        return env

    def join_returns(self, rets):
        rets = [r for r in rets if r[0].pc is not FALSE]
        if not rets:
            return None, NONE
        st, val = rets[-1]
        for s, v in reversed(rets[:-1]):
            pc = s.pc
            ms = State()
            ms.env = {}
            m = _Merge(self, pc, s, st, ms)
            m.heap()
            if self.errors_seen and v is NONE and s.err is TRUE:
                pass  # nothing is returned by a path that fails
            elif self.errors_seen and val is NONE and st.err is TRUE:
                val = v
            else:
                val = m.value(v, val)
            m.finish()
            ms.pc = TRUE
            # environments of different exits are not needed after the return
            ms.env = {k: m.value(s.env[k], st.env[k]) for k in s.env if k in st.env and k.startswith("^")}
            st = ms
        return st, val

    def snapshot(self, st, v):
        """term for a value passed to an opaque call"""
        if isinstance(v, Term):
            return v
        if isinstance(v, Arr):
            b = self.body(st, v)
            if not v.dims:
                return b
            ks = [T.fresh("i") for _ in v.dims]
            return T.lam(ks, v.dims, T.subst(b, dict(zip(K, ks))))
        if isinstance(v, Tup):
            return T._node("tup", tuple(self.snapshot(st, x) for x in v.items))
        if isinstance(v, Masked):
            if len(v.dims) == 1:
                k = T.fresh("i")
                return T._node("masked", (T.lam([k], v.dims, T.ite(T.subst(v.cond, {K[0]: k}), T.num(T.subst(v.val, {K[0]: k})), T.C(-987654))),))
            return T.top("masked arg")
        if isinstance(v, Ref):
            if v.kind == "list":
                it = self.seq_items(st, v)
                if it is not None:
                    return T._node("tup", tuple(self.snapshot(st, x) for x in it))
                c = st.heap[v.oid]
                if isinstance(c, Content):
                    return self.snapshot(st, Arr(v.oid, c.dims))
            if v.kind == "dict":
                c = st.heap[v.oid]
                if isinstance(c, tuple):
                    parts = []
                    for k, x in sorted(c, key=lambda kx: str(kx[0])):
                        parts.append(T.S(str(k)))
                        parts.append(self.snapshot(st, x))
                    return T._node("tup", tuple(parts))
            if v.kind == "rng":
                c = st.heap[v.oid]
                return T._node("tup", (c[0], c[1]))
            return T.top("argument %s" % v.kind)
        if isinstance(v, Rng):
            return T._node("tup", (v.lo, v.hi, T.C(v.step)))
        if isinstance(v, (Func, Builtin)):
            return T.S("function")
        return T.top("argument")

    def shared(self, env):
        """pairs of arguments that are (views of) the same storage"""
        out = []
        ps = sorted(p for p in env if isinstance(env[p], Arr))
        for i, p in enumerate(ps):
            for q in ps[i + 1:]:
                a, b = env[p], env[q]
                if a.oid != b.oid:
                    continue
                if len(a.axes) == len(b.axes) and any(x[0] == y[0] == "f" and x[1] is not y[1] and x[1].op == y[1].op == "c" for x, y in zip(a.axes, b.axes)):
                    continue
                out.append(p + "=" + q)
        return out

    def call_opaque(self, f, name, args, kwargs, st, node):
        sig = self.opaque[name]
        env = self.bind(f, args, kwargs, st)
        self.called.add(name)
        a = f.node.args
        mine = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.sigs[name] = mine
        ref = self.canon.get(name)
        if ref is not None and set(ref) != set(env):
            # renamed parameters: same place, same meaning
            if len(ref) != len(mine) or len(mine) != len(env):
                self.resigned.add(name)
                raise Unsupported("parameters of %s changed" % name)
            env = {r: env[m] for r, m in zip(ref, mine)}
        params = sorted(env)
        ignore = sig.get("ignore", ())
        ts = []
        for p in params:
            if p in ignore:
                continue
            ts.append(T.S(p))
            x = self.snapshot(st, env[p])
            if p in sig.get("columns", ()) and isinstance(env[p], Arr) and len(env[p].dims) == 2:  # only these matter
                ks = [T.fresh("i") for _ in env[p].dims]
                b = T.subst(self.body(st, env[p]), dict(zip(K, ks)))
                seen = FALSE
                for col in sig["columns"][p]:
                    seen = T.or_(seen, T.eq(ks[1], T.C(col)))
                x = T.lam(ks, env[p].dims, T.ite(seen, b, ZERO))
            ts.append(x)
        c = T.call(name, *ts)
        if sig.get("effect"):
            extra = ()
            if sig.get("storage"):
                extra = (("#shared storage", T.S(" ".join(self.shared(env)))),
                         ("#integer elements", T.S(" ".join(p for p in params if p in sig["storage"] and isinstance(env[p], Arr) and env[p].oid not in self.unsure
                                                                 and self.dtype(st, env[p]) in ("i", "b", "i32")))))
            st.eff = st.eff + (("call", name, tuple((p, self.snapshot(st, env[p])) for p in params if p not in ignore) + extra),)
        if "track" in sig:
            st.eff = st.eff + (("track", name, tuple((p, env[p]) for p in params), None),)
        for p in sig.get("mutates", ()):
            cols = None
            if isinstance(p, tuple):  # only these columns (last axis) change
                p, cols = p
            v = env.get(p)
            if cols is not None and isinstance(v, Arr):
                dt = self.dtype(st, v)
                o = T.out(c, p, dt)
                T.DIMS[o] = tuple(v.dims)
                old = self.body(st, v)

                def put(idx, o=o, old=old):
                    here = T.or_(*[T.eq(idx[-1], T.C(x)) for x in cols])
                    return T.ite(here, T.sel(o, *idx), T.subst(old, dict(zip(K, idx))))

                self.store(st, v, put, cast=False)
                continue
            if isinstance(v, Arr):
                dt = self.dtype(st, v)
                o = T.out(c, p, dt)
                T.DIMS[o] = tuple(v.dims)
                self.store(st, v, lambda idx, o=o: T.sel(o, *idx) if idx else o, cast=False)
            elif isinstance(v, Ref):
                st.heap[v.oid] = None
        if sig.get("err"):
            st.err = T.or_(st.err, T.out(c, "#err", "b"))
        res = []
        for o in sig.get("returns", ()):
            key, dt = o[0], o[1]
            if len(o) > 2:
                dims = o[2](env, self, st)
                ot = T.out(c, key, dt)
                T.DIMS[ot] = tuple(dims)
                res.append(self.new(st, dims, dt, T.sel(ot, *K[: len(dims)])))
            else:
                res.append(T.out(c, key, dt))
        if sig.get("single"):
            return res[0]
        if not res:
            return NONE
        return Tup(res)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for i, s in enumerate(stmts):
            if st is None or st.pc is FALSE:
                return None
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                s = self.as_if(s)
            if isinstance(s, ast.Match):
                try:
                    chain = self.as_chain(s)
                except Unsupported:
                    chain = None
                if chain is not None:
                    return self.block(chain + stmts[i + 1:], st, fr)
            if isinstance(s, ast.If):
                r = self.branches(s, st, fr)
                if len(r) == 1:
                    st = r[0]
                    continue
                c, ra, rb, pc, pa, pb = r
                rest = stmts[i + 1:]
                if rest and self.splits < 6 and self.alias_split(ra, rb, rest, fr):
                    # a name stands for different objects after the branches: follow the rest with each
                    self.splits += 1
                    try:
                        ra, rb = self.block(rest, ra, fr), self.block(rest, rb, fr)
                    finally:
                        self.splits -= 1
                    if ra is None or rb is None:
                        return rb if ra is None else ra
                    return self.merge_if(c, ra, rb, pc, pa, pb)
                st = self.merge_if(c, ra, rb, pc, pa, pb)
                continue
            st = self.stmt(s, st, fr)
        return st

    AS_IF = {}

    def as_if(self, s):
        """x = a if c else b  as  if c: x = a / else: x = b, when x may become another name of a or b"""
        def refs(e):
            return isinstance(e, (ast.Name, ast.Tuple, ast.List, ast.Subscript, ast.Attribute, ast.IfExp))

        if not (refs(s.value.body) or refs(s.value.orelse)):
            return s
        r = self.AS_IF.get(id(s))
        if r is None:
            def part(v):
                a = ast.Assign(s.targets, v)
                return [ast.copy_location(a, s)]

            r = ast.If(s.value.test, part(s.value.body), part(s.value.orelse))
            ast.copy_location(r, s)
            ast.fix_missing_locations(r)
            self.AS_IF[id(s)] = r
            r.keep_ = s  # keeps id(s) unique
        return r

    def alias_split(self, a, b, rest, fr):
        """names bound to different existing objects in the two states and possibly mutated afterwards"""
        diff = set()
        for k, x in a.env.items():
            y = b.env.get(k)
            if y is None or y is x:
                continue
            for p, q in zip(self.refs_of(a, x), self.refs_of(b, y)):
                if p != q and (p in b.heap and self.seen_elsewhere(a, k, p, fr) or q in a.heap and self.seen_elsewhere(b, k, q, fr)):
                    diff.add(k)
        return bool(diff) and any(mutates(n, diff) for r in rest for n in ast.walk(r))

    def seen_elsewhere(self, st, name, oid, fr):
        """is the object known to the caller or under another name?"""
        return oid < fr.base or any(n != name and oid in self.refs_of(st, v) for n, v in st.env.items())

    def refs_of(self, st, v):
        if isinstance(v, (Arr, Ref)):
            c = st.heap.get(v.oid)
            if isinstance(v, Ref) and isinstance(c, list):
                return [v.oid] + [o for x in c for o in self.refs_of(st, x)]
            return [v.oid]
        if isinstance(v, Tup):
            return [o for x in v.items for o in self.refs_of(st, x)]
        return []

    def stmt(self, s, st, fr):
        try:
            return self.stmt_(s, st, fr)
        except (Unsupported, AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError) as e:
            self.note(s, "unsupported: %s" % e)
            self.havoc_stmt(s, st, fr, str(e))
            if isinstance(s, ast.Return):
                (fr.loops[-1]["ret"] if fr.loops else fr.returns).append((st, T.top(str(e))))
                return None
            return self.may_leave(s, st, fr, str(e))

    def may_leave(self, s, st, fr, why):
        """a statement that could not be followed may also have left the loop or the function"""
        if isinstance(s, (ast.Break, ast.Continue, ast.FunctionDef, ast.ClassDef)):
            return st
        kinds = set()

        def walk(n, inner):
            for m in ast.iter_child_nodes(n):
                if isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(m, ast.Return):
                    kinds.add("ret")
                elif isinstance(m, ast.Break) and not inner:
                    kinds.add("brk")
                elif isinstance(m, ast.Continue) and not inner:
                    kinds.add("cont")
                walk(m, inner or isinstance(m, (ast.For, ast.While)))

        walk(s, isinstance(s, (ast.For, ast.While)))
        for k in sorted(kinds):
            u = T.not_(T.eq(T.top("%s at line %s: %s" % (k, getattr(s, "lineno", "?"), why)), ZERO))
            c = st.copy()
            c.pc, st.pc = T.and_(st.pc, u), T.and_(st.pc, T.not_(u))
            if k == "ret":
                (fr.loops[-1]["ret"] if fr.loops else fr.returns).append((c, T.top(why)))
            elif fr.loops:
                fr.loops[-1][k].append(c)
        return st

    def havoc_stmt(self, s, st, fr, why):
        """forget everything the statement may assign"""
        why = "line %s: %s" % (getattr(s, "lineno", "?"), why)
        t = T.top(why)
        # what the unknown value may be another name of
        named = set(o for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
                    for o in self.refs_of(st, st.env.get(n.id)))
        self.other_name[t] = named | self.other_name.get(t, set())
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                if fr.func is not None and n.id in self.declared_global(fr.func) and ("global", fr.mod.name, n.id) in self.cells:
                    st.heap[self.cells[("global", fr.mod.name, n.id)][0]] = [t]
                    continue
                st.env[n.id] = t
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                if self.havoc_key(st, n, t):
                    continue
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    if isinstance(st.env.get(b.id), Term):
                        self.written_through(st, st.env[b.id])
                    self.havoc_name(st, b.id, fr, why, n.attr if isinstance(n, ast.Attribute) else None)
            elif isinstance(n, ast.Call):
                fname = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")
                if fname not in npmodel.PURE and fname not in npmodel.PURE_METHODS:
                    if not (st.eff and st.eff[-1] == ("unknown",)):
                        st.eff = st.eff + (("unknown",),)
                for a in list(n.args) + [k.value for k in n.keywords] + ([n.func.value] if isinstance(n.func, ast.Attribute) else []):
                    for m in ast.walk(a):
                        if isinstance(m, ast.Name):
                            if isinstance(n.func, ast.Name) and n.func.id in npmodel.PURE:
                                continue
                            if isinstance(n.func, ast.Attribute) and (n.func.attr in npmodel.PURE_METHODS or isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "numpy", "math")) \
                                    and n.func.attr not in npmodel.WRITERS and not isinstance(s, ast.Expr) and not any(k.arg == "out" for k in n.keywords):
                                continue
                            self.havoc_name(st, m.id, fr, why)

    def havoc_name(self, st, name, fr, why, attr=None):
        """forget what a variable, or a module variable that outlives the call, refers to"""
        if name in st.env:
            return self.havoc_val(st, st.env[name], why)
        v, mod = self.mod_globals(fr.mod).get(name), fr.mod
        while isinstance(v, tuple) and v[0] == "lazy":
            try:
                mod = self.loader.get(v[1])
                name, v = v[2], self.mod_globals(mod).get(v[2])
            except (Unsupported, OSError, AttributeError):
                return
        if isinstance(v, Func) and attr:
            self.func_attr(v, attr, st)
            st.heap[self.cells[("attr", v.mod.name, v.name, attr)][0]] = [T.top(why)]
        key = ("global", mod.name, name)
        if isinstance(v, tuple) and v[0] == "const" and (key in self.cells or isinstance(v[1], LASTING)):
            self.havoc_val(st, self.cell(key, v[1], mod, st)[0], why)

    def written_through(self, st, v):
        """an unknown object has been changed: what it may be another name of is unknown"""
        tops, todo, seen = [], [v], set()
        while todo:
            x = todo.pop()
            if isinstance(x, Term) and x.id not in seen:
                seen.add(x.id)
                if x.op == "top":
                    tops.append(x)
                todo += x.args
            elif isinstance(x, tuple):
                todo += x
        oids = set()
        for x in tops:
            if x not in self.other_name:
                oids = set(st.heap)
                break
            oids |= self.other_name[x]
        for o in oids:
            c = st.heap.get(o)
            if isinstance(c, Content):
                st.heap[o] = Content(c.dims, c.dtype, T.top("written under another name"), c.name)
            elif c is not None and not (isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], Term)):
                st.heap[o] = None

    def havoc_val(self, st, v, why):
        if isinstance(v, Arr):
            self.havoc(st, v, why)
        elif isinstance(v, Ref):
            c = st.heap.get(v.oid)
            st.heap[v.oid] = None
            if v.kind in ("dict", "list") and isinstance(c, (tuple, list)):
                for x in c:
                    self.havoc_val(st, x[1] if v.kind == "dict" else x, why)
        elif isinstance(v, Tup):
            for x in v.items:
                self.havoc_val(st, x, why)

    def havoc_key(self, st, n, t):
        """d['a']['b'] = <unknown>: only that entry is unknown"""
        keys = []
        while isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            keys.append(n.slice.value)
            n = n.value
        if not isinstance(n, ast.Name) or not keys:
            return False
        v = st.env.get(n.id)
        for i, k in enumerate(reversed(keys)):
            c = st.heap.get(v.oid) if isinstance(v, Ref) and v.kind == "dict" else None
            if not isinstance(c, tuple):
                return False
            if i == len(keys) - 1:
                st.heap[v.oid] = tuple(x for x in c if x[0] != k) + ((k, t),)
                return True
            v = dict((x[0], x[1]) for x in c).get(k)
        return False

    def stmt_(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    def s_Assert(self, s, st, fr):
        return st

    def s_Global(self, s, st, fr):
        for x in s.names:
            v = self.mod_globals(fr.mod).get(x)
            if not (isinstance(v, tuple) and v[0] == "const") and v is not None:
                raise Unsupported("global")
            self.cell(("global", fr.mod.name, x), v[1] if v else T.UNBOUND, fr.mod, st)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Unsupported("del")
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = Builtin(a.name if a.asname else a.name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st, fr):
        g = {}
        self.global_stmt(fr.mod, g, s)
        for k, v in g.items():
            if isinstance(v, tuple) and v[0] == "lazy":
                m = self.loader.get(v[1])
                v = self.lookup_global(m, v[2], st)
            elif isinstance(v, tuple) and v[0] == "module":
                v = Builtin("module:" + v[1])
            st.env[k] = v
        return st

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = Func(s, fr.mod, st, s.name)
        outer = getattr(fr, "closure", None)
        st.env[s.name].env = ChainMap(st.env, outer) if outer else st.env
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.expr(s.value, st, fr)
        return self.check_exit(st, fr)

    def check_exit(self, st, fr):
        if st.env.get("^exit") is not None:
            del st.env["^exit"]
            st.err = TRUE
            fr.returns.append((st, T._node("unbound", ("raise",))))
            return None
        return st

    def s_Raise(self, s, st, fr):
        st.err = TRUE
        fr.returns.append((st, T._node("unbound", ("raise",))))
        return None

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.expr(s.value, st, fr)
        if fr.loops:
            fr.loops[-1]["ret"].append((st, v))
        else:
            fr.returns.append((st, v))
        return None

    def s_Break(self, s, st, fr):
        fr.loops[-1]["brk"].append(st)
        return None

    def s_Continue(self, s, st, fr):
        fr.loops[-1]["cont"].append(st)
        return None

    def s_Assign(self, s, st, fr):
        v = self.expr(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st, fr), st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        opf = s.op
        if isinstance(t, ast.Name):
            old = self.name(t.id, st, fr, t)
            v = self.expr(s.value, st, fr)
            if isinstance(old, Arr):
                new = self.binop(opf, old, v, st)
                if isinstance(new, Term) and new.op == "top":
                    self.havoc(st, old, new.args[0])
                    return st
                snap = st.copy()
                self.store(st, old, lambda idx: self.value_at(snap, new, idx))
                return st
            if isinstance(old, Ref) and old.kind == "list" and isinstance(opf, ast.Add):
                a, b = self.seq_items(st, old), self.seq_items(st, v)
                if a is None or b is None:
                    raise Unsupported("list +=")
                st.heap[old.oid] = list(a) + list(b)
                return st
            if isinstance(old, Term) and old.op == "top" and self.other_name.get(old):
                self.written_through(st, old)
            self.assign(t, self.binop(opf, old, v, st), st, fr)
            return st
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            old = self.expr(t, st, fr)
            if not isinstance(old, Term):
                raise Unsupported("augmented attribute")
            self.assign(t, self.binop(opf, old, self.expr(s.value, st, fr), st), st, fr)
            return st
        if isinstance(t, ast.Subscript):
            base = self.expr(t.value, st, fr)
            items = self.index_items(t.slice, st, fr)
            if isinstance(base, Arr):
                old = self.getitem(st, base, items)
                v = self.expr(s.value, st, fr)
                if isinstance(old, Arr) and old.oid == base.oid:
                    new = self.binop(opf, old, v, st)
                    snap = st.copy()
                    if isinstance(new, Term) and new.top_:
                        self.havoc(st, old, "aug")
                        return st
                    self.store(st, old, lambda idx: self.value_at(snap, new, idx))
                else:
                    new = self.binop(opf, old, v, st)
                    self.setitem(st, base, items, new)
                return st
            old = self.subscript(base, items, st)
            v = self.expr(s.value, st, fr)
            if isinstance(old, Arr):
                new = self.binop(opf, old, v, st)
                snap = st.copy()
                self.store(st, old, lambda idx: self.value_at(snap, new, idx))
                return st
            self.set_subscript(base, items, self.binop(opf, old, v, st), st)
            return st
        raise Unsupported("augassign target")

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if isinstance(v, Arr):
                c = st.heap[v.oid]
                if isinstance(c, Content) and c.name is None:
                    st.heap[v.oid] = Content(c.dims, c.dtype, c.body, t.id)
            if fr.func is not None and t.id in self.declared_global(fr.func):
                oid = self.cells[("global", fr.mod.name, t.id)][0]
                st.heap[oid] = [v]
                return
            st.env[t.id] = v
            st.env.pop("?" + t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(items) - (len(t.elts) - 1)
                items = items[:i] + [self.mk_list(st, items[i:i + n])] + items[i + n:]
            if len(items) != len(t.elts):
                raise Unsupported("unpack length")
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and isinstance(self.name(t.value.id, st, fr), Func):
            f = self.name(t.value.id, st, fr)
            self.func_attr(f, t.attr, st)
            st.heap[self.cells[("attr", f.mod.name, f.name, t.attr)][0]] = [v]
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, st, fr)
            items = self.index_items(t.slice, st, fr)
            self.set_subscript(base, items, v, st)
        else:
            raise Unsupported("assign target")

    def unpack(self, v, elts, st):
        n = len(elts)
        items = self.seq_items(st, v)
        if items is not None:
            return list(items)
        if isinstance(v, Term) and v.top_:
            return [v] * n
        if isinstance(v, Arr) and v.dims:
            return [self.getitem(st, v, [T.C(i)]) for i in range(n)]
        raise Unsupported("unpack")

    def mk_list(self, st, items):
        oid = self.new_oid()
        st.heap[oid] = list(items)
        return Ref("list", oid)

    def seq_items(self, st, v):
        """elements of a sequence of static length, else None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref) and v.kind == "list":
            c = st.heap.get(v.oid)
            return list(c) if isinstance(c, list) else None
        if isinstance(v, Ref) and v.kind == "dict":
            c = st.heap.get(v.oid)
            return [self.key_term(k) for k, _ in c] if isinstance(c, tuple) else None
        if isinstance(v, Rng):
            n = self.rng_len(v)
            if n.op == "c" and n.args[0] <= 64:
                return [T.add(v.lo, T.C(i * v.step)) for i in range(n.args[0])]
            return None
        if isinstance(v, Zip):
            its = [self.seq_items(st, x) for x in v.items]
            if any(i is None for i in its):
                return None
            if v.kind == "ndenum":
                return None
            if v.kind == "product":
                out = [()]
                for x in its:
                    if len(out) * len(x) > 64:
                        return None
                    out = [o + (y,) for o in out for y in x]
                return [Tup(x) for x in out]
            if v.kind == "enum":
                return [Tup((T.add(v.start, T.C(i)), x)) for i, x in enumerate(its[0])]
            return [Tup(x) for x in zip(*its)]
        if isinstance(v, Arr) and v.dims and v.dims[0].op == "c" and v.dims[0].args[0] <= 16:
            return [self.getitem(st, v, [T.C(i)]) for i in range(v.dims[0].args[0])]
        return None

    def key_term(self, k):
        if isinstance(k, (Term, When)):
            raise Unsupported("keys of unknown value")
        if isinstance(k, tuple):
            return Tup([self.key_term(x) for x in k])
        return T.S(k) if isinstance(k, str) else (T.C(k) if isinstance(k, int) else k)

    # ------------------------------------------------------------ if / with / try
    def s_If(self, s, st, fr):
        return self.block([s], st, fr)

    def branches(self, s, st, fr):
        """[state] or [condition, states after the branches, path conditions]"""
        try:
            c = self.truth(self.expr(s.test, st, fr), st)
        except Unsupported as e:
            self.note(s, "unsupported: %s" % e)
            self.havoc_stmt(s, st, fr, str(e))
            return [self.may_leave(s, st, fr, str(e))]
        if c is TRUE:
            return [self.block(s.body, st, fr)]
        if c is FALSE:
            return [self.block(s.orelse, st, fr)]
        a, b = st, st.copy()
        pc = st.pc
        nc = T.not_(c)
        a.pc, b.pc = T.and_(pc, c), T.and_(pc, nc)
        pa, pb = a.pc, b.pc
        ra = self.block(s.body, a, fr) if a.pc is not FALSE else None
        rb = self.block(s.orelse, b, fr) if b.pc is not FALSE else None
        if ra is None:
            return [rb]
        if rb is None:
            return [ra]
        return c, ra, rb, pc, pa, pb

    def merge_if(self, c, ra, rb, pc, pa, pb):
        same = ra.pc is pa and rb.pc is pb
        out = self.merge(c, ra, rb)
        out.pc = pc if same else T.or_(ra.pc, rb.pc)
        return out

    def merge(self, c, a, b):
        out = State()
        m = _Merge(self, c, a, b, out)
        m.heap()
        m.env()
        m.finish()
        return out

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.expr(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.block(s.body, st, fr)

    def s_Match(self, s, st, fr):
        return self.block(self.as_chain(s), st, fr)

    def as_chain(self, s):
        """match over constants: the same as a chain of comparisons"""
        r = self.AS_IF.get(id(s))
        if r is None:
            name = "match@%d" % s.lineno
            exact = isinstance(s.subject, ast.Call) and ast.unparse(s.subject.func) == "bool" or isinstance(s.subject, ast.UnaryOp) and isinstance(s.subject.op, ast.Not)

            def test(p, binds):
                x = ast.Name(name, ast.Load())
                if isinstance(p, ast.MatchValue):
                    return ast.Compare(x, [ast.Eq()], [p.value])
                if isinstance(p, ast.MatchSingleton) and isinstance(p.value, bool) and exact:
                    return x if p.value else ast.UnaryOp(ast.Not(), x)
                if isinstance(p, ast.MatchSingleton) and p.value is None:
                    return ast.Compare(x, [ast.Is()], [ast.Constant(None)])
                if isinstance(p, ast.MatchOr):
                    return ast.BoolOp(ast.Or(), [test(q, None) for q in p.patterns])
                if isinstance(p, ast.MatchAs) and (p.pattern is None or binds is not None):
                    if p.name and binds is None:
                        raise Unsupported("match pattern")
                    if p.name:
                        binds.append(ast.Assign([ast.Name(p.name, ast.Store())], ast.Name(name, ast.Load())))
                    return test(p.pattern, None) if p.pattern else ast.Constant(True)
                raise Unsupported("match pattern")

            chain = []
            for c in reversed(s.cases):
                binds = []
                cond = test(c.pattern, binds)
                if c.guard:
                    if binds:
                        raise Unsupported("match guard")
                    cond = ast.BoolOp(ast.And(), [cond, c.guard])
                chain = [ast.If(cond, binds + c.body, chain)]
            r = [ast.Assign([ast.Name(name, ast.Store())], s.subject)] + chain
            for x in r:
                ast.copy_location(x, s)
                ast.fix_missing_locations(x)
            self.AS_IF[id(s)] = r
            s.keep_ = r
        return r

    def s_Try(self, s, st, fr):
        if s.finalbody and any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for x in s.body + s.handlers + s.orelse for n in ast.walk(x)):
            raise Unsupported("try ... finally left early")
        self.catchable(s)
        st = self.try_body(s.body, st, fr, s) if s.handlers else self.block(s.body, st, fr)
        if st is not None and s.orelse and not s.handlers:
            st = self.block(s.orelse, st, fr)
        if st is not None and s.finalbody:
            st = self.block(s.finalbody, st, fr)
        return st

    def try_body(self, stmts, st, fr, s):
        """the body of a try with handlers: the first statement that fails leads to the handler"""
        for i, x in enumerate(stmts):
            if isinstance(x, ast.Raise):
                return self.handler(s, st, fr)
            pre = st.copy()
            st.err = FALSE
            lists = [fr.returns] + [r for L in fr.loops for r in L.values()]
            sizes = [len(r) for r in lists]
            simple = isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr, ast.Return, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Assert, ast.Delete))
            out = self.stmt_(x, st, fr)
            left = [(r, k) for r, n in zip(lists, sizes) for k in range(n, len(r))]
            ends = [r[k][0] if isinstance(r[k], tuple) else r[k] for r, k in left] + ([out] if out is not None else [])
            errs = [e.err for e in ends]
            if all(e is FALSE for e in errs):
                for e in ends:
                    e.err = pre.err
                if out is None:
                    return None
                st = out
                continue
            if not simple or len(ends) != 1:
                raise Unsupported("failure inside a compound statement of a try")
            end, fails = ends[0], errs[0]
            last = [r.pop() for r, _ in left]
            if fails is TRUE:
                return self.handler(s, pre, fr)
            c = T.not_(fails)
            pc = pre.pc
            end.err = pre.err
            end.pc, pre.pc = T.and_(pc, c), T.and_(pc, fails)
            pa, pb = end.pc, pre.pc
            if last:
                left[0][0].append(last[0])
                ra = None
            else:
                ra = self.try_body(stmts[i + 1:], end, fr, s) if pa is not FALSE else None
            rb = self.handler(s, pre, fr) if pb is not FALSE else None
            if ra is None or rb is None:
                return ra or rb
            return self.merge_if(c, ra, rb, pc, pa, pb)
        return self.block(s.orelse, st, fr)

    @staticmethod
    def caught(h):
        return ["any" if n is None else ast.unparse(n).split(".")[-1] for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]

    def catchable(self, s):
        """only failures the analysis sees (a missing key, index, name) or takes not to happen (a missing file) may be caught"""
        for h in s.handlers:
            for n in self.caught(h):
                if n in ("any", "Exception", "BaseException"):
                    for x in s.body:
                        for m in ast.walk(x):
                            if isinstance(m, (ast.BinOp, ast.AugAssign)) and isinstance(m.op, (ast.Div, ast.Mod, ast.FloorDiv)):
                                raise Unsupported("division in a try")
                            if isinstance(m, ast.Call) and ast.unparse(m.func).split(".")[-1] in ("sqrt", "log", "pow", "int", "float", "index", "remove", "inv", "solve"):
                                raise Unsupported("call in a try")
                elif n not in CAUGHT and n not in ("ImportError", "ModuleNotFoundError", "OSError", "IOError", "FileNotFoundError", "PermissionError"):
                    raise Unsupported("handler of %s" % n)

    def handler(self, s, st, fr):
        if len(s.handlers) != 1:
            raise Unsupported("several handlers")
        h = s.handlers[0]
        for n in self.caught(h):
            if n not in CAUGHT:
                raise Unsupported("handler of %s" % n)
        if h.name:
            st.env[h.name] = T.top("exception")
        return self.block(h.body, st, fr)

    # ------------------------------------------------------------ loops
    ELSE = {}

    def no_else(self, s):
        """for/while ... else with a break of its own: the same with a flag"""
        r = self.ELSE.get(id(s))
        if r is None:
            flag = "else@%d" % s.lineno

            class Mark(ast.NodeTransformer):
                def visit_For(self, n):
                    return n

                visit_While = visit_FunctionDef = visit_Lambda = visit_For

                def visit_Break(self, n):
                    return [ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(True)), n]

            body = [Mark().visit(x) for x in copy.deepcopy(s.body)]
            body = [y for x in body for y in (x if isinstance(x, list) else [x])]
            loop = ast.For(s.target, s.iter, body, []) if isinstance(s, ast.For) else ast.While(s.test, body, [])
            r = [ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(False)), loop,
                 ast.If(ast.UnaryOp(ast.Not(), ast.Name(flag, ast.Load())), s.orelse, [])]
            for x in r:
                ast.copy_location(x, s)
                ast.fix_missing_locations(x)
            self.ELSE[id(s)] = r
            r[1].keep_ = s
        return r

    def own_break(self, s):
        return any(isinstance(n, ast.Break) and not self.in_inner_loop(s.body, n) for x in s.body for n in ast.walk(x))

    def s_For(self, s, st, fr):
        if s.orelse and self.own_break(s):
            return self.block(self.no_else(s), st, fr)
        it = self.expr(s.iter, st, fr)

        def body(st2, elem):
            self.assign(s.target, elem, st2, fr)
            return self.block(s.body, st2, fr)

        tnames = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
        out = self.for_each(it, st, fr, body, tnames, s)
        if s.orelse and out is not None:
            out = self.block(s.orelse, out, fr)
        return out

    def for_each(self, it, st, fr, body, tnames, node):
        items = self.seq_items(st, it)
        if isinstance(it, Term) and it.top_:
            raise Unsupported("iterate over unknown")
        if items is not None and (len(items) <= self.unroll or not isinstance(it, (Rng, Arr))):
            return self.unrolled(items, st, fr, body)
        if isinstance(it, Ref) and it.kind == "list" and isinstance(st.heap.get(it.oid), Content):
            c = st.heap[it.oid]
            if len(c.dims) == 1 and c.dims[0].op == "c" and c.dims[0].args[0] <= self.unroll:
                a = Arr(it.oid, c.dims)
                return self.unrolled([self.getitem(st, a, [T.C(i)]) for i in range(c.dims[0].args[0])], st, fr, body)
        nest = self.iteration(it, st)  # list of (v, lo, hi, guard, desc), elem function
        if isinstance(it, Masked) and len(nest[0]) == 1 and it.dims[0].op == "c" and it.dims[0].args[0] <= self.unroll:
            return self.unrolled([nest[1]([T.C(i)], st) for i in range(it.dims[0].args[0])], st, fr, self.selected(body))
        if len(nest[0]) > 1 and isinstance(node, ast.For) and self.own_break(node):
            raise Unsupported("break out of a loop over several axes")
        return self.sym_nest(nest, st, fr, body, tnames, node)

    def iteration(self, it, st):
        """(list of (lo, hi, desc), f(vs, state) -> (guard, elem))"""
        if isinstance(it, Rng):
            if it.step == 1:
                return [(it.lo, it.hi, False)], lambda vs, s: (TRUE, vs[0])
            if it.step == -1:
                return [(T.add(it.hi, ONE), T.add(it.lo, ONE), True)], lambda vs, s: (TRUE, vs[0])
            n = self.rng_len(it)
            return [(ZERO, n, False)], lambda vs, s: (TRUE, T.add(it.lo, T.scale(vs[0], it.step)))
        if isinstance(it, Arr):
            if not it.dims:
                raise Unsupported("iterate scalar")
            return [(ZERO, it.dims[0], False)], lambda vs, s: (TRUE, self.getitem(s, it, [vs[0]]))
        if isinstance(it, Masked):
            if it.dtype == "mask":
                raise Unsupported("iterate mask")
            return ([(ZERO, d, False) for d in it.dims],
                    lambda vs, s: (T.subst(it.cond, dict(zip(K, vs))), T.subst(it.val, dict(zip(K, vs)))))
        if isinstance(it, Ref) and it.kind == "list":
            c = st.heap[it.oid]
            if isinstance(c, Content):
                return [(ZERO, c.dims[0], False)], lambda vs, s: (TRUE, self.getitem(s, Arr(it.oid, c.dims), [vs[0]]))
            if isinstance(c, Masked):
                return self.iteration(c, st)
        if isinstance(it, Ref) and it.kind == "file":
            it = self.call_method("readlines", it, [], {}, st, None, None)
            if isinstance(it, Ref) and it.kind == "list":
                return self.iteration(it, st)
        if self.is_split(it):
            return [(ZERO, self.parts(it), False)], lambda vs, s: (TRUE, T.fn("stritem", it, vs[0]))
        if isinstance(it, Ref) and it.kind == "lines":
            n, f = st.heap[it.oid]
            return [(ZERO, n, False)], lambda vs, s: (TRUE, f(vs[0]))
        if isinstance(it, Zip) and it.kind == "product":
            parts = []
            for x in it.items:
                if isinstance(x, Tup) or isinstance(x, Ref) and self.seq_items(st, x) is not None:
                    x = self.to_array(st, x)
                parts.append(self.iteration(x, st))
            spaces = [sp for p in parts for sp in p[0]]

            def prod(vs, s):
                g, el, i = TRUE, [], 0
                for sp, f in parts:
                    gg, e = f(vs[i:i + len(sp)], s)
                    g = T.and_(g, gg)
                    el.append(e)
                    i += len(sp)
                return g, Tup(el)

            return spaces, prod
        if isinstance(it, Zip) and it.kind == "ndenum":
            x = it.items[0]
            return ([(ZERO, d, False) for d in x.dims],
                    lambda vs, s: (TRUE, Tup([Tup(vs), self.read(s, x, list(vs))])))
        if isinstance(it, Zip):
            subs = []
            for x in it.items:
                if isinstance(x, Tup) or isinstance(x, Ref):
                    y = self.seq_items(st, x)
                    if y is not None:
                        x = self.to_array(st, x)
                subs.append(x)
            if subs and all(isinstance(x, Masked) for x in subs):
                m = subs[0]
                if any(x.cond is not m.cond or x.dims != m.dims for x in subs):
                    raise Unsupported("zip masks")
                spaces = [(ZERO, d, False) for d in m.dims]

                def f(vs, s):
                    sub = dict(zip(K, vs))
                    el = [T.subst(x.val, sub) for x in subs]
                    if it.kind == "enum":
                        if len(vs) != 1:
                            raise Unsupported("enumerate mask")
                        u = T.fresh("i")
                        p = T.sum_(u, ZERO, vs[0], T.num(T.subst(m.cond, {K[0]: u})))
                        el = [T.add(it.start, p)] + el
                    return T.subst(m.cond, sub), Tup(el)

                return spaces, f
            ms = [x for x in subs if isinstance(x, Masked)]
            if ms and it.kind == "zip" and len(ms[0].dims) == 1:
                m = ms[0]
                n = self.b_len([m], {}, st, fr=None)
                for x in subs:
                    if not (isinstance(x, Masked) and x.cond is m.cond and x.dims == m.dims or
                            isinstance(x, Rng) and x.step == 1 and T.sub(x.hi, x.lo) is n):
                        raise Unsupported("zip masks")

                def h(vs, s):
                    sub = {K[0]: vs[0]}
                    u = T.fresh("i")
                    LB[u.args[0]] = 0
                    p = T.sum_(u, ZERO, vs[0], T.num(T.subst(m.cond, {K[0]: u})))
                    return T.subst(m.cond, sub), Tup([T.subst(x.val, sub) if isinstance(x, Masked) else T.add(x.lo, p) for x in subs])

                return [(ZERO, m.dims[0], False)], h
            parts = [self.iteration(x, st) for x in subs]
            if any(len(p[0]) != 1 or p[0][0][2] for p in parts):
                raise Unsupported("zip nest")
            if any(isinstance(x, Masked) for x in subs):
                raise Unsupported("zip mixed mask")
            ns = []
            for p in parts:
                lo, hi, _ = p[0][0]
                n = T.sub(hi, lo)
                n = n if nonneg(n) else T.max_(n, ZERO)
                if n not in ns:
                    ns.append(n)
            n = ns[0] if len(ns) == 1 else T.min_(*ns)

            def g(vs, s):
                el = []
                for p in parts:
                    el.append(p[1]([T.add(vs[0], p[0][0][0])], s)[1])
                if it.kind == "enum":
                    el = [T.add(it.start, vs[0])] + el
                return TRUE, Tup(el)

            return [(ZERO, n, False)], g
        raise Unsupported("iterate %s" % type(it).__name__)

    def selected(self, body):
        """one pass of a loop over selected elements: the body where the element is selected"""

        def step(st, item):
            g, x = item
            if g is FALSE:
                return st
            if g is TRUE:
                return body(st, x)
            skip = st.copy()
            pc = st.pc
            st.pc = T.and_(pc, g)
            skip.pc = T.and_(pc, T.not_(g))
            if st.pc is FALSE:
                return skip
            if skip.pc is FALSE:
                return body(st, x)
            return self.join_states([body(st, x), skip])

        return step

    def unrolled(self, items, st, fr, body):
        done = []  # states that left by break
        fr.loops.append({"cont": [], "brk": [], "ret": []})
        pc0 = st.pc
        try:
            for x in items:
                L = fr.loops[-1]
                L["cont"] = []
                st = body(st, x)
                outs = L["cont"] + ([st] if st is not None else [])
                st = self.join_states(outs)
                if st is None:
                    break
            L = fr.loops[-1]
            fin = L["brk"] + ([st] if st is not None else [])
            rets = L["ret"]
        finally:
            fr.loops.pop()
        if fr.loops:
            fr.loops[-1]["ret"].extend(rets)
        else:
            fr.returns.extend(rets)
        return self.join_states(fin)

    def join_states(self, states):
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        cur = states[-1]
        for s in reversed(states[:-1]):
            pc = T.or_(s.pc, cur.pc)
            m = self.merge(s.pc, s, cur)
            m.pc = pc
            cur = m
        return cur

    def sym_nest(self, nest, st, fr, body, tnames, node):
        spaces, f = nest

        def run(level, vs, s):
            if level == len(spaces):
                g, elem = f(vs, s)
                return g, elem
            raise AssertionError

        def level_loop(level, vs, s):
            lo, hi, desc = spaces[level]

            def inner(s2, v):
                vs2 = vs + [v]
                if level + 1 < len(spaces):
                    return level_loop(level + 1, vs2, s2)
                g, elem = f(vs2, s2)
                return self.guarded(g, s2, fr, lambda s3: body(s3, elem))

            return self.sym_loop(s, fr, lo, hi, desc, inner, tnames, node)

        return level_loop(0, [], st)

    def guarded(self, g, st, fr, body):
        if g is TRUE:
            return body(st)
        if g is FALSE:
            return st
        b = st.copy()
        pc = st.pc
        st.pc = T.and_(pc, g)
        b.pc = T.and_(pc, T.not_(g))
        a = body(st) if st.pc is not FALSE else None
        if a is None:
            return b
        out = self.merge(g, a, b)
        out.pc = pc if a.pc is T.and_(pc, g) else T.or_(a.pc, b.pc)
        return out

    # ---- symbolic loop
    def iter_once(self, st0, fr, v, body, mus, locs):
        """run one iteration from the state st0 with the locations replaced by their mu"""
        s = st0.copy()
        s.eff = ()
        s.err = FALSE
        s.pc = TRUE
        for key, mu in mus.items():
            self.install(s, key, mu, locs[key])
        fr.loops.append({"cont": [], "brk": [], "ret": []})
        try:
            out = body(s, v)
            L = fr.loops[-1]
        finally:
            fr.loops.pop()
        return out, L

    def install(self, s, key, mu, info):
        kind = key[0]
        if kind == "e":
            s.env[key[1]] = mu
        elif kind == "a":  # variable holding a freshly allocated array
            dims, dt = info[1], info[2]
            s.env[key[1]] = self.new(s, dims, dt, T.sel(mu, *K[: len(dims)]), key[1])
        elif kind == "h":
            c = s.heap[key[1]]
            s.heap[key[1]] = Content(c.dims, c.dtype, T.sel(mu, *K[: len(c.dims)]) if c.dims else mu, c.name)
        elif kind == "r":
            c = s.heap[key[1]]
            s.heap[key[1]] = (c[0], mu)
        elif kind == "c":
            s.heap[key[1]] = [mu]
        elif kind == "l":
            pass

    def changed(self, st0, out, tnames, locs, base_oids):
        """locations that differ between the loop entry and the iteration end"""
        new = {}
        for n, v in out.env.items():
            if n in tnames or n.startswith("^"):
                continue
            o = st0.env.get(n)
            if ("e", n) in locs or ("a", n) in locs:
                continue
            if v is o:
                continue
            if isinstance(v, Term):
                if isinstance(o, Term) or o is None:
                    new[("e", n)] = ("e", self.kind_of(v, o))
                else:
                    new[("e", n)] = ("top",)
            elif isinstance(v, Arr):
                if isinstance(o, Arr) and o.same(v):
                    continue
                if v.oid in base_oids:
                    new[("v", n)] = ("view", v)
                    continue
                new[("a", n)] = ("a", v.dims, self.dtype(out, v))
            elif isinstance(v, Tup) and isinstance(o, Tup) and v.items == o.items:
                continue
            else:
                new[("x", n)] = ("other", v)
        for oid, c in out.heap.items():
            if oid not in base_oids:
                continue
            if st0.heap[oid] is c:
                continue
            if isinstance(c, Content):
                if ("h", oid) in locs:
                    continue
                o = st0.heap[oid]
                if isinstance(o, Content) and o.body is c.body:
                    continue
                new[("h", oid)] = ("h",)
            elif isinstance(c, tuple) and len(c) == 2 and isinstance(c[1], Term) and isinstance(c[0], Term):
                if ("r", oid) not in locs:
                    new[("r", oid)] = ("r",)
            elif isinstance(c, list) and self.scalar_cell(oid, st0.heap[oid]) and self.scalar_cell(oid, c):
                if ("c", oid) not in locs and c[0] is not st0.heap[oid][0]:
                    new[("c", oid)] = ("c", self.kind_of(c[0], st0.heap[oid][0]))
            elif isinstance(c, list):
                if ("l", oid) not in locs and not (isinstance(st0.heap[oid], list) and self.same_list(st0.heap[oid], c)):
                    new[("l", oid)] = ("l",)
            elif ("d", oid) not in locs:
                o = st0.heap[oid]
                if o is not c and not (isinstance(o, tuple) and isinstance(c, tuple) and len(o) == len(c) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(o, c))):
                    new[("d", oid)] = ("d",)
        return new

    def scalar_cell(self, oid, c):
        """the cell of a module variable or attribute that holds a number"""
        return isinstance(c, list) and len(c) == 1 and isinstance(c[0], Term) and any(oid == o for o, _ in self.cells.values())

    @staticmethod
    def same_list(a, b):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))

    def kind_of(self, v, o):
        ts = [t for t in (v, o) if isinstance(t, Term) and t.op not in ("unbound", "top")]
        if ts and all(t.bool_ for t in ts):
            return "b"
        if ts and all(t.int_ or t.bool_ for t in ts):
            return "i"
        if ts and any(t.op in ("str",) for t in ts):
            return "o"
        return "f"

    def sym_loop(self, st, fr, lo, hi, desc, body, tnames, node, while_=None):
        lo, hi = T.num(lo), T.num(hi)
        if while_ is None:
            p = T.sub(hi, lo)
            if p.op == "c" and p.args[0] <= 0:
                return st
            if p.op == "c" and p.args[0] == 1:
                # exactly one iteration
                return self.unrolled([lo], st, fr, body)
        self.loops += 0 if self.dry else 1
        v = T.fresh("i", "v")
        l = lb(lo)
        if l is not None:
            LB[v.args[0]] = l
        u = ub(hi)
        if u is not None:
            UB[v.args[0]] = u - 1
        self.upper[v.args[0]] = hi
        base = set(st.heap)
        st0 = st.copy()
        locs = {}
        mus = {}
        views = {}
        known = len(self.cells)
        # discovery of the carried locations
        self.dry += 1
        try:
            for _ in range(8):
                out, L = self.iter_once(st0, fr, v, body, mus, locs)
                ends = ([out] if out is not None else []) + L["cont"] + L["brk"] + [s for s, _ in L["ret"]]
                new = {}
                for e in ends:
                    for k, inf in self.changed(st0, e, tnames, locs, base).items():
                        if k[0] == "v":
                            views[k[1]] = inf[1]
                            continue
                        new.setdefault(k, inf)
                again = False
                # int/float kinds may widen
                for e in ends:
                    for k in list(mus):
                        if k[0] == "e" and mus[k].args[1] in ("i", "b") and locs[k][0] == "e":
                            val = e.env.get(k[1])
                            if isinstance(val, Term) and val.op not in ("unbound", "top"):
                                kd = self.kind_of(val, mus[k])
                                if kd != mus[k].args[1]:
                                    mus[k] = T.fresh(kd, "m:" + k[1])
                                    again = True
                for k, inf in new.items():
                    if k[0] in ("x", "d", "l") or inf[0] == "top":
                        if k[0] == "l" and self.list_pattern(st0, ends, k):
                            locs[k] = ("l",)
                            continue
                        if k[0] == "x" and k[1] not in st0.env:
                            continue  # iteration-local
                        raise Unsupported("loop-carried %s" % (k,))
                    locs[k] = inf
                    if k[0] == "e":
                        mus[k] = T.fresh(inf[1], "m:" + k[1])
                    elif k[0] == "a":
                        mus[k] = T.arr("m:%s#%d" % (k[1], next(T._fresh)), inf[2])
                    elif k[0] == "h":
                        c = st0.heap[k[1]]
                        mus[k] = (T.arr("m:%s#%d" % (c.name or "arr", next(T._fresh)), c.dtype) if c.dims
                                  else T.fresh({"i": "i", "i32": "i", "b": "b"}.get(c.dtype, "f"), "m"))
                    elif k[0] == "r":
                        mus[k] = T.fresh("i", "m:rng")
                    elif k[0] == "c":
                        mus[k] = T.fresh(inf[1], "m:cell")
                    again = True
                if len(self.cells) > known:
                    # state that outlives the call, first met in the body
                    known = len(self.cells)
                    self.keep_cells(st)
                    self.keep_cells(st0)
                    base = set(st0.heap)
                    again = True
                if not again:
                    break
            else:
                raise Unsupported("loop locations do not stabilise")
        finally:
            self.dry -= 1
        # the real run
        out, L = self.iter_once(st0, fr, v, body, mus, locs)
        wcond = TRUE
        if while_ is not None:
            wcond = while_(st0, mus, locs)
        conts = L["cont"] + ([out] if out is not None else [])
        brks = list(L["brk"])
        rets = list(L["ret"])
        has_brk = bool(brks or rets)
        end = self.join_states(conts + brks + [s for s, _ in rets])
        if end is None:
            return None
        brkc = T.or_(*[s.pc for s in brks] + [s.pc for s, _ in rets]) if has_brk else FALSE
        LS = []
        for k, mu in mus.items():
            if k[0] == "e":
                init = st0.env.get(k[1], T.UNBOUND)
                nxt = end.env.get(k[1], T.UNBOUND)
                if not isinstance(nxt, Term):
                    nxt = T.top("type change")
                if mu.bool_ and not nxt.bool_:
                    nxt = T.truth(nxt) if nxt.op not in ("unbound", "top") else nxt
                LS.append(Loc("s", k, mu, init, nxt, name=k[1]))
            elif k[0] == "r":
                LS.append(Loc("s", k, mu, st0.heap[k[1]][1], end.heap[k[1]][1], name="rng"))
            elif k[0] == "c":
                c1 = end.heap[k[1]]
                LS.append(Loc("s", k, mu, st0.heap[k[1]][0], c1[0] if self.scalar_cell(k[1], c1) else T.top("type change"), name="cell"))
            elif k[0] == "h":
                c0, c1 = st0.heap[k[1]], end.heap[k[1]]
                if not isinstance(c1, Content):
                    raise Unsupported("heap kind")
                if not c0.dims:
                    LS.append(Loc("s", k, mu, c0.body, c1.body, name=c0.name))
                else:
                    LS.append(Loc("a", k, mu, c0.body, c1.body, c0.dims, c0.dtype, c0.name))
            elif k[0] == "a":
                a = end.env.get(k[1])
                dims = locs[k][1]
                if not isinstance(a, Arr):
                    raise Unsupported("array variable")
                if any(v.args[0] in d.fv or any(m.args[0] in d.fv for m in mus.values()) for d in a.dims):
                    raise Unsupported("loop-dependent shape")
                o = st0.env.get(k[1])
                init = self.body(st0, o) if isinstance(o, Arr) and len(o.dims) == len(a.dims) else T.UNBOUND
                LS.append(Loc("a", k, mu, init, self.body(end, a), a.dims, locs[k][2], k[1]))
        # return values leaving the loop
        retval = None
        if rets:
            rv = rets[-1][1]
            for s, x in reversed(rets[:-1]):
                ms = State()
                m = _Merge(self, s.pc, s, end, ms)
                m.heap()
                rv = m.value(x, rv)
            if not isinstance(rv, Term):
                if not (isinstance(rv, Tup) and all(isinstance(x, Term) for x in rv.items)):
                    raise Unsupported("return of object in loop")
            retc = T.or_(*[s.pc for s, _ in rets])
        if has_brk:
            bm = T.fresh("b", "m:#brk")
            bl = Loc("s", ("brk",), bm, FALSE, T.or_(bm, brkc), name="#brk")
            for x in LS:
                if x.kind == "s":
                    x.next = T.ite(bm, x.mu, x.next)
                else:
                    x.next = T.ite(bm, T.sel(x.mu, *K[: len(x.dims)]), x.next)
            LS.append(bl)
            extra = []
            if rets:
                rm = T.fresh("b", "m:#ret")
                LS.append(Loc("s", ("ret",), rm, FALSE, T.or_(rm, T.and_(T.not_(bm), retc)), name="#ret"))
                rvs = list(rv.items) if isinstance(rv, Tup) else [rv]
                for i, x in enumerate(rvs):
                    kd = self.kind_of(x, None)
                    xm = T.fresh(kd, "m:#rv")
                    LS.append(Loc("s", ("rv", i), xm, T.UNBOUND, T.ite(T.and_(T.not_(bm), retc), x, xm), name="#rv%d" % i))
        eff, errt = end.eff, end.err
        live = T.not_(bm) if has_brk else TRUE
        if while_ is not None:
            return self.finish_while(st0, LS, v, wcond, eff, errt, rets, fr, locs, tnames, base, end)
        resid = self.solve(LS, v, lo, hi, desc)
        sub = {x.mu: x.prefix for x in LS if x.prefix is not None}
        # errors and effects of all iterations
        res = st0
        res.pc = st.pc
        errt = T.and_(live, errt)
        errt = self.subst_mu(errt, sub)
        res.err = T.or_(st.err, T.exists(v, lo, hi, errt))
        if eff:
            eff = self.subst_eff(eff, sub)
            if live is not TRUE:
                eff = (("if", self.subst_mu(live, sub), eff, ()),)
            res.eff = st.eff + (("for", v, lo, hi, desc, eff),)
        else:
            res.eff = st.eff
        self.put_back(res, LS, st)
        # loop target after the loop
        lastv = lo if desc else T.sub(hi, ONE)
        nonempty = T.lt(lo, hi)
        for n in tnames:
            w = end.env.get(n)
            if isinstance(w, Term):
                w = self.subst_mu(w, sub)
                res.env[n] = T.ite(nonempty, T.subst(w, {v: lastv}), st.env.get(n, T.UNBOUND) if isinstance(st.env.get(n, T.UNBOUND), Term) else T.top("loop variable"))
                if has_brk:
                    res.env[n] = T.top("loop variable after break") if n not in () else None
                    fm = self.first_break(LS, v, lo, hi, desc, brkc, sub)
                    if fm is not None:
                        b = T.subst(w, {v: fm})
                        res.env[n] = T.ite(self.final_of(LS, ("brk",)), b, T.ite(nonempty, T.subst(w, {v: lastv}), T.UNBOUND))
            else:
                res.env[n] = T.top("loop variable")
        for n, a in views.items():
            if ("a", n) in mus or ("e", n) in mus:
                continue
            axes = []
            ok = True
            m = {v: lastv}
            for ax in a.axes:
                axes.append(("f", T.subst(self.subst_mu(ax[1], sub), m)) if ax[0] == "f" else ("a", ax[1], T.subst(self.subst_mu(ax[2], sub), m), ax[3]))
            dims = [T.subst(self.subst_mu(d, sub), m) for d in a.dims]
            res.env[n] = Arr(a.oid, dims, axes)
        for k in locs:
            if k[0] == "l":
                self.finish_list(res, k, end, v, lo, hi, desc, sub)
        # leave by return
        if rets:
            rc = self.final_of(LS, ("ret",))
            a = res.copy()
            a.pc = T.and_(st.pc, rc)
            vals = [self.final_of(LS, ("rv", i)) for i in range(len(rvs))]
            val = Tup(vals) if isinstance(rv, Tup) else vals[0]
            (fr.loops[-1]["ret"] if fr.loops else fr.returns).append((a, val))
            res.pc = T.and_(st.pc, T.not_(rc))
            if res.pc is FALSE:
                return None
        return res

    def list_pattern(self, st0, ends, k):
        """list grown by exactly one element per iteration from an empty list"""
        c = st0.heap[k[1]]
        return isinstance(c, list) and not c and len(ends) == 1 and isinstance(ends[0].heap[k[1]], list) and len(ends[0].heap[k[1]]) == 1 and ends[0].pc is TRUE

    def finish_list(self, res, k, end, v, lo, hi, desc, sub):
        x = end.heap[k[1]][0]
        if isinstance(x, Arr):
            r = len(x.dims)
            b = self.subst_mu(self.read(end, x, K[1:r + 1]), sub)
            dims = list(x.dims)
            dt = self.dtype(end, x)
        elif isinstance(x, Term):
            b, dims, dt = self.subst_mu(x, sub), [], self.val_dtype(end, x)
            if x.op == "str" or dt == "f" and x.op == "sel" and x.args[0].op == "arr" and x.args[0].args[1] == "o":
                dt = "o"
        else:
            raise Unsupported("list of objects")
        pos = T.add(lo, K[0]) if not desc else T.sub(T.sub(hi, ONE), K[0])
        n = T.sub(hi, lo)
        n = n if nonneg(n) else T.max_(n, ZERO)
        res.heap[k[1]] = Content([n] + dims, dt, T.subst(b, {v: pos}))

    def final_of(self, LS, key):
        for x in LS:
            if x.key == key:
                return x.final
        return T.top("no final")

    def first_break(self, LS, v, lo, hi, desc, brkc, sub):
        if desc:
            return None
        c = self.subst_mu(brkc, {m: p for m, p in sub.items()})
        if c.top_:
            return None
        return T.firsti(v, lo, hi, c, T.sub(hi, ONE))

    def subst_mu(self, t, sub):
        return T.subst(t, sub) if sub else t

    def subst_eff(self, eff, sub):
        if not sub:
            return eff
        out = []
        for e in eff:
            if e[0] == "call":
                out.append(("call", e[1], tuple((p, T.subst(x, sub)) for p, x in e[2])))
            elif e[0] == "write":
                out.append(("write", e[1], tuple(T.subst(x, sub) if isinstance(x, Term) else x for x in e[2])))
            elif e[0] == "if":
                out.append(("if", T.subst(e[1], sub), self.subst_eff(e[2], sub), self.subst_eff(e[3], sub)))
            elif e[0] == "for":
                out.append(("for", e[1], T.subst(e[2], sub), T.subst(e[3], sub), e[4], self.subst_eff(e[5], sub)))
            else:
                out.append(e)
        return tuple(out)

    def put_back(self, res, LS, st):
        for x in LS:
            k = x.key
            if k[0] == "e":
                res.env[k[1]] = x.final
            elif k[0] == "r":
                res.heap[k[1]] = (res.heap[k[1]][0], x.final)
            elif k[0] == "c":
                res.heap[k[1]] = [x.final]
            elif k[0] == "h":
                c = res.heap[k[1]]
                res.heap[k[1]] = Content(c.dims, c.dtype, x.final, c.name)
            elif k[0] == "a":
                res.env[k[1]] = self.new(res, x.dims, x.dtype, x.final, k[1])

    # ---- closing recurrences
    def solve(self, LS, v, lo, hi, desc):
        """fill final/prefix of every location; prefix is the value at the start of iteration v"""
        mus = {x.mu.args[0]: x for x in LS}
        todo = list(LS)
        progress = True
        while todo and progress:
            progress = False
            for x in list(todo):
                others = [m for m in mus if m in x.next.fv and m != x.mu.args[0]]
                if others:
                    continue
                r = self.close(x, v, lo, hi, desc)
                if r is None:
                    continue
                x.final, pre = r
                x.prefix = pre if x.kind == "s" else T.lam(*self.lam_of(x.dims, pre))
                todo.remove(x)
                del mus[x.mu.args[0]]
                for y in todo:
                    if x.mu.args[0] in y.next.fv:
                        y.next = T.subst(y.next, {x.mu: x.prefix})
                progress = True
        if todo:
            self.make_fold(todo, v, lo, hi, desc)
        return todo

    def lam_of(self, dims, body):
        ks = [T.fresh("i") for _ in dims]
        return ks, dims, T.subst(body, dict(zip(K, ks)))

    def make_fold(self, todo, v, lo, hi, desc, cond=None):
        todo = sorted(todo, key=lambda x: str(x.name))
        names = []
        for i, x in enumerate(todo):
            n = str(x.name)
            while n in names:
                n += "'"
            names.append(n)
        inits, nexts = [], []
        for x in todo:
            if x.kind == "a":
                inits.append(T.lam(*self.lam_of(x.dims, x.init)) if x.init.op != "unbound" else x.init)
                nexts.append(T.lam(*self.lam_of(x.dims, x.next)))
            else:
                inits.append(x.init)
                nexts.append(x.next)
        if cond is not None:
            names.append("#while")
            nexts.append(cond)
            inits.append(TRUE)
            mus = [x.mu for x in todo] + [T.fresh("b", "m")]
        else:
            mus = [x.mu for x in todo]
        if desc:
            u = T.fresh("i")
            nexts = [T.subst(n, {v: T.sub(T.sub(T.add(hi, lo), ONE), u)}) for n in nexts]
            v2 = u
        else:
            v2 = v
        fd = T.fold(v2, lo, hi, names, mus, inits, nexts)
        for n, x in zip(names, todo):
            dt = x.dtype if x.kind == "a" else x.mu.args[1]
            o = T.out(fd, n, dt)
            if x.kind == "a":
                x.final = T.sel(o, *K[: len(x.dims)])
                x.prefix = T.out(T._node("foldprefix", (fd, v)), n, dt)
            else:
                x.final = o
                x.prefix = T.out(T._node("foldprefix", (fd, v)), n, dt)
        return fd

    def close(self, x, v, lo, hi, desc):
        """closed form of one location: (final, prefix(v)) or None"""
        if x.kind == "s":
            own, nxt, init = x.mu, x.next, x.init
        else:
            ks = K[: len(x.dims)]
            own = T.fresh({"i": "i", "i32": "i", "b": "b"}.get(x.dtype, "f"), "own")
            cell = T.sel(x.mu, *ks)
            nxt = self.localise(x, cell)
            nxt = replace_node(nxt, cell, own)
            if x.mu.args[0] in nxt.fv:
                return None
            init = x.init
        u = T.fresh("i", "v")
        l = LB.get(v.args[0])
        if l is not None:
            LB[u.args[0]] = l
        wlo, whi = (lo, v) if not desc else (T.add(v, ONE), hi)

        def rng(f):
            """final over [lo,hi) and prefix over the iterations before v"""
            a = f(v, lo, hi)
            b = f(u, wlo, whi)
            if x.kind == "a":
                a = self.assume_in(a, x.dims)
                b = self.assume_in(b, x.dims)
            return a, b

        r = self.close_(own, nxt, init, v, u, rng, desc)
        return r

    def localise(self, x, cell):
        """next = (gate ? val : cell); under a gate K == e reads of the array at e are reads of the cell"""
        mu = x.mu
        if not any(n.op == "sel" and n.args[0] is mu and n is not cell for n in T.walk(x.next)):
            return x.next
        sp = split_keep(x.next, cell)
        if sp is None:
            return x.next
        cond, val = sp
        at = {}
        for k in K[: len(x.dims)]:
            for c in (cond.args if cond.op == "and" else (cond,)):
                if c.op == "eq0" and k.args[0] in c.fv:
                    e = T.solve_for(k, c.args[0])
                    if e is not None and not any(q.args[0] in e.fv for q in K[: len(x.dims)]) and mu.args[0] not in e.fv:
                        at[k] = e
                        break
        if not at:
            return x.next
        img = T.subst(cell, at)
        keep = T.and_(*[c for c in (cond.args if cond.op == "and" else (cond,)) if mu.args[0] not in c.fv])
        rest = T.and_(*[replace_node(c, img, cell) for c in (cond.args if cond.op == "and" else (cond,)) if mu.args[0] in c.fv])
        return T.ite(keep, T.ite(rest, replace_node(val, img, cell), cell), cell)

    def close_(self, own, N, init, v, u, rng, desc):
        on = own.args[0]
        fit = lambda w, t: T.subst(t, {v: w}) if w is not v else t
        if N is own:
            return rng(lambda w, a, b: init)
        if N.op == "top":
            return rng(lambda w, a, b: N)
        if on not in N.fv:
            if desc:
                return rng(lambda w, a, b: T.ite(T.lt(a, b), T.subst(N, {v: a}), init))
            return rng(lambda w, a, b: T.ite(T.lt(a, b), T.subst(N, {v: T.sub(b, ONE)}), init))
        if own.bool_:
            a_ = T.subst(N, {own: TRUE}) if N.bool_ else None
            if a_ is not None:
                b_ = T.subst(N, {own: FALSE})
                if on not in a_.fv and on not in b_.fv:
                    if a_ is TRUE:
                        return rng(lambda w, a, b: T.or_(init, T.exists(w, a, b, fit(w, b_))))
                    if b_ is FALSE:
                        return rng(lambda w, a, b: T.and_(init, T.forall(w, a, b, fit(w, a_))))
                    wr = T.or_(T.not_(a_), b_)
                    return self.close_last(wr, b_, init, v, rng, desc, fit)
            return None
        if not N.bool_ and N.op not in ("str", "unbound", "inf", "top"):
            p = T.to_poly(N)
            k1 = ((own, 1),)
            if p.get(k1) == 1:
                D = T.from_poly({m: c for m, c in p.items() if m != k1})
                if on not in D.fv:
                    return rng(lambda w, a, b: T.add(init, T.sum_(w, a, b, fit(w, D))) if init.op not in ("unbound",) else T.top("unbound"))
            if len(p) == 1:
                (m, c), = p.items()
                d = dict(m)
                if d.get(own) == 1:
                    D = T.from_poly({tuple((a, e) for a, e in m if a is not own): c})
                    if on not in D.fv:
                        return rng(lambda w, a, b: T.mul(init, T.prod_(w, a, b, fit(w, D))))
        sp = split_keep(N, own)
        if sp is not None:
            cond, val = sp
            if on not in cond.fv and on not in val.fv:
                return self.close_last(cond, val, init, v, rng, desc, fit)
            # each cell touched at most once: the gate pins v
            if on not in cond.fv or True:
                dl = T.find_delta(v, cond)
                if dl is not None and v.args[0] not in dl[0].fv:
                    e, rest = dl
                    F = T.subst(val, {v: e})
                    G = T.subst(rest, {v: e})
                    if v.args[0] not in F.fv:
                        return rng(lambda w, a, b: T.ite(T.and_(T.le(a, e), T.lt(e, b), T.subst(G, {own: init})), T.subst(F, {own: init}), init))
            # min / max accumulation
            mm = minmax_pattern(cond, val, own)
            if mm is not None:
                op, g = mm
                E = val
                inf = T.C(float("inf") if op == "minr" else "-inf") if op == "minr" else T.C(float("-inf"))
                body = E if g is TRUE else T.ite(g, E, inf)
                comb = T.min_ if op == "minr" else T.max_
                if init.op == "inf":
                    return rng(lambda w, a, b: T.ite(T.lt(a, b), T.reduce_(op, w, a, b, fit(w, body)), init))
                return rng(lambda w, a, b: comb2(comb, init, a, b, T.reduce_(op, w, a, b, fit(w, body))))
        if N.op in ("min", "max") and own in N.args:
            rest = [t for t in N.args if t is not own]
            if all(on not in t.fv for t in rest):
                comb = T.min_ if N.op == "min" else T.max_
                E = comb(*rest)
                op = N.op + "r"
                return rng(lambda w, a, b: comb2(comb, init, a, b, T.reduce_(op, w, a, b, fit(w, E))))
        return None

    def close_last(self, cond, val, init, v, rng, desc, fit):
        if not desc:
            return rng(lambda w, a, b: T.last(w, a, b, fit(w, cond), fit(w, val), init))
        # descending: the last executed iteration is the smallest index
        def f(w, a, b):
            t = T.fresh("i", "v")
            m = {v: T.sub(T.sub(T.add(a, b), ONE), t)}
            return T.last(t, a, b, T.subst(cond, m), T.subst(val, m), init)

        return rng(f)

    # ---- while
    def s_While(self, s, st, fr):
        if s.orelse and self.own_break(s):
            return self.block(self.no_else(s), st, fr)
        # try to unroll while the condition is decided
        n = 0
        limit = 40
        done = []
        fr.loops.append({"cont": [], "brk": [], "ret": []})
        rets, brks = [], []
        undecided = None
        flag = not any(isinstance(x, (ast.Compare, ast.Call, ast.BinOp)) for x in ast.walk(s.test))
        try:
            while True:
                c = self.truth(self.expr(s.test, st.copy(), fr), st)
                if isinstance(s.test, ast.NamedExpr):
                    raise Unsupported("walrus")
                if c is FALSE:
                    break
                if c is not TRUE and n >= self.while_gate or n >= limit or (flag and n >= self.while_gate):
                    undecided = c
                    break
                L = fr.loops[-1]
                L["cont"] = []
                if c is not TRUE:
                    b = st.copy()
                    pc = st.pc
                    st.pc = T.and_(pc, c)
                    b.pc = T.and_(pc, T.not_(c))
                    brks.append(b)
                    if st.pc is FALSE:
                        st = None
                        break
                st = self.block(s.body, st, fr)
                st = self.join_states(L["cont"] + ([st] if st is not None else []))
                n += 1
                if st is None:
                    break
            L = fr.loops[-1]
            brks += L["brk"]
            rets = L["ret"]
        finally:
            fr.loops.pop()
        if undecided is not None:
            if n and (brks or rets) and undecided is not TRUE or (n and self.while_gate):
                st.err = st.err
                if self.while_gate:
                    # bounded shapes: beyond the bound nothing is known
                    if undecided is not TRUE:
                        b = st.copy()
                        b.pc = T.and_(st.pc, T.not_(undecided))
                        brks.append(b)
                        st.pc = T.and_(st.pc, undecided)
                    st.eff = st.eff + (("bound",),)
                    for k in list(st.env):
                        if isinstance(st.env[k], Term):
                            st.env[k] = T.top("loop bound")
                    for k, cc in list(st.heap.items()):
                        if isinstance(cc, Content):
                            st.heap[k] = Content(cc.dims, cc.dtype, T.top("loop bound"), cc.name)
                else:
                    raise Unsupported("while with breaks")
            else:
                st = self.sym_while(s, st, fr)
        (fr.loops[-1]["ret"] if fr.loops else fr.returns).extend(rets)
        fin = brks + ([st] if st is not None else [])
        out = self.join_states(fin)
        if out is not None and s.orelse:
            out = self.block(s.orelse, out, fr)
        return out

    def sym_while(self, s, st, fr):
        """while loop: a counting loop is treated like `for`, anything else becomes a fold"""
        cnt = self.counting(s, st, fr)
        if cnt is not None:
            name, lo, hi, body_stmts, desc, final = cnt

            def body(st2, v):
                st2.env[name] = v
                return self.block(body_stmts, st2, fr)

            has_break = any(isinstance(n, (ast.Break, ast.Return)) for b in body_stmts for n in ast.walk(b))
            if not has_break:
                out = self.sym_loop(st, fr, lo, hi, desc, body, [name], s)
                if out is not None:
                    out.env[name] = final
                return out

        test = s.test

        def wcond(st0, mus, locs):
            s2 = st0.copy()
            for k, m in mus.items():
                self.install(s2, k, m, locs[k])
            return self.truth(self.expr(test, s2, fr), s2)

        def body2(st2, v):
            return self.block(s.body, st2, fr)

        return self.sym_loop(st, fr, ZERO, T.C(float("inf")), False, body2, [], s, while_=wcond)

    def counting(self, s, st, fr):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(r, ast.Name) and not (isinstance(l, ast.Name) and self.steps(s, l.id)):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            if type(op) in flip:
                l, r, op = r, l, flip[type(op)]()
        if not isinstance(l, ast.Name):
            return None
        name = l.id
        k = self.steps(s, name)
        if k not in (1, -1):
            return None
        last = s.body[-1]
        # the increment must be the last statement and no `continue` may skip it
        if not self.is_step(last, name):
            return None
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Continue) and not self.in_inner_loop(s.body, n):
                    return None
        for n in ast.walk(r):
            if isinstance(n, ast.Name):
                for b in s.body:
                    for m in ast.walk(b):
                        if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id == n.id:
                            return None
            if isinstance(n, (ast.Subscript, ast.Call)) and not (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "shape") and not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len"):
                return None
        lo = st.env.get(name)
        if not isinstance(lo, Term) or not lo.int_:
            return None
        hi = self.expr(r, st.copy(), fr)
        if isinstance(hi, Arr) or not isinstance(hi, Term) or hi.top_ or not hi.int_:
            return None
        body = s.body[:-1] or [ast.Pass()]
        if k == 1:
            if isinstance(op, ast.LtE):
                hi = T.add(hi, ONE)
            elif not isinstance(op, (ast.Lt, ast.NotEq)):
                return None
            return name, lo, hi, body, False, T.max_(lo, hi) if not nonneg(T.sub(hi, lo)) else hi
        if isinstance(op, ast.GtE):
            low = hi
        elif isinstance(op, ast.Gt):
            low = T.add(hi, ONE)
        else:
            return None
        f = T.min_(lo, T.sub(low, ONE))
        return name, low, T.add(lo, ONE), body, True, f if not nonneg(T.sub(lo, T.sub(low, ONE))) else T.sub(low, ONE)

    @staticmethod
    def in_inner_loop(stmts, node):
        for b in stmts:
            for n in ast.walk(b):
                if isinstance(n, (ast.For, ast.While)) and any(m is node for m in ast.walk(n)):
                    return True
        return False

    @staticmethod
    def is_step(x, name):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
            return True
        return isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name

    def steps(self, s, name):
        """+1 / -1 if the only store to name in the loop is a unit step, else None"""
        st = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name]
        if len(st) != 1:
            return None
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                    if isinstance(n.value, ast.Constant) and n.value.value == 1:
                        return 1 if isinstance(n.op, ast.Add) else -1 if isinstance(n.op, ast.Sub) else None
                if self.is_step(n, name) and isinstance(n, ast.Assign):
                    e = n.value
                    if isinstance(e, ast.BinOp) and isinstance(e.left, ast.Name) and e.left.id == name and isinstance(e.right, ast.Constant) and e.right.value == 1:
                        return 1 if isinstance(e.op, ast.Add) else -1 if isinstance(e.op, ast.Sub) else None
        return None

    def finish_while(self, st0, LS, v, wcond, eff, errt, rets, fr, locs, tnames, base, end):
        for x in LS:
            if x.final is None:
                pass
        st0.err = st0.err
        LS2 = LS + [Loc("s", ("err",), T.fresh("b", "m:#err"), FALSE, errt, name="#err")]
        LS2[-1].next = T.or_(LS2[-1].mu, errt)
        if eff:
            LS2.append(Loc("s", ("eff",), T.fresh("f", "m:#eff"), ZERO, ZERO, name="#eff"))
            LS2[-1].next = T._node("effstep", (LS2[-1].mu, eff_term(eff)))
        self.make_fold(LS2, v, ZERO, T.C(float("inf")), False, cond=wcond)
        res = st0
        self.put_back(res, LS, None)
        res.err = T.or_(res.err, self.final_of(LS2, ("err",)))
        if eff:
            res.eff = res.eff + (("call", "#loop", (("trace", self.final_of(LS2, ("eff",))),)),)
        if rets:
            rc = self.final_of(LS, ("ret",))
            a = res.copy()
            a.pc = T.and_(res.pc, rc)
            rv = [x for x in LS if x.key[0] == "rv"]
            vals = [x.final for x in rv]
            val = Tup(vals) if len(vals) > 1 else (vals[0] if vals else NONE)
            (fr.loops[-1]["ret"] if fr.loops else fr.returns).append((a, val))
            res.pc = T.and_(res.pc, T.not_(rc))
        return res


MUTATORS = {"fill", "sort", "append", "extend", "insert", "pop", "remove", "clear", "update", "resize", "put", "itemset", "reverse", "setdefault", "partition"}


def mutates(n, names):
    """may the node change an object one of the names stands for (or give it another name)?"""
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return isinstance(n, ast.Name) and n.id in names
    if isinstance(n, ast.AugAssign):
        return isinstance(n.target, ast.Name) and n.target.id in names
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute):
            b = n.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in names and n.func.attr in MUTATORS:
                return True
            # library functions change an argument only through .at, out= and the like
            if not (n.func.attr in ("at", "fill_diagonal", "put", "copyto", "place", "putmask", "shuffle") or any(k.arg == "out" for k in n.keywords)):
                return False
        elif isinstance(n.func, ast.Name) and n.func.id in PURE:
            return False
        return any(isinstance(m, ast.Name) and m.id in names for x in list(n.args) + [k.value for k in n.keywords] for m in ast.walk(x))
    if isinstance(n, (ast.Assign, ast.For, ast.Return)):
        v = n.iter if isinstance(n, ast.For) else n.value
        vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) else [v]
        for x in vs:
            while isinstance(x, (ast.Subscript, ast.Attribute)):
                x = x.value
            if isinstance(x, ast.Name) and x.id in names:
                return not (isinstance(n, ast.Return) and not isinstance(n.value, ast.Tuple) and n.value is None)
    return False


PURE = {"sum", "len", "abs", "min", "max", "int", "float", "range", "enumerate", "zip", "list", "tuple", "sorted", "print", "str", "any", "all", "round", "bool", "isinstance", "set", "type"}


def eff_term(eff):
    """effect trace as a term (for uninterpreted loops)"""
    parts = []
    for e in eff:
        if e[0] == "call":
            parts.append(T.call("eff:" + e[1], *[x for p, t in e[2] for x in (T.S(p), t)]))
        elif e[0] == "write":
            parts.append(T.call("eff:write", *[x for x in e[2] if isinstance(x, Term)]))
        elif e[0] == "if":
            parts.append(T.call("eff:if", T.num(e[1]), eff_term(e[2]), eff_term(e[3])))
        elif e[0] == "for":
            parts.append(T.lam([e[1]], [e[3]], eff_term(e[5])))
    return T._node("tup", tuple(parts))


def comb2(comb, init, a, b, r):
    return T.ite(T.lt(a, b), comb(init, r), init)


def split_keep(N, own):
    """N = cond ? val : own"""
    if N is own:
        return FALSE, ZERO
    name = (own.args[0] if own.op == "sym" else own.args[0].args[0])
    if N.op == "ite":
        c, a, b = N.args
        if name in a.fv or name in b.fv:
            ra = split_keep(a, own) if name in a.fv else (TRUE, a)
            rb = split_keep(b, own) if name in b.fv else (TRUE, b)
            if ra is None or rb is None:
                return None
            cond = T.or_(T.and_(c, ra[0]), T.and_(T.not_(c), rb[0]))
            if ra[0] is FALSE:
                return cond, rb[1]
            if rb[0] is FALSE:
                return cond, ra[1]
            return cond, T.ite(c, ra[1], rb[1])
        return TRUE, N
    p = T.to_poly(N)
    if p.get(((own, 1),)) == 1:
        rest = T.from_poly({m: c for m, c in p.items() if m != ((own, 1),)})
        # own + ite(c, d, 0) with d mentioning own
        if rest.op == "ite" and rest.args[2] is ZERO:
            return rest.args[0], T.add(own, rest.args[1])
    return TRUE, N


def minmax_pattern(cond, val, own):
    on = own.args[0]
    if on in val.fv:
        return None
    cs = list(cond.args) if cond.op == "and" else [cond]
    dep = [c for c in cs if on in c.fv]
    ind = [c for c in cs if on not in c.fv]
    if len(dep) != 1:
        return None
    d = dep[0]
    if d in (T.lt(val, own), T.le(val, own)):
        return "minr", T.and_(*ind)
    if d in (T.lt(own, val), T.le(own, val)):
        return "maxr", T.and_(*ind)
    return None


def lb(t):
    from .arrays import lb as f

    return f(t)


ODD = ("odd",)
KNOWN_MODULES = set(sys.stdlib_module_names) | {"numpy", "numba", "scipy", "pandas", "reliabilityassessment"}
LASTING = (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp)
PLAIN_DECORATORS = ("njit", "jit", "staticmethod", "profile", "no_type_check", "deprecated", "wraps")
CAUGHT = ("any", "KeyError", "IndexError", "LookupError", "Exception", "BaseException", "AttributeError", "NameError", "UnboundLocalError")
BARE = {}  # functions without their decorators
GLOBALS = {}


def when(c, k):
    """key of an entry that is there under a condition"""
    return When(T.and_(c, k.cond), k.key) if isinstance(k, When) else When(c, k)


class _Merge:
    """ite-merge of two states"""

    def __init__(self, ip, c, a, b, out):
        self.ip, self.c, self.a, self.b, self.out = ip, c, a, b, out

    def heap(self):
        A, B = self.a.heap, self.b.heap
        out = {}
        later = []
        for k in list(A) + [k for k in B if k not in A]:
            x, y = A.get(k, _MISS), B.get(k, _MISS)
            if x is _MISS:
                x = self.ip.cellinit.get(k, y)
            if y is _MISS:
                y = self.ip.cellinit.get(k, x)
            if x is y:
                out[k] = x
            elif isinstance(x, (list, tuple)):
                out[k] = x
                later.append((k, x, y))
            else:
                out[k] = self.content(x, y)
        self.out.heap = out
        for k, x, y in later:
            out[k] = self.content(x, y)

    def content(self, x, y):
        c = self.c
        if isinstance(x, Content) and isinstance(y, Content):
            if x.body is y.body and x.dims == y.dims:
                return x
            if len(x.dims) != len(y.dims):
                return None
            dims = [d if d is e else T.ite(c, d, e) for d, e in zip(x.dims, y.dims)]
            dt = x.dtype if x.dtype == y.dtype else "f"
            return Content(dims, dt, T.ite(c, x.body, y.body), x.name)
        if isinstance(x, list) and isinstance(y, list):
            if len(x) == len(y):
                return [self.value(p, q) for p, q in zip(x, y)]
            return None
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) == 2 and isinstance(x[0], Term) and isinstance(x[1], Term):
                return (T.ite(c, x[0], y[0]), T.ite(c, x[1], y[1]))
            if len(x) == len(y) and all(isinstance(p, tuple) and p[0] == q[0] for p, q in zip(x, y)):
                return tuple((p[0], self.value(p[1], q[1])) for p, q in zip(x, y))
            if all(isinstance(p, tuple) and len(p) == 2 for p in x + y):  # entries of dictionaries
                xs, ys = dict(x), dict(y)
                out = [(k, self.value(v, ys[k])) if k in ys else (when(c, k), v) for k, v in x]
                return tuple(out + [(when(T.not_(c), k), v) for k, v in y if k not in xs])
        return None

    def value(self, x, y):
        if x is y:
            return x
        if isinstance(x, Term) and isinstance(y, Term):
            return T.ite(self.c, x, y)
        if isinstance(x, Term) and x.op == "unbound":
            return y
        if isinstance(y, Term) and y.op == "unbound":
            return x
        if isinstance(x, Arr) and isinstance(y, Arr):
            if x.same(y):
                return x
            if len(x.dims) == len(y.dims):
                dims = [d if d is e else T.ite(self.c, d, e) for d, e in zip(x.dims, y.dims)]
                sx, sy = self.a if x.oid in self.a.heap else self.out, self.b if y.oid in self.b.heap else self.out
                bx = self.ip.body(sx, x)
                by = self.ip.body(sy, y)
                dx, dy = self.ip.dtype(sx, x), self.ip.dtype(sy, y)
                z = self.ip.new(self.out, dims, dx if dx == dy else "f", T.ite(self.c, bx, by))
                for p, other in ((x.oid, self.b), (y.oid, self.a)):
                    if p in other.heap:  # z may be the same object as p: a later write to one is not seen in the other
                        self.ip.phi.setdefault(z.oid, set()).add(p)
                        self.ip.phi.setdefault(p, set()).add(z.oid)
                return z
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup([self.value(p, q) for p, q in zip(x.items, y.items)])
        if isinstance(x, Ref) and isinstance(y, Ref) and x.oid == y.oid:
            return x
        if isinstance(x, Ref) and isinstance(y, Ref) and x.kind == y.kind == "list":
            p, q = self.out.heap.get(x.oid), self.out.heap.get(y.oid)
            if isinstance(p, list) and isinstance(q, list) and len(p) == len(q):
                return self.ip.mk_list(self.out, [self.value(i, j) for i, j in zip(p, q)])
        if isinstance(x, Ref) and isinstance(y, Ref) and x.kind == y.kind == "rng":
            p, q = self.out.heap.get(x.oid), self.out.heap.get(y.oid)
            if p and q and all(isinstance(t, Term) for t in p + q):
                oid = self.ip.new_oid()
                self.out.heap[oid] = (T.ite(self.c, p[0], q[0]), T.ite(self.c, p[1], q[1]))
                return Ref("rng", oid)
        if isinstance(x, Ref) and isinstance(y, Ref) and x.kind == y.kind == "file":
            return x
        if isinstance(x, Rng) and isinstance(y, Rng) and x.step == y.step:
            return Rng(T.ite(self.c, x.lo, y.lo), T.ite(self.c, x.hi, y.hi), x.step)
        if isinstance(x, Term) and isinstance(y, Arr) and not y.dims:
            return T.ite(self.c, x, self.ip.read(self.out, y, []))
        if isinstance(y, Term) and isinstance(x, Arr) and not x.dims:
            return T.ite(self.c, self.ip.read(self.out, x, []), y)
        if isinstance(x, Arr) and isinstance(y, Ref) or isinstance(x, Ref) and isinstance(y, Arr):
            try:
                return self.value(self.ip.to_array(self.out, x), self.ip.to_array(self.out, y))
            except Unsupported:
                pass
        if isinstance(x, Masked) and isinstance(y, Masked) and x.dims == y.dims:
            return Masked(x.dims, T.ite(self.c, x.cond, y.cond), T.ite(self.c, x.val, y.val), x.dtype)
        if isinstance(x, Func) and isinstance(y, Func) and x.node is y.node:
            return x
        if isinstance(x, Builtin) and isinstance(y, Builtin) and x.name == y.name:
            return x
        return T.top("merge of different values")

    def env(self):
        A, B = self.a.env, self.b.env
        out = {}
        for k in sorted(set(A) | set(B)):
            x, y = A.get(k, T.UNBOUND), B.get(k, T.UNBOUND)
            if k[0] == "?":
                continue
            out[k] = self.value(x, y)
            if x is y:
                if "?" + k not in A and "?" + k not in B:
                    continue
            ux = T.TRUE if x is T.UNBOUND else A.get("?" + k, T.FALSE)
            uy = T.TRUE if y is T.UNBOUND else B.get("?" + k, T.FALSE)
            if not isinstance(out[k], Term) and (ux is not FALSE or uy is not FALSE):
                u = T.ite(self.c, ux, uy)
                if u is not FALSE:
                    out["?" + k] = u  # a variable that is not a number: when it has not been assigned
        self.out.env = out

    def finish(self):
        a, b = self.a, self.b
        i = 0
        while i < len(a.eff) and i < len(b.eff) and a.eff[i] is b.eff[i]:
            i += 1
        ea, eb = a.eff[i:], b.eff[i:]
        self.out.eff = a.eff[:i] + ((("if", self.c, ea, eb),) if ea or eb else ())
        self.out.err = a.err if a.err is b.err else T.ite(self.c, a.err, b.err)
        self.out.pc = TRUE


_MISS = object()
