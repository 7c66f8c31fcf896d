"""Query: no result of a run depends on a source of randomness or on the time.

Over the call graph from an entry function: every call of a source (a generator other than the program's own, the clock,
identities of objects) is inspected; its value may only reach printed text (a forward, flow-insensitive slice within the
function that calls it)."""
import ast
import os

SOURCES = (
    "random.", "numpy.random.", "secrets.", "uuid.", "os.urandom", "os.getpid", "os.times", "time.time", "time.perf_counter",
    "time.monotonic", "time.process_time", "time.clock", "time.localtime", "time.gmtime", "time.ctime", "time.strftime", "time.asctime",
    "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "builtins.id", "builtins.hash")
PRINTERS = ("print", "logging.", "warnings.warn", "sys.stdout.write", "sys.stderr.write")
LOGGING = ("debug", "info", "warning", "error", "critical", "exception", "log")
SEEDING = ("random.seed", "numpy.random.seed")


class Module:
    def __init__(self, path, name, tree):
        self.path, self.name, self.tree = path, name, tree
        self.funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.names = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module:
                base = n.module
                if n.level:
                    base = ".".join(name.split(".")[: -n.level] + [n.module])
                for a in n.names:
                    self.names[a.asname or a.name] = base + "." + a.name

        for s in tree.body:  # a generator kept in a global name
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and is_source(self, s.value):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = self.dotted(s.value.func)

    def dotted(self, e):
        """full dotted name of an expression, through the imports"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        if e.id in self.names:
            head = self.names[e.id]
        elif e.id in self.funcs:
            head = self.name + "." + e.id
        else:
            head = e.id if parts or e.id not in ("id", "hash") else "builtins." + e.id
        return ".".join([head] + parts[::-1])


def load(root, package):
    out = {}
    for dp, dn, fn in sorted(os.walk(os.path.join(root, package))):
        dn[:] = [d for d in dn if d not in ("tests", "integration_test", "__pycache__")]
        for f in sorted(fn):
            if f.endswith(".py") and not f.startswith("test_"):
                p = os.path.join(dp, f)
                name = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                name = name[: -len(".__init__")] if name.endswith(".__init__") else name
                with open(p, encoding="utf-8-sig") as h:
                    out[name] = Module(p, name, ast.parse(h.read()))
    return out


def find(mods, full):
    """(module, function) of a dotted name; re-exports are followed"""
    for _ in range(5):
        mod, _, fn = full.rpartition(".")
        m = mods.get(mod)
        if m is None:
            return None
        if fn in m.funcs:
            return m, m.funcs[fn]
        if fn not in m.names:
            return None
        full = m.names[fn]
    return None


def is_source(m, call):
    n = m.dotted(call.func)
    return n if n and any(n == s or s.endswith(".") and n.startswith(s) for s in SOURCES) and n not in SEEDING else None


def is_printer(m, call):
    n = m.dotted(call.func)
    if isinstance(call.func, ast.Attribute) and call.func.attr in LOGGING and not (n or "").startswith(("numpy.", "math.")):
        return True
    return n is not None and any(n == s or s.endswith(".") and n.startswith(s) for s in PRINTERS)


def leaks(m, fn):
    """(source, line of the call, line where its value gets into the results) of a function"""
    out = []
    calls = [(c, is_source(m, c)) for c in ast.walk(fn) if isinstance(c, ast.Call) and is_source(m, c)]
    for call, name in calls:
        a = fn.args
        pairs = list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults))
        tainted, seen = {p.arg for p, d in pairs if d is not None and any(n is call for n in ast.walk(d))}, -1

        def dirty(e):
            return any(n is call or isinstance(n, ast.Name) and n.id in tainted for n in ast.walk(e)) if e is not None else False

        def outside_prints(e):
            """does the value reach more than printed text in this expression?"""
            if isinstance(e, ast.Call) and is_printer(m, e):
                return False
            if isinstance(e, ast.Call) and e is not call:
                f = m.dotted(e.func)
                hit = any(dirty(x) for x in list(e.args) + [k.value for k in e.keywords])
                pure = f in ("round", "str", "int", "float", "repr", "format", "abs", "divmod", "max", "min") or isinstance(e.func, ast.Attribute) and (
                    isinstance(e.func.value, ast.Constant) or dirty(e.func.value))
                if hit and not pure:
                    return True
            return any(outside_prints(x) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr))

        where = None
        while len(tainted) != seen and where is None:
            seen = len(tainted)
            for s in ast.walk(fn):
                if not isinstance(s, ast.stmt) or isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                    continue
                heads = [x for x in ast.iter_child_nodes(s) if isinstance(x, ast.expr)]
                if not any(dirty(x) for x in heads):
                    if not isinstance(s, ast.With) or not any(dirty(i.context_expr) for i in s.items):
                        continue
                if any(outside_prints(x) for x in heads):
                    where = s
                elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    if not dirty(s.value):
                        if any(dirty(t) for t in heads if not isinstance(t, ast.Name)):
                            where = s
                        continue
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                            if isinstance(x, ast.Name):
                                tainted.add(x.id)
                            else:
                                where = s
                elif isinstance(s, ast.Expr):
                    c = s.value
                    changes = c is call or isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and dirty(c.func.value)
                    if changes and (c.args or c.keywords):
                        where = s  # it changes its argument
                elif isinstance(s, (ast.If, ast.While)):
                    if not all(isinstance(b, (ast.Expr, ast.Pass)) for b in s.body + s.orelse):
                        where = s
                elif isinstance(s, ast.For):
                    where = s
                else:
                    where = s  # returned, raised, asserted, ..
                if where is not None:
                    break
        if where is not None:
            out.append((name, call.lineno, where.lineno))
    return out


def other_randomness(entry, package="reliabilityassessment"):
    def fn(root):
        mods = load(root, package)
        start = find(mods, entry)
        bad, sites, funcs = [], 0, []
        if start is None:
            return bad, 0, funcs
        todo, path = [start], {start[1]: ()}
        while todo:
            m, f = todo.pop(0)
            here = path[f] + (f.name,)
            funcs.append(m.name + "." + f.name)
            sites += sum(isinstance(c, ast.Call) for c in ast.walk(f))
            for name, a, b in leaks(m, f):
                bad.append(("%s in %s" % (name, f.name), "the value of %s reaches the results; reached by %s" % (name, " -> ".join(here)),
                            os.path.relpath(m.path, root), sorted({a, b})))
            for c in ast.walk(f):
                if isinstance(c, (ast.Name, ast.Attribute)):
                    n = m.dotted(c)
                    g = find(mods, n) if n else None
                    if g is not None and g[1] not in path:
                        path[g[1]] = here
                        todo.append(g)
        return bad, sites, funcs

    return fn
