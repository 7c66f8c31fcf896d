"""Deciding an obligation: summarise the code and its reference definition, compare every observable."""
import ast
import copy
import os
import sys
import time

from . import terms as T
from .domain import Dom, dim_term, make_param
from .evalt import H, UNB, Skip, Unknown, Uf, Valuation, same
from .interp import Interp, Loader
from .arrays import Unsupported
from .values import Arr, Content, Func, K, Masked, NONE, Ref, State, Tup
from .terms import Term

sys.setrecursionlimit(40000)


class Obl:
    """one obligation: `code` (module:function of the analysed tree) refines `spec` (module:function
    of the reference definitions) on the domain `dom`, observed on results, parameters, effects"""

    def __init__(self, name, code, spec, dom, sizes=None, opaque=None, uf=None, skip=(), skip_ret=(), observe=None,
                 effects=True, errors=True, while_gate=0, labels=(), known=(), facts=None, samples=None, prelude=None,
                 setup=None, assume=None, spec_opaque=None, known_if=None, cases=None, max_depth=12, unroll=8, min_nonskip=1, env_obs=None, keep=None, part=None, window=None, tables=None, lines=None, dense=False, own=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.dom = dict(dom)


class ALL_BUT:
    """every name but these"""

    def __init__(self, names):
        self.names = frozenset(names)

    def __contains__(self, n):
        return n not in self.names


UNDEFINED = ("unbound", "division by zero", "sqrt of negative")  # the code has no value where the reference has one


class Result:
    def __init__(self, obl, label, status, detail="", witness=None, lines=()):
        self.obl, self.label, self.status, self.detail, self.witness, self.lines = obl, label, status, detail, witness, lines


def find_func(loader, ref):
    mod, fn = ref.split(":")
    m = loader.get(mod)
    if m is None:
        return None
    if fn not in m.funcs:
        return None
    return Func(m.funcs[fn], m, None, fn)


def defined(root, name):
    """is there a function of this name in the analysed tree?"""
    import glob

    for f in glob.glob(os.path.join(root, "**", "*.py"), recursive=True):
        try:
            tree = ast.parse(open(f, newline=None, errors="replace").read())
        except SyntaxError:
            continue
        if any(isinstance(n, ast.FunctionDef) and n.name == name for n in ast.walk(tree)):
            return True
    return False


class Side:
    """summary of one side"""

    def __init__(self, obl, loader, ref, names=None, is_spec=False, canon=None, clear=(), earlier=None):
        self.obl = obl
        self.func = find_func(loader, ref)
        if self.func is None:
            raise LookupError(ref)
        op = dict(obl.opaque or {})
        if is_spec and obl.spec_opaque:
            op.update(obl.spec_opaque)
        for n in clear:
            op.pop(n, None)
        self.ip = Interp(loader, op, while_gate=obl.while_gate, max_depth=obl.max_depth, unroll=obl.unroll)
        self.ip.canon = canon or {}
        self.ip.dense = obl.dense
        self.ip.errors_seen = is_spec or obl.errors
        self.ip.tables, self.ip.linesof = obl.tables or {}, obl.lines or {}
        self.st = State()
        a = self.func.node.args
        self.names = [x.arg for x in a.posonlyargs + a.args]
        order = self.names
        if names is not None and set(names) != set(self.names):
            if len(names) < len(self.names) - len(a.defaults) or len(names) > len(self.names):
                raise LookupError("%s: parameters %s, expected %s" % (ref, self.names, names))
            order = names
        self.params = {}
        args = []
        for mine, n in zip(self.names, order):
            d = obl.dom.get(n)
            if d is None:
                # defaulted parameter
                break
            if callable(d.fn) and d.kind == "const" and d.const == "build":
                v = d.fn(self.ip, self.st)
            else:
                v = make_param(self.ip, self.st, n, d)
            self.params[n] = v
            args.append(v)
        kwargs = {}
        if order is self.names and len(args) < len(self.names):
            for n in self.names[len(args):]:
                if n in obl.dom:
                    v = make_param(self.ip, self.st, n, obl.dom[n])
                    self.params[n] = v
                    kwargs[n] = v
        if earlier is not None:  # a call with other arguments comes first
            self.ip.cells, self.ip.cellinit = dict(earlier.cells), dict(earlier.cellinit)
            self.ip._oid = max(self.ip._oid, earlier._oid)
            self.ip.keep_cells(self.st)
            other = [self.earlier(n, v) for n, v in zip(order, args)]
            self.ip.call_func(self.func, other, {n: self.earlier(n, v) for n, v in kwargs.items()}, self.st)
            self.st.eff, self.st.err = (), T.FALSE
            self.ip.called = set()
        self.init_heap = dict(self.st.heap)
        self.ret = self.ip.call_func(self.func, args, kwargs, self.st)
        self.env = getattr(self.ip, "last_env", {})

    def earlier(self, n, v):
        d = self.obl.dom[n]
        if d.kind == "const" and (callable(d.fn) or d.const == "build"):
            return v
        return make_param(self.ip, self.st, "earlier:" + n, d)

    def content(self, v):
        return self.st.heap.get(v.oid)


def atoms(label, cs, cv, ss, sv, out):
    """pair the parts of two values: (label, code term, spec term, dims or None)"""
    if isinstance(sv, Term) and isinstance(cv, Term):
        out.append((label, cv, sv, ()))
        return
    if isinstance(sv, Arr) and isinstance(cv, Arr):
        if len(sv.dims) != len(cv.dims):
            out.append((label + ".ndim", T.C(len(cv.dims)), T.C(len(sv.dims)), ()))
            return
        for i, (x, y) in enumerate(zip(cv.dims, sv.dims)):
            if x is not y:
                out.append(("%s.shape[%d]" % (label, i), x, y, ()))
        out.append((label, cs.ip.body(cs.st, cv), ss.ip.body(ss.st, sv), sv.dims))
        return
    if isinstance(sv, Arr) and not sv.dims and isinstance(cv, Term):
        atoms(label, cs, cv, ss, ss.ip.read(ss.st, sv, []), out)
        return
    if isinstance(cv, Arr) and not cv.dims and isinstance(sv, Term):
        atoms(label, cs, cs.ip.read(cs.st, cv, []), ss, sv, out)
        return
    ci = items_of(cs, cv)
    si = items_of(ss, sv)
    if ci is not None and si is not None:
        if len(ci) != len(si):
            out.append((label + ".len", T.C(len(ci)), T.C(len(si)), ()))
            return
        for i, (x, y) in enumerate(zip(ci, si)):
            atoms("%s[%d]" % (label, i), cs, x, ss, y, out)
        return
    if isinstance(sv, Ref) and sv.kind == "dict":
        sc = ss.st.heap[sv.oid]
        if isinstance(cv, Ref) and cv.kind == "dict" and isinstance(cs.st.heap[cv.oid], tuple):
            cd = {str(k): x for k, x in cs.st.heap[cv.oid]}
            for k, y in sc:
                if str(k) not in cd:
                    out.append(("%s[%s]" % (label, k), T.S("<missing>"), T.S("<present>"), ()))
                else:
                    atoms("%s[%s]" % (label, k), cs, cd[str(k)], ss, y, out)
            return
        out.append((label, T.top("dictionary not tracked"), T.ZERO, ()))
        return
    try:
        ca, sa = cs.ip.to_array(cs.st, cv), ss.ip.to_array(ss.st, sv)
        if isinstance(ca, Arr) and isinstance(sa, Arr):
            atoms(label, cs, ca, ss, sa, out)
            return
    except Unsupported:
        pass
    except AttributeError:
        pass
    if isinstance(cv, Term) and cv.top_:
        out.append((label, cv, T.ZERO, ()))
        return
    out.append((label, cs.ip.snapshot(cs.st, cv), ss.ip.snapshot(ss.st, sv), ()))


def items_of(side, v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref) and v.kind == "list":
        return side.ip.seq_items(side.st, v)
    return None


def store_lines(side, label):
    """source lines that produce an observable: stores to the parameter, or the returns"""
    fn = side.func.node
    name = label.split("[")[0].split(".")[0]
    lines = []
    for n in ast.walk(fn):
        if label.startswith("return") and isinstance(n, ast.Return):
            lines.append(n.lineno)
        tg = []
        if isinstance(n, ast.Assign):
            tg = n.targets
        elif isinstance(n, ast.AugAssign):
            tg = [n.target]
        for t in tg:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and x.id == name:
                    lines.append(n.lineno)
    if not lines:
        for n in ast.walk(fn):
            if isinstance(n, ast.Call):
                for x in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(x, ast.Name) and x.id == name:
                        lines.append(n.lineno)
    return sorted(set(lines)) or [fn.lineno]


def kept(eff, keep):
    """only the effects of interest: names of calls, or write"""
    out = []
    for e in eff:
        if e[0] == "if":
            a, b = kept(e[2], keep), kept(e[3], keep)
            if a or b:
                out.append(("if", e[1], a, b))
        elif e[0] == "for":
            a = kept(e[5], keep)
            if a:
                out.append(e[:5] + (a,) + e[6:])
        elif e[0] == "call":
            if e[1] in keep:
                out.append(e)
        elif e[0] in keep or e[0] not in ("write", "track"):
            out.append(e)
    return tuple(out)


def eff_fold(eff):
    """does an effect depend on a loop without closed form?"""
    for e in eff:
        for x in e[1:]:
            if isinstance(x, Term) and x.fold_:
                return True
            if isinstance(x, tuple) and x and isinstance(x[0], tuple) and eff_fold(x if isinstance(x[0][0], str) and x[0][0] in
                                                                                  ("if", "for", "call", "write", "track") else [("_",) + y for y in x]):
                return True
            if isinstance(x, tuple) and any(isinstance(y, Term) and y.fold_ for y in x):
                return True
    return False


class Bound(Unknown):
    """the trace is cut here: the loop goes on beyond the bound of the exploration"""


def flat_eff(val, eff, env, labels, out):
    for e in eff:
        if e[0] == "if":
            flat_eff(val, e[2] if val.truth(e[1], env) else e[3], env, labels, out)
        elif e[0] == "for":
            lo, hi = int(val.n(e[2], env)), int(val.n(e[3], env))
            r = range(hi - 1, lo - 1, -1) if e[4] else range(lo, hi)
            for i in r:
                ev = dict(env)
                ev[e[1].args[0]] = i
                flat_eff(val, e[5], ev, labels, out)
        elif e[0] == "call":
            out.append(("call", e[1]) + tuple((p, val.value(val.ev(t, env))) for p, t in e[2]))
        elif e[0] == "write":
            for t in e[2]:
                if isinstance(t, Term):
                    tokens(val.ev(t, env), labels, out)
                else:
                    tokens(t, labels, out)
        elif e[0] == "bound":
            raise Bound("loop bound")
        elif e[0] == "track":
            pass
        else:
            raise Unknown("effect " + str(e[0]))


def tokens(v, labels, out):
    from fractions import Fraction

    if isinstance(v, tuple):
        for x in v[1:] if v and v[0] == "fmt" else v:
            tokens(x, labels, out)
    elif isinstance(v, str):
        for w in v.split():
            if w in labels:
                out.append(w)
    elif isinstance(v, (bool, int, float, Fraction)):
        out.append(v)
    elif isinstance(v, Uf):
        out.append(v.key)


class Decider:
    def __init__(self, obl, root, specs, samples=80, seed=1):
        self.obl, self.root, self.specs = obl, root, specs
        self.samples, self.seed = samples, seed
        self.results = []
        self.stats = dict(obligations=0, identical=0, fingerprint=0, unknown=0, valuations=0)
        self.clear = ()

    def add(self, label, status, detail="", witness=None):
        lines = ()
        if status == "DIFF":
            lines = store_lines(self.code, label)
        self.results.append(Result(self.obl, label, status, detail, witness, lines))

    def run(self):
        """decide; a callee that only one side calls may have been inlined there (or absorbed another
        function): then both sides are summarised again with its body in place of the call"""
        self.decide()
        if hasattr(self, "code") and not self.history:
            self.again()
        if not any(r.status == "DIFF" for r in self.results) and not (hasattr(self, "code") and self.code.ip.resigned):
            return self
        only = (self.spec.ip.called ^ self.code.ip.called) | self.code.ip.resigned
        if not only:
            return self
        gone = [n for n in sorted(only & self.spec.ip.called) if not defined(self.root, n)]
        if gone:
            for r in self.results:
                if r.status == "DIFF":
                    r.status, r.detail = "UNKNOWN", "%s no longer exists: %s" % (gone, r.detail)
            return self
        d = Decider(self.obl, self.root, self.specs, self.samples, self.seed)
        d.clear = tuple(sorted(only))
        try:
            d.decide()
        except Exception:  # the callee has no full reference definition
            return self
        got = {r.label: r for r in d.results}
        for r in self.results:
            g = got.get(r.label)
            if r.status == "DIFF" and g is not None and g.status in ("SAME", "EQUAL"):
                r.status, r.detail = "EQUAL", "with %s inlined" % (d.clear,)
            if self.code.ip.resigned and g is not None and r.status in ("DIFF", "UNKNOWN"):
                r.status, r.detail, r.witness, r.lines = g.status, g.detail, g.witness, g.lines
        return self

    history = None

    def again(self):
        """something outlives a call: the results are those of the reference after an earlier call, too"""
        if not self.code.ip.outlives(self.code.st):
            return
        o = copy.copy(self.obl)
        o.dom = dict(o.dom)
        for n, d in self.obl.dom.items():
            o.dom["earlier:" + n] = d
        d = Decider(o, self.root, self.specs, self.samples, self.seed)
        d.clear = self.clear
        d.history = self.code.ip
        try:
            d.decide()
        except Exception as e:
            d.results = [Result(o, r.label, "UNKNOWN", "%s: %s" % (type(e).__name__, e)) for r in self.results]
        for g in d.results:
            if g.status not in ("DIFF", "UNKNOWN"):
                continue
            mine = [r for r in self.results if r.label == g.label]
            for r in mine:
                if r.status in ("SAME", "EQUAL"):
                    r.status, r.detail, r.witness, r.lines = g.status, "after an earlier call: %s" % g.detail, g.witness, g.lines
            if not mine and g.status == "UNKNOWN":
                self.results.append(g)
        self.stats["valuations"] += d.stats["valuations"]
        self.stats["unknown"] = sum(r.status == "UNKNOWN" for r in self.results)

    def decide(self):
        """symbolic sizes first; what stays undecided is decided again for fixed small sizes"""
        from . import domain

        domain.FIXED.clear()
        self.fixed = None
        self.run_once()
        if self.obl.dense:  # decided for fixed sizes only
            for r in self.results:
                if r.label != "anchor" and r.status != "UNKNOWN":
                    r.status, r.detail, r.witness = "UNKNOWN", "sizes not fixed", None
                    self.stats["unknown"] += 1
        unk = [r for r in self.results if r.status == "UNKNOWN" and r.label != "anchor"]
        if unk and self.cases():
            sub = []
            for case in self.cases():
                d = Decider(self.obl, self.root, self.specs, self.samples, self.seed)
                d.fixed = case
                d.clear, d.history = self.clear, self.history
                domain.FIXED.clear()
                domain.FIXED.update(case)
                try:
                    d.run_once()
                finally:
                    domain.FIXED.clear()
                sub.append(d)
            got = {}
            for d in sub:
                self.stats["valuations"] += d.stats["valuations"]
                for r in d.results:
                    got.setdefault(r.label, []).append(r)
            self.bounded = [d.fixed for d in sub]
            keep = []
            for r in self.results:
                if r.status != "UNKNOWN" or r.label == "anchor":
                    keep.append(r)
                    continue
                rs = got.get(r.label, []) if r.label != "summary" else [y for v in got.values() for y in v]
                diff = [x for x in rs if x.status == "DIFF"]
                if diff:
                    if r.label == "summary":
                        keep.extend(diff)
                    else:
                        keep.append(diff[0])
                elif rs and all(x.status in ("SAME", "EQUAL") for x in rs) and len(rs) >= len(sub):
                    self.stats["bounded"] = self.stats.get("bounded", 0) + 1
                    self.stats["unknown"] -= 1
                    keep.append(Result(self.obl, r.label, "EQUAL", "sizes %s" % self.bounded))
                else:
                    r.detail += " | fixed sizes: " + "; ".join(sorted(set(x.detail for x in rs if x.status == "UNKNOWN")))[:300]
                    keep.append(r)
            # a difference elsewhere found only with fixed sizes
            self.results = keep
        return self

    def cases(self):
        from .domain import SIZES

        if self.obl.cases is not None:
            return self.obl.cases
        names = set()
        for dd in self.obl.dom.values():
            for x in dd.dims + ((dd.const,) if dd.kind == "const" and dd.const != "build" else ()):
                for nd in ast.walk(ast.parse(x, mode="eval")):
                    if isinstance(nd, ast.Name):
                        names.add(nd.id)
        sizes = dict(SIZES)
        sizes.update(self.obl.sizes or {})
        out = []
        for k in range(3):
            c = {}
            for i, n in enumerate(sorted(names)):
                r = sizes.get(n, (1, 3))
                if isinstance(r, list):
                    c[n] = r[k % len(r)]
                    continue
                lo, hi = r
                hi = min(hi, 4)
                c[n] = (lo + (k + i) % (hi - lo + 1)) if hi >= lo else lo
            if c not in out:
                out.append(c)
        return out if names else []

    def run_once(self):
        o = self.obl
        loader = Loader(self.root)
        sl = Loader(self.root)
        for name, src in self.specs.items():
            sl.add_source(name, src)
        try:
            self.spec = Side(o, sl, o.spec, is_spec=True, clear=self.clear)
        except Unsupported as e:
            raise RuntimeError("reference definition %s not representable: %s" % (o.spec, e))
        try:
            self.code = Side(o, loader, o.code, self.spec.names, canon=self.spec.ip.sigs, clear=self.clear, earlier=self.history)
        except (Unsupported, RecursionError, AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError) as e:
            self.add("summary", "UNKNOWN", "%s: %s" % (type(e).__name__, e))
            return self
        except LookupError as e:
            self.add("anchor", "UNKNOWN", str(e))
            return self
        self.compare()
        return self

    def compare(self):
        o, c, s = self.obl, self.code, self.spec
        if o.keep is not None:
            c.st.eff, s.st.eff = kept(c.st.eff, o.keep), kept(s.st.eff, o.keep)
        pairs = []
        if o.observe is None or "return" in o.observe or any(x.startswith("return") for x in o.observe):
            ci, si = items_of(c, c.ret), items_of(s, s.ret)
            if ci is not None and si is not None and o.skip_ret:
                if len(ci) != len(si):
                    pairs.append(("return.len", T.C(len(ci)), T.C(len(si)), ()))
                else:
                    for i, (x, y) in enumerate(zip(ci, si)):
                        if i not in o.skip_ret:
                            atoms("return[%d]" % i, c, x, s, y, pairs)
            else:
                atoms("return", c, c.ret, s, s.ret, pairs)
        for n, v in s.params.items():
            if n in o.skip or (o.observe is not None and n not in o.observe):
                continue
            if isinstance(v, Arr):
                cv = c.params.get(n)
                if cv is None:
                    continue
                cc, sc = c.content(cv), s.content(v)
                if not isinstance(cc, Content):
                    pairs.append((n, T.top("content lost"), T.ZERO, ()))
                    continue
                pairs.append((n, cc.body, sc.body, sc.dims))
            elif isinstance(v, Ref):
                atoms(n, c, c.params[n], s, v, pairs)
        for n in o.env_obs or ():
            atoms(n, c, c.env.get(n, T.UNBOUND), s, s.env.get(n, T.UNBOUND), pairs)
        if o.own:  # element i may depend on element i of this array only: the others are replaced by unrelated values
            v, k = T.fresh("i"), K[0]
            d = o.dom[o.own]
            mine, other = (T.sel(T.arr(n, d.kind), v) for n in (o.own, "other:" + o.own))
            part = T.lam([v], [d_ for d_ in c.init_heap[c.params[o.own].oid].dims], T.ite(T.eq(v, k), mine, other))
            pairs = [(lab, x, T.subst(x, {T.arr(o.own, d.kind): part}), dims) for lab, x, y, dims in pairs if dims]
        self.pairs = pairs
        todo = []
        self.stats["obligations"] = len(pairs) + (1 if o.errors else 0) + (1 if o.effects else 0)
        for lab, x, y, dims in pairs:
            if dims:
                x, y = c.ip.assume_in(x, dims), c.ip.assume_in(y, dims)
            if x is y:
                self.stats["identical"] += 1
                self.add(lab, "SAME")
            else:
                todo.append([lab, x, y, dims, None, 0])
        err_same = c.st.err is s.st.err or c.st.err is T.FALSE
        if o.errors and err_same:
            self.stats["identical"] += 1
            self.add("errors", "SAME")
        eff_same = c.st.eff == s.st.eff
        if o.effects and eff_same:
            self.stats["identical"] += 1
            self.add("effects", "SAME")
        need_eff = o.effects and not eff_same
        need_err = o.errors and not err_same
        if not todo and not need_eff and not need_err:
            return
        self.fingerprint(todo, need_err, need_eff)

    def valuation(self, k):
        o = self.obl
        sizes = dict(__import__("static.vg.domain", fromlist=["SIZES"]).SIZES) if False else None
        from .domain import SIZES

        sizes = dict(SIZES)
        sizes.update(o.sizes or {})
        uf = {}
        for key, d in (o.uf or {}).items():
            uf[key] = Dom(key, d) if isinstance(d, str) else d
        return Valuation(H(self.seed, k), o.dom, sizes, uf, self.fixed)

    def constants(self, todo):
        """numbers that occur in only one of two compared expressions: inputs near them are drawn more often"""
        from fractions import Fraction

        got = []

        def of(t):
            out = set()
            for x in T.walk(t):
                if x.op == "c":
                    out.add(x.args[0])
                elif x.op == "poly":
                    c0 = 0
                    for m, c in x.args:
                        if not m:
                            c0 = c
                            out.add(c)
                    for m, c in x.args:
                        if m and c0:
                            try:
                                out.add(Fraction(c0) / Fraction(c))
                            except (TypeError, ValueError, ZeroDivisionError, OverflowError):
                                pass
            return out

        for lab, x, y, dims, _, _ in todo:
            a, b = of(x), of(y)
            for c in sorted(a ^ b, key=str):
                if isinstance(c, bool) or not isinstance(c, (int, float, Fraction)) or c != c or abs(c) == float("inf"):
                    continue
                c = Fraction(c).limit_denominator(10**9)
                for v in (c, -c):
                    if abs(v) > 1 and v > 0 or 0 < v < 1:
                        got.append(v)
        out = []
        for v in got:
            if v not in out:
                out.append(v)
        return tuple(out[:24])

    def fingerprint(self, todo, need_err, need_eff):
        o, c, s = self.obl, self.code, self.spec
        n = o.samples or self.samples
        if o.samples:
            n = max(o.samples, min(self.samples, o.samples * 4))
        if o.dense and not self.fixed:
            n = 1
        status = {t[0]: [0, 0, None] for t in todo}  # agreed, unknown, diff
        errst = [0, 0, None]
        effst = [0, 0, None]
        live = list(todo)
        skipped = 0
        pool = self.pool = self.constants(todo)
        self.plain = n
        t0 = time.time()
        for k in range(n + (n + 3) // 4 + 10 if pool else n):
            # a difference is a difference: no need to look for further ones for long
            found = effst[2] is not None and need_eff or errst[2] is not None or any(
                status[t[0]][2] is not None and not (t[1].fold_ or t[2].fold_) for t in todo)
            if found and (time.time() - t0 > 30 or not live and (errst[2] or not need_err) and (effst[2] or not need_eff)):
                break
            if time.time() - t0 > 240 and k >= 12:
                break
            val = self.valuation(k)
            if k >= n:
                val.pool = pool
            try:
                if o.assume is not None and not o.assume(val):
                    skipped += 1
                    continue
                if val.truth(s.st.err, {}):
                    skipped += 1
                    continue
            except Skip:
                skipped += 1
                continue
            except Unknown as e:
                raise RuntimeError("reference error condition of %s unknown: %s" % (o.spec, e))
            self.stats["valuations"] += 1
            if need_err and errst[2] is None:
                try:
                    if val.truth(c.st.err, {}):
                        errst[2] = (k, "the code fails where the reference is defined")
                    else:
                        errst[0] += 1
                except Unknown as e:
                    errst[1] += 1
                except Skip:
                    pass
            for t in list(live):
                lab, x, y, dims, _, _ = t
                r = self.cmp_at(val, x, y, dims, (o.window or {}).get(lab))
                if r is None:
                    status[lab][0] += 1
                elif r[0] == "unk":
                    status[lab][1] += 1
                    status[lab].append(r[1]) if len(status[lab]) < 4 else None
                elif r[0] == "diff":
                    status[lab][2] = (k,) + r[1:]
                    live.remove(t)
            if need_eff and effst[2] is None:
                try:
                    a, b = [], []
                    stop = None
                    try:
                        flat_eff(val, s.st.eff, {}, o.labels, b)
                    except Unknown as e:
                        stop = e
                    try:
                        flat_eff(val, c.st.eff, {}, o.labels, a)
                    except Skip as e:
                        if str(e).startswith(UNDEFINED):
                            a = ["<undefined: %s>" % e]
                        else:
                            raise
                    except Unknown as e:
                        stop = e
                    if isinstance(stop, Bound):  # agreement up to the bound of the loop
                        a, b = a[:min(len(a), len(b))], b[:min(len(a), len(b))]
                    elif stop is not None:  # what comes before the undecided one can be compared all the same
                        a, b = a[:min(len(a), len(b))], b[:min(len(a), len(b))]
                        if o.part is not None or all(same(x, y) for x, y in zip(a, b)):
                            raise stop
                    if o.part is not None:
                        a, b = o.part(val, a), o.part(val, b)
                    for i in range(max(len(a), len(b))):
                        x = a[i] if i < len(a) else "<nothing>"
                        y = b[i] if i < len(b) else "<nothing>"
                        if not same(x, y):
                            if isinstance(x, tuple) and isinstance(y, tuple) and x[:2] == y[:2] and len(x) == len(y):
                                i, x, y = next((("%d, call of %s" % (i, x[1]),) + pq for pq in zip(x[2:], y[2:]) if not same(*pq)), (i, x, y))
                            effst[2] = (k, "effect %s: code %s, reference %s" % (i, short(x), short(y)))
                            break
                    else:
                        effst[0] += 1
                except Unknown as e:
                    effst[1] += 1
                    effst.append(str(e)) if len(effst) < 4 else None
                except Skip:
                    pass
        self.skipped = skipped
        for lab, x, y, dims, _, _ in todo:
            st = status[lab]
            if st[2] is not None:
                if x.fold_ or y.fold_:
                    # uninterpreted loops: a difference may be one of representation; fixed sizes decide
                    self.stats["unknown"] += 1
                    self.add(lab, "UNKNOWN", "loop without closed form: " + st[2][1])
                else:
                    self.add(lab, "DIFF", st[2][1], self.witness(st[2][0], lab, st[2]))
            elif st[0] == 0 or st[1] > st[0]:
                self.stats["unknown"] += 1
                self.add(lab, "UNKNOWN", "undecided on %d of %d valuations %s" % (st[1], st[0] + st[1], st[3:]))
            else:
                self.stats["fingerprint"] += 1
                self.add(lab, "EQUAL", "%d valuations, %d undecided" % (st[0], st[1]))
        if need_err:
            if errst[2] is not None:
                if c.st.err.fold_:
                    self.stats["unknown"] += 1
                    self.add("errors", "UNKNOWN", "loop")
                else:
                    self.add("errors", "DIFF", errst[2][1], self.witness(errst[2][0], "errors", errst[2]))
            elif errst[0] == 0:
                self.stats["unknown"] += 1
                self.add("errors", "UNKNOWN")
            else:
                self.stats["fingerprint"] += 1
                self.add("errors", "EQUAL")
        if need_eff:
            if effst[2] is not None and (eff_fold(c.st.eff) or eff_fold(s.st.eff)):
                self.stats["unknown"] += 1
                self.add("effects", "UNKNOWN", "loop without closed form: " + effst[2][1])
            elif effst[2] is not None:
                self.add("effects", "DIFF", effst[2][1], self.witness(effst[2][0], "effects", effst[2]))
            elif effst[0] == 0 or effst[1]:
                self.stats["unknown"] += 1
                self.add("effects", "UNKNOWN", str(effst[3:]))
            else:
                self.stats["fingerprint"] += 1
                self.add("effects", "EQUAL", "%d valuations, %d undecided" % (effst[0], effst[1]))

    def cmp_at(self, val, x, y, dims, window=None):
        try:
            dv = [int(val.n(d, {})) for d in dims]
            pos = val.positions(dv) if dims else [()]
            if window:
                pos = pos + val.within([min(int(val.n(dim_term(w), {})), d) for w, d in zip(window, dv)])
            ok = False
            unk = None
            for p in pos:
                env = {"K%d" % i: v for i, v in enumerate(p)}
                try:
                    b = scal(val, val.ev(y, env))
                except Skip:
                    continue
                try:
                    a = scal(val, val.ev(x, env))
                except Skip as e:
                    if str(e).startswith(UNDEFINED):
                        return ("diff", "at %s: code undefined (%s), reference %s" % (list(p), e, short(b)), p)
                    continue
                except Unknown as e:
                    unk = str(e)
                    continue
                a, b = arrval(val, a), arrval(val, b)
                if not same(a, b):
                    return ("diff", "at index %s: code %s, reference %s" % (list(p), short(a), short(b)), p)
                ok = True
            if unk:
                return ("unk", unk)
            return None
        except Unknown as e:
            return ("unk", str(e))
        except Skip:
            return None

    def witness(self, k, lab, d):
        val = self.valuation(k)
        if k >= self.plain:
            val.pool = self.pool
        o = self.obl
        sizes = {}
        for t in self.code.params.values():
            pass
        scal_ = {}
        for n, dd in o.dom.items():
            if dd.scalar:
                try:
                    scal_[n] = str(val.name_value(n))
                except Exception:
                    pass
        names = set()
        for dd in o.dom.values():
            for x in dd.dims:
                for nd in ast.walk(ast.parse(x, mode="eval")):
                    if isinstance(nd, ast.Name):
                        names.add(nd.id)
        sizes = {n: val.size(n) for n in sorted(names)}
        arrs = {}
        for n, dd in o.dom.items():
            if not dd.scalar and len(arrs) < 12:
                try:
                    dv = [int(val.n(dim_term(x), {})) for x in dd.dims]
                    pos = val.positions(dv)
                    if len(pos) <= 16:
                        arrs[n] = [str(val.elem(n, p)) for p in pos]
                except Exception:
                    pass
        return {"valuation": k, "sizes": sizes, "scalars": scal_, "arrays": arrs}


def scal(val, v):
    if isinstance(v, Uf):
        return v
    return v


def arrval(val, v):
    from .evalt import Closure

    if isinstance(v, Uf):
        return val.ufval(v.key, v.dtype, v.dom, ()) if v.dtype != "?" else ("U", v.key)
    if isinstance(v, Closure):
        return val.value(v)
    return v


def short(v):
    from fractions import Fraction

    if isinstance(v, Fraction):
        v = float(v) if v.denominator != 1 else v.numerator
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."
