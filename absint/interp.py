"""Abstract interpreter for the Python subset used by the analysed package.

The source is never imported or executed: every module is parsed to an AST, the AST is turned into
transfer functions over the abstract values of core.py, and calls are evaluated over those values.
"""
import ast
import os
import operator
from . import rx
from .core import *
from .core import State, Part
from . import core
from . import strlang

BRK = ("brk",)
CNT = ("cnt",)


class Frame:
    __slots__ = ("vars", "parent", "g", "fn", "defcls")

    def __init__(self, vars_, parent, g, fn=None):
        self.vars = vars_
        self.parent = parent
        self.g = g
        self.fn = fn


class Scope:
    def __init__(self, kind, parent, module, locals_=(), globals_=(), nonlocals=()):
        self.kind = kind  # module, class, function
        self.parent = parent
        self.module = module
        self.locals = set(locals_)
        self.globals = set(globals_)
        self.nonlocals = set(nonlocals)
        self.clsname = parent.clsname if parent is not None else None
        self.qual = parent.qual if parent is not None else None


def _targets(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            _targets(e, out)
    elif isinstance(t, ast.Starred):
        _targets(t.value, out)


def collect_locals(body):
    loc, glo, non = set(), set(), set()

    def pat(p):
        for n in ast.walk(p):
            if isinstance(n, ast.MatchAs) and n.name:
                loc.add(n.name)
            elif isinstance(n, ast.MatchStar) and n.name:
                loc.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                loc.add(n.rest)

    def visit(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not comp:
                loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    _targets(w.target, loc)
            return
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                _targets(t, loc)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            _targets(n.target, loc)
        elif isinstance(n, ast.For):
            _targets(n.target, loc)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    _targets(i.optional_vars, loc)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                _targets(t, loc)
        elif isinstance(n, ast.match_case):
            pat(n.pattern)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in body:
        visit(s)
    return loc - glo - non, glo, non


def has_yield(node):
    """does this function body (not nested functions) yield"""
    def v(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(v(c) for c in ast.iter_child_nodes(n))
    if isinstance(node, list):
        return any(v(s) for s in node)
    return v(node)


class Interp:
    def __init__(self, root, pkg):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.builtins = {}
        self.files = {}
        self.fn_count = 0
        self.call_hooks = {}
        from . import builtins_ as B
        from . import stdlib as L
        self.B = B
        self.L = L
        B.setup(self)
        L.setup(self)

    # ------------------------------------------------------------ modules
    def module_file(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None, None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split(".")[0] == self.pkg:
            parent = name.rpartition(".")[0]
            if parent:
                self.import_module(parent)
            fn, ispkg = self.module_file(name)
            if ispkg is None:
                self.throw("ModuleNotFoundError", f"No module named '{name}'")
            m = PyModule(name)
            m.repo = True
            self.modules[name] = m
            m.ns["__name__"] = name
            m.ns["__file__"] = fn or ""
            m.ns["__package__"] = name if ispkg else parent
            m.ns["__doc__"] = None
            if fn:
                with open(fn, "rb") as f:
                    src = f.read()
                self.files[name] = fn
                tree = ast.parse(src, fn)
                m.ns["__doc__"] = ast.get_docstring(tree)
                sc = Scope("module", None, m)
                sc.clsname = None
                fr = Frame(m.ns, None, m.ns)
                try:
                    self.compile_block(tree.body, sc)(fr)
                except BaseException:
                    self.modules.pop(name, None)
                    raise
            if parent:
                pm = self.modules[parent]
                pm.ns.setdefault(name.rpartition(".")[2], m)
            return m
        m = self.L.get_module(self, name)
        self.modules[name] = m
        return m

    def do_import(self, node, fr, sc):
        for a in node.names:
            m = self.import_module(a.name)
            if a.asname:
                fr.vars[a.asname] = m
            else:
                top = a.name.split(".")[0]
                fr.vars[top] = self.import_module(top)

    def do_import_from(self, node, fr, sc):
        mod = node.module or ""
        if node.level:
            pkg = fr.g["__package__"]
            parts = pkg.split(".")
            if node.level > 1:
                parts = parts[: -(node.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        m = self.import_module(mod)
        for a in node.names:
            if a.name == "*":
                allv = m.ns.get("__all__")
                names = [x for x in m.ns if not x.startswith("_")]
                if allv is not None:
                    names = list(allv.items)
                for n in names:
                    fr.vars[n] = m.ns[n]
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif m.repo:
                fn, ispkg = self.module_file(mod + "." + a.name)
                if ispkg is None:
                    self.throw("ImportError", f"cannot import name '{a.name}' from '{mod}'")
                v = self.import_module(mod + "." + a.name)
            else:
                v = self.L.module_attr(self, m, a.name)
            fr.vars[a.asname or a.name] = v

    # ------------------------------------------------------------ errors
    def cls_(self, name):
        return self.builtins[name]

    def throw(self, clsname, *args):
        cls = clsname if isinstance(clsname, PyClass) else self.builtins[clsname]
        e = self.make_exc(cls, list(args))
        raise PyRaise(e)

    def make_exc(self, cls, args):
        e = Inst(cls, {"args": tuple(args)})
        e.data = {"loc": State.ctx.loc, "stack": list(State.ctx.stack)}
        return e

    # ------------------------------------------------------------ compile: statements
    def compile_block(self, body, sc):
        fs = [self.compile_stmt(s, sc) for s in body]
        fs = [f for f in fs if f is not None]
        if not fs:
            return lambda fr: None
        if len(fs) == 1:
            return fs[0]

        def run(fr):
            for f in fs:
                s = f(fr)
                if s is not None:
                    return s
        return run

    def compile_stmt(self, n, sc):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            name = type(n).__name__

            def bad(fr):
                raise Unsupported(f"statement {name}")
            return bad
        f = m(n, sc)
        if f is None:
            return None
        loc = (sc.module.name, n.lineno)

        def run(fr):
            c = State.ctx
            c.loc = loc
            c.steps += 1
            if c.steps > c.max_steps:
                raise Unsupported("step limit")
            return f(fr)
        return run

    def s_Expr(self, n, sc):
        if isinstance(n.value, ast.Constant):
            return None
        e = self.compile_expr(n.value, sc)

        def run(fr):
            e(fr)
        return run

    def s_Pass(self, n, sc):
        return None

    def s_Assign(self, n, sc):
        e = self.compile_expr(n.value, sc)
        ts = [self.compile_target(t, sc) for t in n.targets]
        if len(ts) == 1:
            t0 = ts[0]

            def run1(fr):
                t0(fr, e(fr))
            return run1

        def run(fr):
            v = e(fr)
            for t in ts:
                t(fr, v)
        return run

    def compile_annotation(self, e, sc):
        if getattr(sc.module, "postponed", False):
            text = ast.unparse(e)
            return lambda fr: text
        return self.compile_expr(e, sc)

    def s_AnnAssign(self, n, sc):
        t = self.compile_target(n.target, sc) if n.value is not None else None
        e = self.compile_expr(n.value, sc) if n.value is not None else None
        ann = None
        if sc.kind in ("class", "module") and isinstance(n.target, ast.Name):
            ann = self.compile_annotation(n.annotation, sc)
            name = n.target.id

        def run(fr):
            if ann is not None:
                try:
                    a = ann(fr)
                except (Unsupported, PyRaise):
                    if sc.kind == "class":
                        raise
                    a = Opaque("annotation")
                d = fr.vars.get("__annotations__")
                if d is None:
                    d = fr.vars["__annotations__"] = PyDict()
                d.put(name, a)
            if e is not None:
                t(fr, e(fr))
        return run

    def s_AugAssign(self, n, sc):
        op = type(n.op).__name__
        e = self.compile_expr(n.value, sc)
        if isinstance(n.target, ast.Name):
            load = self.compile_expr(ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target), sc)
            store = self.compile_target(n.target, sc)

            def run(fr):
                cur = load(fr)
                store(fr, self.inplace(op, cur, e(fr)))
            return run
        if isinstance(n.target, ast.Attribute):
            o = self.compile_expr(n.target.value, sc)
            attr = n.target.attr

            def run(fr):
                ob = o(fr)
                cur = self.getattr_(ob, attr)
                self.setattr_(ob, attr, self.inplace(op, cur, e(fr)))
            return run
        if isinstance(n.target, ast.Subscript):
            o = self.compile_expr(n.target.value, sc)
            k = self.compile_expr(n.target.slice, sc)

            def run(fr):
                ob = o(fr)
                kk = k(fr)
                cur = self.getitem(ob, kk)
                self.setitem(ob, kk, self.inplace(op, cur, e(fr)))
            return run
        raise Unsupported("augassign target")

    def inplace(self, op, cur, v):
        cur = force(cur)
        if isinstance(cur, PyList) and op == "Add":
            self.B.list_extend(self, cur, v)
            return cur
        if isinstance(cur, Inst):
            nm = "__i" + DUNDER[op][2:]
            f = cur.cls.lookup(nm)
            if f is not None:
                return self.call(self.bind(f, cur, cur.cls), [v], {})
        if isinstance(cur, PySet) and not cur.frozen and op == "BitOr":
            self.call(self.getattr_(cur, "update"), [v], {})
            return cur
        if isinstance(cur, PyDict) and op == "BitOr":
            self.call(self.getattr_(cur, "update"), [v], {})
            return cur
        return self.binop(op, cur, v)

    def s_If(self, n, sc):
        t = self.compile_cond(n.test, sc)
        a = self.compile_block(n.body, sc)
        b = self.compile_block(n.orelse, sc) if n.orelse else None

        def run(fr):
            if t(fr):
                return a(fr)
            if b is not None:
                return b(fr)
        return run

    def s_While(self, n, sc):
        t = self.compile_cond(n.test, sc)
        a = self.compile_block(n.body, sc)
        b = self.compile_block(n.orelse, sc) if n.orelse else None

        def run(fr):
            k = 0
            while t(fr):
                k += 1
                if k > 20000:
                    raise Unsupported("loop bound")
                s = a(fr)
                if s is not None:
                    if s is BRK:
                        return None
                    if s is CNT:
                        continue
                    return s
            if b is not None:
                return b(fr)
        return run

    def s_For(self, n, sc):
        it = self.compile_expr(n.iter, sc)
        tg = self.compile_target(n.target, sc)
        body = self.compile_block(n.body, sc)
        orelse = self.compile_block(n.orelse, sc) if n.orelse else None
        interp = self

        def run(fr):
            c = State.ctx
            last_log = None
            before = None
            for v in interp.iterate(it(fr)):
                if isinstance(v, Rest):
                    interp.accelerate(v, last_log, before, fr)
                    continue
                tg(fr, v)
                old = c.mutlog
                c.mutlog = log = {}
                before = {k: x for k, x in fr.vars.items() if type(x) is int}
                s = body(fr)
                c.mutlog = old
                if old is not None:
                    for k2, (o2, m2) in log.items():
                        old[k2] = (o2, old.get(k2, (o2, 0))[1] + m2)
                last_log = log
                if s is not None:
                    if s is BRK:
                        return None
                    if s is CNT:
                        continue
                    return s
            if orelse is not None:
                return orelse(fr)
        return run

    def accelerate(self, rest, log, before, fr):
        """account for the remaining iterations of a loop over a summarised segment"""
        if rest.count.hi == 0 or log is None:
            return
        for _, (lst, m) in log.items():
            if isinstance(lst, PyList) and m > 0:
                if m == 1:
                    sg = Seg(None, count=rest.count)
                else:
                    sg = Seg(None, lo=m * rest.count.lo, hi=None if rest.count.hi is None else m * rest.count.hi)
                sg.closed = True
                lst.items.append(sg)
        if before:
            for k, v in list(fr.vars.items()):
                if type(v) is int and k in before and before[k] != v:
                    d = v - before[k]
                    if abs(d) == 1:
                        fr.vars[k] = AbsInt(SumCount([rest.count], 0), (("affine", d, v),), k)
                    else:
                        fr.vars[k] = AbsInt(FreeInt(ISet([(v, None)] if d > 0 else [(None, v)])), (), k)

    def s_Return(self, n, sc):
        if n.value is None:
            r = ("ret", None)
            return lambda fr: r
        e = self.compile_expr(n.value, sc)
        return lambda fr: ("ret", e(fr))

    def s_Break(self, n, sc):
        return lambda fr: BRK

    def s_Continue(self, n, sc):
        return lambda fr: CNT

    def s_Global(self, n, sc):
        return None

    def s_Nonlocal(self, n, sc):
        return None

    def s_Import(self, n, sc):
        return lambda fr: self.do_import(n, self._wr(fr, sc), sc)

    def s_ImportFrom(self, n, sc):
        if n.module == "__future__" and sc.kind == "module" and any(a.name == "annotations" for a in n.names):
            sc.module.postponed = True
        return lambda fr: self.do_import_from(n, self._wr(fr, sc), sc)

    def _wr(self, fr, sc):
        return fr

    def s_Raise(self, n, sc):
        e = self.compile_expr(n.exc, sc) if n.exc is not None else None
        cause = self.compile_expr(n.cause, sc) if n.cause is not None else None

        def run(fr):
            if e is None:
                cur = getattr(State.ctx, "handling", None)
                if not cur:
                    self.throw("RuntimeError", "No active exception to reraise")
                raise PyRaise(cur[-1])
            v = force(e(fr))
            if isinstance(v, PyClass):
                v = self.call(v, [], {})
            if cause is not None:
                cv = force(cause(fr))
                if isinstance(v, Inst):
                    v.attrs["__cause__"] = self.call(cv, [], {}) if isinstance(cv, PyClass) else cv
                    v.attrs["__suppress_context__"] = True
            cur = getattr(State.ctx, "handling", None)
            if cur and isinstance(v, Inst) and cur[-1] is not v and "__context__" not in v.attrs and v.gen:
                v.attrs["__context__"] = cur[-1]
            if isinstance(v, Opaque):
                raise Unsupported("raise of unmodelled value " + v.reason)
            if not (isinstance(v, Inst) and v.cls.issub(self.builtins["BaseException"])):
                self.throw("TypeError", "exceptions must derive from BaseException")
            if v.data is None:
                v.data = {}
            if isinstance(v.data, dict) and "loc" not in v.data:
                v.data["loc"] = State.ctx.loc
                v.data["stack"] = list(State.ctx.stack)
            raise PyRaise(v)
        return run

    def exc_matches(self, exc, t):
        t = force(t)
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(t, PyClass):
            return exc.cls.issub(t)
        if isinstance(t, Opaque):
            # unknown exception class: decide both ways, tainted
            return choose(2, "except " + t.reason, taint="unmodelled exception class " + t.reason) == 0
        return False

    def s_Try(self, n, sc):
        body = self.compile_block(n.body, sc)
        hs = []
        for h in n.handlers:
            hs.append((self.compile_expr(h.type, sc) if h.type is not None else None, h.name, self.compile_block(h.body, sc)))
        orelse = self.compile_block(n.orelse, sc) if n.orelse else None
        fin = self.compile_block(n.finalbody, sc) if n.finalbody else None

        def inner(fr):
            c = State.ctx
            depth = len(c.stack)
            try:
                s = body(fr)
            except PyRaise as pr:
                del c.stack[depth:]
                exc = pr.exc
                for t, name, hb in hs:
                    if t is None or self.exc_matches(exc, t(fr)):
                        if name:
                            fr.vars[name] = exc
                        if not hasattr(c, "handling"):
                            c.handling = []
                        c.handling.append(exc)
                        try:
                            r = hb(fr)
                        finally:
                            c.handling.pop()
                        if name:
                            fr.vars.pop(name, None)
                        return r
                raise
            if s is not None:
                return s
            if orelse is not None:
                return orelse(fr)

        if fin is None:
            return inner

        def run(fr):
            try:
                s = inner(fr)
            except PyRaise:
                r = fin(fr)
                if r is not None:
                    return r
                raise
            r = fin(fr)
            return r if r is not None else s
        return run

    def enter_ctx(self, v):
        v = force(v)
        if isinstance(v, Opaque):
            return v, None
        en = self.getattr_(v, "__enter__")
        ex = self.getattr_(v, "__exit__")
        return self.call(en, [], {}), ex

    def exit_ctx(self, ex, exc):
        if ex is None:
            return False
        if exc is None:
            self.call(ex, [None, None, None], {})
            return False
        return self.truth(self.call(ex, [exc.cls, exc, None], {}))

    def s_With(self, n, sc):
        items = [(self.compile_expr(i.context_expr, sc), self.compile_target(i.optional_vars, sc) if i.optional_vars is not None else None) for i in n.items]
        body = self.compile_block(n.body, sc)

        def go(fr, k):
            if k == len(items):
                return body(fr)
            e, t = items[k]
            val, ex = self.enter_ctx(e(fr))
            c = State.ctx
            depth = len(c.stack)
            try:
                if t is not None:
                    t(fr, val)
                s = go(fr, k + 1)
            except PyRaise as pr:
                del c.stack[depth:]
                if self.exit_ctx(ex, pr.exc):
                    return None
                raise
            self.exit_ctx(ex, None)
            return s
        return lambda fr: go(fr, 0)

    def s_Assert(self, n, sc):
        t = self.compile_cond(n.test, sc)
        m = self.compile_expr(n.msg, sc) if n.msg is not None else None

        def run(fr):
            if not t(fr):
                if m is not None:
                    self.throw("AssertionError", m(fr))
                self.throw("AssertionError")
        return run

    def s_Delete(self, n, sc):
        fs = []
        for t in n.targets:
            if isinstance(t, ast.Name):
                nm = t.id
                fs.append(lambda fr, nm=nm: fr.vars.pop(nm, None))
            elif isinstance(t, ast.Subscript):
                o = self.compile_expr(t.value, sc)
                k = self.compile_expr(t.slice, sc)
                fs.append(lambda fr, o=o, k=k: self.delitem(o(fr), k(fr)))
            elif isinstance(t, ast.Attribute):
                o = self.compile_expr(t.value, sc)
                fs.append(lambda fr, o=o, a=t.attr: self.delattr_(o(fr), a))
            else:
                raise Unsupported("del")

        def run(fr):
            for f in fs:
                f(fr)
        return run

    def s_FunctionDef(self, n, sc):
        mk = self.compile_function(n, sc)
        decs = [self.compile_expr(d, sc) for d in n.decorator_list]
        store = self.compile_target(ast.Name(n.name, ast.Store()), sc)

        def run(fr):
            ds = [d(fr) for d in decs]
            f = mk(fr)
            for d in reversed(ds):
                f = self.call(d, [f], {})
            store(fr, f)
        return run

    def s_ClassDef(self, n, sc):
        mangle(n)
        bases = [self.compile_expr(b, sc) for b in n.bases]
        kws = [(k.arg, self.compile_expr(k.value, sc)) for k in n.keywords]
        loc, glo, non = collect_locals(n.body)
        csc = Scope("class", sc, sc.module, loc, glo, non)
        csc.clsname = (sc.clsname + "." if sc.kind == "class" and sc.clsname else sc.qual + ".<locals>." if sc.kind == "function" and sc.qual else "") + n.name
        body = self.compile_block(n.body, csc)
        decs = [self.compile_expr(d, sc) for d in n.decorator_list]
        doc = ast.get_docstring(n, clean=False)
        store = self.compile_target(ast.Name(n.name, ast.Store()), sc)
        qn = csc.clsname

        def run(fr):
            ds = [d(fr) for d in decs]
            bs = [force(b(fr)) for b in bases]
            kw = {k: v(fr) for k, v in kws}
            ns = {"__doc__": doc, "__module__": fr.g.get("__name__"), "__qualname__": qn}
            cf = Frame(ns, fr if sc.kind == "function" else fr.parent, fr.g)
            body(cf)
            cls = self.make_class(n.name, bs, ns, kw, fr.g.get("__name__"), qn)
            for d in reversed(ds):
                cls = self.call(d, [cls], {})
            store(fr, cls)
        return run

    def s_Match(self, n, sc):
        subj = self.compile_expr(n.subject, sc)
        cases = []
        for c in n.cases:
            cases.append((self.compile_pattern(c.pattern, sc), self.compile_cond(c.guard, sc) if c.guard is not None else None, self.compile_block(c.body, sc)))

        def run(fr):
            v = force(subj(fr))
            for p, g, b in cases:
                if p(fr, v) and (g is None or g(fr)):
                    return b(fr)
        return run

    def compile_pattern(self, p, sc):
        if isinstance(p, ast.MatchValue):
            e = self.compile_expr(p.value, sc)
            return lambda fr, v: self.eq(v, e(fr))
        if isinstance(p, ast.MatchSingleton):
            return lambda fr, v: self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            sub = self.compile_pattern(p.pattern, sc) if p.pattern is not None else None

            def run(fr, v):
                if sub is not None and not sub(fr, v):
                    return False
                if p.name:
                    fr.vars[p.name] = v
                return True
            return run
        if isinstance(p, ast.MatchOr):
            subs = [self.compile_pattern(x, sc) for x in p.patterns]
            return lambda fr, v: any(s(fr, v) for s in subs)
        if isinstance(p, ast.MatchClass):
            c = self.compile_expr(p.cls, sc)
            kws = [(a, self.compile_pattern(x, sc)) for a, x in zip(p.kwd_attrs, p.kwd_patterns)]
            pos = [self.compile_pattern(x, sc) for x in p.patterns]

            def run(fr, v):
                cc = force(c(fr))
                if not self.isinstance_(v, cc):
                    return False
                if pos:
                    if isinstance(cc, PyClass) and any(b.host in (str, int, float, bool, bytes, list, dict, tuple, set, frozenset, bytearray) for b in cc.mro if b.host is not None and b.host is not object):
                        if len(pos) > 1:
                            self.throw("TypeError", f"{cc.name}() accepts 1 positional sub-pattern ({len(pos)} given)")
                        if not pos[0](fr, v):
                            return False
                    else:
                        ma = force(cc.lookup("__match_args__")) if isinstance(cc, PyClass) else None
                        if ma is None and isinstance(cc, PyClass):
                            dc = next((b.dcfields for b in cc.mro if b.dcfields is not None), None)
                            ma = tuple(f.attrs["name"] for f in dc) if dc is not None else ()
                            if not ma and cc.has("_fields"):
                                ma = cc.lookup("_fields")
                        if len(pos) > len(ma or ()):
                            self.throw("TypeError", f"{cc.name}() accepts {len(ma or ())} positional sub-patterns ({len(pos)} given)")
                        for a, x in zip(ma, pos):
                            if not self.hasattr_(v, a) or not x(fr, self.getattr_(v, a)):
                                return False
                for a, x in kws:
                    if not self.hasattr_(v, a) or not x(fr, self.getattr_(v, a)):
                        return False
                return True
            return run
        if isinstance(p, ast.MatchSequence):
            subs = [self.compile_pattern(x, sc) if not isinstance(x, ast.MatchStar) else x for x in p.patterns]
            star = next((i for i, x in enumerate(subs) if isinstance(x, ast.MatchStar)), None)

            def run(fr, v):
                if type(v).__name__ == 'SplitList':
                    v = v.resolve(self)
                if isinstance(v, Inst) and v.cls.issub(self.builtins["tuple"]):
                    v = tuple(self.iterate(v))
                if not isinstance(v, (PyList, tuple)):
                    return False
                if star is None:
                    if not self.compare("==", self.len_(v), len(subs)):
                        return False
                    items = [x for x in self.iterate(v)]
                    return all(s(fr, x) for s, x in zip(subs, items))
                if not self.compare(">=", self.len_(v), len(subs) - 1):
                    return False
                items = [x for x in self.iterate(v)]
                if any(isinstance(x, Rest) for x in items):
                    raise Unsupported("star pattern on a summarised list")
                tail = len(subs) - star - 1
                if not all(s(fr, x) for s, x in zip(subs[:star], items[:star])):
                    return False
                if tail and not all(s(fr, x) for s, x in zip(subs[star + 1:], items[-tail:])):
                    return False
                if subs[star].name:
                    fr.vars[subs[star].name] = PyList(items[star:len(items) - tail])
                return True
            return run
        if isinstance(p, ast.MatchMapping):
            keys = [(self.compile_expr(k, sc), self.compile_pattern(x, sc)) for k, x in zip(p.keys, p.patterns)]

            def run(fr, v):
                if not isinstance(v, PyDict):
                    return False
                seen = []
                for k, x in keys:
                    kv = k(fr)
                    e = self.B.dict_find(self, v, kv)
                    if e is None or not x(fr, e[1]):
                        return False
                    seen.append(e)
                if p.rest:
                    fr.vars[p.rest] = PyDict([(a, b) for a, b in self.dict_items(v) if not any(e[0] is a for e in seen)])
                return True
            return run

        def bad(fr, v):
            raise Unsupported("pattern " + type(p).__name__)
        return bad

    # ------------------------------------------------------------ targets
    def compile_target(self, t, sc):
        if isinstance(t, ast.Name):
            nm = t.id
            if nm in sc.globals or (sc.kind == "function" and nm not in sc.locals and nm not in sc.nonlocals):
                if nm in sc.globals:
                    def st(fr, v):
                        self.set_global(fr.g, nm, v)
                    return st
            if nm in sc.nonlocals:
                def st(fr, v):
                    f = fr.parent
                    while f is not None:
                        if nm in f.vars:
                            f.vars[nm] = v
                            return
                        f = f.parent
                    fr.vars[nm] = v
                return st
            if sc.kind == "comp" and nm not in sc.locals:
                # walrus inside comprehension: bind in enclosing function
                def st(fr, v):
                    fr.parent.vars[nm] = v
                return st

            def st(fr, v):
                fr.vars[nm] = v
            return st
        if isinstance(t, ast.Attribute):
            o = self.compile_expr(t.value, sc)
            a = t.attr
            return lambda fr, v: self.setattr_(o(fr), a, v)
        if isinstance(t, ast.Subscript):
            o = self.compile_expr(t.value, sc)
            k = self.compile_expr(t.slice, sc)
            return lambda fr, v: self.setitem(o(fr), k(fr), v)
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            ts = [self.compile_target(e.value if isinstance(e, ast.Starred) else e, sc) for e in t.elts]
            n = len(ts)

            def st(fr, v):
                v = force(v)
                if isinstance(v, Opaque):
                    for x in ts:
                        x(fr, Opaque(v.reason))
                    return
                if isinstance(v, self.B.SplitList):
                    v = v.resolve(self, want=n)
                if isinstance(v, PyList) and v.has_seg():
                    if not star:
                        if not self.compare("==", self.len_(v), n):
                            self.throw("ValueError", "unpack")
                        v = tuple(self.B.list_get(self, v, i) for i in range(n))
                    else:
                        raise Unsupported("starred unpack of summarised list")
                items = [x for x in self.iterate(v) if not isinstance(x, Rest)]
                if star:
                    k = star[0]
                    if len(items) < n - 1:
                        self.throw("ValueError", "not enough values to unpack")
                    tail = n - 1 - k
                    parts = items[:k] + [PyList(items[k: len(items) - tail])] + items[len(items) - tail:]
                    items = parts
                elif len(items) > n:
                    self.throw("ValueError", f"too many values to unpack (expected {n})")
                elif len(items) < n:
                    self.throw("ValueError", f"not enough values to unpack (expected {n}, got {len(items)})")
                for x, y in zip(ts, items):
                    x(fr, y)
            return st
        raise Unsupported("target " + type(t).__name__)

    def set_global(self, g, nm, v):
        if not State.loading:
            mod = self.modules.get(g.get("__name__"))
            if mod is not None:
                had = nm in g
                log_mut(mod, ("ns", nm, had, g.get(nm)))
        g[nm] = v

    # ------------------------------------------------------------ expressions
    def compile_cond(self, n, sc):
        """expression in boolean context -> host bool"""
        if isinstance(n, ast.BoolOp):
            fs = [self.compile_cond(v, sc) for v in n.values]
            if isinstance(n.op, ast.And):
                def run(fr):
                    for f in fs:
                        if not f(fr):
                            return False
                    return True
            else:
                def run(fr):
                    for f in fs:
                        if f(fr):
                            return True
                    return False
            return run
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            f = self.compile_cond(n.operand, sc)
            return lambda fr: not f(fr)
        e = self.compile_expr(n, sc)

        def run(fr):
            v = e(fr)
            if v is True or v is False:
                return v
            return self.truth(v)
        return run

    def compile_expr(self, n, sc):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            name = type(n).__name__

            def bad(fr):
                raise Unsupported(f"expression {name}")
            return bad
        return m(n, sc)

    def e_Constant(self, n, sc):
        v = n.value
        return lambda fr: v

    def e_Name(self, n, sc):
        nm = n.id
        bi = self.builtins

        def from_global(fr):
            g = fr.g
            if nm in g:
                return g[nm]
            if nm in bi:
                return bi[nm]
            self.throw("NameError", f"name '{nm}' is not defined")

        if sc.kind == "module":
            return from_global
        if nm in sc.globals:
            return from_global
        # enclosing function scopes
        enclosing = False
        p = sc.parent
        while p is not None:
            if p.kind in ("function", "comp") and (nm in p.locals or nm == "__class__"):
                enclosing = True
            p = p.parent

        def from_parent(fr):
            f = fr.parent
            while f is not None:
                if nm in f.vars:
                    return f.vars[nm]
                f = f.parent
            return from_global(fr)

        outer = from_parent if enclosing or sc.kind == "comp" else from_global
        if sc.kind == "class":
            def run(fr):
                if nm in fr.vars:
                    return fr.vars[nm]
                return outer(fr)
            return run
        if nm in sc.locals:
            def run(fr):
                try:
                    return fr.vars[nm]
                except KeyError:
                    self.throw("UnboundLocalError", f"cannot access local variable '{nm}' where it is not associated with a value")
            return run
        return outer

    def e_Attribute(self, n, sc):
        o = self.compile_expr(n.value, sc)
        a = n.attr
        return lambda fr: self.getattr_(o(fr), a)

    def e_Call(self, n, sc):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            def sup(fr):
                f = fr
                while f is not None and (f.fn is None or f.fn.defcls is None):
                    f = f.parent
                if f is None:
                    raise Unsupported("super()")
                first = f.fn.argnames[0]
                return SuperObj(f.fn.defcls, f.vars[first])
            return sup
        if isinstance(n.func, ast.Name) and n.func.id in ("globals", "locals") and not n.args:
            which = n.func.id

            def gl(fr):
                src = fr.g if which == "globals" else fr.vars
                return NsDict(src, self.modules.get(fr.g.get('__name__')) if src is fr.g else None)
            return gl
        fn = self.compile_expr(n.func, sc)
        simple = not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords)
        line = n.lineno
        mod = sc.module.name
        if simple:
            args = [self.compile_expr(a, sc) for a in n.args]
            kws = [(k.arg, self.compile_expr(k.value, sc)) for k in n.keywords]
            if not kws:
                def run0(fr):
                    f = fn(fr)
                    a = [x(fr) for x in args]
                    State.ctx.loc = (mod, line)
                    return self.call(f, a, {})
                return run0

            def run1(fr):
                f = fn(fr)
                a = [x(fr) for x in args]
                k = {nm: x(fr) for nm, x in kws}
                State.ctx.loc = (mod, line)
                return self.call(f, a, k)
            return run1
        args = [(isinstance(a, ast.Starred), self.compile_expr(a.value if isinstance(a, ast.Starred) else a, sc)) for a in n.args]
        kws = [(k.arg, self.compile_expr(k.value, sc)) for k in n.keywords]

        def run(fr):
            f = fn(fr)
            a = []
            for st, x in args:
                v = x(fr)
                if st:
                    for i in self.iterate(v):
                        if isinstance(i, Rest):
                            raise Unsupported("* of summarised list")
                        a.append(i)
                else:
                    a.append(v)
            k = {}
            for nm, x in kws:
                v = x(fr)
                if nm is None:
                    for kk, vv in self.dict_items(v):
                        if not isinstance(kk, str):
                            raise Unsupported("** with abstract key")
                        if kk in k:
                            self.throw("TypeError", f"got multiple values for keyword argument '{kk}'")
                        k[kk] = vv
                else:
                    if nm in k:
                        self.throw("TypeError", f"got multiple values for keyword argument '{nm}'")
                    k[nm] = v
            State.ctx.loc = (mod, line)
            return self.call(f, a, k)
        return run

    def e_BoolOp(self, n, sc):
        fs = [self.compile_expr(v, sc) for v in n.values]
        isand = isinstance(n.op, ast.And)

        def run(fr):
            v = None
            for f in fs[:-1]:
                v = f(fr)
                t = self.truth(v)
                if isand and not t:
                    return v
                if not isand and t:
                    return v
            return fs[-1](fr)
        return run

    def e_UnaryOp(self, n, sc):
        op = type(n.op).__name__
        e = self.compile_expr(n.operand, sc)
        if op == "Not":
            c = self.compile_cond(n.operand, sc)
            return lambda fr: not c(fr)

        def run(fr):
            v = force(e(fr))
            if isinstance(v, AbsInt):
                if op == "USub":
                    return v.then("affine", -1, 0)
                if op == "UAdd":
                    return v
            if isinstance(v, (int, float)):
                return {"USub": operator.neg, "UAdd": operator.pos, "Invert": operator.invert}[op](v)
            if isinstance(v, Inst):
                f = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
                if f is not None:
                    return self.call(self.bind(f, v, v.cls), [], {})
            if isinstance(v, Opaque):
                return Opaque(v.reason)
            self.throw("TypeError", f"bad operand type for unary {dict(USub='-', UAdd='+', Invert='~').get(op, op)}: '{self.type_of(v).name}'")
        return run

    def e_BinOp(self, n, sc):
        a = self.compile_expr(n.left, sc)
        b = self.compile_expr(n.right, sc)
        op = type(n.op).__name__
        return lambda fr: self.binop(op, a(fr), b(fr))

    def e_Compare(self, n, sc):
        first = self.compile_expr(n.left, sc)
        rest = [(OPS[type(o).__name__], self.compile_expr(c, sc)) for o, c in zip(n.ops, n.comparators)]
        if len(rest) == 1:
            op, e = rest[0]
            return lambda fr: self.compare(op, first(fr), e(fr))

        def run(fr):
            l = first(fr)
            r = True
            for op, e in rest:
                v = e(fr)
                r = self.compare(op, l, v)
                if not self.truth(r):
                    return r
                l = v
            return r
        return run

    def e_IfExp(self, n, sc):
        t = self.compile_cond(n.test, sc)
        a = self.compile_expr(n.body, sc)
        b = self.compile_expr(n.orelse, sc)
        return lambda fr: a(fr) if t(fr) else b(fr)

    def e_NamedExpr(self, n, sc):
        e = self.compile_expr(n.value, sc)
        t = self.compile_target(n.target, sc)

        def run(fr):
            v = e(fr)
            t(fr, v)
            return v
        return run

    def e_JoinedStr(self, n, sc):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = self.compile_expr(v.format_spec, sc) if v.format_spec is not None else None
                parts.append((self.compile_expr(v.value, sc), v.conversion, spec))

        def run(fr):
            out = []
            for p in parts:
                if isinstance(p, str):
                    out.append(p)
                else:
                    out.append(self.format_value(p[0](fr), p[1], p[2](fr) if p[2] else ""))
            return core.cat(*out)
        return run

    def e_FormattedValue(self, n, sc):
        return self.e_JoinedStr(ast.JoinedStr([n]), sc)

    def _elts(self, elts, sc):
        fs = [(isinstance(e, ast.Starred), self.compile_expr(e.value if isinstance(e, ast.Starred) else e, sc)) for e in elts]

        def run(fr):
            out = []
            for st, f in fs:
                v = f(fr)
                if st:
                    v = force(v)
                    if isinstance(v, PyList):
                        out.extend(v.items)
                    else:
                        out.extend(x for x in self.iterate(v) if not isinstance(x, Rest))
                else:
                    out.append(v)
            return out
        return run

    def e_Tuple(self, n, sc):
        f = self._elts(n.elts, sc)
        return lambda fr: tuple(f(fr))

    def e_List(self, n, sc):
        f = self._elts(n.elts, sc)
        return lambda fr: PyList(f(fr))

    def e_Set(self, n, sc):
        f = self._elts(n.elts, sc)

        def run(fr):
            s = PySet()
            for x in f(fr):
                self.B.set_add(self, s, x)
            return s
        return run

    def e_Dict(self, n, sc):
        ks = [self.compile_expr(k, sc) if k is not None else None for k in n.keys]
        vs = [self.compile_expr(v, sc) for v in n.values]

        def run(fr):
            d = PyDict()
            for k, v in zip(ks, vs):
                if k is None:
                    src = force(v(fr))
                    for kk, vv in self.dict_items(src):
                        self.setitem(d, kk, vv)
                else:
                    kk = k(fr)
                    self.setitem(d, kk, v(fr))
            return d
        return run

    def e_Subscript(self, n, sc):
        o = self.compile_expr(n.value, sc)
        k = self.compile_expr(n.slice, sc)
        mod, line = sc.module.name, n.lineno

        def run(fr):
            a = o(fr)
            b = k(fr)
            return self.getitem(a, b)
        return run

    def e_Slice(self, n, sc):
        fs = [self.compile_expr(x, sc) if x is not None else None for x in (n.lower, n.upper, n.step)]

        def run(fr):
            return SliceV(*[f(fr) if f else None for f in fs])
        return run

    def e_Lambda(self, n, sc):
        fd = ast.FunctionDef(name="<lambda>", args=n.args, body=[ast.copy_location(ast.Return(n.body), n.body)], decorator_list=[], returns=None, lineno=n.lineno, col_offset=n.col_offset)
        return self.compile_function(fd, sc)

    def e_Starred(self, n, sc):
        raise Unsupported("starred")

    def e_Yield(self, n, sc):
        def bad(fr):
            raise Unsupported("yield expression position")
        return bad

    def _comp(self, n, sc, elt_compile):
        """returns (first_iter_closure, generator function(frame, first_iterable))"""
        loc = set()
        for g in n.generators:
            _targets(g.target, loc)
        csc = Scope("comp", sc, sc.module, loc)
        first = self.compile_expr(n.generators[0].iter, sc)
        gens = []
        for i, g in enumerate(n.generators):
            gens.append((self.compile_expr(g.iter, csc) if i else None, self.compile_target(g.target, csc), [self.compile_cond(c, csc) for c in g.ifs]))
        elt = elt_compile(csc)

        def gen(fr, it0):
            cf = Frame({}, fr, fr.g, None)

            def rec(k):
                it, tg, conds = gens[k]
                src = it0 if k == 0 else it(cf)
                for v in self.iterate(src):
                    if isinstance(v, Rest):
                        if not conds:
                            yield v
                        else:
                            yield Rest(Count(0, v.count.hi))
                        continue
                    tg(cf, v)
                    if all(c(cf) for c in conds):
                        if k + 1 < len(gens):
                            yield from rec(k + 1)
                        else:
                            yield elt(cf)
            return rec(0)
        return first, gen

    def e_ListComp(self, n, sc):
        first, gen = self._comp(n, sc, lambda c: self.compile_expr(n.elt, c))

        def run(fr):
            out = []
            for v in gen(fr, first(fr)):
                if isinstance(v, Rest):
                    s = Seg(None, count=v.count)
                    s.closed = True
                    out.append(s)
                else:
                    out.append(v)
            return PyList(out)
        return run

    def e_SetComp(self, n, sc):
        first, gen = self._comp(n, sc, lambda c: self.compile_expr(n.elt, c))

        def run(fr):
            s = PySet()
            for v in gen(fr, first(fr)):
                if not isinstance(v, Rest):
                    self.B.set_add(self, s, v)
            return s
        return run

    def e_DictComp(self, n, sc):
        def ec(c):
            k = self.compile_expr(n.key, c)
            v = self.compile_expr(n.value, c)
            return lambda fr: (k(fr), v(fr))
        first, gen = self._comp(n, sc, ec)

        def run(fr):
            d = PyDict()
            for kv in gen(fr, first(fr)):
                if not isinstance(kv, Rest):
                    self.setitem(d, kv[0], kv[1])
            return d
        return run

    def e_GeneratorExp(self, n, sc):
        first, gen = self._comp(n, sc, lambda c: self.compile_expr(n.elt, c))
        return lambda fr: PyGen(gen(fr, first(fr)))

    # ------------------------------------------------------------ functions
    def compile_function(self, n, sc):
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        loc, glo, non = collect_locals(n.body)
        params = set(pos) | set(kwonly)
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        fsc = Scope("function", sc, sc.module, loc | params, glo, non)
        fsc.clsname = sc.clsname
        isgen = has_yield(n.body)
        body = None if isgen else None
        defaults = [self.compile_expr(d, sc) for d in a.defaults]
        kwdefaults = [self.compile_expr(d, sc) if d is not None else None for d in a.kw_defaults]
        anns = []
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            if x.annotation is not None:
                anns.append((x.arg, self.compile_annotation(x.annotation, sc)))
        if n.returns is not None:
            anns.append(("return", self.compile_annotation(n.returns, sc)))
        if isinstance(n.body, list) and n.name != "<lambda>":
            doc = ast.get_docstring(n, clean=False)
        else:
            doc = None
        qual = (sc.clsname + "." if sc.kind == "class" and sc.clsname else sc.qual + ".<locals>." if sc.kind == "function" and sc.qual else "") + n.name
        fsc.qual = qual
        modname = sc.module.name
        lineno = min([d.lineno for d in n.decorator_list] + [n.lineno])
        compiled = {}
        interp = self

        def get_body():
            b = compiled.get("b")
            if b is None:
                b = compiled["b"] = interp.compile_block(n.body, fsc)
            return b

        def mk(fr):
            f = PyFunc()
            f.name = n.name
            f.qualname = qual
            f.module = modname
            f.argnames = pos
            f.npos_only = len(a.posonlyargs)
            f.kwonly = kwonly
            f.vararg = a.vararg.arg if a.vararg else None
            f.kwarg = a.kwarg.arg if a.kwarg else None
            f.defaults = [d(fr) for d in defaults]
            f.kwdefaults = {k: d(fr) for k, d in zip(kwonly, kwdefaults) if d is not None}
            f.g = fr.g
            f.closure = fr if sc.kind in ("function", "comp") else fr.parent
            f.isgen = isgen
            f.get_body = get_body
            f.node = n
            f.fsc = fsc
            f.defcls = None
            f.doc = doc
            f.lineno = lineno
            f.attrs = {}
            f.ann_c = (anns, fr)
            f.ann = None
            if anns and not State.loading is None:
                # annotations are evaluated at definition time in Python; errors surface there
                pass
            return f
        return mk

    def annotations(self, f):
        if f.ann is None:
            d = PyDict()
            for k, e in f.ann_c[0]:
                d.put(k, e(f.ann_c[1]))
            d.gen = f.gen
            f.ann = d
        return f.ann

    def call_func(self, f, args, kwargs):
        names = f.argnames
        npos = len(names)
        nargs = len(args)
        v = {}
        if nargs > npos:
            if f.vararg is None:
                self.throw("TypeError", f"{f.qualname}() takes {npos if not f.defaults else f'from {npos - len(f.defaults)} to {npos}'} positional argument{'s' if npos != 1 or f.defaults else ''} but {nargs} {'were' if nargs != 1 else 'was'} given")
            for i in range(npos):
                v[names[i]] = args[i]
            v[f.vararg] = tuple(args[npos:])
        else:
            for i in range(nargs):
                v[names[i]] = args[i]
            if f.vararg is not None:
                v[f.vararg] = ()
        extra = None
        if kwargs:
            for k, x in kwargs.items():
                if k in f.kwonly or (k in names and names.index(k) >= f.npos_only):
                    if k in v:
                        self.throw("TypeError", f"{f.qualname}() got multiple values for argument '{k}'")
                    v[k] = x
                elif f.kwarg is not None:
                    extra = extra or {}
                    extra[k] = x
                else:
                    self.throw("TypeError", f"{f.qualname}() got an unexpected keyword argument '{k}'")
        if nargs < npos:
            nd = len(f.defaults)
            for i in range(nargs, npos):
                nm = names[i]
                if nm not in v:
                    j = i - (npos - nd)
                    if j >= 0:
                        v[nm] = f.defaults[j]
                    else:
                        self.throw("TypeError", self.B.missing_args(f.qualname, [names[z] for z in range(nargs, npos) if names[z] not in v and z < npos - nd]))
        for k in f.kwonly:
            if k not in v:
                if k in f.kwdefaults:
                    v[k] = f.kwdefaults[k]
                else:
                    self.throw("TypeError", f"{f.qualname}() missing 1 required keyword-only argument: '{k}'")
        if f.kwarg is not None:
            v[f.kwarg] = PyDict((extra or {}).items())
        fr = Frame(v, f.closure, f.g, f)
        c = State.ctx
        key = (f.module, f.qualname)
        c.funcs[key] = c.funcs.get(key, 0) + 1
        if c.on_call is not None:
            c.on_call(f)
        hook = self.call_hooks.get(key)
        if hook is not None:
            r = hook(self, f, v)
            if r is not NotImplemented:
                return r
        if f.isgen:
            return PyGen(self.run_gen(f, fr), f.qualname)
        if len(c.stack) > 250:
            raise Unsupported("recursion depth")
        if c.depth_limit is not None and len(c.stack) >= c.depth_limit:
            c.depth_hit = True
            self.throw("RecursionError", "maximum recursion depth exceeded")
        c.stack.append((f.module, f.qualname, c.loc))
        s = f.get_body()(fr)
        c.stack.pop()
        if s is not None and s[0] == "ret":
            return s[1]
        return None

    # generator functions: statement-by-statement host generator
    def run_gen(self, f, fr):
        return (yield from self.gblock(f.node.body, fr, f.fsc))

    def gblock(self, body, fr, sc):
        for s in body:
            r = yield from self.gstmt(s, fr, sc)
            if r is not None:
                return r

    def _cached(self, node, kind, sc):
        key = "_ai_" + kind
        f = getattr(node, key, None)
        if f is None:
            f = {"stmt": self.compile_stmt, "expr": self.compile_expr, "cond": self.compile_cond, "tgt": self.compile_target}[kind](node, sc)
            if f is None:
                f = lambda fr: None
            setattr(node, key, f)
        return f

    def gclose(self, body, fr, sc):
        for x in body:
            if self._cached(x, "stmt", sc)(fr) is not None:
                break

    def gstmt(self, s, fr, sc):
        c = State.ctx
        c.steps += 1
        if not has_yield(s):
            return self._cached(s, "stmt", sc)(fr)
        State.ctx.loc = (sc.module.name, s.lineno)
        if isinstance(s, ast.Expr):
            yield from self.gexpr(s.value, fr, sc)
            return None
        if isinstance(s, ast.Assign):
            v = yield from self.gexpr(s.value, fr, sc)
            for t in s.targets:
                self._cached(t, "tgt", sc)(fr, v)
            return None
        if isinstance(s, ast.Return):
            v = yield from self.gexpr(s.value, fr, sc)
            return ("ret", v)
        if isinstance(s, ast.If):
            if self._cached(s.test, "cond", sc)(fr):
                return (yield from self.gblock(s.body, fr, sc))
            return (yield from self.gblock(s.orelse, fr, sc))
        if isinstance(s, ast.For):
            for v in self.iterate(self._cached(s.iter, "expr", sc)(fr)):
                if isinstance(v, Rest):
                    yield v
                    continue
                self._cached(s.target, "tgt", sc)(fr, v)
                r = yield from self.gblock(s.body, fr, sc)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
            return (yield from self.gblock(s.orelse, fr, sc))
        if isinstance(s, ast.While):
            k = 0
            while self._cached(s.test, "cond", sc)(fr):
                k += 1
                if k > 5000:
                    raise Unsupported("loop bound")
                r = yield from self.gblock(s.body, fr, sc)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
            return (yield from self.gblock(s.orelse, fr, sc))
        if isinstance(s, ast.Try):
            try:
                handled = False
                try:
                    r = yield from self.gblock(s.body, fr, sc)
                except PyRaise as pr:
                    for h in s.handlers:
                        if h.type is None or self.exc_matches(pr.exc, self._cached(h.type, "expr", sc)(fr)):
                            if h.name:
                                fr.vars[h.name] = pr.exc
                            if not hasattr(c, "handling"):
                                c.handling = []
                            c.handling.append(pr.exc)
                            try:
                                r = yield from self.gblock(h.body, fr, sc)
                            finally:
                                c.handling.pop()
                            handled = True
                            break
                    if not handled:
                        raise
                if r is None and not handled:
                    r = yield from self.gblock(s.orelse, fr, sc)
            except PyRaise:
                if s.finalbody:
                    r2 = yield from self.gblock(s.finalbody, fr, sc)
                    if r2 is not None:
                        return r2
                raise
            except GeneratorExit:
                # closed while suspended
                if s.finalbody and getattr(State.ctx, "closing", False) and not any(has_yield(x) for x in s.finalbody):
                    self.gclose(s.finalbody, fr, sc)
                raise
            if s.finalbody:
                r2 = yield from self.gblock(s.finalbody, fr, sc)
                if r2 is not None:
                    return r2
            return r
        if isinstance(s, ast.With):
            def go(k):
                if k == len(s.items):
                    return (yield from self.gblock(s.body, fr, sc))
                i = s.items[k]
                val, ex = self.enter_ctx(self._cached(i.context_expr, "expr", sc)(fr))
                try:
                    if i.optional_vars is not None:
                        self._cached(i.optional_vars, "tgt", sc)(fr, val)
                    r = yield from go(k + 1)
                except PyRaise as pr:
                    if self.exit_ctx(ex, pr.exc):
                        return None
                    raise
                self.exit_ctx(ex, None)
                return r
            return (yield from go(0))
        if isinstance(s, ast.Match):
            pats = getattr(s, "_ai_pats", None)
            if pats is None:
                pats = s._ai_pats = [(self.compile_pattern(c.pattern, sc), self.compile_cond(c.guard, sc) if c.guard is not None else None, c.body) for c in s.cases]
            v = force(self._cached(s.subject, "expr", sc)(fr))
            for p, g, b in pats:
                if p(fr, v) and (g is None or g(fr)):
                    return (yield from self.gblock(b, fr, sc))
            return None
        raise Unsupported("yield inside " + type(s).__name__)

    def gexpr(self, e, fr, sc):
        if isinstance(e, ast.Yield):
            v = self._cached(e.value, "expr", sc)(fr) if e.value is not None else None
            r = yield v
            return r
        if isinstance(e, ast.YieldFrom):
            src = force(self._cached(e.value, "expr", sc)(fr))
            if isinstance(src, PyGen) and hasattr(src.it, "send"):
                r = yield from src.it
                return r[1] if isinstance(r, tuple) and len(r) == 2 and r[0] == "ret" else None
            for v in self.iterate(src):
                yield v
            return None
        if not has_yield(e):
            return self._cached(e, "expr", sc)(fr)
        raise Unsupported("yield expression")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = force(f)
        t = type(f)
        if t is PyFunc:
            return self.call_func(f, args, kwargs)
        if t is BoundMethod:
            return self.call(f.func, [f.self] + list(args), kwargs)
        if t is Native:
            return f.fn(self, args, kwargs)
        if t is PyClass:
            return self.instantiate(f, args, kwargs)
        if t is Inst:
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call(self.bind(m, f, f.cls), args, kwargs)
            self.B.need_host(f, "__call__")
            self.throw("TypeError", f"'{f.cls.name}' object is not callable")
        if t is Alias:
            return self.call(f.origin, args, kwargs)
        if t is Opaque:
            return Opaque(f.reason + "()")
        if t is SMeth:
            return self.call(f.f, args, kwargs)
        if t is CMeth:
            return self.call(f.f, args, kwargs)
        self.throw("TypeError", f"'{self.type_of(f).name}' object is not callable")

    def instantiate(self, cls, args, kwargs):
        if cls.members is not None:
            return self.B.enum_call(self, cls, args, kwargs)
        for c in cls.mro:
            if c.native_new is not None:
                return c.native_new(self, cls, args, kwargs)
            if "__new__" in c.ns and c.name != "object":
                nw = c.ns["__new__"]
                o = self.call(nw.f if isinstance(nw, SMeth) else nw, [cls] + list(args), kwargs)
                if isinstance(o, Inst) and o.cls.issub(cls):
                    self.init(o, cls, args, kwargs)
                return o
        o = Inst(cls)
        self.init(o, cls, args, kwargs)
        return o

    def init(self, o, cls, args, kwargs):
        if getattr(cls, "abstract_methods", None):
            for nm in self.B.abstract_names(cls):
                self.throw("TypeError", f"Can't instantiate abstract class {cls.name} without an implementation for abstract method '{nm}'")
        i = cls.lookup("__init__")
        if i is None:
            if args or kwargs:
                self.throw("TypeError", f"{cls.name}() takes no arguments")
            return
        self.call(self.bind(i, o, cls), args, kwargs)

    # ------------------------------------------------------------ attributes
    def bind(self, f, o, cls):
        t = type(f)
        if t is PyFunc or t is Native:
            return BoundMethod(f, o)
        if t is CMeth:
            return BoundMethod(f.f, cls)
        if t is SMeth:
            return f.f
        if t is Prop:
            return self.call(f.fget, [o], {})
        if t is Inst and f.cls.has("__get__"):
            return self.call(self.bind(f.cls.lookup("__get__"), f, f.cls), [o, cls], {})
        return f

    def getattr_(self, o, name, default=NotImplemented):
        try:
            return self._getattr(o, name)
        except PyRaise as pr:
            if default is not NotImplemented and pr.exc.cls.issub(self.builtins["AttributeError"]):
                return default
            raise

    def hasattr_(self, o, name):
        try:
            self._getattr(o, name)
            return True
        except PyRaise as pr:
            if pr.exc.cls.issub(self.builtins["AttributeError"]):
                return False
            raise

    def noattr(self, o, name):
        if isinstance(name, str) and name.startswith("__") and hasattr(object, name):
            raise Unsupported(f"attribute {name} of {self.type_of(o).name}")
        self.B.need_host(o, name)
        self.throw("AttributeError", core.cat(f"'{self.type_of(o).name}' object has no attribute '", name, "'"))

    def _getattr(self, o, name):
        o = force(o)
        t = type(o)
        if not isinstance(name, str):
            w = name.single() if isinstance(name, AbsStr) else None
            if w is None:
                raise Unsupported("getattr with abstract name")
            name = w
        if t is Inst:
            cls = o.cls
            cv = None
            found = False
            for c in cls.mro:
                if name in c.ns:
                    cv = c.ns[name]
                    found = True
                    break
            if found and type(cv) is Prop:
                return self.call(cv.fget, [o], {})
            if found and type(cv) is Inst and cv.cls.has("__set__") and cv.cls.has("__get__"):
                return self.bind(cv, o, cls)
            if name in o.attrs:
                return o.attrs[name]
            if found:
                return self.bind(cv, o, cls)
            if name == "__class__":
                return cls
            if name == "__dict__":
                return NsDict(o.attrs, o)
            if name == "__doc__":
                return None
            if cls.members is not None:
                if name == "value":
                    return o.attrs["_value_"]
                if name == "name":
                    return o.attrs["_name_"]
            g = cls.lookup("__getattr__")
            if g is not None:
                return self.call(self.bind(g, o, cls), [name], {})
            h = self.B.inst_attr(self, o, name)
            if h is not NotImplemented:
                return h
            self.noattr(o, name)
        if t is PyClass:
            return self.class_attr(o, name)
        if t is PyModule:
            if name in o.ns:
                return o.ns[name]
            if o.repo:
                self.throw("AttributeError", f"module '{o.name}' has no attribute '{name}'")
            return self.L.module_attr(self, o, name)
        if t is SuperObj:
            ob = o.obj
            oc = ob if isinstance(ob, PyClass) else ob.sub if isinstance(ob, PyList) else ob.cls
            mro = oc.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns and (c.module != "builtins" or not isinstance(ob, (PyList, PyDict))):
                    return self.bind(c.ns[name], ob, oc)
            h = self.B.super_attr(self, o, name)
            if h is not NotImplemented:
                return h
            self.throw("AttributeError", f"'super' object has no attribute '{name}'")
        if t is Opaque:
            return Opaque(f"{o.reason}.{name}")
        if t is PyFunc:
            return self.func_attr(o, name)
        if t is BoundMethod:
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if t is Alias:
            if name == "__origin__":
                return o.origin
            if name == "__args__":
                return o.args
            if name in ("__name__", "_name"):
                return self.getattr_(o.origin, "__name__")
            return self._getattr(o.origin, name)
        if t is AbsEnum:
            if name == "value" or name == "_value_":
                if o.src is not None:
                    return o.src
                return o.pick().attrs["_value_"]
            if name == "__class__":
                return o.cls
            if name == "name":
                return o.pick().attrs["_name_"]
            cv = o.cls.lookup(name)
            if cv is not None:
                return self.bind(cv, o, o.cls)
            self.noattr(o, name)
        r = self.B.builtin_attr(self, o, name)
        if r is NotImplemented:
            self.noattr(o, name)
        return r

    def func_attr(self, o, name):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__name__":
            return o.name
        if name == "__qualname__":
            return o.qualname
        if name == "__doc__":
            return o.doc
        if name == "__module__":
            return o.module
        if name == "__annotations__":
            return self.annotations(o)
        if name == "__defaults__":
            return tuple(o.defaults) or None
        if name == "__dict__":
            return NsDict(o.attrs, o)
        if name == "__code__":
            return Inst(self.builtins["object"], {"co_firstlineno": o.lineno, "co_name": o.name, "co_varnames": tuple(o.argnames), "co_argcount": len(o.argnames), "co_filename": self.files.get(o.module, "?")})
        if name in ("__call__",):
            return o
        self.throw("AttributeError", f"'function' object has no attribute '{name}'")

    def class_attr(self, o, name):
        for c in o.mro:
            if name in c.ns:
                v = c.ns[name]
                t = type(v)
                if t is CMeth:
                    return BoundMethod(v.f, o)
                if t is SMeth:
                    return v.f
                return v
        if name == "__name__":
            return o.name
        if name == "__qualname__":
            return o.qualname
        if name == "__module__":
            return o.module
        if name == "__mro__":
            return tuple(o.mro)
        if name == "__bases__":
            return tuple(o.bases)
        if name == "__class__":
            return self.type_of(o)
        if name == "__doc__":
            return None
        if name == "__dict__":
            return NsDict(o.ns, o)
        if name == "__subclasses__":
            return Native("__subclasses__", lambda it, a, k: PyList(o.subclasses))
        if name == "mro":
            return Native("mro", lambda it, a, k: PyList(o.mro))
        if name == "__members__" and o.members is not None:
            return PyDict([(m.attrs["_name_"], m) for m in o.members] + list(getattr(o, "enum_aliases", {}).items()))
        if name == "__annotations__":
            return o.ns.get("__annotations__", PyDict())
        if name == "__orig_bases__" and o.orig_bases:
            return tuple(o.orig_bases)
        if name == "__eq__" or name == "__hash__" or name == "__init_subclass__":
            return Native(name, lambda it, a, k: None)
        if name == "__dataclass_fields__" and o.dcfields is not None:
            return PyDict([(f.attrs["name"], f) for f in o.dcfields])
        if o.host is not None and hasattr(o.host, name):
            return self.B.unbound(self, o, name)
        if o.meta is not None:
            mv = o.meta.lookup(name)
            if mv is not None:
                return self.bind(mv, o, o.meta)
        for c in o.mro:
            if c.host is not None and c.host is not object and hasattr(c.host, name):
                return self.B.unbound(self, c, name)
        if name.startswith("__") and hasattr(object, name):
            oc = self.builtins.get("object")
            r = self.B.unbound(self, oc, name) if isinstance(oc, PyClass) and oc.host is object else None
            if r is None:
                raise Unsupported(f"{o.name}.{name}")
            return r
        if name.startswith("__") and name.endswith("__") and hasattr(type, name):
            raise Unsupported(f"{o.name}.{name}")
        self.throw("AttributeError", f"type object '{o.name}' has no attribute '{name}'")

    def setattr_(self, o, name, v):
        o = force(o)
        t = type(o)
        if t is Inst:
            cv = o.cls.lookup(name)
            if type(cv) is Prop:
                if cv.fset is None:
                    self.throw("AttributeError", f"property '{name}' of '{o.cls.qualname}' object has no setter")
                self.call(cv.fset, [o, v], {})
                return
            if type(cv) is Inst and cv.cls.has("__set__"):
                self.call(self.bind(cv.cls.lookup("__set__"), cv, cv.cls), [o, v], {})
                return
            sa = o.cls.lookup("__setattr__")
            if sa is not None:
                self.call(self.bind(sa, o, o.cls), [name, v], {})
                return
            if "__slots__" in o.cls.ns and name not in o.attrs:
                self.B.check_slot(self, o, name)
            log_mut(o, ("attr", name, name in o.attrs, o.attrs.get(name)))
            o.attrs[name] = v
            return
        if t is PyClass:
            log_mut(o, ("ns", name, name in o.ns, o.ns.get(name)))
            o.ns[name] = v
            return
        if t is PyModule:
            log_mut(o, ("ns", name, name in o.ns, o.ns.get(name)))
            if not o.repo and not State.loading:
                State.ctx.effects.append(("module-setattr", o.name, name))
            o.ns[name] = v
            return
        if t is PyFunc:
            log_mut(o, ("attr", name, name in o.attrs, o.attrs.get(name)))
            o.attrs[name] = v
            return
        if t is BoundMethod:
            self.throw("AttributeError", f"'method' object has no attribute '{name}'")
        if t is Opaque:
            return
        if t is Native:
            o.attrs[name] = v
            return
        self.throw("AttributeError", f"'{self.type_of(o).name}' object has no attribute '{name}'")

    def delattr_(self, o, name):
        o = force(o)
        if type(o) is Inst:
            cv = o.cls.lookup(name)
            if type(cv) is Prop and cv.fdel is not None:
                self.call(cv.fdel, [o], {})
                return
            da = o.cls.lookup("__delattr__")
            if isinstance(da, PyFunc):
                self.call(self.bind(da, o, o.cls), [name], {})
                return
        if type(o) is Inst and name in o.attrs:
            log_mut(o, ("attr", name, True, o.attrs.get(name)))
            del o.attrs[name]
            return
        if type(o) in (PyClass, PyModule) and name in o.ns:
            log_mut(o, ("ns", name, True, o.ns.get(name)))
            del o.ns[name]
            return
        self.noattr(o, name)

    # ------------------------------------------------------------ everything else is in builtins_
    def type_of(self, v):
        return self.B.type_of(self, v)

    def truth(self, v):
        return self.B.truth(self, v)

    def eq(self, a, b):
        return self.B.eq(self, a, b)

    def is_(self, a, b):
        return self.B.is_(self, a, b)

    def compare(self, op, a, b):
        return self.B.compare(self, op, a, b)

    def binop(self, op, a, b):
        return self.B.binop(self, op, a, b)

    def getitem(self, o, k):
        return self.B.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.B.setitem(self, o, k, v)

    def delitem(self, o, k):
        return self.B.delitem(self, o, k)

    def iterate(self, v):
        return self.B.iterate(self, v)

    def len_(self, v):
        return self.B.len_(self, v)

    def str_(self, v):
        return self.B.str_(self, v)

    def repr_(self, v):
        return self.B.repr_(self, v)

    def isinstance_(self, v, t):
        return self.B.isinstance_(self, v, t)

    def format_value(self, v, conv, spec):
        return self.B.format_value(self, v, conv, spec)

    def dict_items(self, v):
        return self.B.dict_items(self, v)

    def make_class(self, name, bases, ns, kw, module, qualname):
        return self.B.make_class(self, name, bases, ns, kw, module, qualname)


def mangle(cls):
    """private names (__x) of a class body, as the language rewrites them"""
    if getattr(cls, "_ai_mangled", False):
        return
    cls._ai_mangled = True
    pre = "_" + cls.name.lstrip("_")
    if pre == "_":
        return

    def nm(x):
        return pre + x if isinstance(x, str) and x.startswith("__") and not x.endswith("__") and "." not in x else x

    def go(x):
        if isinstance(x, ast.ClassDef):
            for y in x.bases + x.decorator_list:
                go(y)
            mangle(x)
            x.name = nm(x.name)
            return
        for f in ("attr", "id", "name", "arg", "rest"):
            v = getattr(x, f, None)
            if isinstance(v, str) and not isinstance(x, ast.alias):
                setattr(x, f, nm(v))
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            x.names = [nm(y) for y in x.names]
        for y in ast.iter_child_nodes(x):
            go(y)
    for b in cls.body:
        go(b)


class NsDict:
    """dict view of a namespace (globals(), locals(), vars(), __dict__)"""
    __slots__ = ("d", "owner")

    def __init__(self, d, owner=None):
        self.d = d
        self.owner = owner


class SliceV:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


OPS = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}
DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "FloorDiv": "__floordiv__", "Mod": "__mod__", "Pow": "__pow__", "BitOr": "__or__", "BitAnd": "__and__", "BitXor": "__xor__", "LShift": "__lshift__", "RShift": "__rshift__", "MatMult": "__matmul__"}
