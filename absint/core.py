"""The evaluator: Python statements and expressions over abstract values."""
import ast
import sys

from .values import *   # noqa
from .state import Undecided, Infeasible, lin_of, lin_add, lin_norm, lin_scale
from . import fold

NOTIMPL = NotImplemented


class PyExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, value, site=None):
        super().__init__()
        self.value = value
        self.site = site


class Env:
    __slots__ = ("vars", "parent", "module", "func", "glob", "nonloc", "is_class", "locals")

    def __init__(self, vars, parent, module, func=None, locals=None, is_class=False):
        self.vars = vars
        self.parent = parent
        self.module = module
        self.func = func
        self.glob = None
        self.nonloc = None
        self.is_class = is_class
        self.locals = locals


BRK = ("break",)
CNT = ("continue",)

_FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def contains_yield(node):
    r = getattr(node, "_has_yield", None)
    if r is None:
        r = False
        stack = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, _FN):
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._has_yield = r
    return r


def local_names(node):
    r = getattr(node, "_locals", None)
    if r is not None:
        return r
    names = set()
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def visit(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    r = frozenset(names - out)
    node._locals = r
    return r


class Mangler(ast.NodeTransformer):
    def __init__(self):
        self.cls = [None]

    def m(self, n):
        c = self.cls[-1]
        if c and n.startswith("__") and not n.endswith("__"):
            return "_" + c.lstrip("_") + n
        return n

    def visit_ClassDef(self, node):
        node.name = node.name
        self.cls.append(node.name)
        self.generic_visit(node)
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        node.name = self.m(node.name)
        self.generic_visit(node)
        return node

    def visit_Attribute(self, node):
        node.attr = self.m(node.attr)
        self.generic_visit(node)
        return node

    def visit_Name(self, node):
        node.id = self.m(node.id)
        return node

    def visit_arg(self, node):
        node.arg = self.m(node.arg)
        self.generic_visit(node)
        return node

    def visit_keyword(self, node):
        if node.arg:
            node.arg = self.m(node.arg)
        self.generic_visit(node)
        return node


class Core:
    """Statement/expression semantics.  Subclassed by Interp which adds operations, builtins, libraries."""

    STEP_LIMIT = 400_000
    DEPTH_LIMIT = 160

    # ------------------------------------------------------------------ errors
    def throw(self, cls, *args):
        raise PyExc(Obj(cls, {"args": tuple(args)}), self.site())

    def site(self):
        c = self.cur
        if c is None:
            return "?"
        return f"{c[0]}:{c[2]} {c[1]}"

    def undecided(self, why):
        raise Undecided(f"{why} at {self.site()}")

    def touch(self, obj):
        """Called before an existing heap object is written."""
        if obj.uid <= self.watermark:
            if obj.uid not in self.journal:
                self.journal[obj.uid] = (obj, obj.snap())
        if self.write_hook is not None:
            self.write_hook(obj)

    # ------------------------------------------------------------------ names
    def lookup(self, env, name):
        e = env
        first = True
        while e is not None:
            if first or not e.is_class:
                if name in e.vars and not (e.glob and name in e.glob):
                    return e.vars[name]
                if e.locals is not None and name in e.locals and not (e.glob and name in e.glob):
                    self.throw(UnboundLocalError if first else NameError, f"unbound {name}")
            first = False
            e = e.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        if name in self.builtins:
            return self.builtins[name]
        self.throw(NameError, f"name {name!r} is not defined")

    def store(self, env, name, v):
        if env.glob and name in env.glob:
            self.touch(env.module)
            env.module.ns[name] = v
            return
        if env.nonloc and name in env.nonloc:
            e = env.parent
            while e is not None:
                if not e.is_class and name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        if env.vars is env.module.ns:
            self.touch(env.module)
        env.vars[name] = v

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.steps += 1
            if self.steps > self.STEP_LIMIT:
                raise Undecided("step limit")
            self.cur = (env.module.name, env.func.qualname if env.func else "<module>", s.lineno)
            r = self.STMT[type(s)](self, s, env)
            if r is not None:
                return r
        return None

    def s_expr(self, s, env):
        self.ev(s.value, env)

    def s_assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_annassign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)
        if isinstance(s.target, ast.Name) and env.is_class:
            env.vars.setdefault("__annotations_order__", []).append(s.target.id)

    def s_augassign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            self.store(env, t.id, self.inplace(s.op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, cur, self.ev(s.value, env)))
        else:
            self.undecided("augassign target")

    def s_return(self, s, env):
        return ("return", self.ev(s.value, env) if s.value is not None else None)

    def s_if(self, s, env):
        if self.truth(self.ev(s.test, env)):
            return self.exec_block(s.body, env)
        return self.exec_block(s.orelse, env)

    def s_for(self, s, env):
        it = self.iterate(self.ev(s.iter, env))
        for v in it:
            self.assign(s.target, v, env)
            r = self.exec_block(s.body, env)
            if r is BRK:
                self.close_iter(it)
                return None
            if r is not None and r is not CNT:
                return r
        return self.exec_block(s.orelse, env)

    def close_iter(self, it):
        pass

    def s_while(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 300:
                raise Undecided("loop bound")
            r = self.exec_block(s.body, env)
            if r is BRK:
                return None
            if r is not None and r is not CNT:
                return r
        return self.exec_block(s.orelse, env)

    def s_break(self, s, env):
        return BRK

    def s_continue(self, s, env):
        return CNT

    def s_pass(self, s, env):
        return None

    def s_raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                self.throw(RuntimeError, "No active exception to reraise")
            raise PyExc(self.exc_stack[-1], self.site())
        v = self.ev(s.exc, env)
        if isinstance(v, ClassVal) or (isinstance(v, type) and issubclass(v, BaseException)):
            v = self.call(v, [], {})
        if s.cause is not None:
            self.ev(s.cause, env)
        if not self.is_exc(v):
            self.throw(TypeError, "exceptions must derive from BaseException")
        raise PyExc(v, self.site())

    def is_exc(self, v):
        if not isinstance(v, Obj):
            return False
        if isinstance(v.cls, type):
            return issubclass(v.cls, BaseException)
        return v.cls.builtin_base is not None and issubclass(v.cls.builtin_base, BaseException)

    def exc_matches(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.exc_matches(exc, t) for t in typ)
        if isinstance(typ, ClassVal):
            return isinstance(exc.cls, ClassVal) and typ in exc.cls.mro
        if isinstance(typ, type):
            if isinstance(exc.cls, type):
                return issubclass(exc.cls, typ)
            return typ in exc.cls.mro
        if isinstance(typ, Ext):
            self.undecided(f"except {typ.name}")
        self.throw(TypeError, "catching classes that do not inherit from BaseException is not allowed")

    def s_try(self, s, env):
        def body():
            try:
                r = self.exec_block(s.body, env)
            except PyExc as e:
                depth = self.depth
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.value, self.ev(h.type, env)):
                        if h.name:
                            self.store(env, h.name, e.value)
                        self.exc_stack.append(e.value)
                        try:
                            r = self.exec_block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                            self.depth = depth
                        if h.name:
                            env.vars.pop(h.name, None)
                        return r
                raise
            if r is None:
                r = self.exec_block(s.orelse, env)
            return r
        if not s.finalbody:
            return body()
        try:
            r = body()
        except PyExc:
            fr = self.exec_block(s.finalbody, env)
            if fr is not None:
                return fr
            raise
        fr = self.exec_block(s.finalbody, env)
        return fr if fr is not None else r

    def s_with(self, s, env):
        return self.with_items(s, 0, env)

    def with_items(self, s, i, env):
        if i == len(s.items):
            return self.exec_block(s.body, env)
        it = s.items[i]
        cm = self.ev(it.context_expr, env)
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            r = self.with_items(s, i + 1, env)
        except PyExc as e:
            sup = self.call(exit_, [e.value.cls, e.value, None], {})
            if self.truth(sup):
                return None
            raise
        self.call(exit_, [None, None, None], {})
        return r

    def s_assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            args = [self.ev(s.msg, env)] if s.msg is not None else []
            self.throw(AssertionError, *args)

    def s_global(self, s, env):
        env.glob = set(s.names) | (env.glob or set())

    def s_nonlocal(self, s, env):
        env.nonloc = set(s.names) | (env.nonloc or set())

    def s_delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    self.throw(NameError, t.id)
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    self.touch(o)
                    del o.attrs[t.attr]
                else:
                    self.undecided("del attribute")
            else:
                self.undecided("del target")

    def make_func(self, node, env, name, doc=None):
        f = FuncVal(node, None, env.module, name, name)
        e = env
        while e is not None and e.is_class:
            e = e.parent
        f.env = e if (e is not None and e.vars is not env.module.ns) else None
        prefix = ""
        if env.is_class:
            prefix = env.vars.get("__qualname__", "") + "."
        elif env.func is not None:
            prefix = env.func.qualname + ".<locals>."
        f.qualname = prefix + name
        a = node.args
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kwdefaults = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.locals = local_names(node)
        if isinstance(node, ast.Lambda):
            f.isgen = contains_yield(node)
        else:
            f.isgen = contains_yield(node)
        return f

    def s_funcdef(self, s, env):
        decs = [self.ev(d, env) for d in s.decorator_list]
        f = self.make_func(s, env, s.name)
        if env.is_class:
            env.vars.setdefault("__funcs__", []).append(f)
        for d in reversed(decs):
            f = self.call(d, [f], {})
        self.store(env, s.name, f)

    def s_classdef(self, s, env):
        decs = [self.ev(d, env) for d in s.decorator_list]
        raw = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                raw += list(self.iterate(self.ev(b.value, env)))
            else:
                raw.append(self.ev(b, env))
        kw = {}
        for k in s.keywords:
            kw[k.arg] = self.ev(k.value, env)
        qual = s.name
        if env.is_class:
            qual = env.vars.get("__qualname__", "") + "." + s.name
        elif env.func is not None:
            qual = env.func.qualname + ".<locals>." + s.name
        ns = {"__qualname__": qual, "__module__": env.module.name}
        cenv = Env(ns, env if env.vars is not env.module.ns else None, env.module, env.func, None, True)
        self.exec_block(s.body, cenv)
        doc = ast.get_docstring(s, clean=False)
        ns.setdefault("__doc__", doc)
        cls = self.make_class(s.name, raw, ns, env.module.name, kw, qual)
        for d in reversed(decs):
            cls = self.call(d, [cls], {})
        self.store(env, s.name, cls)

    def make_class(self, name, raw_bases, ns, modname, kw=None, qualname=None):
        kw = dict(kw or {})
        kw.pop("metaclass", None)
        bases = []
        has_alias = False
        for b in raw_bases:
            if isinstance(b, Alias):
                has_alias = True
                bases.append(b.origin)
            elif isinstance(b, Typing):
                has_alias = has_alias or bool(b.args)
                if b.name in ("NamedTuple", "TypedDict", "Protocol") and b.name == "NamedTuple":
                    self.undecided("NamedTuple class")
            elif isinstance(b, (ClassVal, type)):
                bases.append(b)
            elif isinstance(b, Ext):
                if b.name in ("abc.ABC",):
                    continue
                self.undecided(f"base class {b.name}")
            else:
                self.throw(TypeError, "bad base class")
        if not bases:
            bases = [object]
        funcs = ns.pop("__funcs__", [])
        try:
            cls = ClassVal(name, tuple(bases), ns, modname, tuple(raw_bases), qualname)
        except TypeError:
            self.throw(TypeError, "Cannot create a consistent method resolution order (MRO)")
        if has_alias:
            ns["__orig_bases__"] = tuple(raw_bases)
        for f in funcs:
            f.defcls = cls
        if "__eq__" in ns and "__hash__" not in ns:
            ns["__hash__"] = None
        abstract = set()
        for c in reversed(cls.mro):
            if isinstance(c, ClassVal):
                for k, v in c.ns.items():
                    fn = v.fget if isinstance(v, Prop) else v
                    if isinstance(fn, FuncVal) and fn.attrs.get("__isabstractmethod__"):
                        abstract.add(k)
                    else:
                        abstract.discard(k)
        cls.abstract = abstract
        for k, v in list(ns.items()):
            sn = None
            if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
                sn, _ = v.cls.lookup("__set_name__")
            if sn is not None:
                self.call(sn, [v, cls, k], {})
        # __init_subclass__
        for c in cls.mro[1:]:
            if isinstance(c, ClassVal) and "__init_subclass__" in c.ns:
                f = c.ns["__init_subclass__"]
                if isinstance(f, ClassM):
                    f = f.func
                self.call(f, [cls], kw)
                break
        else:
            if kw:
                self.throw(TypeError, f"{name}.__init_subclass__() takes no keyword arguments")
        return cls

    def s_import(self, s, env):
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store(env, al.asname, m)
            else:
                self.store(env, al.name.split(".")[0], self.import_module(al.name.split(".")[0]))

    def s_importfrom(self, s, env):
        mod = s.module or ""
        if s.level:
            base = env.module.name.split(".")
            if not env.module.is_pkg:
                base = base[:-1]
            up = s.level - 1
            if up:
                base = base[:-up]
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        m = self.import_module(mod)
        for al in s.names:
            if al.name == "*":
                if not isinstance(m, ModuleVal):
                    self.undecided(f"star import of {mod}")
                names = m.ns.get("__all__")
                names = [n for n in self.iterate(names)] if names is not None else \
                    [n for n in m.ns if not n.startswith("_")]
                for n in names:
                    self.store(env, n, self.module_attr(m, n))
            else:
                self.store(env, al.asname or al.name, self.module_attr(m, al.name, imp=True))

    def s_match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            binds = {}
            if self.match_pat(c.pattern, v, env, binds):
                for k, x in binds.items():
                    self.store(env, k, x)
                if c.guard is None or self.truth(self.ev(c.guard, env)):
                    return self.exec_block(c.body, env)
        return None

    def match_pat(self, p, v, env, binds):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env, binds) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env)
            if not self.isinstance(v, c):
                return False
            if p.patterns:
                if c in (int, float, str, bytes, bool, list, dict, tuple, set, frozenset, bytearray) \
                        and len(p.patterns) == 1:
                    if not self.match_pat(p.patterns[0], v, env, binds):
                        return False
                else:
                    names = self.getattr(c, "__match_args__")
                    for n, q in zip(names, p.patterns):
                        if not self.match_pat(q, self.getattr(v, n), env, binds):
                            return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    a = self.getattr(v, n)
                except PyExc as e:
                    if self.exc_matches(e.value, AttributeError):
                        return False
                    raise
                if not self.match_pat(q, a, env, binds):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.force_shape(v)
            if isinstance(v, ListObj):
                items = list(v.items)
            elif isinstance(v, tuple):
                items = list(v)
            else:
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(items) == len(p.patterns) and \
                    all(self.match_pat(q, x, env, binds) for q, x in zip(p.patterns, items))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(items) < i + after:
                return False
            ok = all(self.match_pat(q, x, env, binds) for q, x in zip(p.patterns[:i], items[:i]))
            if ok and after:
                ok = all(self.match_pat(q, x, env, binds) for q, x in zip(p.patterns[-after:], items[-after:]))
            if ok and p.patterns[i].name:
                binds[p.patterns[i].name] = ListObj(items[i:len(items) - after])
            return ok
        self.undecided("match pattern")

    def s_other(self, s, env):
        self.undecided(f"statement {type(s).__name__}")

    # ------------------------------------------------------------------ assignment targets
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    self.throw(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, ListObj(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
            else:
                if len(items) != len(t.elts):
                    self.throw(ValueError, "not enough values to unpack" if len(items) < len(t.elts)
                               else "too many values to unpack")
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
        else:
            self.undecided("assignment target")

    # ------------------------------------------------------------------ generator execution
    def gen_block(self, stmts, env):
        for s in stmts:
            if not contains_yield(s):
                r = self.exec_block([s], env)
                if r is not None:
                    return r
                continue
            self.steps += 1
            if self.steps > self.STEP_LIMIT:
                raise Undecided("step limit")
            self.cur = (env.module.name, env.func.qualname if env.func else "<module>", s.lineno)
            if isinstance(s, ast.Expr):
                yield from self.gen_yield(s.value, env)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                v = yield from self.gen_yield(s.value, env)
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    self.assign(t, v, env)
            elif isinstance(s, ast.Return):
                v = yield from self.gen_yield(s.value, env)
                return ("return", v)
            elif isinstance(s, ast.If):
                if contains_yield(s.test):
                    self.undecided("yield in test")
                r = yield from self.gen_block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
                if r is not None:
                    return r
            elif isinstance(s, ast.For):
                brk = False
                for v in self.iterate(self.ev(s.iter, env)):
                    self.assign(s.target, v, env)
                    r = yield from self.gen_block(s.body, env)
                    if r is BRK:
                        brk = True
                        break
                    if r is not None and r is not CNT:
                        return r
                if not brk:
                    r = yield from self.gen_block(s.orelse, env)
                    if r is not None:
                        return r
            elif isinstance(s, ast.While):
                brk = False
                n = 0
                while self.truth(self.ev(s.test, env)):
                    n += 1
                    if n > 300:
                        raise Undecided("loop bound")
                    r = yield from self.gen_block(s.body, env)
                    if r is BRK:
                        brk = True
                        break
                    if r is not None and r is not CNT:
                        return r
                if not brk:
                    r = yield from self.gen_block(s.orelse, env)
                    if r is not None:
                        return r
            elif isinstance(s, ast.Try):
                r = yield from self.gen_try(s, env)
                if r is not None:
                    return r
            elif isinstance(s, ast.With):
                self.undecided("yield inside with")
            else:
                self.undecided(f"yield inside {type(s).__name__}")
        return None

    def gen_try(self, s, env):
        r = None
        try:
            try:
                r = yield from self.gen_block(s.body, env)
                if r is None:
                    r = yield from self.gen_block(s.orelse, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.value, self.ev(h.type, env)):
                        if h.name:
                            self.store(env, h.name, e.value)
                        r = yield from self.gen_block(h.body, env)
                        break
                else:
                    raise
        except PyExc:
            if s.finalbody:
                fr = yield from self.gen_block(s.finalbody, env)
                if fr is not None:
                    return fr
            raise
        if s.finalbody:
            fr = yield from self.gen_block(s.finalbody, env)
            if fr is not None:
                return fr
        return r

    def gen_yield(self, e, env):
        if isinstance(e, ast.Yield):
            v = self.ev(e.value, env) if e.value is not None else None
            sent = yield v
            return sent
        if isinstance(e, ast.YieldFrom):
            src = self.ev(e.value, env)
            for v in self.iterate(src):
                yield v
            return None
        if isinstance(e, ast.Await):
            self.undecided("await")
        self.undecided("nested yield expression")

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        return self.EXPR[type(e)](self, e, env)

    def e_const(self, e, env):
        return e.value

    def e_name(self, e, env):
        name = e.id
        vs = env.vars
        if name in vs and not env.glob:
            return vs[name]
        return self.lookup(env, name)

    def e_attr(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_call(self, e, env):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args:
            return self.make_super(env)
        f = self.ev(fn, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force_shape(self.ev(k.value, env))
                if isinstance(d, DictObj):
                    for kk, vv in d.entries:
                        if not isinstance(kk, str):
                            self.throw(TypeError, "keywords must be strings")
                        if kk in kwargs:
                            self.throw(TypeError, f"multiple values for keyword argument {kk!r}")
                        kwargs[kk] = vv
                else:
                    self.undecided("** of non-dict")
            else:
                if k.arg in kwargs:
                    self.throw(TypeError, f"multiple values for keyword argument {k.arg!r}")
                kwargs[k.arg] = self.ev(k.value, env)
        save = self.cur
        if save is not None:
            self.cur = (save[0], save[1], e.lineno)
        r = self.call(f, args, kwargs)
        self.cur = save
        return r

    def make_super(self, env):
        e = env
        while e is not None:
            f = e.func
            if f is not None and f.defcls is not None and not e.is_class:
                a = f.node.args
                names = [x.arg for x in a.posonlyargs + a.args]
                if names and names[0] in e.vars:
                    return SuperVal(f.defcls, e.vars[names[0]])
            e = e.parent
        self.throw(RuntimeError, "super(): no arguments")

    def e_binop(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def e_unary(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return self.unary(e.op, v)

    def e_boolop(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if x is e.values[-1]:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_compare(self, e, env):
        l = self.ev(e.left, env)
        res = True
        n = len(e.ops)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(c, env)
            res = self.compare(op, l, r)
            if i < n - 1 and not self.truth(res):
                return res
            l = r
        return res

    def e_ifexp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def seq_items(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_list(self, e, env):
        return ListObj(self.seq_items(e.elts, env))

    def e_tuple(self, e, env):
        return tuple(self.seq_items(e.elts, env))

    def e_set(self, e, env):
        s = SetObj()
        for v in self.seq_items(e.elts, env):
            self.set_add(s, v)
        return s

    def e_dict(self, e, env):
        d = DictObj()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.force_shape(self.ev(v, env))
                if isinstance(src, DictObj):
                    for kk, vv in list(src.entries):
                        self.dict_set(d, kk, vv)
                elif isinstance(src, Obj):
                    for kk in list(self.iterate(self.call(self.getattr(src, "keys"), [], {}))):
                        self.dict_set(d, kk, self.getitem(src, kk))
                else:
                    self.throw(TypeError, "argument must be a mapping")
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def e_subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev(e.slice, env))

    def e_slice(self, e, env):
        return SliceVal(*(self.ev(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)))

    def e_lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_joined(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.conversion == 114:
                    x = self.repr(x)
                elif v.conversion == 115:
                    x = self.str(x)
                elif v.conversion == 97:
                    self.undecided("!a")
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ""
                parts.append(self.format(x, spec))
        return mk_cat(parts)

    def e_named(self, e, env):
        v = self.ev(e.value, env)
        s = env     # comprehension scopes have locals None
        while s.locals is None and s.parent is not None:
            s = s.parent
        self.store(s, e.target.id, v)
        return v

    def comp_loop(self, gens, i, env, first=None):
        """Python generator: enters each binding of the comprehension."""
        if i == len(gens):
            yield None
            return
        g = gens[i]
        src = first if i == 0 and first is not None else self.iterate(self.ev(g.iter, env))
        for v in src:
            self.steps += 1
            if self.steps > self.STEP_LIMIT:
                raise Undecided("step limit")
            self.assign(g.target, v, env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs):
                yield from self.comp_loop(gens, i + 1, env)

    def comp_env(self, env):
        e = Env({}, env if env.vars is not env.module.ns else None, env.module, env.func, None)
        if env.vars is env.module.ns:
            e.parent = None
        return e

    def e_listcomp(self, e, env):
        ce = self.comp_env(env)
        first = self.iterate(self.ev(e.generators[0].iter, env))
        out = []
        for _ in self.comp_loop(e.generators, 0, ce, first):
            out.append(self.ev(e.elt, ce))
        return ListObj(out)

    def e_setcomp(self, e, env):
        ce = self.comp_env(env)
        first = self.iterate(self.ev(e.generators[0].iter, env))
        s = SetObj()
        for _ in self.comp_loop(e.generators, 0, ce, first):
            self.set_add(s, self.ev(e.elt, ce))
        return s

    def e_dictcomp(self, e, env):
        ce = self.comp_env(env)
        first = self.iterate(self.ev(e.generators[0].iter, env))
        d = DictObj()
        for _ in self.comp_loop(e.generators, 0, ce, first):
            k = self.ev(e.key, ce)
            self.dict_set(d, k, self.ev(e.value, ce))
        return d

    def e_genexp(self, e, env):
        ce = self.comp_env(env)
        first = self.iterate(self.ev(e.generators[0].iter, env))

        def gen():
            for _ in self.comp_loop(e.generators, 0, ce, first):
                yield self.ev(e.elt, ce)
        return GenObj(gen(), "genexpr")

    def e_other(self, e, env):
        self.undecided(f"expression {type(e).__name__}")

    # ------------------------------------------------------------------ calls
    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = a.posonlyargs + a.args
        vars = {}
        n = len(pos)
        npo = len(a.posonlyargs)
        if len(args) > n:
            if a.vararg is None:
                self.throw(TypeError, f"{f.name}() takes {n} positional arguments but {len(args)} were given")
            vars[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        for p, v in zip(pos, args):
            vars[p.arg] = v
        extra = None
        kwnames = {x.arg for x in a.kwonlyargs} | {x.arg for x in a.args}
        for k, v in kwargs.items():
            if k in kwnames:
                if k in vars:
                    self.throw(TypeError, f"{f.name}() got multiple values for argument {k!r}")
                vars[k] = v
            else:
                if a.kwarg is None:
                    self.throw(TypeError, f"{f.name}() got an unexpected keyword argument {k!r}")
                if extra is None:
                    extra = []
                extra.append([k, v])
        if a.kwarg is not None:
            vars[a.kwarg.arg] = DictObj(extra or [])
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars:
                j = i - (n - nd)
                if j >= 0:
                    vars[p.arg] = f.defaults[j]
                else:
                    self.throw(TypeError, f"{f.qualname}() missing 1 required positional argument: {p.arg!r}")
        for p in a.kwonlyargs:
            if p.arg not in vars:
                if p.arg in f.kwdefaults:
                    vars[p.arg] = f.kwdefaults[p.arg]
                else:
                    self.throw(TypeError, f"{f.name}() missing required keyword-only argument: {p.arg!r}")
        return vars

    def call_func(self, f, args, kwargs):
        vars = self.bind(f, args, kwargs)
        env = Env(vars, f.env, f.module, f, f.locals)
        if f.isgen:
            def gen():
                save = self.cur
                yield from self.gen_block(f.node.body, env)
                self.cur = save
            return GenObj(gen(), f.qualname)
        self.depth += 1
        if self.depth > self.DEPTH_LIMIT:
            self.depth = 0
            raise Undecided("recursion depth")
        save = self.cur
        d = self.depth
        self.stack.append(f.qualname)
        self.functions.add((f.module.name, f.qualname))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            r = self.exec_block(f.node.body, env)
        finally:
            self.depth = d - 1
            self.stack.pop()
        self.cur = save
        return r[1] if r is not None else None

    STMT = {}
    EXPR = {}


class SliceVal:
    __slots__ = ("lower", "upper", "step")

    def __init__(self, lower, upper, step):
        self.lower, self.upper, self.step = lower, upper, step


C = Core
for _c, _m in ((ast.Expr, C.s_expr), (ast.Assign, C.s_assign), (ast.AnnAssign, C.s_annassign),
               (ast.AugAssign, C.s_augassign), (ast.Return, C.s_return), (ast.If, C.s_if), (ast.For, C.s_for),
               (ast.While, C.s_while), (ast.Break, C.s_break), (ast.Continue, C.s_continue),
               (ast.Pass, C.s_pass), (ast.Raise, C.s_raise), (ast.Try, C.s_try), (ast.With, C.s_with),
               (ast.Assert, C.s_assert), (ast.Global, C.s_global), (ast.Nonlocal, C.s_nonlocal),
               (ast.Delete, C.s_delete), (ast.FunctionDef, C.s_funcdef), (ast.ClassDef, C.s_classdef),
               (ast.Import, C.s_import), (ast.ImportFrom, C.s_importfrom), (ast.Match, C.s_match),
               (ast.AsyncFunctionDef, C.s_other), (ast.AsyncFor, C.s_other), (ast.AsyncWith, C.s_other),
               (ast.TryStar, C.s_other)):
    C.STMT[_c] = _m
for _c, _m in ((ast.Constant, C.e_const), (ast.Name, C.e_name), (ast.Attribute, C.e_attr),
               (ast.Call, C.e_call), (ast.BinOp, C.e_binop), (ast.UnaryOp, C.e_unary),
               (ast.BoolOp, C.e_boolop), (ast.Compare, C.e_compare), (ast.IfExp, C.e_ifexp),
               (ast.List, C.e_list), (ast.Tuple, C.e_tuple), (ast.Set, C.e_set), (ast.Dict, C.e_dict),
               (ast.Subscript, C.e_subscript), (ast.Slice, C.e_slice), (ast.Lambda, C.e_lambda),
               (ast.JoinedStr, C.e_joined), (ast.NamedExpr, C.e_named), (ast.ListComp, C.e_listcomp),
               (ast.SetComp, C.e_setcomp), (ast.DictComp, C.e_dictcomp), (ast.GeneratorExp, C.e_genexp),
               (ast.Yield, C.e_other), (ast.YieldFrom, C.e_other), (ast.Await, C.e_other),
               (ast.Starred, C.e_other), (ast.FormattedValue, C.e_other)):
    C.EXPR[_c] = _m
if hasattr(ast, "TypeAlias"):
    C.STMT[ast.TypeAlias] = C.s_other
