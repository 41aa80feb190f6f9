"""The interpreter assembled: module loading, abstract member schemas, path exploration."""
import ast
import os
import sys
import time

from .values import *   # noqa
from .state import State, Choices, Infeasible, Undecided
from .core import Core, PyExc, Env, Mangler, SliceVal
from .ops import Ops
from .builtin import Builtins, BUILTINS
from .extern import Extern
from . import fold, extern, astmodel

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE_DIRS = ["/opt/venv/lib/python3.12/site-packages", "/usr/lib/python3/dist-packages",
             "/usr/local/lib/python3.12/dist-packages"]
INTERPRETED = {"d42": None, "th": None}
NATIVE = ("absint_member", "absint_native", "absint_model")

OPAQUE_SRC = '''
from niltype import Nil
from d42.custom_type import CustomSchema, Props
from d42.validation.errors import ValidationError


class OpaqueProps(Props):
    @property
    def id(self):
        return self.get("id")


class MemberError(ValidationError):
    def __init__(self, path, actual_value, owner):
        self.path = path
        self.actual_value = actual_value
        self.owner = owner

    def format(self, formatter):
        return _native_format(self.owner, self.actual_value)

    def __repr__(self):
        return "MemberError()"


class Member(CustomSchema[OpaqueProps]):
    def __validate__(self, visitor, *, value=Nil, path=Nil, **kwargs):
        return _native_validate(self, visitor, value, path)

    def __generate__(self, visitor, **kwargs):
        return _native_generate(self, visitor)

    def __substitute__(self, visitor, *, value=Nil, **kwargs):
        return _native_substitute(self, visitor, value)

    def __represent__(self, visitor, *, indent=0, **kwargs):
        return _native_represent(self, visitor, indent)
'''


class ReplayError(Exception):
    pass


class Interp(Core, Ops, Builtins, Extern):
    SHAPE_MAX = 3
    EXTREME = frozenset()      # kinds of draws whose least, middle and greatest outcomes are taken one by one
    EXTREME_ALL = 0            # up to this many outcomes are all taken one by one
    EXTREME_DEPTH = None       # after this many draws the outcomes take turns instead

    def __init__(self, repo=REPO, set_order=False):
        self.repo = repo
        self.modules = {}
        self.cur = None
        self.steps = 0
        self.depth = 0
        self.exc_stack = []
        self.stack = []
        self.functions = set()
        self.watermark = 0
        self.journal = {}
        self.write_hook = None
        self.builtins = BUILTINS
        self.sources_read = {}
        self.missing = []
        self.st = State(Choices())
        fold.install_rules(self.st)
        self.st.site = self.site
        self.reset_env()
        self.sub_axioms = True
        self.STEP_LIMIT = 10 ** 9
        self.set_order = set_order
        self.load_all()
        self.load_iterations = list(self.set_iterations)
        self.STEP_LIMIT = 400_000
        self.reset_env()
        self.seal()

    def seal(self):
        self.watermark = fresh_uid()
        self.base_modules = dict(self.modules)

    def reset_env(self):
        self.rng = [("unseeded",), 0]
        self.draws = []
        self.extreme_turn = None
        self.sources = []
        self.instance_rng = set()
        self.caches = {}
        self.hash_checked = {}
        self.set_iterations = []
        self.set_order = False
        self.repr_guard = []
        self.exc_stack = []
        self.stack = []
        self.steps = 0
        self.depth = 0
        self.cur = None
        self.write_hook = None
        self.member_calls = []

    # ------------------------------------------------------------------ modules
    def find_source(self, name):
        parts = name.split(".")
        if parts[0] not in INTERPRETED:
            return None
        roots = [self.repo] + SITE_DIRS if parts[0] == "d42" else SITE_DIRS
        for r in roots:
            base = os.path.join(r, *parts)
            p = os.path.join(base, "__init__.py")
            if os.path.isfile(p):
                return p, True
            if os.path.isfile(base + ".py"):
                return base + ".py", False
            if parts[0] == "d42" and r == self.repo:
                break
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split(".")[0]
        if top == "niltype":
            return Ext("niltype")
        if top not in INTERPRETED:
            if name.split(".")[0] in ("tests",):
                self.throw(ModuleNotFoundError, f"No module named {name!r}")
            import importlib.util
            try:
                spec = importlib.util.find_spec(name)
            except (ImportError, ValueError, AttributeError):
                spec = None
            if spec is None and name not in extern.MODULES and name != "typing_extensions":
                self.throw(ModuleNotFoundError, f"No module named {name!r}")
            return Ext(name)
        parent = None
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        f = self.find_source(name)
        if f is None:
            self.throw(ModuleNotFoundError, f"No module named {name!r}")
        path, pkg = f
        return self.load(name, path, pkg, parent)

    def load(self, name, path, pkg, parent=None, text=None):
        if text is None:
            with open(path, encoding="utf-8") as fh:
                text = fh.read()
        self.sources_read[path] = text
        m = ModuleVal(name, path, pkg)
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        m.ns["__doc__"] = None
        m.ns["__builtins__"] = Ext("builtins")
        m.ns["__package__"] = name if pkg else name.rpartition(".")[0]
        self.modules[name] = m
        try:
            tree = Mangler().visit(ast.parse(text, path))
        except SyntaxError as e:
            raise Undecided(f"{path} does not parse: {e}")
        save = self.cur
        try:
            self.exec_block(tree.body, Env(m.ns, None, m))
        except PyExc:
            del self.modules[name]
            raise
        finally:
            self.cur = save
        if isinstance(parent, ModuleVal):
            parent.ns[name.rsplit(".", 1)[1]] = m
        return m

    def module_attr(self, m, name, imp=False):
        if isinstance(m, Ext):
            if m.name == "niltype":
                if name == "Nil":
                    return NIL
                if name == "NilType":
                    return NilT
                return Typing(f"niltype.{name}")
            return self.ext_attr(m.name, name)
        if name in m.ns:
            return m.ns[name]
        if imp and m.is_pkg:
            full = f"{m.name}.{name}"
            if full in self.modules:
                return self.modules[full]
            if self.find_source(full) is not None:
                return self.import_module(full)
        if "__getattr__" in m.ns:
            return self.call(m.ns["__getattr__"], [name], {})
        if imp:
            self.throw(ImportError, f"cannot import name {name!r} from {m.name!r}")
        if name == "__dict__":
            return DictObj([[k, v] for k, v in m.ns.items()])
        self.throw(AttributeError, f"module {m.name!r} has no attribute {name!r}")

    def load_all(self):
        self.import_module("d42")
        for m in ("d42.custom_type", "d42.utils", "d42.validation.errors", "d42.substitution.errors",
                  "d42.declaration.errors", "d42.substitution", "d42.generation", "d42.representation",
                  "d42.declaration.types", "d42.custom_type.utils", "d42.custom_type.errors",
                  "d42.custom_type.visitors"):
            try:
                self.import_module(m)
            except PyExc as e:
                self.missing.append((m, self.exc_text(e.value)))
        self.import_module("th")
        m = self.load("absint_member", "<member>", False, None, OPAQUE_SRC)
        m.ns["_native_validate"] = Bi("member.validate", member_validate)
        m.ns["_native_format"] = Bi("member.format", member_format)
        m.ns["_native_generate"] = Bi("member.generate", member_generate)
        m.ns["_native_substitute"] = Bi("member.substitute", member_substitute)
        m.ns["_native_represent"] = Bi("member.represent", member_represent)
        ns = {"__name__": "scenario"}
        nat = ModuleVal("absint_native", "<native>", False)
        nat.ns["member_ok"] = Bi("member_ok", member_ok)
        nat.ns["carries_known"] = Bi("carries_known", carries_known)
        nat.ns["same"] = Bi("same", same_value)
        self.modules["absint_native"] = nat
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.load("absint_model", os.path.join(here, "rules", "model.py"), False)
        g = ModuleVal("scenario", "<scenario>", False)
        g.ns = ns
        self.scen = g
        self.exec_text('''
import d42, re, datetime, uuid, random
from uuid import UUID
from niltype import Nil
from d42 import schema, optional, fake, validate, validate_or_fail, substitute, represent
from d42.utils import from_native, make_required, rollout
from d42.declaration.errors import DeclarationError
from d42.declaration import Schema
from d42.substitution.errors import SubstitutionError
from d42.substitution import SubstitutorValidator
from d42.validation import ValidationException, Validator, ValidationResult, Formatter, eq, format_result
from d42.custom_type import CustomSchema, Props, register_type
from d42.generation import Random
from th import PathHolder
from absint_member import Member, MemberError, OpaqueProps
from absint_model import *
import absint_model as model
''')

    def exec_text(self, src, **names):
        self.scen.ns.update(names)
        tree = Mangler().visit(ast.parse(src))
        save = self.cur
        self.exec_block(tree.body, Env(self.scen.ns, None, self.scen))
        self.cur = save

    _cache = {}

    def py(self, src, **names):
        """Evaluate an expression of the scenario language with the given local names."""
        t = self._cache.get(src)
        if t is None:
            t = ast.parse(src.strip(), mode="eval").body
            self._cache[src] = t
        save = self.cur
        env = Env(dict(names), None, self.scen)
        # comprehension/lambda scopes need the locals visible
        if self.cur is None:
            self.cur = ("scenario", "<scenario>", 0)
        try:
            return self.ev(t, env)
        finally:
            self.cur = save

    def attempt(self, src, **names):
        """('ok', value) or ('exc', exception object, site)."""
        depth, ns, es = self.depth, len(self.stack), len(self.exc_stack)
        try:
            return ("ok", self.py(src, **names) if isinstance(src, str) else src(), None)
        except PyExc as e:
            self.depth = depth
            del self.stack[ns:]
            del self.exc_stack[es:]
            return ("exc", e.value, e.site)

    def exc_name(self, e):
        c = e.cls
        return c.__name__ if isinstance(c, type) else c.name

    def exc_text(self, e):
        a = e.attrs.get("args", ())
        try:
            return f"{self.exc_name(e)}({', '.join(show(x) for x in a)})"
        except Exception:
            return self.exc_name(e)

    def is_a(self, v, clsname):
        return self.isinstance(v, self.scen.ns[clsname])

    # ------------------------------------------------------------------ members
    def member(self, name, sid=None):
        """An arbitrary schema, known only through the predicates ok/subok/subs over its identity."""
        sid = sid if sid is not None else Sym(name, {"object"}, atom=True)
        return self.py("Member(OpaqueProps({'id': sid}))", sid=sid)

    def sid_of(self, m):
        return self.py("m.props.id", m=m)

    def show_desc(self, d):
        return show(self.c(d))

    def is_member(self, v):
        return isinstance(v, Obj) and v.cls is self.scen.ns["Member"]


def same_value(I, args, kw):
    a, b = I.c(args[0]), I.c(args[1])
    return a is b or (not isinstance(a, Heap) and not isinstance(b, Heap) and keyof(a) == keyof(b))


def carries_known(I, args, kw):
    return bool(I.st.known("carries", I.c(args[0]), I.c(args[1])))


def member_ok(I, args, kw):
    m, v = args
    if not I.is_member(m):
        raise Undecided("member_ok of a schema that is not opaque")
    sid = I.sid_of(m)
    v = I.c(v)
    return I.st.decide("ok", sid, v, text=f"{show(sid)} accepts {show(v)}")


def member_validate(I, args, kw):
    obj, visitor, value, path = args
    res = I.call(I.getattr(visitor, "make_validation_result"), [], {})
    sid = I.sid_of(obj)
    sub = I.isinstance(visitor, I.scen.ns["SubstitutorValidator"])
    value = I.c(value)
    I.member_calls.append(("validate", sid, value, path))
    if I.st.decide("subok" if sub else "ok", sid, value,
                   text=f"{show(sid)} {'provisionally ' if sub else ''}accepts {show(value)}"):
        return res
    snap = I.call(I.getattr(Ext("copy"), "deepcopy"), [path], {}) if False else path
    err = I.py("MemberError(p, v, s)", p=snap, v=value, s=sid)
    return I.call(I.getattr(res, "add_error"), [err], {})


def member_format(I, args, kw):
    """The message of a member's error: some non-empty line of text."""
    k = ("errtext",) + tuple(keyof(I.c(a)) for a in args)
    if k not in I.caches:
        I.caches[k] = Sym(f"message {show(I.c(args[0]))}/{show(I.c(args[1]))}", {"str"}, atom=True,
                          meta={"sepfree": ("\n",)})
    t = I.caches[k]
    I.st.le(1, fold.length_of(I.st, t))
    return t


def member_generate(I, args, kw):
    obj, visitor = args
    sid = I.sid_of(obj)
    I.member_calls.append(("generate", sid))
    unsat = I.st.known("unsat", sid)
    if unsat:
        I.throw(ValueError, "member schema admits no value")
    key, idx = I.rng[0], I.rng[1]
    I.rng[1] += 1
    v = Term("draw", (key, idx, "member", sid), {"object"})
    I.st.assume("ok", True, sid, v)
    return v


def member_substitute(I, args, kw):
    obj, visitor, value = args
    sid = I.sid_of(obj)
    value = I.c(value)
    I.member_calls.append(("substitute", sid, value))
    if not I.st.decide("subs", sid, value, text=f"{show(sid)} % {show(value)} succeeds"):
        raise PyExc(I.py("SubstitutionError('member')"), I.site())
    return I.py("Member(OpaqueProps({'id': sid}))", sid=sub_id(I.st, sid, value))


def member_represent(I, args, kw):
    obj, visitor, indent = args
    sid = I.sid_of(obj)
    return Term("srepr", (sid, indent), {"str"})


def sub_id(st, sid, value):
    sid = st.canon(sid)
    if isinstance(sid, Term) and sid.op == "sub" and keyof(sid.args[1]) == keyof(value):
        return sid
    return Term("sub", (sid, value), {"object"})


def install_member_rules(st):
    """Refinement axioms of an arbitrary member schema (the induction hypothesis)."""
    def f(name, *args):
        return st.facts.get((name,) + tuple(keyof(a) for a in args), (None,))[0]

    def r_ok(st, args):
        s, w = args
        if f("unsat", s):
            return False
        if isinstance(s, Term) and s.op == "sub":
            s0, v = s.args
            if keyof(v) == keyof(w):
                if f("ok", s0, w):
                    return True
            k = st.known("ok", s0, w)
            if k is False:
                return False
        return None

    def r_subs(st, args):
        s, v = args
        if f("subok", s, v) is False:
            return False
        if isinstance(s, Term) and s.op == "sub" and keyof(s.args[1]) == keyof(v):
            return True
        return None

    def r_subok(st, args):
        s, v = args
        if f("ok", s, v):
            return True
        if f("subs", s, v):
            return True
        if isinstance(s, Term) and s.op == "sub" and keyof(s.args[1]) == keyof(v):
            return True
        return None

    def a_subs(st, args, val):
        if val:
            st.assume("subok", True, *args)

    def a_ok(st, args, val):
        s, w = args
        if val:
            st.assume("subok", True, s, w)
            if isinstance(s, Term) and s.op == "sub":
                st.assume("ok", True, s.args[0], w)
                st.assume("carries", True, s.args[1], w)
        else:
            # contrapositive: a substituted schema rejects what the original rejects
            pass
    st.rules.update(ok=r_ok, subs=r_subs, subok=r_subok)
    st.after.update(ok=a_ok, subs=a_subs)


# ---------------------------------------------------------------------- exploration
class Report:
    """Verdicts of one scenario."""

    def __init__(self, prop, rule, name):
        self.prop = prop
        self.rule = rule
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.obligations = 0
        self.undecided = {}
        self.violations = {}
        self.samples = []
        self.complete = True
        self.wall = 0.0
        self.notes = {}
        self.sites = set()


class Ctx:
    """Handle given to a scenario for one path."""

    def __init__(self, I, rep):
        self.I = I
        self.rep = rep
        self.done = 0
        self.inputs = {}
        self.bad = False

    def check(self, cond, what, detail=None, construct=None):
        """One obligation of the rule; cond is the abstract verdict on this path."""
        self.rep.obligations += 1
        self.done += 1
        if cond:
            return True
        self.I.close_text()
        self.fail(what, detail, construct)
        return False

    def fail(self, what, detail=None, construct=None):
        I = self.I
        self.bad = True
        if I.st.imprecise:
            k = f"imprecise path: {what} ({I.st.imprecise[0][1]})"
            self.rep.undecided.setdefault(k, 0)
            self.rep.undecided[k] += 1
            return
        key = what
        v = self.rep.violations.get(key)
        if v is None:
            self.rep.violations[key] = {
                "rule": self.rep.rule, "scenario": self.rep.name, "what": what,
                "detail": detail() if callable(detail) else detail, "construct": construct,
                "inputs": {k: self.show(x) for k, x in self.inputs.items()},
                "trace": [f"{s}: {t}" for s, t in I.st.trace[-40:]],
                "choices": [c[0] for c in I.st.choices.prefix[:I.st.choices.pos]],
                "functions": sorted(set(I.stack)), "count": 1}
        else:
            v["count"] += 1

    def show(self, v):
        try:
            return show(self.I.c(v))
        except Exception:
            return repr(v)

    def note(self, text):
        self.rep.notes[text] = self.rep.notes.get(text, 0) + 1


def run_path(I, choices, fn, ctx):
    st = State(choices)
    fold.install_rules(st)
    install_member_rules(st)
    I.st = st
    st.site = I.site
    I.reset_env()
    I.journal = {}
    try:
        fn(I, ctx)
    finally:
        for obj, snap in I.journal.values():
            obj.restore(snap)
        I.journal = {}
        I.modules = dict(I.base_modules)
        I.write_hook = None


def explore(I, prop, rule, name, fn, max_paths=4000, time_limit=60.0, prefix=None):
    rep = Report(prop, rule, name)
    choices = Choices()
    if prefix is not None:
        pass
    t0 = time.time()
    base = set(I.functions)
    I.functions.clear()
    while True:
        ctx = Ctx(I, rep)
        try:
            run_path(I, choices, fn, ctx)
            rep.paths += 1
            if not ctx.bad and len(rep.samples) < 2 and ctx.done:
                rep.samples.append([t for _, t in I.st.trace[-8:]])
        except Infeasible:
            rep.infeasible += 1
        except Undecided as e:
            rep.paths += 1
            k = str(e)
            rep.undecided[k] = rep.undecided.get(k, 0) + 1
        except PyExc as e:
            rep.paths += 1
            if I.exc_name(e.value) in ("SubstitutionError", "DeclarationError"):
                k = f"scenario set-up raised {I.exc_text(e.value)} at {e.site}"
                rep.notes[k] = rep.notes.get(k, 0) + 1
            else:
                k = f"uncaught {I.exc_text(e.value)} at {e.site}"
                rep.undecided[k] = rep.undecided.get(k, 0) + 1
        except RecursionError:
            if os.environ.get("VERIF_DEBUG"):
                raise
            rep.paths += 1
            rep.undecided["host recursion"] = rep.undecided.get("host recursion", 0) + 1
        if rep.paths + rep.infeasible >= max_paths or time.time() - t0 > time_limit:
            if choices.advance():
                rep.complete = False
            break
        if not choices.advance():
            break
    rep.sites = set(I.functions)
    I.functions |= base
    rep.wall = time.time() - t0
    return rep
