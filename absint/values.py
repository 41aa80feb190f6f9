"""Abstract values.

Concrete immutables (int, str, bytes, float, bool, None, Ellipsis, tuple of abstract values, and a few
immutable stdlib objects) represent themselves.  Everything else is one of the classes below.
"""
import datetime as _dt
import decimal
import fractions
import uuid as _uuid

_counter = [0]


def fresh_uid():
    _counter[0] += 1
    return _counter[0]


class NilT:
    """The abstract niltype.Nil singleton."""
    def __repr__(self):
        return "Nil"

    def __bool__(self):
        return False

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


NIL = NilT()


class OpaqueObject:
    """Stands for the runtime class of values tagged 'object'."""


class IntSub(int):
    """Stands for the class of a plain subclass of int."""


class FloatSub(float):
    pass


class StrSub(str):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


CONC = (int, float, str, bytes, bool, type(None), type(...), complex, NilT, _uuid.UUID, _dt.datetime,
        _dt.date, _dt.timedelta, _dt.timezone, decimal.Decimal, fractions.Fraction, type(NotImplemented),
        slice, type)


def is_conc(v):
    if isinstance(v, tuple):
        return all(is_conc(x) for x in v)
    return isinstance(v, CONC)


# ---------------------------------------------------------------- tags
ALL_TAGS = frozenset({
    "none", "bool", "int", "hugeint", "float", "inf", "ninf", "nan", "str", "bytes", "bytearray", "list",
    "dict", "tuple", "set", "frozenset", "uuid4", "uuidx", "datetime", "date", "decimal", "fraction",
    "complex", "ellipsis", "object", "type", "intsub", "floatsub", "strsub", "listsub", "dictsub"})

TYPE_TAGS = {
    int: {"bool", "int", "hugeint", "intsub"}, bool: {"bool"},
    float: {"float", "inf", "ninf", "nan", "floatsub"}, str: {"str", "strsub"},
    IntSub: {"intsub"}, FloatSub: {"floatsub"}, StrSub: {"strsub"}, ListSub: {"listsub"}, DictSub: {"dictsub"},
    bytes: {"bytes"}, bytearray: {"bytearray"}, list: {"list", "listsub"}, dict: {"dict", "dictsub"},
    tuple: {"tuple"},
    set: {"set"}, frozenset: {"frozenset"}, _uuid.UUID: {"uuid4", "uuidx"}, _dt.datetime: {"datetime"},
    _dt.date: {"date", "datetime"}, decimal.Decimal: {"decimal"}, fractions.Fraction: {"fraction"},
    complex: {"complex"}, type(None): {"none"}, type(...): {"ellipsis"}, type: {"type"},
}
TAG_TYPE = {"bool": bool, "int": int, "hugeint": int, "float": float, "inf": float, "ninf": float,
            "nan": float, "str": str, "bytes": bytes, "bytearray": bytearray, "list": list, "dict": dict,
            "tuple": tuple, "set": set, "frozenset": frozenset, "uuid4": _uuid.UUID, "uuidx": _uuid.UUID,
            "datetime": _dt.datetime, "date": _dt.date, "decimal": decimal.Decimal,
            "fraction": fractions.Fraction, "complex": complex, "none": type(None), "ellipsis": type(...),
            "object": OpaqueObject, "type": type,
            "intsub": IntSub, "floatsub": FloatSub, "strsub": StrSub, "listsub": ListSub, "dictsub": DictSub}
CONC_OF_TAG = {"none": None, "ellipsis": ..., "inf": float("inf"), "ninf": float("-inf"),
               "nan": float("nan")}
NUM_TAGS = frozenset({"bool", "int", "hugeint", "float", "inf", "ninf", "nan", "intsub", "floatsub"})
INT_TAGS = frozenset({"bool", "int", "hugeint", "intsub"})
FLOAT_TAGS = frozenset({"float", "floatsub"})
STR_TAGS = frozenset({"str", "strsub"})
SHAPE_TAGS = frozenset({"list", "listsub", "dict", "dictsub", "tuple", "set", "frozenset", "bytearray"})
HASHABLE_NOT = frozenset({"list", "dict", "set", "bytearray", "listsub", "dictsub"})
EQ_GROUP = {}
for _t in ALL_TAGS:
    EQ_GROUP[_t] = _t
for _t in ("bool", "int", "hugeint", "float", "decimal", "fraction", "complex", "inf", "ninf", "intsub",
           "floatsub"):
    EQ_GROUP[_t] = "num"
EQ_GROUP["strsub"] = "str"
EQ_GROUP["listsub"] = "list"
EQ_GROUP["dictsub"] = "dict"
for _t in ("set", "frozenset"):
    EQ_GROUP[_t] = "set"
for _t in ("bytes", "bytearray"):
    EQ_GROUP[_t] = "bytes"
for _t in ("uuid4", "uuidx"):
    EQ_GROUP[_t] = _t


def keyof(v):
    if isinstance(v, tuple):
        return ("t",) + tuple(keyof(x) for x in v)
    if isinstance(v, CONC) and not isinstance(v, type):
        if type(v) is int:
            return ("c", "int", v)
        return ("c", type(v).__name__, repr(v))
    return v


class Opaque:
    __slots__ = ()


class Sym(Opaque):
    """An unknown value. atom=True: pairwise different from every other atom and every constant."""
    __slots__ = ("name", "tags", "uid", "atom", "char", "meta")

    def __init__(self, name, tags, atom=False, char=False, meta=None):
        self.name = name
        self.tags = frozenset(tags) if not isinstance(tags, str) else frozenset({tags})
        self.uid = fresh_uid()
        self.atom = atom
        self.char = char
        self.meta = meta

    def __repr__(self):
        return self.name


class Term(Opaque):
    """An uninterpreted operation on abstract values (value number)."""
    __slots__ = ("op", "args", "tags", "_k", "_h", "approx", "uid", "char", "atom")

    def __init__(self, op, args, tags, approx=False, char=False):
        self.op = op
        self.args = tuple(args)
        self.tags = frozenset(tags) if not isinstance(tags, str) else frozenset({tags})
        self._k = (op,) + tuple(keyof(a) for a in self.args)
        self._h = hash(self._k)
        self.approx = approx
        self.char = char
        self.uid = 0
        self.atom = False

    def __eq__(self, other):
        return isinstance(other, Term) and self._k == other._k

    def __hash__(self):
        return self._h

    def __repr__(self):
        return f"{self.op}({', '.join(map(show, self.args))})"


class Lin:
    """Linear integer expression const + sum(coef * opaque)."""
    __slots__ = ("const", "terms")

    def __init__(self, const, terms):
        self.const = const
        self.terms = terms  # tuple of (opaque, coef) sorted by repr/uid

    def __eq__(self, other):
        return isinstance(other, Lin) and self.const == other.const and dict(self.terms) == dict(other.terms)

    def __hash__(self):
        return hash((self.const, frozenset(self.terms)))

    def __repr__(self):
        parts = [f"{'' if c == 1 else c}{show(o)}" if c != -1 else f"-{show(o)}" for o, c in self.terms]
        if self.const or not parts:
            parts.append(str(self.const))
        return " + ".join(parts)


class Cat:
    """Concatenation of literal text and opaque strings (kind 'str' or 'bytes')."""
    __slots__ = ("pieces", "kind")

    def __init__(self, pieces, kind="str"):
        self.pieces = pieces
        self.kind = kind

    def __eq__(self, other):
        return isinstance(other, Cat) and self.pieces == other.pieces and self.kind == other.kind

    def __hash__(self):
        return hash((self.pieces, self.kind))

    def __repr__(self):
        return "<" + "+".join(repr(p) for p in self.pieces) + ">"


def mk_cat(pieces, kind="str"):
    empty = "" if kind == "str" else b""
    out = []

    def add(p):
        if isinstance(p, Cat):
            for q in p.pieces:
                add(q)
        elif isinstance(p, (str, bytes)):
            if p:
                if out and isinstance(out[-1], (str, bytes)):
                    out[-1] = out[-1] + p
                else:
                    out.append(p)
        else:
            out.append(p)
    for p in pieces:
        add(p)
    if not out:
        return empty
    if len(out) == 1:
        return out[0]
    return Cat(tuple(out), kind)


# ---------------------------------------------------------------- heap
class Heap:
    __slots__ = ("uid", "owner", "born")

    def __init__(self):
        self.uid = fresh_uid()
        self.owner = None
        self.born = None


class ListObj(Heap):
    __slots__ = ("items", "pytype")

    def __init__(self, items=(), pytype=list):
        super().__init__()
        self.items = list(items)
        self.pytype = pytype

    def __repr__(self):
        return f"[{', '.join(map(show, self.items))}]"

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items[:] = s


class ByteArr(ListObj):
    pass


class SetObj(Heap):
    __slots__ = ("items", "frozen", "lazy")

    def __init__(self, items=(), frozen=False, lazy=None):
        super().__init__()
        self.items = list(items)
        self.frozen = frozen
        self.lazy = lazy

    def __repr__(self):
        return f"set({self.items!r}{', chars of ' + repr(self.lazy) if self.lazy is not None else ''})"

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items[:] = s


class DictObj(Heap):
    __slots__ = ("entries", "factory", "pytype")

    def __init__(self, entries=(), factory=None, pytype=dict):
        super().__init__()
        self.pytype = pytype
        self.entries = [list(e) for e in entries]
        self.factory = factory

    def __repr__(self):
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in self.entries) + "}"

    def snap(self):
        return [list(e) for e in self.entries]

    def restore(self, s):
        self.entries[:] = [list(e) for e in s]


class Obj(Heap):
    __slots__ = ("cls", "attrs", "native")

    def __init__(self, cls, attrs=None, native=None):
        super().__init__()
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.native = native    # python-side payload for modelled library objects

    def __repr__(self):
        n = self.cls.__name__ if isinstance(self.cls, type) else self.cls.name
        return f"<{n}#{self.uid}>"

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs.clear()
        self.attrs.update(s)


class ClassVal(Heap):
    __slots__ = ("name", "qualname", "bases", "ns", "mro", "module", "orig_bases", "builtin_base", "abstract")

    def __init__(self, name, bases, ns, module, orig_bases, qualname=None):
        super().__init__()
        self.name = name
        self.qualname = qualname or name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.orig_bases = orig_bases
        self.mro = c3(self)
        self.builtin_base = next((b for b in self.mro if isinstance(b, type) and b is not object), None)

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassVal):
                if name in c.ns:
                    return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.qualname}>"

    def snap(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns.clear()
        self.ns.update(s)


def c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise TypeError("mro")
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    del s[0]
            seqs = [s for s in seqs if s]
        return out
    lins = []
    for b in cls.bases:
        if isinstance(b, ClassVal):
            lins.append(list(b.mro))
        else:
            lins.append(list(b.__mro__))
    res = merge(lins + [list(cls.bases)])
    return [cls] + res


class FuncVal(Heap):
    __slots__ = ("node", "env", "module", "name", "qualname", "defaults", "kwdefaults", "defcls", "isgen",
                 "attrs", "locals")

    def __init__(self, node, env, module, name, qualname):
        super().__init__()
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.qualname = qualname
        self.defaults = []
        self.kwdefaults = {}
        self.defcls = None
        self.isgen = False
        self.attrs = {}
        self.locals = None

    def __repr__(self):
        return f"<function {self.qualname}>"


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return f"<bound {self.func!r} of {show(self.self)}>"


class Bi:
    """A builtin or modelled library function; fn(interp, args, kwargs)."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class BMeth:
    """Method of a builtin-typed value."""
    __slots__ = ("name", "self")

    def __init__(self, name, self_):
        self.name = name
        self.self = self_

    def __repr__(self):
        return f"<method {self.name} of {show(self.self)}>"


class Prop:
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ModuleVal(Heap):
    __slots__ = ("name", "ns", "path", "is_pkg")

    def __init__(self, name, path, is_pkg):
        super().__init__()
        self.name = name
        self.ns = {}
        self.path = path
        self.is_pkg = is_pkg

    def __repr__(self):
        return f"<module {self.name}>"

    def snap(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns.clear()
        self.ns.update(s)


class Ext:
    """A name of an external (stdlib) module or function, not interpreted from source."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Typing:
    """Inert typing construct."""
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name = name
        self.args = args

    def __repr__(self):
        return f"<typing {self.name}>"


class Alias:
    """Subscripted interpreted generic class."""
    __slots__ = ("origin", "args")

    def __init__(self, origin, args):
        self.origin = origin
        self.args = args


class GenObj(Heap):
    """An iterator; it is a python-level generator of abstract values."""
    __slots__ = ("it", "label")

    def __init__(self, it, label="generator"):
        super().__init__()
        self.it = it
        self.label = label


class RangeVal:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f"range({show(self.start)}, {show(self.stop)}, {show(self.step)})"


class DictView:
    __slots__ = ("d", "kind")

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __repr__(self):
        return f"<{self.kind} of {self.d!r}>"


class SuperVal:
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class Partial:
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


def show(v):
    if isinstance(v, tuple):
        return "(" + ", ".join(map(show, v)) + ("," if len(v) == 1 else "") + ")"
    if isinstance(v, type):
        return v.__name__
    try:
        r = repr(v)
    except ValueError:
        r = f"<{type(v).__name__} of many digits>"
    return r if len(r) < 200 else r[:197] + "..."
