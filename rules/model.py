"""The reference semantics of d42 schemas, written as an ordinary Python program.

This file is never executed: absint/ interprets it over abstract values, next to the sources under /repo/d42,
so that both sides decide over the same partition of the inputs.

A schema is described by a dict {"t": kind, ...parameters}.  `build` declares it through the public DSL, `conforms`
says what the description means.  A description {"t": "member", "m": M} stands for an arbitrary schema M.
"""
import re
from math import isclose
from uuid import UUID
from datetime import date, datetime
from niltype import Nil
from d42 import schema, optional, validate
from d42.declaration.types import AnySchema, DictSchema, ListSchema, StrSchema, TypeAliasSchema
from d42.custom_type import CustomSchema, Props
from absint_native import member_ok, same, carries_known
from absint_member import Member
from d42.declaration import Schema
from d42.validation import errors as E, Formatter, ValidationResult
from d42.representation import Representor
from d42.generation import RegexGenerator
from th import PathHolder


def build(d):
    t = d["t"]
    if t == "none":
        return schema.none
    if t == "bool":
        return schema.bool(d["value"]) if "value" in d else schema.bool
    if t == "int":
        return bounds(schema.int(d["value"]) if "value" in d else schema.int, d)
    if t == "float":
        s = bounds(schema.float(d["value"]) if "value" in d else schema.float, d)
        return s.precision(d["precision"]) if "precision" in d else s
    if t == "str":
        s = schema.str(d["value"]) if "value" in d else schema.str
        if "alphabet" in d:
            s = s.alphabet(d["alphabet"])
        s = lengths(s, d)
        if "substr" in d:
            s = s.contains(d["substr"])
        if "pattern" in d:
            s = s.regex(d["pattern"])
        return s
    if t == "bytes":
        return schema.bytes(d["value"]) if "value" in d else schema.bytes
    if t == "uuid4":
        return schema.uuid4(d["value"]) if "value" in d else schema.uuid4
    if t == "datetime":
        return schema.datetime(d["value"]) if "value" in d else schema.datetime
    if t == "date":
        return schema.date(d["value"]) if "value" in d else schema.date
    if t == "list":
        form = d.get("form", "free")
        if form == "free":
            return lengths(schema.list, d)
        if form == "typed":
            return lengths(schema.list(build(d["type"])), d)
        els = [build(e) for e in d["els"]]
        if form == "head":
            els = els + [...]
        elif form == "tail":
            els = [...] + els
        elif form == "contains":
            els = [...] + els + [...]
        return lengths(schema.list(els), d)
    if t == "dict":
        if "entries" not in d:
            return schema.dict
        keys = {}
        if d.get("relaxed") == "first":
            keys[...] = ...
        for key, sub, opt in d["entries"]:
            keys[optional(key) if opt else key] = build(sub)
        if d.get("relaxed") and d.get("relaxed") != "first":
            keys[...] = ...
        return schema.dict(keys)
    if t == "any":
        if "types" not in d:
            return schema.any
        return schema.any(*[build(x) for x in d["types"]])
    if t == "alias":
        return schema.alias(d.get("name", "alias"), build(d["type"]))
    if t == "custom":
        return (Forward if d.get("keep", True) else ForwardPlain)(Props({"inner": build(d["inner"])}))
    return d["m"]


class Forward(CustomSchema[Props]):
    """A user-defined type that forwards everything to a built-in schema."""

    def __validate__(self, visitor, *, value=Nil, path=Nil, **kwargs):
        return self.props.get("inner").__accept__(visitor, value=value, path=path, **kwargs)

    def __generate__(self, visitor, **kwargs):
        return self.props.get("inner").__accept__(visitor, **kwargs)

    def __represent__(self, visitor, *, indent=0, **kwargs):
        return self.props.get("inner").__accept__(visitor, indent=indent, **kwargs)

    def __substitute__(self, visitor, *, value=Nil, **kwargs):
        inner = self.props.get("inner").__accept__(visitor, value=value, **kwargs)
        return self.__class__(self.props.update(inner=inner))


class ForwardPlain(Forward):
    """The same, but substitution returns what the built-in schema returns."""

    def __substitute__(self, visitor, *, value=Nil, **kwargs):
        return self.props.get("inner").__accept__(visitor, value=value, **kwargs)


def without_custom(d):
    """The description with every custom type replaced by the built-in one it forwards to."""
    if d["t"] == "custom":
        return without_custom(d["inner"])
    out = dict(d)
    if "type" in d:
        out["type"] = without_custom(d["type"])
    if "els" in d:
        out["els"] = [without_custom(x) for x in d["els"]]
    if "types" in d:
        out["types"] = [without_custom(x) for x in d["types"]]
    if "entries" in d:
        out["entries"] = [(k, without_custom(x), o) for k, x, o in d["entries"]]
    return out


def bare(x):
    """observe(x) with custom types replaced by what they forward to."""
    if isinstance(x, Forward):
        return bare(x.props.get("inner"))
    if isinstance(x, Member):
        return ("member", x.props.get("id"))
    if isinstance(x, Schema):
        return ("schema", x.__class__, [(k, bare(x.props.get(k))) for k in x.props])
    if isinstance(x, list):
        return ("list", x.__class__, [bare(y) for y in x])
    if isinstance(x, tuple):
        return ("tuple", x.__class__, [bare(y) for y in x])
    if isinstance(x, dict):
        return ("dict", x.__class__, [(bare(k), bare(y)) for k, y in x.items()])
    return ("leaf", x)


def same_error(a, b):
    """Do two errors say the same of the same place?"""
    if a.__class__ is not b.__class__:
        return False
    if not unchanged([bare_op(op) for op in a.path], [bare_op(op) for op in b.path]):
        return False
    xs, ys = vars(a), vars(b)
    if len(xs) != len(ys):
        return False
    for k in xs:
        if k != "path" and (k not in ys or not unchanged(bare(xs[k]), bare(ys[k]))):
            return False
    return True


def bare_op(op):
    return (op.__class__, [("leaf", x) for x in vars(op).values()])


def bounds(s, d):
    if "min" in d:
        s = s.min(d["min"])
    if "max" in d:
        s = s.max(d["max"])
    return s


def lengths(s, d):
    if "len" in d:
        return s.len(d["len"])
    if "min_len" in d and "max_len" in d:
        return s.len(d["min_len"], d["max_len"])
    if "min_len" in d:
        return s.len(d["min_len"], ...)
    if "max_len" in d:
        return s.len(..., d["max_len"])
    return s


def in_bounds(d, v):
    if "min" in d and v < d["min"]:
        return False
    if "max" in d and v > d["max"]:
        return False
    return True


def len_ok(d, v):
    if "len" in d and len(v) != d["len"]:
        return False
    if "min_len" in d and len(v) < d["min_len"]:
        return False
    if "max_len" in d and len(v) > d["max_len"]:
        return False
    return True


def conforms(d, v):
    t = d["t"]
    if t == "member":
        return member_ok(d["m"], v)
    if t == "alias":
        return conforms(d["type"], v)
    if t == "any":
        if "types" not in d:
            return True
        for x in d["types"]:
            if conforms(x, v):
                return True
        return False
    if t == "none":
        return v is None
    if t == "bool":
        return isinstance(v, bool) and ("value" not in d or v == d["value"])
    if t == "int":
        return isinstance(v, int) and ("value" not in d or v == d["value"]) and in_bounds(d, v)
    if t == "float":
        return isinstance(v, float) and float_value_ok(d, v) and in_bounds(d, v)
    if t == "str":
        return isinstance(v, str) and str_ok(d, v)
    if t == "bytes":
        return isinstance(v, bytes) and ("value" not in d or v == d["value"])
    if t == "uuid4":
        return isinstance(v, UUID) and v.version == 4 and ("value" not in d or v == d["value"])
    if t == "datetime":
        return isinstance(v, datetime) and ("value" not in d or v == d["value"])
    if t == "date":
        return isinstance(v, date) and ("value" not in d or v == d["value"])
    if t == "list":
        return isinstance(v, list) and len_ok(d, v) and list_ok(d, v)
    return isinstance(v, dict) and dict_ok(d, v)


def finite(x):
    return x == x and x != float("inf") and x != float("-inf")


def float_value_ok(d, v):
    if "value" not in d:
        return True
    x = d["value"]
    if not (finite(x) and finite(v)):
        return v == x or (x != x and v != v)
    if "precision" in d:
        k = 10 ** d["precision"]
        try:
            return round(v * k) == round(x * k)
        except OverflowError:
            return v == x
    return isclose(v, x)


def str_ok(d, v):
    if "value" in d and v != d["value"]:
        return False
    if "pattern" in d and re.search(d["pattern"], v) is None:
        return False
    if not len_ok(d, v):
        return False
    if "substr" in d and d["substr"] not in v:
        return False
    if "alphabet" in d:
        for ch in v:
            if ch not in d["alphabet"]:
                return False
    return True


def window(els, v, start):
    for i in range(len(els)):
        if not conforms(els[i], v[start + i]):
            return False
    return True


def list_ok(d, v):
    form = d.get("form", "free")
    if form == "free":
        return True
    if form == "typed":
        for x in v:
            if not conforms(d["type"], x):
                return False
        return True
    els = d["els"]
    n, k = len(v), len(els)
    if form == "exact":
        return n == k and window(els, v, 0)
    if n < k:
        return False
    if form == "head":
        return window(els, v, 0)
    if form == "tail":
        return window(els, v, n - k)
    for start in range(n - k + 1):
        if window(els, v, start):
            return True
    return False


def dict_ok(d, v):
    if "entries" not in d:
        return True
    for key, sub, opt in d["entries"]:
        if key in v:
            if not conforms(sub, v[key]):
                return False
        elif not opt:
            return False
    if not d.get("relaxed"):
        for key in v:
            known = False
            for k, sub, opt in d["entries"]:
                if k == key:
                    known = True
            if not known:
                return False
    return True


# ------------------------------------------------------------------ truth of reported errors
KIND = {"none": type(None), "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "uuid4": UUID,
        "datetime": datetime, "date": date, "list": list, "dict": dict}


def follow(v, path):
    for op in path:
        v = op(v)
    return v


def declared_at(d, v, keys):
    """The parts of the description that may speak about the sub-value reached through `keys`."""
    t = d["t"]
    if t == "alias":
        return declared_at(d["type"], v, keys)
    if len(keys) == 0:
        return [d]
    k, rest = keys[0], keys[1:]
    out = []
    if t == "list":
        form = d.get("form", "free")
        if form == "typed":
            return declared_at(d["type"], v[k], rest)
        if form == "free":
            return []
        for i, e in enumerate(d["els"]):
            if form == "contains" or form != "tail" and i == k or form == "tail" and i + len(v) - len(d["els"]) == k \
                    or form == "tail" and len(v) < len(d["els"]) and i == k:
                out = out + declared_at(e, v[k], rest)
    if t == "dict" and "entries" in d:
        for key, sub, opt in d["entries"]:
            if key == k:
                out = out + declared_at(sub, v[k], rest)
    return out


def equal(a, b):
    return a is b or a == b


def fact(d, v, e, partial):
    """Is what the error states true of v, the value described by d?  partial: substitution ignores absent keys."""
    t = d["t"]
    if isinstance(e, E.TypeValidationError):
        return t in KIND and e.expected_type is KIND[t] and not isinstance(v, KIND[t])
    if isinstance(e, E.ValueValidationError):
        if "value" not in d or not equal(e.expected_value, d["value"]):
            return False
        return not float_value_ok(d, v) if t == "float" else v != d["value"]
    if isinstance(e, E.MinValueValidationError):
        return "min" in d and e.min_value == d["min"] and v < d["min"]
    if isinstance(e, E.MaxValueValidationError):
        return "max" in d and e.max_value == d["max"] and v > d["max"]
    if isinstance(e, E.LengthValidationError):
        return "len" in d and e.length == d["len"] and len(v) != d["len"]
    if isinstance(e, E.MinLengthValidationError):
        return "min_len" in d and e.min_length == d["min_len"] and len(v) < d["min_len"]
    if isinstance(e, E.MaxLengthValidationError):
        return "max_len" in d and e.max_length == d["max_len"] and len(v) > d["max_len"]
    if isinstance(e, E.AlphabetValidationError):
        if "alphabet" not in d or e.alphabet != d["alphabet"]:
            return False
        for ch in v:
            if ch not in d["alphabet"]:
                return True
        return False
    if isinstance(e, E.SubstrValidationError):
        return "substr" in d and e.substr == d["substr"] and d["substr"] not in v
    if isinstance(e, E.RegexValidationError):
        return "pattern" in d and e.pattern == d["pattern"] and re.search(d["pattern"], v) is None
    if isinstance(e, E.MissingElementValidationError):
        return "els" in d and e.index >= len(v) and (d["form"] == "contains" or len(v) < len(d["els"]))
    if isinstance(e, E.ExtraElementValidationError):
        return d.get("form") == "exact" and len(d["els"]) <= e.index and e.index < len(v)
    if isinstance(e, E.MissingKeyValidationError):
        for key, sub, opt in d.get("entries", []):
            if equal(key, e.missing_key):
                return not opt and key not in v
        return False
    if isinstance(e, E.ExtraKeyValidationError):
        if t != "dict" or "entries" not in d or d.get("relaxed") or e.extra_key not in v:
            return False
        for key, sub, opt in d["entries"]:
            if equal(key, e.extra_key):
                return False
        return True
    if isinstance(e, E.SchemaMismatchValidationError):
        return t == "any" and "types" in d and (partial or not conforms(d, v))
    if isinstance(e, E.InvalidUUIDVersionValidationError):
        return t == "uuid4" and same(e.actual_version, v.version) and v.version != 4 and e.expected_version == 4
    return t == "member" and same(e.owner, d["m"].props.id)


def true_of_some(nodes, v, e, partial):
    for d in nodes:
        if fact(d, v, e, partial):
            return True
    return False


def path_text(e):
    """The path a message has to name."""
    ops = [op for op in e.path]
    text = "_" + "".join([str(op) for op in ops])
    if isinstance(e, E.MissingElementValidationError):
        return text + "[" + repr(e.index) + "]"
    if isinstance(e, E.MissingKeyValidationError):
        return text + "[" + repr(e.missing_key) + "]"
    return text if ops else ""


# ------------------------------------------------------------------ observation of schemas
def observe(x):
    """What the public attributes of a schema (or a value) show, as nested tuples."""
    if isinstance(x, Member):
        return ("member", x)
    if isinstance(x, Schema):
        return ("schema", x.__class__, [(k, observe(x.props.get(k))) for k in x.props])
    if isinstance(x, list):
        return ("list", x.__class__, [observe(y) for y in x])
    if isinstance(x, tuple):
        return ("tuple", x.__class__, [observe(y) for y in x])
    if isinstance(x, dict):
        return ("dict", x.__class__, [(observe(k), observe(y)) for k, y in x.items()])
    if isinstance(x, optional):
        return ("optional", observe(x.key))
    return ("leaf", x)


def unchanged(a, b):
    """Whether two observations show the same parts in the same order."""
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        if len(a) == 2 and a[0] == "leaf":
            return b[0] == "leaf" and same(a[1], b[1])
        for i in range(len(a)):
            if not unchanged(a[i], b[i]):
                return False
        return True
    return same(a, b)


# ------------------------------------------------------------------ substituted data
def float_carried(d, v, w):
    return isinstance(w, float) and float_value_ok(d if "value" in d else {**d, "value": v}, w)


def carries(d, v, w):
    """Does w hold the data v at the positions v names?  d: description of the original schema."""
    while d is not None and d["t"] == "alias":
        d = d["type"]
    if carries_known(v, w):
        return True
    if isinstance(v, dict):
        if not isinstance(w, dict):
            return False
        for key in v:
            if key not in w:
                return False
            if not carries(None, v[key], w[key]):
                return False
        return True
    if isinstance(v, list):
        if not isinstance(w, list) or len(w) != len(v):
            return False
        for i in range(len(v)):
            if not carries(None, v[i], w[i]):
                return False
        return True
    if isinstance(v, float):
        return float_carried(d if d is not None and d["t"] == "float" else {}, v, w)
    return equal(v, w)


def exactly(v, w):
    """Do v and w agree in kind, content, length, key set and every nested member (1 and True, close floats apart)?"""
    if isinstance(v, bool):
        return isinstance(w, bool) and v == w
    if isinstance(v, int):
        return isinstance(w, int) and v == w
    if isinstance(v, float):
        return float_carried({}, v, w)
    if isinstance(v, dict):
        if not isinstance(w, dict) or len(v) != len(w):
            return False
        for key in v:
            if key not in w or not exactly(v[key], w[key]):
                return False
        return True
    if isinstance(v, list):
        if not isinstance(w, list) or len(v) != len(w):
            return False
        for i in range(len(v)):
            if not exactly(v[i], w[i]):
                return False
        return True
    for kind in (str, bytes, UUID, datetime):
        if isinstance(v, kind):
            return isinstance(w, kind) and v == w
    if isinstance(v, date):
        return isinstance(w, date) and v == w
    return v is None and w is None


def identical(v, w):
    """Exact equality in kind and content: what generating a fixed value has to give back."""
    if isinstance(v, (list, tuple)):
        if not isinstance(w, list) or len(v) != len(w):
            return False
        for i in range(len(v)):
            if not identical(v[i], w[i]):
                return False
        return True
    if isinstance(v, dict):
        if not isinstance(w, dict) or len(v) != len(w):
            return False
        for key in v:
            if key not in w or not identical(v[key], w[key]):
                return False
        return True
    if v is None:
        return w is None
    if same(v, w):
        return True
    if isinstance(v, float):
        return isinstance(w, float) and (v == w or (v != v and w != w))
    for kind in (bool, int, str, bytes, UUID, datetime, date):
        if isinstance(v, kind):
            return isinstance(w, kind) and v == w
    return False


# ------------------------------------------------------------------ satisfiability
def least_len(p, base):
    """The shortest length the declared length bounds allow, or None."""
    if p.get("len") is not Nil:
        return p.get("len") if p.get("len") >= base else None
    lo = base
    if p.get("min_len") is not Nil and p.get("min_len") > lo:
        lo = p.get("min_len")
    if p.get("max_len") is not Nil and p.get("max_len") < lo:
        return None
    return lo


def sat(s):
    """Does the schema admit a value?  Read from its public props; members admit one by assumption."""
    p = s.props
    if isinstance(s, Member):
        return True
    if isinstance(s, Forward):
        return sat(p.get("inner"))
    if p.get("value") is not Nil:
        return not validate(s, p.get("value")).has_errors()
    if p.get("min") is not Nil and p.get("max") is not Nil and not p.get("min") <= p.get("max"):
        return False
    if isinstance(s, StrSchema):
        sub = "" if p.get("substr") is Nil else p.get("substr")
        n = least_len(p, len(sub))
        if p.get("alphabet") is Nil:
            return n is not None
        for ch in sub:
            if ch not in p.get("alphabet"):
                return False
        return n is not None and (n == len(sub) or p.get("alphabet") != "")
    if isinstance(s, ListSchema):
        if p.get("elements") is not Nil:
            els = [x for x in p.get("elements") if x is not ...]
            for x in els:
                if not sat(x):
                    return False
            n = least_len(p, len(els))
            return n is not None and (n == len(els) or len(els) < len(p.get("elements")))
        n = least_len(p, 0)
        return n is not None and (n == 0 or p.get("type") is Nil or sat(p.get("type")))
    if isinstance(s, DictSchema) and p.get("keys") is not Nil:
        for k, (x, opt) in p.get("keys").items():
            if k is not ... and not opt and not sat(x):
                return False
        return True
    if isinstance(s, AnySchema) and p.get("types") is not Nil:
        for x in p.get("types"):
            if sat(x):
                return True
        return False
    if isinstance(s, TypeAliasSchema):
        return sat(p.type)
    return True


# ------------------------------------------------------------------ what an operation gave
def outcome(x):
    """Everything observable of an operation's result, as nested tuples."""
    if isinstance(x, Schema):
        return ("schema", bare(x), ("leaf", repr(x)), [bare(k) for k in x.keys()] if isinstance(x, DictSchema) else [])
    if isinstance(x, ValidationResult):
        return ("result", [error_parts(e) for e in x.get_errors()])
    if isinstance(x, PathHolder):
        return ("path", ("leaf", str(x)), [bare_op(op) for op in x])
    if isinstance(x, (list, tuple)):
        return ("items", x.__class__, [outcome(y) for y in x])
    if isinstance(x, dict):
        return ("dict", [(outcome(k), outcome(y)) for k, y in x.items()])
    if isinstance(x, optional):
        return ("optional", outcome(x.key))
    if isinstance(x, Props):
        return ("props", [(k, outcome(x.get(k))) for k in x])
    if isinstance(x, Exception):
        return ("raised", x.__class__, [("leaf", a) for a in x.args])
    return ("leaf", x)


def error_parts(e):
    return (e.__class__, [bare_op(op) for op in e.path], [(k, bare(y)) for k, y in vars(e).items() if k != "path"])


def attempted(f):
    try:
        return f()
    except Exception as e:
        return e


def behaviour(s, probes):
    """A schema's observable behaviour: its parts, its text, its iteration and its verdicts."""
    return (outcome(s), [outcome(attempted(lambda: validate(s, v))) for v in probes],
            [outcome(y) for y in s] if isinstance(s, (DictSchema, AnySchema)) else [])


def with_path(s, v, p):
    return (validate(s, v, path=p), p)


def alike(x, y):
    """Structural equality of two schemas (or parts of them), whatever the order their properties were declared in."""
    if x is y:
        return True
    if isinstance(x, Member) or isinstance(y, Member):
        return isinstance(x, Member) and isinstance(y, Member) and x.props.get("id") == y.props.get("id")
    if isinstance(x, Schema):
        if x.__class__ is not y.__class__:
            return False
        for k in x.props:
            if x.props.get(k) is not Nil and y.props.get(k) is Nil:
                return False
        for k in y.props:
            if not alike(x.props.get(k), y.props.get(k)):
                return False
        return True
    if isinstance(x, (list, tuple)):
        if not isinstance(y, (list, tuple)) or len(x) != len(y):
            return False
        for i in range(len(x)):
            if not alike(x[i], y[i]):
                return False
        return True
    if isinstance(x, dict):
        if not isinstance(y, dict):
            return False
        return alike(list(x.keys()), list(y.keys())) and alike(list(x.values()), list(y.values()))
    if x is None or y is None or x is Nil or y is Nil or x is ... or y is ...:
        return False
    return identical(x, y) or x == y
