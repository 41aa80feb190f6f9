"""The ast module over program texts with holes.

A program text is a sequence of literal pieces and unknown pieces; an unknown piece says in its meta["code"] what it is
(a simple statement, an identifier, the inside of a string or comment).  Parsing puts a fresh identifier in the place of
every unknown piece, lets the host parser read the result, and translates names and columns back: columns behind an
unknown piece are sums over the (unknown) length of its encoding.
"""
import ast
import re

from .values import *   # noqa
from .state import lin_of, lin_add, lin_norm
from . import fold
from .extern import TABLE, TYPES, ext
from .builtin import Builtins
from .ops import Ops

HOLE = re.compile(r"zq\d+qz")


def holes(I):
    return I.caches.setdefault("ast holes", {})


def hole_name(I, p):
    h = holes(I)
    k = keyof(p)
    if k not in h:
        n = f"zq{len(h)}qz"
        h[k] = n
        h[n] = p
    return h[k]


def to_host(I, s):
    """(host text, [(start byte, end byte, unknown piece or None)])"""
    s = I.c(s)
    if isinstance(s, bytes):
        try:
            s = s.decode("utf-8-sig")
        except UnicodeDecodeError as e:
            I.throw(SyntaxError, str(e))
    pieces = list(s.pieces) if isinstance(s, Cat) else [s]
    out, segs, at = [], [], 0
    for p in pieces:
        p = I.c(p)
        if isinstance(p, str):
            t = p
            q = None
        elif isinstance(p, Opaque) and isinstance(getattr(p, "meta", None), dict) and p.meta.get("code"):
            t, q = hole_name(I, p), p
        else:
            I.undecided(f"parsing of {show(p)}")
        try:
            n = len(t.encode())
        except UnicodeEncodeError as e:
            I.throw(type(e), str(e))
        out.append(t)
        segs.append((at, at + n, q))
        at += n
    return "".join(out), segs


def from_host(I, t):
    """Holes of a host text back to unknown pieces."""
    if not isinstance(t, str) or "zq" not in t:
        return t
    out, at = [], 0
    for m in HOLE.finditer(t):
        p = holes(I).get(m.group())
        if p is None:
            continue
        out += [t[at:m.start()], p]
        at = m.end()
    out.append(t[at:])
    return I.c(mk_cat(out))


class Positions:
    def __init__(self, I, text, segs):
        self.I, self.segs = I, segs
        self.data = text.encode()
        self.starts = [0]
        for line in self.data.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))

    def column(self, line, col):
        I = self.I
        lo = self.starts[line - 1]
        hi = lo + col
        acc = lin_of(0)
        for a, b, p in self.segs:
            x, y = max(a, lo), min(b, hi)
            if x >= y:
                continue
            if p is None:
                acc = lin_add(acc, lin_of(y - x))
            elif (x, y) == (a, b):
                acc = lin_add(acc, I.st.to_lin(fold.length_of(I.st, I.encode(p))))
            else:
                I.undecided("a position inside unknown code")
        return lin_norm(acc)


def convert(I, node, pos, extra):
    attrs = {}
    for f in node._fields:
        if hasattr(node, f):
            attrs[f] = value_of(I, getattr(node, f), pos, extra)
    for f in ("lineno", "end_lineno"):
        if hasattr(node, f):
            attrs[f] = getattr(node, f)
    if hasattr(node, "col_offset"):
        for f, ln in (("col_offset", "lineno"), ("end_col_offset", "end_lineno")):
            attrs[f] = Late(lambda node=node, f=f, ln=ln: pos.column(getattr(node, ln), getattr(node, f)))
    o = Obj(type(node), {k: v for k, v in attrs.items() if not isinstance(v, Late)}, native=(node, extra, {k: v for k, v in attrs.items() if isinstance(v, Late)}))
    return o


class Late:
    def __init__(self, f):
        self.f = f


def value_of(I, v, pos, extra):
    if isinstance(v, ast.AST):
        return convert(I, v, pos, extra)
    if isinstance(v, list):
        return ListObj([value_of(I, x, pos, extra) for x in v])
    if isinstance(v, str):
        return from_host(I, v)
    return v


def to_node(I, o):
    """Abstract node -> host node (holes in place of the unknown)."""
    o = I.c(o)
    if isinstance(o, Obj) and isinstance(o.cls, type) and issubclass(o.cls, ast.AST):
        n = o.cls()
        for f in o.cls._fields:
            if f in o.attrs:
                setattr(n, f, to_node(I, o.attrs[f]))
        for f in ("lineno", "end_lineno", "col_offset", "end_col_offset"):
            v = o.attrs.get(f)
            if isinstance(v, int):
                setattr(n, f, v)
        return n
    if isinstance(o, ListObj):
        return [to_node(I, x) for x in o.items]
    if isinstance(o, tuple):
        return tuple(to_node(I, x) for x in o)
    if isinstance(o, (Cat, Opaque)):
        return to_host(I, o)[0]
    return o


def node_attr(I, o, name):
    late = o.native[2] if o.native else {}
    if name in late:
        return (late[name].f(),)
    if name == "_fields":
        return (o.cls._fields,)
    if name == "_attributes":
        return (o.cls._attributes,)
    v = getattr(o.cls, name, late)      # optional fields default to None
    if v is None or isinstance(v, (int, str)):
        return (v,)
    return None


def make_node(cls):
    def build(I, args, kw):
        attrs = {}
        for f, v in zip(cls._fields, args):
            attrs[f] = v
        attrs.update(kw)
        for f in cls._fields:
            if f not in attrs and f in ("names", "body", "targets", "decorator_list", "type_params", "keywords", "args"):
                pass
        return Obj(cls, attrs, native=(None, None, {}))
    return build


for _n in dir(ast):
    _c = getattr(ast, _n)
    if isinstance(_c, type) and issubclass(_c, ast.AST):
        TYPES[f"ast.{_n}"] = _c
        Builtins.NATIVE_ATTR[_c] = node_attr
        Builtins.TYPE_CALL[_c] = make_node(_c)


@ext("ast.parse")
def _(I, args, kw):
    src = args[0] if args else kw["source"]
    mode = kw.get("mode", args[2] if len(args) > 2 else "exec")
    text, segs = to_host(I, src)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(text, mode=mode)
    except (SyntaxError, ValueError, RecursionError, MemoryError) as e:
        I.throw(type(e) if type(e) in (SyntaxError, ValueError, RecursionError, MemoryError) else SyntaxError, str(e))
    return convert(I, tree, Positions(I, text, segs), (text, segs))


def is_node(o):
    return isinstance(o, Obj) and isinstance(o.cls, type) and issubclass(o.cls, ast.AST)


def fields(I, o):
    for f in o.cls._fields:
        if f in o.attrs:
            yield f, o.attrs[f]


def children(I, o):
    for _, v in fields(I, o):
        v = I.c(v)
        if is_node(v):
            yield v
        elif isinstance(v, ListObj):
            for x in v.items:
                if is_node(x):
                    yield x


@ext("ast.iter_fields")
def _(I, args, kw):
    return GenObj(iter([(f, v) for f, v in fields(I, args[0])]), "iter_fields")


@ext("ast.iter_child_nodes")
def _(I, args, kw):
    return GenObj(iter(list(children(I, args[0]))), "iter_child_nodes")


@ext("ast.walk")
def _(I, args, kw):
    def gen():
        todo = [args[0]]
        while todo:
            n = todo.pop(0)
            todo.extend(children(I, n))
            yield n
    return GenObj(gen(), "walk")


@ext("ast.unparse")
def _(I, args, kw):
    try:
        return from_host(I, ast.unparse(ast.fix_missing_locations(to_node(I, args[0])) if is_node(args[0]) else to_node(I, args[0])))
    except (AttributeError, TypeError, ValueError, KeyError) as e:
        I.throw(type(e), str(e))


@ext("ast.dump")
def _(I, args, kw):
    return from_host(I, ast.dump(to_node(I, args[0]), **{k: v for k, v in kw.items() if isinstance(v, (bool, int, type(None)))}))


@ext("ast.fix_missing_locations")
def _(I, args, kw):
    return args[0]


@ext("ast.copy_location")
def _(I, args, kw):
    new, old = args
    for f in ("lineno", "end_lineno", "col_offset", "end_col_offset"):
        r = I.getattr(old, f)
        I.setattr(new, f, r)
    return new


@ext("ast.get_source_segment")
def _(I, args, kw):
    o = args[1]
    if not is_node(o) or not o.native or o.native[0] is None or keyof(I.c(args[0])) != keyof(from_host(I, o.native[1][0])):
        I.undecided("get_source_segment")
    r = ast.get_source_segment(o.native[1][0], o.native[0], padded=bool(kw.get("padded", False)))
    return from_host(I, r)


@ext("ast.get_docstring")
def _(I, args, kw):
    r = ast.get_docstring(to_node(I, args[0]), *[a for a in args[1:] if isinstance(a, bool)])
    return from_host(I, r)


# ------------------------------------------------------------------ encoded text
BREAK = re.compile(b"\r\n|[\n\r]")


def to_text(I, b):
    """A text that stands for the bytes: literal bytes as latin-1, encoded unknown text as itself."""
    b = I.c(b)
    ps = list(b.pieces) if isinstance(b, Cat) else [b]
    out = []
    for p in ps:
        if isinstance(p, bytes):
            out.append(p.decode("latin-1"))
        elif isinstance(p, Term) and p.op == "encode":
            out.append(p.args[0])
        else:
            return None
    return I.c(mk_cat(out))


def to_bytes(I, v):
    if isinstance(v, (Cat, str, Opaque)) and (not isinstance(v, Opaque) or I.st.tags_of(v) <= STR_TAGS):
        v = I.c(v)
        ps = list(v.pieces) if isinstance(v, Cat) else [v]
        return I.c(mk_cat([p.encode("latin-1") if isinstance(p, str) else I.encode(p) for p in ps], "bytes"))
    if isinstance(v, tuple):
        return tuple(to_bytes(I, x) for x in v)
    if isinstance(v, ListObj):
        return ListObj([to_bytes(I, x) for x in v.items])
    return v


def bytes_method(I, o, name, args, kw):
    """A method of an encoded text with unknown pieces (NotImplemented when there is no model)."""
    o = I.c(o)
    pieces = list(o.pieces) if isinstance(o, Cat) else [o]
    if name == "decode":
        out = []
        run = b""
        for p in pieces + [None]:
            if isinstance(p, bytes):
                run += p
                continue
            if run:
                try:
                    out.append(run.decode(*args, **kw))
                except Exception as e:
                    I.throw(type(e), str(e))
                run = b""
            if p is not None:
                if not (isinstance(p, Term) and p.op == "encode"):
                    return NotImplemented
                out.append(p.args[0])
        return I.c(mk_cat(out))
    if name == "join":
        parts = []
        for j, x in enumerate(I.iterate(args[0])):
            x = I.c(x)
            if not I.is_bytes(x):
                I.throw(TypeError, "sequence item: expected a bytes-like object")
            parts += ([o] if j else []) + [x]
        return I.c(mk_cat(parts, "bytes"))
    if name == "splitlines":
        keep = I.truth(args[0] if args else kw.get("keepends", False))
        lines, cur = [], []
        for p in pieces:
            if isinstance(p, bytes):
                j = 0
                for m in BREAK.finditer(p):
                    cur.append(p[j:m.end() if keep else m.start()])
                    lines.append(I.c(mk_cat(cur, "bytes")))
                    cur, j = [], m.end()
                if j < len(p):
                    cur.append(p[j:])
            elif isinstance(p, Term) and p.op == "encode" and isinstance(getattr(p.args[0], "meta", None), dict) and p.args[0].meta.get("oneline"):
                cur.append(p)
            else:
                return NotImplemented
        if cur:
            lines.append(I.c(mk_cat(cur, "bytes")))
        return ListObj(lines)
    if name in ("strip", "lstrip", "rstrip"):
        chars = args[0] if args else b" \t\n\r\x0b\x0c"
        t = to_text(I, o)
        if t is None or not isinstance(chars, bytes):
            return NotImplemented
        return to_bytes(I, I.str_method(t, name, [chars.decode("latin-1")], {}) if not isinstance(t, str) else getattr(t, name)(chars.decode("latin-1")))
    if name in ("split", "rsplit", "partition", "rpartition", "startswith", "endswith", "find", "rfind", "index", "rindex", "count", "replace", "removeprefix", "removesuffix"):
        t = to_text(I, o)
        ts = [to_text(I, a) if I.is_bytes(a) else tuple(to_text(I, x) for x in a) if isinstance(a, tuple) else a for a in args]
        if t is None or any(x is None and a is not None for x, a in zip(ts, args)):
            return NotImplemented
        return to_bytes(I, I.call_method(BMeth(name, t), ts, kw))
    return NotImplemented
