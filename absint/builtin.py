"""Builtin functions, constructors and methods of builtin types on abstract values."""
import ast
import decimal as _decimal
import fractions as _fractions
import builtins as _b
import datetime as _dt
import uuid as _uuid

from .values import *   # noqa
from .state import Undecided, Infeasible, lin_of, lin_add, lin_norm, lin_scale
from . import fold
from .core import PyExc, SliceVal
from .ops import is_lazy

_MISSING = object()


def bi(name):
    def deco(fn):
        BUILTINS[name] = Bi(name, fn)
        return fn
    return deco


BUILTINS = {}
for _n in dir(_b):
    _v = getattr(_b, _n)
    if isinstance(_v, type):
        BUILTINS[_n] = _v
BUILTINS.update({"NotImplemented": NotImplemented, "Ellipsis": ..., "__debug__": True,
                 "__name__": "__builtins__"})


def args1(I, name, args, n=1):
    if len(args) != n:
        I.throw(TypeError, f"{name}() takes exactly {n} argument(s) ({len(args)} given)")


@bi("len")
def _len(I, args, kw):
    args1(I, "len", args)
    return I.length(args[0])


@bi("isinstance")
def _isinstance(I, args, kw):
    args1(I, "isinstance", args, 2)
    return I.isinstance(args[0], args[1])


@bi("issubclass")
def _issubclass(I, args, kw):
    return I.issubclass(args[0], args[1])


@bi("callable")
def _callable(I, args, kw):
    return I.callable(args[0])


@bi("repr")
def _repr(I, args, kw):
    args1(I, "repr", args)
    return I.repr(args[0])


@bi("ascii")
def _ascii(I, args, kw):
    I.undecided("ascii")


@bi("format")
def _format(I, args, kw):
    return I.format(*args)


@bi("id")
def _id(I, args, kw):
    v = I.c(args[0])
    if isinstance(v, Heap):
        return (0x7e0000000000 if I.set_order else 0x7f0000000000) + 16 * v.uid
    return Term("id", (v,), {"int"}) if not isinstance(v, tuple) else Sym("id", {"int"})


@bi("hash")
def _hash(I, args, kw):
    v = I.c(args[0])
    I.need_hashable(v)
    if isinstance(v, Obj):
        m = I.class_attr(v, "__hash__")
        if m is not None:
            return I.call(Bound(m, v), [], {})
    if isinstance(v, tuple):
        return Term("hash", tuple(keyof(I.c(x)) if not isinstance(x, Heap) else x for x in v), {"int"}) \
            if False else Sym("hash", {"int"})
    if isinstance(v, (int, float)) and not isinstance(v, type):
        return hash(v)
    if I.set_order and not (isinstance(v, Opaque) and not I.st.tags_of(v) & (STR_TAGS | {"bytes"})):
        return Term("hash", (v if isinstance(v, (Opaque, Cat)) or is_conc(v) else id(v), "in another process"), {"int"})
    return Term("hash", (v if isinstance(v, (Opaque, Cat)) or is_conc(v) else id(v),), {"int"})


@bi("getattr")
def _getattr(I, args, kw):
    name = I.c(args[1])
    if not isinstance(name, str):
        if isinstance(name, (Opaque, Cat)):
            I.undecided("getattr with unknown name")
        I.throw(TypeError, "attribute name must be string")
    if len(args) == 3:
        try:
            return I.getattr(args[0], name)
        except PyExc as e:
            if I.exc_matches(e.value, AttributeError):
                return args[2]
            raise
    return I.getattr(args[0], name)


@bi("hasattr")
def _hasattr(I, args, kw):
    try:
        I.getattr(args[0], args[1])
        return True
    except PyExc as e:
        if I.exc_matches(e.value, AttributeError):
            return False
        raise


@bi("setattr")
def _setattr(I, args, kw):
    name = I.c(args[1])
    if not isinstance(name, str):
        I.undecided("setattr with unknown name")
    I.setattr(args[0], name, args[2])
    return None


@bi("delattr")
def _delattr(I, args, kw):
    o = args[0]
    if isinstance(o, Obj) and args[1] in o.attrs:
        I.touch(o)
        del o.attrs[args[1]]
        return None
    I.undecided("delattr")


@bi("vars")
def _vars(I, args, kw):
    return I.getattr(args[0], "__dict__")


@bi("dir")
def _dir(I, args, kw):
    I.undecided("dir")


@bi("iter")
def _iter(I, args, kw):
    if len(args) == 2:
        def gen():
            while True:
                v = I.call(args[0], [], {})
                if I.eq(v, args[1]):
                    return
                yield v
        return GenObj(gen(), "iter")
    v = I.c(args[0])
    if isinstance(v, GenObj):
        return v
    if isinstance(v, Obj):
        m = I.class_attr(v, "__iter__")
        if m is not None:
            return I.call(Bound(m, v), [], {})
    return GenObj(I.iterate(v), "iter")


@bi("next")
def _next(I, args, kw):
    g = I.c(args[0])
    if isinstance(g, Obj):
        m = I.class_attr(g, "__next__")
        if m is None:
            I.throw(TypeError, "object is not an iterator")
        try:
            return I.call(Bound(m, g), [], {})
        except PyExc as e:
            if len(args) == 2 and I.exc_matches(e.value, StopIteration):
                return args[1]
            raise
    if not isinstance(g, GenObj):
        I.throw(TypeError, f"'{I.type_name(g)}' object is not an iterator")
    try:
        return next(g.it)
    except StopIteration:
        if len(args) == 2:
            return args[1]
        I.throw(StopIteration)


@bi("all")
def _all(I, args, kw):
    for v in I.iterate(args[0]):
        if not I.truth(v):
            return False
    return True


@bi("any")
def _any(I, args, kw):
    for v in I.iterate(args[0]):
        if I.truth(v):
            return True
    return False


@bi("sum")
def _sum(I, args, kw):
    tot = args[1] if len(args) > 1 else kw.get("start", 0)
    for v in I.iterate(args[0]):
        tot = I.binop(ast.Add(), tot, v)
    return tot


@bi("abs")
def _abs(I, args, kw):
    if isinstance(I.c(args[0]), (_fractions.Fraction, _decimal.Decimal)):
        return abs(I.c(args[0]))
    k, n = I.num(args[0])
    if k is None:
        I.throw(TypeError, "bad operand type for abs()")
    if not isinstance(n, (Opaque, Lin)):
        return abs(n)
    return n if I.order(n, 0) >= 0 else I.unary(ast.USub(), n)


@bi("round")
def _round(I, args, kw):
    v = I.c(args[0])
    nd = args[1] if len(args) > 1 else kw.get("ndigits", None)
    if isinstance(v, (_fractions.Fraction, _decimal.Decimal)) and is_conc(I.c(nd)):
        try:
            return round(v, I.c(nd))
        except Exception as e:
            I.throw(type(e), str(e))
    k, n = I.num(v)
    if k is None:
        if isinstance(v, Opaque) and I.st.tags_of(v) & {"decimal", "fraction"}:
            I.undecided("round(Decimal)")
        I.throw(TypeError, "type doesn't define __round__ method")
    if nd is None:
        if not isinstance(n, (Opaque, Lin)):
            try:
                return round(n)
            except Exception as e:
                I.throw(type(e), str(e))
        if k == "int":
            return n
        return I.int_of(n, "round")
    nd = I.c(nd)
    if not isinstance(n, (Opaque, Lin)) and isinstance(nd, int):
        return round(n, nd)
    if isinstance(n, float) and (n != n or abs(n) == float("inf")):
        return n
    if k == "int" and I.st.order(nd, 0, decide=False) in (0, 1, (0, 1)):
        return n
    r = I.mk("round", (n, nd), {k}, True)
    if isinstance(r, Opaque) and isinstance(nd, int):
        lo, hi = I.lin_interval(n) if isinstance(n, Lin) else (I.st.num_node(n), I.st.zone.interval(n))[1]
        I.st.num_node(r)
        if lo is not None:
            I.st.le(round(float(lo), nd), r)
        if hi is not None:
            I.st.le(r, round(float(hi), nd))
    return r


@bi("divmod")
def _divmod(I, args, kw):
    return (I.binop(ast.FloorDiv(), args[0], args[1]), I.binop(ast.Mod(), args[0], args[1]))


@bi("pow")
def _pow(I, args, kw):
    if len(args) == 3:
        I.undecided("pow/3")
    return I.binop(ast.Pow(), args[0], args[1])


@bi("chr")
def _chr(I, args, kw):
    k, n = I.num(args[0])
    if k != "int":
        I.throw(TypeError, "an integer is required")
    if isinstance(n, int):
        try:
            return chr(n)
        except Exception as e:
            I.throw(type(e), str(e))
    if isinstance(n, Term) and n.op == "ord":
        return I.c(n.args[0])
    if I.order(n, 0) < 0 or I.order(n, 0x10ffff) > 0:
        I.throw(ValueError, "chr() arg not in range(0x110000)")
    return I.mk("chr", (n,), {"str"}, char=True)


@bi("ord")
def _ord(I, args, kw):
    v = I.c(args[0])
    if isinstance(v, (str, bytes)):
        try:
            return ord(v)
        except TypeError as e:
            I.throw(TypeError, str(e))
    if isinstance(v, Opaque) and v.char:
        r = I.mk("ord", (v,), {"int"})
        return r
    I.undecided("ord")


def minmax(name):
    def fn(I, args, kw):
        key = kw.get("key")
        items = list(I.iterate(args[0])) if len(args) == 1 else list(args)
        if not items:
            if "default" in kw:
                return kw["default"]
            I.throw(ValueError, f"{name}() arg is an empty sequence")
        best = items[0]
        kb = I.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            kx = I.call(key, [x], {}) if key is not None else x
            if I.truth(I.less("<" if name == "min" else ">", kx, kb)):
                best, kb = x, kx
        return best
    BUILTINS[name] = Bi(name, fn)


minmax("min")
minmax("max")


@bi("sorted")
def _sorted(I, args, kw):
    l = ListObj(list(I.iterate(args[0])))
    I.sort(l, kw)
    return l


@bi("print")
def _print(I, args, kw):
    for a in args:
        I.str(a)
    return None


@bi("open")
def _open(I, args, kw):
    I.undecided("open")


@bi("input")
def _input(I, args, kw):
    I.undecided("input")


for _n in ("exec", "eval", "compile", "globals", "locals", "__import__", "bin", "hex", "oct", "memoryview"):
    if _n in ("bin", "hex", "oct"):
        def _mkf(n):
            def fn(I, args, kw):
                v = I.c(args[0])
                if isinstance(v, int):
                    return getattr(_b, n)(v)
                if isinstance(v, (Opaque, Lin)) and I.isinstance(v, int):
                    v = I.c(v)
                    return getattr(_b, n)(v) if isinstance(v, int) else I.mk(n, (v,), {"str"})
                I.throw(TypeError, f"{n}() of something that is no integer")
            return fn
        BUILTINS[_n] = Bi(_n, _mkf(_n))
    elif _n not in BUILTINS:
        def _mku(n):
            def fn(I, args, kw):
                I.undecided(n)
            return fn
        BUILTINS[_n] = Bi(_n, _mku(_n))


@bi("super")
def _super(I, args, kw):
    if len(args) == 2:
        return SuperVal(args[0], args[1])
    I.undecided("super")


STR_PURE = {"upper", "lower", "strip", "lstrip", "rstrip", "replace", "title", "capitalize", "isdigit", "isalpha",
            "isalnum", "isspace", "isupper", "islower", "isidentifier", "isdecimal", "isnumeric", "isascii",
            "isprintable", "zfill", "center", "ljust", "rjust", "count", "find", "rfind", "index", "rindex",
            "split", "rsplit", "partition", "rpartition", "splitlines", "startswith", "endswith", "encode",
            "casefold", "swapcase", "expandtabs", "removeprefix", "removesuffix", "translate", "decode", "hex"}


def wrap_result(r):
    if isinstance(r, list):
        return ListObj([wrap_result(x) for x in r])
    return r


PRINTED_ON_ONE_LINE = frozenset({"none", "bool", "int", "hugeint", "float", "inf", "ninf", "nan", "str", "bytes", "uuid4", "uuidx", "datetime", "date", "decimal", "fraction"})


class Builtins:
    builtins = BUILTINS

    # ------------------------------------------------------------------ helpers
    def length(self, v):
        v = self.c(v)
        if isinstance(v, Opaque):
            t = self.st.tags_of(v)
            if t & (STR_TAGS | {"bytes"}) and self.st.split(v, STR_TAGS | {"bytes"}, "text"):
                v = self.c(v)
                return fold.length_of(self.st, v)
            v = self.force_shape(v)
            if isinstance(v, Opaque):
                self.throw(TypeError, "object has no len()")
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, Cat):
            return fold.length_of(self.st, v)
        if isinstance(v, ListObj):
            return len(v.items)
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, DictObj):
            return len(v.entries)
        if isinstance(v, SetObj):
            if v.lazy is not None:
                self.force_set(v)
            return len(v.items)
        if isinstance(v, DictView):
            return len(v.d.entries)
        if isinstance(v, RangeVal):
            if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
                return len(range(v.start, v.stop, v.step))
            self.undecided("len(range)")
        if isinstance(v, Obj):
            m = self.class_attr(v, "__len__")
            if m is not None:
                return self.call(Bound(m, v), [], {})
        self.throw(TypeError, f"object of type '{self.type_name(v)}' has no len()")

    def int_of(self, n, op):
        """round(x) / int(x) of an unknown float"""
        if isinstance(n, float):
            try:
                return fold.NUM_OPS[op](n)
            except Exception as e:
                self.throw(type(e), str(e))
        r = self.mk(op, (n,), {"int"}, True)
        if isinstance(r, Opaque):
            self.st.num_node(r)
            lo, hi = self.lin_interval(n) if isinstance(n, Lin) else (self.st.num_node(n), self.st.zone.interval(n))[1]
            f = fold.NUM_OPS[op]
            if lo is not None:
                self.st.le(f(lo), r)
            if hi is not None:
                self.st.le(r, f(hi))
        return r

    def sort(self, l, kw):
        key = kw.get("key")
        rev = self.truth(kw.get("reverse", False))
        items = list(l.items)
        keys = [self.call(key, [x], {}) if key is not None else x for x in items]
        if rev:
            items.reverse()
            keys.reverse()
        plain = [self.c(k) for k in keys]
        if all(type(k) is str for k in plain) or all(type(k) is int for k in plain):
            order = sorted(range(len(items)), key=plain.__getitem__)
            items, keys = [items[i] for i in order], []
            out = items
        else:
            out = []
        ok = []
        for x, k in zip(items, keys):
            i = len(out)
            while i > 0 and self.truth(self.less("<", k, ok[i - 1])):
                i -= 1
            out.insert(i, x)
            ok.insert(i, k)
        if rev:
            out.reverse()
        self.touch(l)
        l.items[:] = out

    # ------------------------------------------------------------------ constructors
    def call_type(self, t, args, kw):
        if issubclass(t, BaseException):
            return Obj(t, {"args": tuple(args)})
        h = getattr(self, "new_" + t.__name__, None)
        if h is not None:
            return h(args, kw)
        h = self.TYPE_CALL.get(t)
        if h is not None:
            return h(self, args, kw)
        cargs = [self.c(a) for a in args]
        if all(is_conc(a) for a in cargs) and all(is_conc(v) for v in kw.values()) and \
                t.__module__ in ("datetime", "uuid", "decimal", "fractions", "builtins"):
            try:
                return t(*cargs, **kw)
            except Exception as e:
                self.throw(type(e), str(e))
        self.undecided(f"constructor {t.__name__}")

    TYPE_CALL = {}

    def new_type(self, args, kw):
        if len(args) == 1:
            return self.type_of(args[0])
        if len(args) == 3:
            ns = {k: v for k, v in self.force_shape(args[2]).entries}
            return self.make_class(args[0], list(args[1]), ns, "?", kw)
        self.throw(TypeError, "type() takes 1 or 3 arguments")

    def new_object(self, args, kw):
        return Sym("object()", {"object"}, atom=True)

    def new_str(self, args, kw):
        if not args:
            return ""
        if len(args) > 1:
            self.undecided("str(bytes, encoding)")
        return self.str(args[0])

    def new_bool(self, args, kw):
        return self.truth(args[0]) if args else False

    def new_int(self, args, kw):
        if not args:
            return 0
        v = self.c(args[0])
        if len(args) > 1 or kw:
            if is_conc(v):
                try:
                    return int(v, *args[1:], **kw)
                except Exception as e:
                    self.throw(type(e), str(e))
            self.undecided("int(x, base)")
        if isinstance(v, (_fractions.Fraction, _decimal.Decimal)):
            try:
                return int(v)
            except Exception as e:
                self.throw(type(e), str(e))
        k, n = self.num(v)
        if k == "int":
            if isinstance(n, bool):
                return int(n)
            if isinstance(n, Opaque) and self.st.tags_of(n) == frozenset({"bool"}):
                return 1 if self.truth(n) else 0
            return n
        if k == "float":
            return self.int_of(n, "int")
        v = self.c(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError as e:
                self.throw(ValueError, str(e))
        if isinstance(v, Obj) and self.class_attr(v, "__int__") is not None:
            return self.call(Bound(self.class_attr(v, "__int__"), v), [], {})
        if isinstance(v, Obj):
            h = self.native_attr(v, "__int__", v.cls) if isinstance(v.cls, type) else None
            if h is not None:
                return self.call(h[0], [], {})
        if isinstance(v, (Opaque, Cat)):
            if isinstance(v, Cat) or self.st.tags_of(v) & STR_TAGS and self.is_str(v):
                if self.st.decide("intlike", v):
                    return self.mk("int", (v,), {"int"}, True)
                self.throw(ValueError, "invalid literal for int()")
            if self.st.tags_of(v) & {"decimal", "fraction"}:
                self.undecided("int(Decimal)")
        self.throw(TypeError, "int() argument must be a string, a bytes-like object or a real number")

    def new_float(self, args, kw):
        if not args:
            return 0.0
        v = self.c(args[0])
        if is_conc(v) and not isinstance(v, (tuple, NilT, type)):
            try:
                return float(v)
            except Exception as e:
                self.throw(type(e), str(e))
        k, n = self.num(v)
        if k == "float":
            return n
        if k == "int":
            if not self.bounded(n) and self.st.decide("overflow", "float", n):
                self.throw(OverflowError, "int too large to convert to float")
            return self.mk("float", (n,), {"float"}, True)
        if isinstance(self.c(v), Opaque):
            self.undecided("float(unknown)")
        self.throw(TypeError, "float() argument must be a string or a real number")

    def new_list(self, args, kw):
        return ListObj(list(self.iterate(args[0])) if args else [])

    def new_tuple(self, args, kw):
        return tuple(self.iterate(args[0])) if args else ()

    def new_set(self, args, kw, frozen=False):
        if not args:
            return SetObj(frozen=frozen)
        v = self.c(args[0])
        if isinstance(v, (Opaque,)) and self.st.tags_of(v) & STR_TAGS and self.is_str(v):
            v = self.c(v)
            if isinstance(v, Opaque) and not v.char:
                return SetObj(lazy=v, frozen=frozen)
        s = SetObj(frozen=frozen)
        if isinstance(v, str):
            s.items = list(dict.fromkeys(v))
            return s
        for x in self.iterate(v):
            self.need_hashable(x)
            if not self.set_has(s, x):
                s.items.append(self.c(x))
        return s

    def new_frozenset(self, args, kw):
        return self.new_set(args, kw, True)

    def new_dict(self, args, kw):
        d = DictObj()
        if args:
            self.dict_update(d, args[0])
        for k, v in kw.items():
            self.dict_set(d, k, v)
        return d

    def dict_update(self, d, src):
        src = self.force_shape(src)
        if isinstance(src, DictObj):
            for k, v in list(src.entries):
                self.dict_set(d, k, v)
        elif isinstance(src, Obj) and self.class_attr(src, "keys") is not None:
            for k in list(self.iterate(self.call(self.getattr(src, "keys"), [], {}))):
                self.dict_set(d, k, self.getitem(src, k))
        else:
            for p in self.iterate(src):
                kv = list(self.iterate(p))
                if len(kv) != 2:
                    self.throw(ValueError, "dictionary update sequence element has wrong length")
                self.dict_set(d, kv[0], kv[1])

    def new_range(self, args, kw):
        vals = []
        for a in args:
            k, n = self.num(a)
            if k != "int":
                self.throw(TypeError, "object cannot be interpreted as an integer")
            vals.append(int(n) if isinstance(n, int) else n)
        if len(vals) == 1:
            return RangeVal(0, vals[0], 1)
        if len(vals) == 2:
            return RangeVal(vals[0], vals[1], 1)
        if isinstance(vals[2], int) and vals[2] == 0:
            self.throw(ValueError, "range() arg 3 must not be zero")
        return RangeVal(*vals)

    def new_enumerate(self, args, kw):
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        src = self.iterate(args[0])

        def gen():
            i = 0
            for v in src:
                yield (lin_norm(lin_add(self.st.to_lin(start), lin_of(i))), v)
                i += 1
        return GenObj(gen(), "enumerate")

    def new_zip(self, args, kw):
        its = [self.iterate(a) for a in args]
        strict = self.truth(kw.get("strict", False))

        def gen():
            while True:
                row = []
                for i, it in enumerate(its):
                    try:
                        row.append(next(it))
                    except StopIteration:
                        if strict and i > 0:
                            self.throw(ValueError, "zip() argument lengths differ")
                        if strict:
                            for o in its[1:]:
                                try:
                                    next(o)
                                except StopIteration:
                                    continue
                                self.throw(ValueError, "zip() argument lengths differ")
                        return
                if not its:
                    return
                yield tuple(row)
        return GenObj(gen(), "zip")

    def new_map(self, args, kw):
        f = args[0]
        if len(args) == 2:
            src = self.iterate(args[1])

            def gen():
                for v in src:
                    yield self.call(f, [v], {})
        else:
            zs = self.new_zip(args[1:], {})

            def gen():
                for v in zs.it:
                    yield self.call(f, list(v), {})
        return GenObj(gen(), "map")

    def new_filter(self, args, kw):
        f, src = args[0], self.iterate(args[1])

        def gen():
            for v in src:
                if self.truth(v if f is None else self.call(f, [v], {})):
                    yield v
        return GenObj(gen(), "filter")

    def new_reversed(self, args, kw):
        v = self.c(args[0])
        if isinstance(v, (ListObj, tuple, str, Cat, DictObj, DictView, RangeVal)) or isinstance(v, Opaque):
            items = list(self.iterate(v))
            items.reverse()
            return GenObj(iter(items), "reversed")
        if isinstance(v, Obj):
            m = self.class_attr(v, "__reversed__")
            if m is not None:
                return self.call(Bound(m, v), [], {})
            n = self.length(v)
            if isinstance(n, int):
                return GenObj(iter([self.getitem(v, i) for i in range(n - 1, -1, -1)]), "reversed")
        self.throw(TypeError, "object is not reversible")

    def new_property(self, args, kw):
        return Prop(args[0] if args else kw.get("fget"), args[1] if len(args) > 1 else kw.get("fset"))

    def new_staticmethod(self, args, kw):
        return StaticM(args[0])

    def new_classmethod(self, args, kw):
        return ClassM(args[0])

    def new_slice(self, args, kw):
        if len(args) == 1:
            return SliceVal(None, args[0], None)
        return SliceVal(args[0], args[1], args[2] if len(args) > 2 else None)

    def new_bytes(self, args, kw):
        if not args:
            return b""
        v = self.c(args[0])
        if len(args) > 1 and self.is_str(v):
            return self.encode(v)
        if isinstance(v, bytes):
            return v
        if isinstance(v, ListObj) and all(isinstance(x, int) for x in v.items):
            try:
                return bytes(v.items)
            except Exception as e:
                self.throw(type(e), str(e))
        if isinstance(v, int):
            return bytes(v)
        if isinstance(v, Opaque) and self.st.tags_of(v) == frozenset({"bytes"}):
            return v
        self.undecided("bytes()")

    def new_bytearray(self, args, kw):
        self.undecided("bytearray()")

    def new_complex(self, args, kw):
        self.undecided("complex()")

    def encode(self, v):
        v = self.c(v)
        if isinstance(v, str):
            try:
                return v.encode()
            except Exception as e:
                self.throw(type(e), str(e))
        if isinstance(v, Cat):
            return self.c(mk_cat([self.encode(p) for p in v.pieces], "bytes"))
        return self.mk("encode", (v,), {"bytes"})

    # ------------------------------------------------------------------ attributes of builtin values
    def builtin_getattr(self, o, name):
        if name == "__class__":
            return self.type_of(o)
        if isinstance(o, Prop):
            if name == "setter":
                return Bi("setter", lambda I, a, k: Prop(o.fget, a[0]))
            if name == "getter":
                return Bi("getter", lambda I, a, k: Prop(a[0], o.fset))
            if name == "fget":
                return o.fget
            if name == "fset":
                return o.fset
            self.throw(AttributeError, name)
        if isinstance(o, (StaticM, ClassM)):
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, Opaque):
            return self.opaque_getattr(o, name)
        if isinstance(o, (_uuid.UUID, _dt.datetime, _dt.date, _dt.timedelta, _fractions.Fraction, _decimal.Decimal)):
            if not hasattr(o, name):
                self.throw(AttributeError, name)
            r = getattr(o, name)
            if callable(r):
                return BMeth(name, o)
            return r
        if isinstance(o, (int, float, str, bytes, Cat, Lin, ListObj, tuple, DictObj, SetObj, DictView, GenObj,
                          RangeVal, type(None), complex)) or o is ...:
            t = {Cat: str, Lin: int}.get(type(o)) or (self.type_of(o) if not isinstance(o, GenObj) else None)
            if isinstance(o, Cat) and o.kind == "bytes":
                t = bytes
            if t is not None and not hasattr(t, name):
                self.throw(AttributeError, f"'{t.__name__}' object has no attribute {name!r}")
            if isinstance(o, (int, float)) and name in ("real", "imag", "numerator", "denominator"):
                return getattr(o, name)
            if isinstance(o, DictObj) and o.factory is not None and name == "default_factory":
                return o.factory
            if name == "__doc__":
                return None
            return BMeth(name, o)
        self.throw(AttributeError, f"{show(o)} has no attribute {name!r}")

    def opaque_getattr(self, o, name):
        tags = self.st.tags_of(o)
        has = frozenset(t for t in tags if hasattr(TAG_TYPE[t], name))
        if not has:
            self.throw(AttributeError, f"object has no attribute {name!r}")
        if has != tags:
            if not self.st.split(o, has, f"has attribute {name}"):
                self.throw(AttributeError, f"object has no attribute {name!r}")
        o = self.c(o)
        if not isinstance(o, Opaque):
            return self.getattr(o, name)
        tags = self.st.tags_of(o)
        if tags <= {"uuid4", "uuidx"}:
            if name == "version":
                if self.st.split(o, frozenset({"uuid4"}), "a version-4 UUID"):
                    return 4
                if self.st.decide("noversion", o):
                    return None
                t = Term("version", (o,), {"int"})
                self.st.num_node(t)
                self.st.le(1, t)
                self.st.le(t, 5)
                if self.st.order(t, 4, decide=False) == "?":
                    if self.st.decide("lowversion", o):
                        self.st.le(t, 3)
                    else:
                        self.st.le(5, t)
                return self.c(t)
            if name in ("hex", "urn", "variant"):
                return self.mk(name, (o,), {"str"})
            if name in ("int", "time", "node", "fields", "bytes"):
                return self.mk(name, (o,), {"int"} if name != "bytes" else {"bytes"})
        if tags <= {"datetime", "date"} and name in ("year", "month", "day", "hour", "minute", "second",
                                                     "microsecond"):
            return self.mk(name, (o,), {"int"})
        if tags <= {"datetime"} and name == "tzinfo":
            self.undecided("tzinfo")
        if tags <= NUM_TAGS and name in ("real", "numerator"):
            return o
        if tags & SHAPE_TAGS and not (tags - SHAPE_TAGS):
            s = self.force_shape(o)
            return self.getattr(s, name)
        return BMeth(name, o)

    def type_getattr(self, t, name):
        if name == "__name__":
            return t.__name__ if t is not NilT else "NilType"
        if name == "__qualname__":
            return t.__qualname__
        if name == "__module__":
            return t.__module__
        if name == "__mro__":
            return tuple(t.__mro__)
        if name == "__dict__":
            self.undecided("type.__dict__")
        h = self.TYPE_ATTR.get((t, name))
        if h is not None:
            return h
        if not hasattr(t, name):
            self.throw(AttributeError, f"type object {t.__name__!r} has no attribute {name!r}")
        r = getattr(t, name)
        if isinstance(r, CONC) and not isinstance(r, type):
            return r
        if t is dict and name == "fromkeys":
            def fk(I, a, k):
                d = DictObj()
                for x in I.iterate(a[0]):
                    I.dict_set(d, x, a[1] if len(a) > 1 else None)
                return d
            return Bi("dict.fromkeys", fk)
        if t is str and name == "maketrans":
            self.undecided("maketrans")
        if name == "__init__" and issubclass(t, BaseException):
            def init(I, a, k):
                I.touch(a[0])
                a[0].attrs["args"] = tuple(a[1:])
            return Bi("exc.__init__", init)
        if t in (int, float, str, bytes) and name == "__repr__":
            return Bi(f"{t.__name__}.__repr__", lambda I, a, k: I.base_repr(t, a[0]))
        if t is object and name in ("__eq__", "__ne__", "__repr__", "__str__", "__hash__", "__setattr__"):
            return Bi(f"object.{name}", lambda I, a, k: I.object_method(name, I.c(a[0]))(I, a[1:], k))
        if callable(r):
            # unbound method
            if name.startswith("from") or name in ("utcnow", "now", "today", "strptime", "combine"):
                self.undecided(f"{t.__name__}.{name}")
            return Bi(f"{t.__name__}.{name}", lambda I, a, k: I.call(I.getattr(a[0], name), a[1:], k))
        self.undecided(f"{t.__name__}.{name}")

    TYPE_ATTR = {}

    def base_repr(self, t, v):
        """int.__repr__ and the like: the literal, also of a subclass instance."""
        v = self.c(v)
        if isinstance(v, CONC):
            try:
                return t.__repr__(v)
            except Exception as e:
                self.throw(type(e), str(e))
        if not self.isinstance(v, t):
            self.throw(TypeError, f"descriptor '__repr__' requires a {t.__name__!r} object")
        v = self.c(v)
        if isinstance(v, Opaque):
            odd = {"intsub", "floatsub", "strsub"} | ({"bool"} if t is int else set())
            if self.st.tags_of(v) & odd and self.st.split(v, frozenset(odd), "an instance of a subclass"):
                return self.mk("brepr", (v,), {"str"})
        return self.repr(v)

    def native_attr(self, o, name, cls):
        """Attribute of a modelled library object or exception; a 1-tuple, or None when absent."""
        if issubclass(cls, BaseException):
            if name == "args":
                return (o.attrs.get("args", ()),)
            if name == "with_traceback":
                return (Bi(name, lambda I, a, k: o),)
            if name in ("__cause__", "__context__", "__traceback__"):
                return (None,)
            if name == "add_note":
                return (Bi(name, lambda I, a, k: None),)
            if cls is StopIteration and name == "value":
                return (None,)
            return None
        h = self.NATIVE_ATTR.get(cls)
        if h is not None:
            return h(self, o, name)
        return None

    NATIVE_ATTR = {}
    NATIVE_BINOP = {}

    def native_binop(self, nm, a, b):
        h = self.NATIVE_BINOP.get(a.cls)
        if h is not None:
            return h(self, nm, a, b)
        return NotImplemented

    # ------------------------------------------------------------------ methods
    def call_method(self, m, args, kw):
        o, name = self.c(m.self), m.name
        if name.startswith("__") and name.endswith("__"):
            return self.dunder_method(o, name, args, kw)
        if isinstance(o, ByteArr):
            self.undecided("bytearray method")
        if isinstance(o, ListObj):
            return self.list_method(o, name, args, kw)
        if isinstance(o, DictObj):
            return self.dict_method(o, name, args, kw)
        if isinstance(o, SetObj):
            return self.set_method(o, name, args, kw)
        if isinstance(o, tuple):
            if name == "index":
                for i, x in enumerate(o):
                    if self.same_or_eq(x, args[0]):
                        return i
                self.throw(ValueError, "tuple.index(x): x not in tuple")
            if name == "count":
                return sum(1 for x in o if self.same_or_eq(x, args[0]))
        if isinstance(o, DictView):
            if name == "isdisjoint":
                return not any(self.contains(o, x) for x in self.iterate(args[0]))
            if name == "mapping":
                return o.d
        if isinstance(o, GenObj):
            if name == "close":
                o.it = iter(())
                return None
            if name == "send":
                self.undecided("send")
        if isinstance(o, Cat) and o.kind == "bytes" or isinstance(o, bytes) or isinstance(o, Term) and o.op == "encode":
            from .astmodel import bytes_method
            args = [self.c(a) for a in args]
            if not isinstance(o, bytes) or name == "join" or not all(is_conc(a) for a in args):
                r = bytes_method(self, o, name, args, kw)
                if r is not NotImplemented:
                    return r
                self.undecided(f"bytes.{name}")
        if isinstance(o, (str, Cat)) or isinstance(o, Opaque) and self.st.tags_of(o) & STR_TAGS and self.is_str(o):
            return self.str_method(self.c(o), name, [self.c(a) for a in args], kw)
        if isinstance(o, bytes) or isinstance(o, Opaque) and self.st.tags_of(o) == frozenset({"bytes"}):
            if name == "decode":
                if isinstance(o, bytes):
                    try:
                        return o.decode(*args, **kw)
                    except Exception as e:
                        self.throw(type(e), str(e))
                if isinstance(o, Term) and o.op == "encode":
                    return o.args[0]
            if isinstance(o, bytes) and name in STR_PURE and all(is_conc(a) for a in args) and all(is_conc(a) for a in kw.values()):
                try:
                    return wrap_result(getattr(o, name)(*args, **kw))
                except Exception as e:
                    self.throw(type(e), str(e))
            self.undecided(f"bytes.{name}")
        if isinstance(o, (int, float, _uuid.UUID, _dt.date, _dt.timedelta, _fractions.Fraction,
                          _decimal.Decimal)) and not isinstance(o, type) and \
                all(is_conc(a) for a in args):
            try:
                return wrap_result(getattr(o, name)(*args, **kw))
            except Exception as e:
                self.throw(type(e), str(e))
        if isinstance(o, (Opaque, Lin)):
            k, n = self.num(o)
            if k == "float" and name == "is_integer":
                if isinstance(n, float):
                    return n.is_integer()
                return self.st.decide("is_integer", n)
            if k == "int" and name == "is_integer":
                return True
            if isinstance(o, Opaque) and self.st.tags_of(o) <= {"datetime", "date"}:
                if name in ("isoformat", "strftime", "ctime"):
                    return self.mk(name, (o,) + tuple(args), {"str"})
                if name == "date":
                    return self.mk("date", (o,), {"date"})
                if name == "replace":
                    self.undecided("datetime.replace")
                if name == "toordinal":
                    r = self.mk("toordinal", (o,), {"int"})
                    self.st.num_node(r)
                    self.st.le(1, r)
                    self.st.le(r, 3652059)
                    return r
        self.undecided(f"method {name} of {show(o)}")

    def dunder_method(self, o, name, args, kw):
        if name == "__len__":
            return self.length(o)
        if name == "__contains__":
            return self.contains(o, args[0])
        if name == "__getitem__":
            return self.getitem(o, args[0])
        if name == "__setitem__":
            return self.setitem(o, args[0], args[1])
        if name == "__delitem__":
            return self.delitem(o, args[0])
        if name == "__eq__":
            return self.rich_eq(o, args[0])
        if name == "__ne__":
            return self.ne_(o, args[0])
        if name == "__repr__":
            return self.repr(o)
        if name == "__str__":
            return self.str(o)
        if name == "__hash__":
            return _hash(self, [o], {})
        if name == "__iter__":
            return _iter(self, [o], {})
        if name == "__next__":
            return _next(self, [o], {})
        if name in ("__lt__", "__le__", "__gt__", "__ge__"):
            return self.less({"__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}[name], o, args[0])
        if name == "__add__":
            return self.binop(ast.Add(), o, args[0])
        if name == "__mod__":
            return self.binop(ast.Mod(), o, args[0])
        if name == "__round__":
            return _round(self, [o] + list(args), {})
        if name in ("__int__", "__trunc__"):
            return self.new_int([o], {})
        if name == "__format__":
            return self.format(o, *args)
        if name == "__bool__":
            return self.truth(o)
        self.undecided(f"method {name}")

    def list_method(self, l, name, a, kw):
        if name == "append":
            args1(self, "append", a)
            self.touch(l)
            l.items.append(a[0])
            return None
        if name == "extend":
            items = list(self.iterate(a[0]))
            self.touch(l)
            l.items.extend(items)
            return None
        if name == "insert":
            i = self.norm_index(a[0], len(l.items), True)
            self.touch(l)
            l.items.insert(i, a[1])
            return None
        if name == "pop":
            if not l.items:
                self.throw(IndexError, "pop from empty list")
            i = self.norm_index(a[0], len(l.items)) if a else -1
            if not -len(l.items) <= i < len(l.items):
                self.throw(IndexError, "pop index out of range")
            self.touch(l)
            return l.items.pop(i)
        if name == "remove":
            for i, x in enumerate(list(l.items)):
                if self.same_or_eq(x, a[0]):
                    self.touch(l)
                    del l.items[i]
                    return None
            self.throw(ValueError, "list.remove(x): x not in list")
        if name == "index":
            lo = a[1] if len(a) > 1 else 0
            for i, x in enumerate(list(l.items)):
                if i >= lo and self.same_or_eq(x, a[0]):
                    return i
            self.throw(ValueError, "x is not in list")
        if name == "count":
            return sum(1 for x in list(l.items) if self.same_or_eq(x, a[0]))
        if name == "sort":
            self.sort(l, kw)
            return None
        if name == "reverse":
            self.touch(l)
            l.items.reverse()
            return None
        if name == "copy":
            return ListObj(l.items)
        if name == "clear":
            self.touch(l)
            l.items.clear()
            return None
        self.undecided(f"list.{name}")

    def dict_method(self, d, name, a, kw):
        if name in ("keys", "values", "items"):
            return DictView(d, name)
        if name == "get":
            self.need_hashable(a[0])
            e = self.dict_find(d, a[0])
            return e[1] if e is not None else (a[1] if len(a) > 1 else kw.get("default"))
        if name == "setdefault":
            self.need_hashable(a[0])
            e = self.dict_find(d, a[0])
            if e is not None:
                return e[1]
            v = a[1] if len(a) > 1 else None
            self.dict_set(d, a[0], v)
            return v
        if name == "pop":
            self.need_hashable(a[0])
            e = self.dict_find(d, a[0])
            if e is None:
                if len(a) > 1:
                    return a[1]
                self.throw(KeyError, a[0])
            v = e[1]
            self.delitem(d, a[0])
            return v
        if name == "popitem":
            if not d.entries:
                self.throw(KeyError, "popitem(): dictionary is empty")
            self.touch(d)
            k, v = d.entries.pop()
            return (k, v)
        if name == "update":
            if a:
                self.dict_update(d, a[0])
            for k, v in kw.items():
                self.dict_set(d, k, v)
            return None
        if name == "copy":
            r = DictObj([list(e) for e in d.entries], d.factory)
            return r
        if name == "clear":
            self.touch(d)
            d.entries.clear()
            return None
        if name == "move_to_end":
            self.undecided("move_to_end")
        self.undecided(f"dict.{name}")

    def set_method(self, s, name, a, kw):
        if name == "add":
            self.set_add(s, a[0])
            return None
        if name in ("discard", "remove"):
            self.force_set(s)
            for i, x in enumerate(list(s.items)):
                if self.same_or_eq(x, a[0]):
                    self.touch(s)
                    del s.items[i]
                    return None
            if name == "remove":
                self.throw(KeyError, a[0])
            return None
        if name in ("union", "difference", "intersection", "symmetric_difference"):
            nm = {"union": "__or__", "difference": "__sub__", "intersection": "__and__",
                  "symmetric_difference": "__xor__"}[name]
            r = s
            if not a:
                return self.set_binop("__or__", s, SetObj())
            for o in a:
                r = self.set_binop(nm, r, self.as_coll(o))
            return r
        if name in ("issubset",):
            return self.set_compare("<=", s, self.as_coll(a[0]))
        if name in ("issuperset",):
            return self.set_compare(">=", s, self.as_coll(a[0]))
        if name == "isdisjoint":
            return not any(self.contains(s, x) for x in self.iterate(a[0]))
        if name == "update":
            for o in a:
                for x in self.iterate(o):
                    self.set_add(s, x)
            return None
        if name in ("difference_update", "intersection_update"):
            nm = "__sub__" if name[0] == "d" else "__and__"
            r = s
            for o in a:
                r = self.set_binop(nm, r, self.as_coll(o))
            self.touch(s)
            s.items[:] = r.items
            s.lazy = None
            return None
        if name == "copy":
            return SetObj(s.items, s.frozen, s.lazy)
        if name == "clear":
            self.touch(s)
            s.items.clear()
            s.lazy = None
            return None
        if name == "pop":
            self.force_set(s)
            if not s.items:
                self.throw(KeyError, "pop from an empty set")
            if len(s.items) > 1:
                self.set_iterations.append(self.site())
            self.touch(s)
            return s.items.pop(-1 if self.set_order else 0)
        self.undecided(f"set.{name}")

    def as_coll(self, o):
        o = self.c(o)
        if isinstance(o, (SetObj, DictView)):
            return o
        return self.new_set([o], {})

    # ------------------------------------------------------------------ str methods
    def str_method(self, o, name, a, kw):
        if isinstance(o, str) and name in STR_PURE and all(is_conc(x) or isinstance(x, (str, int)) for x in a) and \
                all(is_conc(v) for v in kw.values()):
            try:
                return wrap_result(getattr(o, name)(*a, **kw))
            except Exception as e:
                self.throw(type(e), str(e))
        if name == "join":
            parts = []
            first = True
            for x in self.iterate(a[0]):
                x = self.c(x)
                if not self.is_str(x):
                    self.throw(TypeError, "sequence item: expected str instance")
                if not first:
                    parts.append(o)
                parts.append(self.c(x))
                first = False
            return self.c(mk_cat(parts))
        if name == "format":
            return self.str_format(o, a, kw)
        if name == "encode":
            return self.encode(o)
        if name in ("startswith", "endswith"):
            p = a[0]
            if isinstance(p, tuple):
                return any(self.truth(self.str_method(o, name, [x], {})) for x in p)
            if not self.is_str(p):
                self.throw(TypeError, f"{name} first arg must be str")
            p = self.c(p)
            return self.affix(o, p, name == "startswith")
        if name in ("split", "rsplit", "partition", "rpartition"):
            return self.str_split(o, name, a, kw)
        if name in ("find", "index", "rfind", "rindex"):
            return self.str_find(o, name, a)
        if name == "count":
            n = self.sep_positions(o, a[0])
            if n is not None:
                return len(n)
            self.undecided("count")
        if name in ("removeprefix", "removesuffix"):
            p = a[0]
            pre = name == "removeprefix"
            if self.affix(o, p, pre):
                ps = list(o.pieces) if isinstance(o, Cat) else [o]
                e = 0 if pre else -1
                if keyof(ps[e]) == keyof(p):
                    del ps[e]
                    return self.c(mk_cat(ps))
                if isinstance(ps[e], str) and isinstance(p, str):
                    ps[e] = ps[e][len(p):] if pre else ps[e][:-len(p)]
                    return self.c(mk_cat(ps))
                self.undecided(name)
            return o
        if name in ("strip", "lstrip", "rstrip"):
            return self.str_strip(o, name, a)
        if name in ("upper", "lower", "title", "capitalize", "casefold", "swapcase"):
            if isinstance(o, Cat):
                return self.c(mk_cat([self.str_method(p, name, [], {}) for p in o.pieces])) \
                    if name in ("upper", "lower", "casefold") else self.undecided(name)
            return self.mk(name, (o,), {"str"}, char=False)
        if name in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isidentifier", "isdecimal",
                    "isnumeric", "isascii", "isprintable"):
            return self.st.decide(name, o)
        if name == "replace":
            pos = self.sep_positions(o, a[0])
            if pos is not None and len(a) == 2:
                segs = self.cut_at(o, a[0], pos)
                out = []
                for i, s in enumerate(segs):
                    if i:
                        out.append(a[1])
                    out.append(s)
                return self.c(mk_cat(out))
            return self.mk("replace", (o,) + tuple(a), {"str"})
        if name == "splitlines":
            return self.str_splitlines(o, a, kw)
        if name in ("ljust", "rjust", "center", "zfill"):
            self.undecided(name)
        self.undecided(f"str.{name} on unknown text")

    def str_format(self, o, a, kw):
        if not isinstance(o, str):
            self.undecided("format with unknown template")
        import string
        out, auto = [], 0
        try:
            parsed = list(string.Formatter().parse(o))
        except ValueError as e:
            self.throw(ValueError, str(e))
        for lit, field, spec, conv in parsed:
            out.append(lit)
            if field is None:
                continue
            import re
            m = re.match(r"^(\w*)((?:\.\w+|\[[^\]]*\])*)$", field)
            if m is None:
                self.undecided("format field")
            base = m.group(1)
            if base == "":
                if auto >= len(a):
                    self.throw(IndexError, "Replacement index out of range")
                v = a[auto]
                auto += 1
            elif base.isdigit():
                if int(base) >= len(a):
                    self.throw(IndexError, "Replacement index out of range")
                v = a[int(base)]
            else:
                if base not in kw:
                    self.throw(KeyError, base)
                v = kw[base]
            for part in re.findall(r"\.(\w+)|\[([^\]]*)\]", m.group(2)):
                v = self.getattr(v, part[0]) if part[0] else \
                    self.getitem(v, int(part[1]) if part[1].isdigit() else part[1])
            if conv == "r":
                v = self.repr(v)
            elif conv == "s":
                v = self.str(v)
            out.append(self.format(v, spec or ""))
        return self.c(mk_cat(out))

    def affix(self, o, p, start):
        if p == "":
            return True
        if keyof(o) == keyof(p):
            return True
        ps = list(o.pieces) if isinstance(o, Cat) else [o]
        e = ps[0] if start else ps[-1]
        if keyof(e) == keyof(p):
            return True
        if isinstance(e, str) and isinstance(p, str) and len(e) >= len(p):
            return e.startswith(p) if start else e.endswith(p)
        if isinstance(o, str) and isinstance(p, str):
            return o.startswith(p) if start else o.endswith(p)
        if isinstance(e, Sym) and isinstance(e.meta, dict):
            if isinstance(p, str) and any(s == p for s in e.meta.get("sepfree", ())):
                if e.atom and not e.meta.get("empty"):
                    return False
            f = e.meta.get("affix")
            if f is not None:
                r = f(p, start)
                if r is not None:
                    return r
        if isinstance(o, Opaque) and o.char and isinstance(p, str):
            if len(p) > 1:
                return False
            return self.eq(o, p)
        if isinstance(e, Opaque) and e.char and isinstance(p, str) and len(p) == 1:
            return self.eq(e, p)
        return self.st.decide("startswith" if start else "endswith", p, o)

    # separators: positions (piece index, offset) of every occurrence of sep in o; None when unknown
    def sep_positions(self, o, sep, first=False):
        sep = self.c(sep)
        pieces = list(o.pieces) if isinstance(o, Cat) else [o]
        out = []
        for i, p in enumerate(pieces):
            if first and out:
                break
            if keyof(p) == keyof(sep):
                out.append((i, 0))
                continue
            if isinstance(p, str) and isinstance(sep, str):
                if sep == "":
                    self.throw(ValueError, "empty separator")
                j = p.find(sep)
                while j >= 0:
                    out.append((i, j))
                    j = p.find(sep, j + len(sep))
                if len(sep) > 1 and len(pieces) > 1:
                    # a separator could straddle pieces: only if atoms may start or end with a part of it
                    for n in range(1, len(sep)):
                        if (i + 1 < len(pieces) and p.endswith(sep[:n])) or (i > 0 and p.startswith(sep[-n:])):
                            q = pieces[i + 1] if p.endswith(sep[:n]) and i + 1 < len(pieces) else pieces[i - 1]
                            if not (isinstance(q, Sym) and isinstance(q.meta, dict) and q.meta.get("plain")):
                                return None
                continue
            if isinstance(p, Sym) and isinstance(p.meta, dict):
                free = p.meta.get("sepfree", ())
                if any(keyof(x) == keyof(sep) for x in free):
                    continue
                if p.meta.get("plain") and isinstance(sep, str) and sep and not any(
                        ch.isalnum() or ch == "_" for ch in sep):
                    continue
                if p.atom and not p.char and not self.st.decide("contains", sep, p):
                    continue
                return None
            if isinstance(p, Term) and p.op == "repr" and isinstance(sep, str) and sep in ("\n", "\r", "\t") and self.st.tags_of(
                    p.args[0]) <= PRINTED_ON_ONE_LINE:
                continue            # repr escapes control characters
            if isinstance(p, str) and isinstance(sep, Sym):
                # literal text against an unknown separator
                return None
            if isinstance(p, Opaque) and p.char and isinstance(sep, str):
                if len(sep) > 1:
                    return None
                if self.eq(p, sep):
                    out.append((i, 0))
                continue
            return None
        return out

    def cut_at(self, o, sep, pos):
        pieces = list(o.pieces) if isinstance(o, Cat) else [o]
        segs = []
        cur = (0, 0)
        for (i, j) in pos:
            segs.append(self.c(mk_cat(self.cut(pieces, cur, (i, j)))))
            if isinstance(pieces[i], str):
                cur = (i, j + (len(sep) if isinstance(sep, str) else 0))
                if not isinstance(sep, str):
                    cur = (i + 1, 0)
                elif cur[1] >= len(pieces[i]):
                    cur = (i + 1, 0)
            else:
                cur = (i + 1, 0)
        segs.append(self.c(mk_cat(self.cut(pieces, cur, (len(pieces), 0)))))
        return segs

    def str_split(self, o, name, a, kw):
        sep = a[0] if a else kw.get("sep")
        if sep is None:
            self.undecided("split on whitespace")
        if not self.is_str(sep):
            self.throw(TypeError, "must be str or None")
        sep = self.c(sep)
        if sep == "" or isinstance(sep, Opaque) and not sep.char and self.st.order(fold.length_of(self.st, sep), 0) == 0:
            self.throw(ValueError, "empty separator")
        mx = self.c(a[1] if len(a) > 1 else kw.get("maxsplit", -1))
        pos = self.sep_positions(o, sep, name == "partition" or name == "split" and type(mx) is int and mx == 1)
        if pos is None:
            if isinstance(o, (Opaque, Cat)):
                self.undecided(f"{name} of {show(o)} by {show(sep)}")
            self.undecided(name)
        if name in ("split", "rsplit"):
            mx = a[1] if len(a) > 1 else kw.get("maxsplit", -1)
            mx = self.c(mx)
            if not isinstance(mx, int):
                self.undecided("maxsplit")
            if mx >= 0:
                pos = pos[:mx] if name == "split" else (pos[-mx:] if mx else [])
            return ListObj(self.cut_at(o, sep, pos))
        if not pos:
            return (o, "", "") if name == "partition" else ("", "", o)
        pos = pos[:1] if name == "partition" else pos[-1:]
        h, t = self.cut_at(o, sep, pos)
        return (h, sep, t)

    def str_find(self, o, name, a):
        pos = self.sep_positions(o, a[0], name in ("find", "index"))
        if pos is None or len(a) > 1:
            if len(a) == 1 and name in ("find", "index"):
                has = self.str_contains(self.c(a[0]), o)
                if not has:
                    if name == "find":
                        return -1
                    self.throw(ValueError, "substring not found")
                r = Term("find", (o, a[0]), {"int"})
                self.st.num_node(r)
                self.st.le(0, r)
                self.st.le(r, fold.length_of(self.st, o))
                return r
            self.undecided(name)
        if not pos:
            if name in ("find", "rfind"):
                return -1
            self.throw(ValueError, "substring not found")
        i, j = pos[0] if name in ("find", "index") else pos[-1]
        pieces = list(o.pieces) if isinstance(o, Cat) else [o]
        n = lin_of(j)
        for p in pieces[:i]:
            n = lin_add(n, self.st.to_lin(fold.length_of(self.st, p)))
        return lin_norm(n)

    def str_strip(self, o, name, a):
        chars = a[0] if a else None
        ps = list(o.pieces) if isinstance(o, Cat) else [o]

        def strippable(p):
            return isinstance(p, str)
        ends = {"strip": (0, -1), "lstrip": (0,), "rstrip": (-1,)}[name]
        for e in ends:
            while ps:
                p = ps[e]
                if isinstance(p, str):
                    q = p.lstrip(chars) if e == 0 else p.rstrip(chars)
                    if q:
                        ps[e] = q
                        break
                    del ps[e]
                    continue
                if isinstance(p, Sym) and isinstance(p.meta, dict) and (p.meta.get("plain") or p.meta.get("solid") and (
                        chars is None or isinstance(chars, str) and not chars.strip())):
                    break
                if isinstance(p, Opaque) and p.char and isinstance(chars, str):
                    if self.st.decide("charin", p, chars):
                        del ps[e]
                        continue
                    break
                self.undecided(f"{name} of unknown text")
        return self.c(mk_cat(ps))

    def str_splitlines(self, o, a, kw):
        keep = self.truth(a[0] if a else kw.get("keepends", False))
        pieces = list(o.pieces) if isinstance(o, Cat) else [o]
        lines, cur = [], []
        import re
        brk = re.compile("\r\n|[\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029]")
        for p in pieces:
            if isinstance(p, str):
                j = 0
                for m in brk.finditer(p):
                    cur.append(p[j:m.end() if keep else m.start()])
                    lines.append(self.c(mk_cat(cur)))
                    cur = []
                    j = m.end()
                if j < len(p):
                    cur.append(p[j:])
            elif isinstance(p, Sym) and isinstance(p.meta, dict) and p.meta.get("oneline"):
                cur.append(p)
            elif p.char:
                if self.st.decide("linebreak", p):
                    lines.append(self.c(mk_cat(cur + ([p] if keep else []))))
                    cur = []
                else:
                    cur.append(p)
            else:
                self.undecided("splitlines of unknown text")
        if cur:
            lines.append(self.c(mk_cat(cur)))
        return ListObj(lines)
