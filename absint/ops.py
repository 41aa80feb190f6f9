"""Operations on abstract values: truth, equality, order, arithmetic, attributes, items, iteration, text."""
import ast
import datetime as _dt
import uuid as _uuid

from .values import *   # noqa
from .state import Undecided, Infeasible, lin_of, lin_add, lin_norm, lin_scale
from . import fold
from .core import PyExc, SliceVal, Env

OPNAMES = {ast.Add: ("__add__", "__radd__", "+"), ast.Sub: ("__sub__", "__rsub__", "-"),
           ast.Mult: ("__mul__", "__rmul__", "*"), ast.Div: ("__truediv__", "__rtruediv__", "/"),
           ast.FloorDiv: ("__floordiv__", "__rfloordiv__", "//"), ast.Mod: ("__mod__", "__rmod__", "%"),
           ast.Pow: ("__pow__", "__rpow__", "**"), ast.BitOr: ("__or__", "__ror__", "|"),
           ast.BitAnd: ("__and__", "__rand__", "&"), ast.BitXor: ("__xor__", "__rxor__", "^"),
           ast.LShift: ("__lshift__", "__rlshift__", "<<"), ast.RShift: ("__rshift__", "__rrshift__", ">>"),
           ast.MatMult: ("__matmul__", "__rmatmul__", "@")}
INAMES = {"__add__": "__iadd__", "__or__": "__ior__", "__sub__": "__isub__", "__and__": "__iand__",
          "__mul__": "__imul__"}

INF = float("inf")
PLAIN = frozenset({str, int, float, bool, bytes, type(None), type(...)})
SCALAR = PLAIN | {Sym, Term, Lin, Cat}
CALLABLES = (FuncVal, Bound, Bi, BMeth, Partial, ClassVal)


def is_lazy(v):
    return isinstance(v, SetObj) and v.lazy is not None


import decimal as _decimal
import fractions as _fractions
EXACT = (_fractions.Fraction, _decimal.Decimal)


class Ops:
    # ------------------------------------------------------------------ classification
    def c(self, v):
        """canonical value"""
        if type(v) is Sym:
            return self.st.canon(v) if v in self.st.rep else v
        if isinstance(v, (Opaque, Lin, Cat)):
            return self.st.canon(v)
        return v

    def is_numlike(self, v):
        return isinstance(v, (int, float, Lin)) and not isinstance(v, type)

    def num(self, v):
        """(kind, value): kind 'int' / 'float' when v is a number, None otherwise. May partition."""
        v = self.c(v)
        if isinstance(v, type):
            return None, v
        if isinstance(v, (bool, int, Lin)):
            return "int", v
        if isinstance(v, float):
            return "float", v
        if isinstance(v, Opaque):
            tags = self.st.tags_of(v)
            if tags <= INT_TAGS:
                return "int", v
            if tags <= FLOAT_TAGS:
                return "float", v
            if not (tags & NUM_TAGS):
                return None, v
            if tags & INT_TAGS:
                if self.st.split(v, INT_TAGS, "an int"):
                    return "int", self.c(v)
            if self.st.tags_of(v) is not None and self.st.tags_of(v) & NUM_TAGS:
                if self.st.split(v, frozenset({"float", "floatsub", "inf", "ninf", "nan"}), "a float"):
                    for t in ("nan", "inf", "ninf"):
                        if not isinstance(self.c(v), Opaque):
                            break
                        if self.st.split(v, frozenset({t}), t):
                            break
                    return "float", self.c(v)
            return None, self.c(v)
        return None, v

    def is_str(self, v):
        """v is a str (may partition)."""
        v = self.c(v)
        if isinstance(v, (str,)):
            return True
        if isinstance(v, Cat):
            return v.kind == "str"
        if isinstance(v, Opaque):
            return self.st.split(v, STR_TAGS, "a str")
        return False

    def is_bytes(self, v):
        v = self.c(v)
        if isinstance(v, bytes):
            return True
        if isinstance(v, Cat):
            return v.kind == "bytes"
        if isinstance(v, Opaque):
            return self.st.split(v, frozenset({"bytes"}), "bytes")
        return False

    def force_shape(self, v):
        """Give an unknown container a bounded shape with fresh cells."""
        v = self.c(v)
        if isinstance(v, Opaque):
            tags = self.st.tags_of(v)
            if tags & SHAPE_TAGS:
                if self.st.split(v, SHAPE_TAGS, "a container"):
                    for t in sorted(self.st.tags_of(v)):
                        if self.st.split(v, frozenset({t}), t):
                            return self.materialize(v)
        return v

    CELL_TAGS = frozenset({"none", "int", "str", "object"})

    def materialize(self, v):
        t = next(iter(self.st.tags_of(v)))
        cells = getattr(v, "meta", None)
        tags = cells[1] if isinstance(cells, tuple) and cells[0] == "cells" else self.CELL_TAGS
        n = self.st.choose(self.SHAPE_MAX + 1, f"size of {show(v)}")
        name = getattr(v, "name", "v")
        if t in ("list", "listsub"):
            r = ListObj([Sym(f"{name}[{i}]", tags) for i in range(n)], ListSub if t == "listsub" else list)
        elif t == "tuple":
            r = tuple(Sym(f"{name}[{i}]", tags) for i in range(n))
        elif t in ("dict", "dictsub"):
            r = DictObj([[Sym(f"{name}.key{i}", {"str"}, atom=True), Sym(f"{name}.val{i}", tags)]
                         for i in range(n)], pytype=DictSub if t == "dictsub" else dict)
        elif t in ("set", "frozenset"):
            r = SetObj([Sym(f"{name}.el{i}", {"str"}, atom=True) for i in range(n)], frozen=t == "frozenset")
        elif t == "bytearray":
            r = ByteArr([Sym(f"{name}[{i}]", {"int"}) for i in range(n)], bytearray)
        else:
            raise Undecided(f"shape of {t}")
        self.st.rep[v] = r
        self.st.recanon()
        return r

    def materialize_str(self, v, text=True):
        """Give an unknown string a bounded sequence of unknown characters."""
        v = self.c(v)
        if not isinstance(v, Opaque) or v.char:
            return v
        if isinstance(v, Sym) and v.atom:
            raise Undecided(f"characters of atom {show(v)}")
        n = self.concretize_int(fold.length_of(self.st, v), span=3 if not isinstance(v, Term) else 2)
        kind = "str" if self.st.tags_of(v) <= STR_TAGS else "bytes"
        if kind == "bytes":
            raise Undecided("bytes content")
        name = getattr(v, "name", None) or show(v)
        meta = v.meta if isinstance(v, Sym) and isinstance(v.meta, tuple) and v.meta[0] in ("in",) else None
        chars = [Sym(f"{name}[{i}]", {"str"}, char=True, meta=meta) for i in range(n)]
        r = mk_cat(chars)
        facts = [(val, nm, ar) for (val, nm, ar) in self.st.facts.values()
                 if nm == "allin" and keyof(ar[0]) == keyof(v)]
        self.st.rep[v] = r
        self.st.recanon()
        for val, nm, ar in facts:
            if val:
                for ch in chars:
                    self.st.assume("charin", True, ch, ar[1])
        self.close_text()
        return r

    def printable_bounds(self, v):
        """Whether the known bounds of an int keep it within the digits Python prints."""
        z = self.st.zone
        if v not in z.isint:
            return False
        lo, hi = z.interval(v)
        return lo is not None and hi is not None and max(abs(lo), abs(hi)) < 10 ** 4300

    def is_huge(self, v):
        t = self.st.tags_of(v)
        if "hugeint" not in t:
            return False
        if self.printable_bounds(v):
            self.st.restrict(v, t - {"hugeint"})
            return False
        return self.st.split(v, frozenset({"hugeint"}), "a huge int")

    def close_text(self):
        """Re-derive text predicates whose arguments became sequences of known length; prune contradictions."""
        for nd in list(self.st.zone.nodes):
            if isinstance(nd, Opaque) and self.st.tags_of(nd) == {"hugeint"} and self.printable_bounds(nd):
                raise Infeasible
        for (val, nm, ar) in list(self.st.facts.values()):
            if nm not in ("contains", "charin", "eq", "startswith", "endswith", "strlt"):
                continue
            a, b = self.c(ar[0]), self.c(ar[1])
            if nm == "strlt":
                if self.is_str_like(a) and self.is_str_like(b):
                    o = self.text_order(a, b)
                    if o is not None and (o == -1) != val:
                        raise Infeasible
                continue
            if isinstance(a, str) and isinstance(b, str):
                r = a in b if nm in ("contains", "charin") else a == b if nm == "eq" else None
                if r is not None and r != val:
                    raise Infeasible
                continue
            ca, cb = fold.charlist(a), fold.charlist(b)
            if ca is None or cb is None:
                continue
            if nm == "eq":
                r = len(ca) == len(cb) and self.str_eq(a, b)
            elif nm in ("contains", "charin"):
                r = self.str_contains(a, b)
            else:
                continue
            if r != val:
                raise Infeasible

    def concretize_int(self, n, span=3, lo_default=0):
        """Case split on the value of an unknown integer: exact values near its bounds."""
        n = self.c(n)
        if isinstance(n, bool):
            return int(n)
        if isinstance(n, int):
            return n
        if isinstance(n, Opaque):
            self.st.num_node(n)
            lo, hi = self.st.zone.interval(n)
        elif isinstance(n, Lin):
            lo, hi = self.lin_interval(n)
        else:
            raise Undecided("integer case split")
        if lo is None and hi is None:
            o = self.st.order(n, 0)
            if o == 0:
                return 0
            if o < 0:
                return -1 if self.st.order(n, -1) == 0 else self._pick(n, -2)
            lo = 1
        cands = []
        if lo is not None and hi is not None and hi - lo <= span + 1:
            cands = list(range(int(lo), int(hi) + 1))
        elif lo is not None:
            cands = list(range(int(lo), int(lo) + span))
            if hi is not None:
                cands.append(int(hi))
        else:
            cands = [int(hi), int(hi) - 1]
        # keep candidates that are consistent
        ok = [k for k in cands if self.st.order(n, k, decide=False) in (0, "?") or
              isinstance(self.st.order(n, k, decide=False), tuple) and 0 in self.st.order(n, k, decide=False)]
        if not ok:
            raise Infeasible
        k = ok[self.st.choose(len(ok), f"{show(n)} in {ok}")]
        return self._pick(n, k)

    def _pick(self, n, k):
        i, j, c = self.st._diff(n, k)
        if j is None:
            raise Undecided("case split on a sum")
        self.st.assume_order(n, k, i, j, c, 0)
        return k

    def lin_interval(self, L):
        lo = hi = L.const
        for o, c in L.terms:
            self.st.num_node(o)
            l, h = self.st.zone.interval(o)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        if v is True or v is False:
            return v
        v = self.c(v)
        if isinstance(v, (ListObj,)):
            return bool(v.items)
        if isinstance(v, DictObj):
            return bool(v.entries)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, SetObj):
            if v.lazy is not None:
                return self.truth(v.lazy) or bool(v.items)
            return bool(v.items)
        if isinstance(v, NilT):
            return False
        if isinstance(v, type) or isinstance(v, (ClassVal, FuncVal, Bound, Bi, BMeth, ModuleVal, Ext, Typing,
                                                 Alias, GenObj, Partial)):
            return True
        if isinstance(v, CONC):
            return bool(v)
        if isinstance(v, Cat):
            return self.order(fold.length_of(self.st, v), 0) != 0
        if isinstance(v, Lin):
            return self.order(v, 0) != 0
        if isinstance(v, Opaque):
            for t in ("none",):
                if t in self.st.tags_of(v):
                    if self.st.split(v, frozenset({t}), t):
                        return False
            tags = self.st.tags_of(v)
            if tags == frozenset({"bool"}):
                r = self.st.decide("truth", v)
                return r
            if tags & NUM_TAGS:
                k, n = self.num(v)
                if k is not None:
                    if isinstance(n, float):
                        return bool(n)
                    return self.order(n, 0) != 0
            v = self.c(v)
            tags = self.st.tags_of(v)
            if tags & STR_TAGS:
                if self.is_str(v):
                    return self.order(fold.length_of(self.st, v), 0) != 0
            if isinstance(self.c(v), Opaque) and "bytes" in self.st.tags_of(v):
                if self.is_bytes(v):
                    return self.order(fold.length_of(self.st, v), 0) != 0
            if self.st.tags_of(v) & SHAPE_TAGS:
                w = self.force_shape(v)
                if not isinstance(w, Opaque):
                    return self.truth(w)
            t = self.st.tags_of(v)
            if t & {"decimal", "fraction", "complex"}:
                return self.st.decide("truth", v)
            return True
        if isinstance(v, DictView):
            return bool(v.d.entries)
        if isinstance(v, RangeVal):
            return self.order(v.start, v.stop) < 0
        if isinstance(v, Obj):
            m = self.class_attr(v, "__bool__")
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            m = self.class_attr(v, "__len__")
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        self.undecided(f"truth of {show(v)}")

    # ------------------------------------------------------------------ identity / equality
    def is_(self, a, b):
        a, b = self.c(a), self.c(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if not isinstance(a, Opaque):
                a, b = b, a
            if isinstance(b, Opaque):
                if keyof(a) == keyof(b):
                    return True
                ta, tb = self.st.tags_of(a), self.st.tags_of(b)
                if not (ta & tb):
                    return False
                if ta == tb == frozenset({"bool"}):
                    return self.eq(a, b)
                if isinstance(a, Sym) and isinstance(b, Sym) and a.atom and b.atom:
                    return False
                return self.st.decide("same", *self.pair(a, b))
            if b is None:
                return self.st.split(a, frozenset({"none"}), "None")
            if b is ...:
                return self.st.split(a, frozenset({"ellipsis"}), "Ellipsis")
            if b is True or b is False:
                if self.st.split(a, frozenset({"bool"}), "a bool"):
                    return self.eq(a, b)
                return False
            if isinstance(b, (NilT, Heap, ClassVal)):
                return False
            if isinstance(b, type):
                return False
            if isinstance(b, float) and b != b:
                return self.st.split(a, frozenset({"nan"}), "nan") and self.st.decide("same", a, b)
            if isinstance(b, (int, str, float, bytes)):
                if not self.eq(a, b):
                    return False
                return self.st.decide("same", a, b) if isinstance(self.c(a), Opaque) else True
            return False
        if isinstance(a, (Heap,)) or isinstance(b, Heap):
            return a is b
        if isinstance(a, type) or isinstance(b, type):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, (int, str, bytes, bool, float)) and isinstance(b, (int, str, bytes, bool, float)):
            return type(a) is type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a is b or (not a and not b)
        if isinstance(a, Typing) and isinstance(b, Typing):
            return a is b or (a.name == b.name and not a.args and not b.args)
        if isinstance(a, (BMeth, Bound)) or isinstance(b, (BMeth, Bound)):
            return a is b
        return a is b

    def pair(self, a, b):
        ka, kb = repr(keyof(a)), repr(keyof(b))
        ua = getattr(a, "uid", -1)
        ub = getattr(b, "uid", -1)
        return (a, b) if (ua, ka) <= (ub, kb) else (b, a)

    def eq(self, a, b):
        """Truth of a == b."""
        return self.truth(self.rich_eq(a, b))

    def user_eq(self, x, y):
        m = self.class_attr(x, "__eq__")
        if m is None:
            return NotImplemented
        return self.call(Bound(m, x), [y], {})

    def rich_eq(self, a, b):
        a, b = self.c(a), self.c(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            first, second = a, b
            swapped = False
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not b.cls and \
                    isinstance(b.cls, ClassVal) and a.cls in b.cls.mro and "__eq__" in self.overriding(b.cls, a.cls):
                first, second = b, a
            if isinstance(first, Obj):
                r = self.obj_eq(first, second)
                if r is not NotImplemented:
                    return r
            if isinstance(second, Obj):
                r = self.obj_eq(second, first)
                if r is not NotImplemented:
                    return r
            return a is b
        return self.eq_plain(a, b)

    def overriding(self, sub, base):
        out = set()
        for c in sub.mro:
            if c is base:
                break
            if isinstance(c, ClassVal):
                out |= set(c.ns)
        return out

    def obj_eq(self, x, y):
        if isinstance(x.cls, ClassVal):
            m = self.class_attr(x, "__eq__")
            if m is not None:
                return self.call(Bound(m, x), [y], {})
            return True if x is y else NotImplemented
        h = self.NATIVE_EQ.get(x.cls)
        if h is not None:
            return h(self, x, y)
        return True if x is y else NotImplemented

    def ne_(self, a, b):
        a, b = self.c(a), self.c(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and isinstance(x.cls, ClassVal):
                m = self.class_attr(x, "__ne__")
                if m is not None:
                    r = self.call(Bound(m, x), [y], {})
                    if r is not NotImplemented:
                        return r
                m = self.class_attr(x, "__eq__")
                if m is not None:
                    r = self.call(Bound(m, x), [y], {})
                    if r is not NotImplemented:
                        return not self.truth(r)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is not b if not (isinstance(a, Obj) and not isinstance(a.cls, ClassVal)) \
                else not self.truth(self.rich_eq(a, b))
        return not self.eq_plain(a, b)

    def same_or_eq(self, a, b):
        """Element comparison used by containers: identity first."""
        a, b = self.c(a), self.c(b)
        if a is b:
            return True
        if isinstance(a, Opaque) and isinstance(b, Opaque) and keyof(a) == keyof(b):
            return True
        return self.eq(a, b)

    def eq_plain(self, a, b):
        if a is b and not isinstance(a, (float, Opaque)):
            return True
        ta, tb = type(a), type(b)
        if ta in PLAIN and tb in PLAIN:
            return a == b
        if (ta in PLAIN or tb in PLAIN) and (ta in SCALAR and tb in SCALAR):
            return self.eq_scalar(a, b)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and keyof(a) == keyof(b):
            # equal to itself unless NaN
            if "nan" in self.st.tags_of(a):
                return not self.st.split(a, frozenset({"nan"}), "nan")
            return True
        # containers
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (ListObj, DictObj, SetObj)) or (isinstance(x, tuple) and not is_conc(x)):
                if isinstance(y, Opaque):
                    want = {"ListObj": ("list", "listsub"), "DictObj": ("dict", "dictsub"), "tuple": ("tuple",),
                            "SetObj": ("set", "frozenset"), "ByteArr": ("bytearray",)}[type(x).__name__]
                    if not self.st.split(y, frozenset(want), want[0]):
                        return False
                    y2 = self.force_shape(y)
                    return self.eq_plain(x, y2)
        if isinstance(a, tuple) and isinstance(b, Opaque) or isinstance(b, tuple) and isinstance(a, Opaque):
            t, o = (a, b) if isinstance(a, tuple) else (b, a)
            if not self.st.split(o, frozenset({"tuple"}), "a tuple"):
                return False
            return self.eq_plain(t, self.force_shape(o))
        if isinstance(a, ByteArr) or isinstance(b, ByteArr):
            if isinstance(a, ByteArr) and isinstance(b, ByteArr):
                return len(a.items) == len(b.items) and all(self.eq(x, y) for x, y in zip(a.items, b.items))
            return False
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            if len(a.items) != len(b.items):
                return False
            return all(self.same_or_eq(x, y) for x, y in zip(list(a.items), list(b.items)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.same_or_eq(x, y) for x, y in zip(a, b))
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            if len(a.entries) != len(b.entries):
                return False
            for k, v in list(a.entries):
                e = self.dict_find(b, k)
                if e is None or not self.same_or_eq(v, e[1]):
                    return False
            return True
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            if is_lazy(a) or is_lazy(b):
                if is_lazy(a) and is_lazy(b) and keyof(a.lazy) == keyof(b.lazy) and not a.items and not b.items:
                    return True
                self.undecided("set comparison")
            return len(a.items) == len(b.items) and all(self.set_has(b, x) for x in list(a.items))
        if isinstance(a, DictView) or isinstance(b, DictView):
            if isinstance(a, DictView) and isinstance(b, DictView) and a.kind == b.kind == "keys":
                return len(a.d.entries) == len(b.d.entries) and \
                    all(self.dict_find(b.d, k) is not None for k, _ in list(a.d.entries))
            if isinstance(a, DictView) and a.kind == "keys" and isinstance(b, SetObj) and not is_lazy(b):
                return len(a.d.entries) == len(b.items) and all(self.set_has(b, k) for k, _ in list(a.d.entries))
            if isinstance(b, DictView) and b.kind == "keys" and isinstance(a, SetObj):
                return self.eq_plain(b, a)
            return False
        cont = (ListObj, DictObj, SetObj, tuple)
        if isinstance(a, cont) or isinstance(b, cont):
            if is_conc(a) and is_conc(b):
                return a == b
            return False
        if isinstance(a, (type, ClassVal)) or isinstance(b, (type, ClassVal)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return False
            return a is b
        heapy = (FuncVal, ModuleVal, GenObj)
        if isinstance(a, heapy) or isinstance(b, heapy):
            return a is b
        if isinstance(a, (Bound,)) or isinstance(b, (Bound,)):
            return isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self is b.self
        if isinstance(a, (Bi, BMeth, Partial, Ext, Typing, Alias)) or \
                isinstance(b, (Bi, BMeth, Partial, Ext, Typing, Alias)):
            return a is b or (isinstance(a, Ext) and a == b)
        # scalars
        if not isinstance(a, (Opaque, Lin, Cat)) and not isinstance(b, (Opaque, Lin, Cat)):
            if isinstance(a, NilT) or isinstance(b, NilT):
                return a is b
            try:
                return bool(a == b)
            except Exception as e:
                self.throw(type(e), str(e))
        if isinstance(a, RangeVal) or isinstance(b, RangeVal):
            self.undecided("range ==")
        return self.eq_scalar(a, b)

    def groups(self, v):
        if isinstance(v, Opaque):
            return {EQ_GROUP[t] for t in self.st.tags_of(v)}
        if isinstance(v, Lin):
            return {"num"}
        if isinstance(v, Cat):
            return {v.kind}
        if isinstance(v, bool) or isinstance(v, (int, float, complex)):
            return {"nan"} if isinstance(v, float) and v != v else {"num"}
        if isinstance(v, str):
            return {"str"}
        if isinstance(v, bytes):
            return {"bytes"}
        if v is None:
            return {"none"}
        if v is ...:
            return {"ellipsis"}
        if isinstance(v, _uuid.UUID):
            return {"uuid4" if v.version == 4 else "uuidx"}
        if isinstance(v, _dt.datetime):
            return {"datetime"}
        if isinstance(v, _dt.date):
            return {"date"}
        import decimal
        import fractions
        if isinstance(v, (decimal.Decimal, fractions.Fraction)):
            return {"num"}
        return {"other"}

    def eq_scalar(self, a, b):
        ga, gb = self.groups(a), self.groups(b)
        common = ga & gb
        if not common:
            return False
        # narrow both to the same group
        for x, g, og in ((a, ga, gb), (b, gb, ga)):
            x = self.c(x)
            if isinstance(x, Opaque) and g - og:
                want = frozenset(t for t in self.st.tags_of(x) if EQ_GROUP[t] in og)
                if not self.st.split(x, want, "/".join(sorted(og & g))):
                    return False
        a, b = self.c(a), self.c(b)
        ga, gb = self.groups(a), self.groups(b)
        if len(ga) > 1 and len(gb) > 1:
            # same set of several groups: choose one
            for g in sorted(ga & gb):
                want = frozenset(t for t in self.st.tags_of(a) if EQ_GROUP[t] == g)
                if self.st.split(a, want, g):
                    wb = frozenset(t for t in self.st.tags_of(b) if EQ_GROUP[t] == g)
                    if not self.st.split(b, wb, g):
                        return False
                    break
            a, b = self.c(a), self.c(b)
        if not isinstance(a, (Opaque, Lin, Cat)) and not isinstance(b, (Opaque, Lin, Cat)):
            return self.eq_plain(a, b)
        g = next(iter(self.groups(a) & self.groups(b)), None)
        if g is None:
            return False
        if g in ("none", "ellipsis"):
            return True
        if g in ("list", "dict", "tuple", "set", "bytearray") and g not in ("bytes",):
            return self.eq_plain(self.force_shape(a), self.force_shape(b))
        if g == "num":
            if isinstance(a, EXACT) or isinstance(b, EXACT):
                return self.exact_op(lambda x, y: x == y, a, b)
            for x in (a, b):
                if isinstance(x, Opaque) and self.st.tags_of(x) & {"decimal", "fraction", "complex"}:
                    if self.st.split(x, frozenset({"decimal", "fraction", "complex"}), "Decimal/Fraction/complex"):
                        return self.st.decide("eq", *self.pair(a, b))
            ka, a = self.num(a)
            kb, b = self.num(b)
            if not isinstance(a, (Opaque, Lin)) and not isinstance(b, (Opaque, Lin)):
                return a == b
            return self.st.order(a, b) == 0
        if g == "object":
            if isinstance(a, Sym) and isinstance(b, Sym) and (a.atom and b.atom):
                return a is b
            return self.st.decide("eq", *self.pair(a, b))
        if g in ("str", "bytes"):
            return self.str_eq(a, b)
        return self.st.decide("eq", *self.pair(a, b))

    def str_eq(self, a, b):
        a, b = self.c(a), self.c(b)
        pa = list(a.pieces) if isinstance(a, Cat) else [a]
        pb = list(b.pieces) if isinstance(b, Cat) else [b]
        for ps in (pa, pb):
            ps[:] = [p for p in ps if not (isinstance(p, (str, bytes)) and not p)]
        # strip common prefix / suffix
        for end in (0, -1):
            while pa and pb:
                x, y = pa[end], pb[end]
                if keyof(x) == keyof(y):
                    del pa[end], pb[end]
                    continue
                if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
                    n = min(len(x), len(y))
                    if end == 0:
                        if x[:n] != y[:n]:
                            return False
                        pa[end], pb[end] = x[n:], y[n:]
                    else:
                        if x[-n:] != y[-n:]:
                            return False
                        pa[end], pb[end] = x[:-n], y[:-n]
                    if not pa[end]:
                        del pa[end]
                    if not pb[end]:
                        del pb[end]
                    continue
                # single characters are compared position by position
                def one(z):
                    return (isinstance(z, Opaque) and z.char) or (isinstance(z, str))
                if isinstance(x, Opaque) and x.char and one(y) or isinstance(y, Opaque) and y.char and one(x):
                    if isinstance(y, str):
                        x, y = y, x
                        fx, fy = pb, pa
                    else:
                        fx, fy = pa, pb
                    # fx side piece x (maybe literal), fy side piece y is a char
                    if isinstance(x, str):
                        ch = x[0] if end == 0 else x[-1]
                        if not self.st.decide("eq", *self.pair(ch, y)):
                            return False
                        rest = x[1:] if end == 0 else x[:-1]
                        if rest:
                            fx[end] = rest
                        else:
                            del fx[end]
                        del fy[end]
                    else:
                        if not self.st.decide("eq", *self.pair(x, y)):
                            return False
                        del fx[end], fy[end]
                    pa = [self.c(p) for p in pa]
                    pb = [self.c(p) for p in pb]
                    continue
                break
        kind = a.kind if isinstance(a, Cat) else b.kind if isinstance(b, Cat) else \
            "bytes" if isinstance(a, bytes) or isinstance(b, bytes) or \
            (isinstance(a, Opaque) and self.st.tags_of(a) == frozenset({"bytes"})) else "str"
        a, b = self.c(mk_cat(pa, kind)), self.c(mk_cat(pb, kind))
        if not isinstance(a, (Opaque, Cat)) and not isinstance(b, (Opaque, Cat)):
            return a == b
        if isinstance(a, Cat) or isinstance(b, Cat):
            if isinstance(a, Cat) and isinstance(b, Cat) and all(
                    isinstance(p, (str, bytes)) or (isinstance(p, Sym) and p.atom) for p in a.pieces + b.pieces):
                # generic atoms: different sequences are equal only for special contents
                return [keyof(p) for p in a.pieces] == [keyof(p) for p in b.pieces]
            x, y = (a, b) if isinstance(a, Cat) else (b, a)
            if any(isinstance(p, Sym) and p.atom and not (isinstance(p.meta, dict) and p.meta.get("empty")) for p in x.pieces) and (
                    isinstance(y, (str, bytes)) or isinstance(y, Sym) and y.atom):
                return False
            o = self.st.order(fold.length_of(self.st, a), fold.length_of(self.st, b), decide=False)
            if o in (-1, 1):
                return False
            x, y = (a, b) if isinstance(a, Cat) else (b, a)
            if not isinstance(y, Cat) and isinstance(y, (str, bytes)) and len(y) == 0:
                return self.order(fold.length_of(self.st, x), 0) == 0
            # an atom inside x that can not occur inside y
            atoms = [p for p in x.pieces if isinstance(p, Sym) and p.atom]
            if isinstance(y, (str, bytes)) and atoms:
                return False
            if isinstance(y, Opaque) and not isinstance(y, Term):
                if isinstance(y, Sym) and y.atom:
                    return False
                return self.st.decide("eq", *self.pair(x, y))
        return self.st.decide("eq", *self.pair(a, b))

    # ------------------------------------------------------------------ order
    def order(self, a, b):
        return self.st.order(a, b)

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.Eq:
            return self.rich_eq(a, b)
        if t is ast.NotEq:
            return self.ne_(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.contains(b, a)
        name = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[t]
        return self.less(name, a, b)

    def less(self, op, a, b):
        a, b = self.c(a), self.c(b)
        for x, y, nm in ((a, b, {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]),
                         (b, a, {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}[op])):
            if isinstance(x, Obj):
                if isinstance(x.cls, ClassVal):
                    m = self.class_attr(x, nm)
                    if m is not None:
                        r = self.call(Bound(m, x), [y], {})
                        if r is not NotImplemented:
                            return r
                elif x.cls in self.NATIVE_ORDER:
                    o = self.NATIVE_ORDER[x.cls](self, x, y)
                    if nm in ("__gt__", "__ge__") and x is b or nm in ("__lt__", "__le__") and x is b:
                        pass
                    return {"__lt__": o < 0, "__le__": o <= 0, "__gt__": o > 0, "__ge__": o >= 0}[nm]
        if isinstance(a, Obj) or isinstance(b, Obj):
            self.throw(TypeError, f"'{op}' not supported between instances")

        def res(o):
            return {"<": o < 0, "<=": o <= 0, ">": o > 0, ">=": o >= 0}[op]
        if isinstance(a, SetObj) and isinstance(b, SetObj) or isinstance(a, DictView) and isinstance(b, (DictView, SetObj)) \
                or isinstance(b, DictView) and isinstance(a, SetObj):
            return self.set_compare(op, a, b)
        if isinstance(a, (ListObj, tuple)) and isinstance(b, (ListObj, tuple)) and \
                isinstance(a, tuple) == isinstance(b, tuple):
            xs = a.items if isinstance(a, ListObj) else a
            ys = b.items if isinstance(b, ListObj) else b
            for x, y in zip(xs, ys):
                if not self.same_or_eq(x, y):
                    return self.less(op, x, y)
            return res((len(xs) > len(ys)) - (len(xs) < len(ys)))
        if isinstance(a, EXACT) or isinstance(b, EXACT):
            def cmp(x, y):
                try:
                    return res((x > y) - (x < y))
                except TypeError as e:
                    self.throw(TypeError, str(e))
            return self.exact_op(cmp, a, b)
        ka, a = self.num(a)
        if ka is None:
            if isinstance(a, Opaque) and self.st.tags_of(a) & {"decimal", "fraction"} and \
                    self.st.split(a, frozenset({"decimal", "fraction"})):
                self.undecided("Decimal order")
        else:
            kb, b = self.num(b)
            if kb is None:
                if isinstance(b, Opaque) and self.st.tags_of(b) & {"decimal", "fraction"} and \
                        self.st.split(b, frozenset({"decimal", "fraction"})):
                    self.undecided("Decimal order")
            else:
                o = self.st.order(a, b)
                if o is None:
                    return False
                return res(o)
        if ka is None and self.is_str_like(a) and self.is_str_like(b):
            a, b = self.c(a), self.c(b)
            if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
                try:
                    return res((a > b) - (a < b))
                except TypeError as e:
                    self.throw(TypeError, str(e))
            if keyof(a) == keyof(b):
                return res(0)
            o = self.text_order(a, b)
            if o is not None:
                return res(o)
            if self.st.decide("eq", *self.pair(a, b)):
                return res(0)
            p = self.pair(a, b)
            lt = self.st.decide("strlt", *p)
            if p[0] is not a:
                lt = not lt
            return res(-1 if lt else 1)
        if isinstance(a, (_dt.datetime, _dt.date)) and isinstance(b, (_dt.datetime, _dt.date)):
            try:
                return res((a > b) - (a < b))
            except TypeError as e:
                self.throw(TypeError, str(e))
        if isinstance(a, Opaque) and isinstance(b, Opaque) and self.st.tags_of(a) == self.st.tags_of(b) and \
                self.st.tags_of(a) <= {"datetime", "date", "uuid4", "uuidx", "decimal", "fraction"}:
            self.undecided("order of " + "/".join(self.st.tags_of(a)))
        self.throw(TypeError, f"'{op}' not supported between instances")

    def text_order(self, a, b):
        """The order of two strings as far as the text in front of the first unknown piece settles it."""
        def units(v):
            for p in v.pieces if isinstance(v, Cat) else [v]:
                p = self.c(p)
                if isinstance(p, (str, bytes)):
                    yield from (p[i:i + 1] for i in range(len(p)))
                else:
                    yield p
        ua, ub = list(units(a)), list(units(b))
        for x, y in zip(ua, ub):
            if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
                if type(x) is not type(y):
                    return None
                if x != y:
                    return 1 if x > y else -1
            elif keyof(x) != keyof(y):
                return None
        if len(ua) == len(ub):
            return 0
        long, o = (ua, 1) if len(ua) > len(ub) else (ub, -1)
        rest = long[min(len(ua), len(ub)):]
        return o if any(isinstance(x, (str, bytes)) for x in rest) else None

    def is_str_like(self, v):
        v = self.c(v)
        if isinstance(v, (str, bytes, Cat)):
            return True
        if isinstance(v, Opaque):
            t = self.st.tags_of(v)
            if t & (STR_TAGS | {"bytes"}):
                return self.st.split(v, STR_TAGS | {"bytes"}, "text")
        return False

    # ------------------------------------------------------------------ containment
    def contains(self, container, item):
        c, item = self.c(container), self.c(item)
        if isinstance(c, Opaque):
            t = self.st.tags_of(c)
            if t & STR_TAGS and self.is_str(c):
                c = self.c(c)
            elif isinstance(self.c(c), Opaque) and "bytes" in self.st.tags_of(c) and self.is_bytes(c):
                self.undecided("in bytes")
            else:
                c = self.force_shape(c)
                if isinstance(c, Opaque):
                    self.throw(TypeError, "argument is not iterable")
        if isinstance(c, (str, Cat)) or isinstance(c, Opaque):
            if isinstance(c, bytes):
                self.undecided("in bytes")
            if isinstance(item, (type, Heap)) or not self.is_str(item):
                self.throw(TypeError, "'in <string>' requires string as left operand")
            return self.str_contains(self.c(item), self.c(c))
        if isinstance(c, bytes):
            if isinstance(item, (bytes, int)):
                return item in c
            self.undecided("in bytes")
        if isinstance(item, Opaque) and item.char and self.st.tags_of(item) == frozenset({"str"}):
            xs = c.items if isinstance(c, ListObj) or isinstance(c, SetObj) and c.lazy is None else \
                c if isinstance(c, tuple) else [k for k, _ in c.entries] if isinstance(c, DictObj) else []
            if len(xs) > 1 and all(isinstance(x, str) for x in xs):
                chars = "".join(sorted({x for x in xs if len(x) == 1}))
                return self.st.decide("charin", item, chars) if chars else False
        if isinstance(c, ListObj):
            return any(self.same_or_eq(item, x) for x in list(c.items))
        if isinstance(c, tuple):
            return any(self.same_or_eq(item, x) for x in c)
        if isinstance(c, DictObj):
            self.need_hashable(item)
            return self.dict_find(c, item) is not None
        if isinstance(c, SetObj):
            self.need_hashable(item)
            return self.set_has(c, item)
        if isinstance(c, DictView):
            if c.kind == "keys":
                self.need_hashable(item)
                return self.dict_find(c.d, item) is not None
            return any(self.same_or_eq(item, x) for x in list(self.iterate(c)))
        if isinstance(c, RangeVal):
            if c.step == 1:
                k, n = self.num(item)
                if k == "int":
                    return self.order(c.start, n) <= 0 and self.order(n, c.stop) < 0
                if k is None:
                    return False
            self.undecided("in range")
        if isinstance(c, Obj):
            m = self.class_attr(c, "__contains__")
            if m is not None:
                return self.truth(self.call(Bound(m, c), [item], {}))
            return any(self.same_or_eq(item, x) for x in self.iterate(c))
        if isinstance(c, GenObj):
            return any(self.same_or_eq(item, x) for x in self.iterate(c))
        self.throw(TypeError, f"argument of type {show(self.type_of(c))} is not iterable")

    def str_contains(self, sub, s):
        if isinstance(sub, str) and isinstance(s, str):
            return sub in s
        n = fold.length_of(self.st, sub)
        cs, ct = fold.charlist(sub), fold.charlist(s)
        if cs is not None and ct is not None and not (isinstance(s, str) and len(cs) == 1):
            ks = [keyof(self.c(x)) for x in cs]
            kt = [keyof(self.c(x)) for x in ct]
            if any(kt[i:i + len(ks)] == ks for i in range(len(kt) - len(ks) + 1)):
                return True
            for i in range(len(ct) - len(cs) + 1):
                for x, y in zip(cs, ct[i:i + len(cs)]):
                    x, y = self.c(x), self.c(y)
                    if isinstance(x, str) and isinstance(y, str):
                        if x != y:
                            break
                    elif not self.st.decide("eq", *self.pair(x, y)):
                        break
                else:
                    return True
            return False
        if n == 1:
            if isinstance(s, Cat):
                res = False
                for p in s.pieces:
                    if isinstance(p, str):
                        if isinstance(sub, str):
                            if sub in p:
                                return True
                        elif isinstance(sub, Sym) and sub.char:
                            if self.st.decide("charin", sub, p):
                                return True
                    elif isinstance(p, Opaque):
                        if p.char:
                            if self.eq(sub, p):
                                return True
                        elif isinstance(p, Sym) and p.atom and isinstance(sub, str):
                            if p.meta is not None and "sepfree" in p.meta and sub in p.meta["sepfree"]:
                                continue
                            if self.st.decide("charin", sub, p):
                                return True
                        elif self.st.decide("charin", sub, p):
                            return True
                return res
            if isinstance(s, Opaque) and s.char:
                return self.eq(sub, s)
            if isinstance(s, Sym) and s.atom and s.meta is not None and isinstance(s.meta, dict) and \
                    isinstance(sub, str) and sub in s.meta.get("sepfree", ()):
                return False
            if isinstance(s, Sym) and isinstance(s.meta, dict) and any(x is sub for x in s.meta.get("sepfree", ())):
                return False
            if isinstance(sub, Sym) and not sub.char and isinstance(s, str):
                return self.st.decide("contains", sub, s)
            return self.st.decide("charin", sub, s)
        if isinstance(s, Sym) and isinstance(s.meta, dict) and any(keyof(x) == keyof(sub)
                                                                   for x in s.meta.get("sepfree", ())):
            return False
        if isinstance(s, Cat) and all(isinstance(p, (str,)) or (isinstance(p, Sym) and isinstance(p.meta, dict))
                                      or keyof(p) == keyof(sub) for p in s.pieces):
            for p in s.pieces:
                if keyof(p) == keyof(sub):
                    return True
                if isinstance(p, str) and (not isinstance(sub, str) or sub in p):
                    if self.st.decide("contains", sub, p):
                        return True
            if all(isinstance(p, str) or any(keyof(x) == keyof(sub) for x in p.meta.get("sepfree", ()))
                   for p in s.pieces):
                return False
        return self.st.decide("contains", sub, s)

    # ------------------------------------------------------------------ hashing, dicts, sets
    def need_hashable(self, v):
        v = self.c(v)
        if isinstance(v, (ListObj, DictObj, ByteArr)) or (isinstance(v, SetObj) and not v.frozen):
            self.throw(TypeError, f"unhashable type: '{self.type_name(v)}'")
        if isinstance(v, tuple):
            for x in v:
                self.need_hashable(x)
        if isinstance(v, SliceVal):
            self.throw(TypeError, "unhashable type: 'slice'")
        if isinstance(v, Opaque):
            t = self.st.tags_of(v)
            if t & HASHABLE_NOT:
                if self.st.split(v, HASHABLE_NOT, "unhashable"):
                    self.throw(TypeError, "unhashable type")
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            m, _ = v.cls.lookup("__hash__")
            if m is None:
                _, dc = v.cls.lookup("__hash__")
                if dc is not None:
                    self.throw(TypeError, f"unhashable type: '{v.cls.name}'")
            elif isinstance(m, FuncVal) and not self.hash_checked.get(v.uid):
                self.hash_checked[v.uid] = True
                self.call(Bound(m, v), [], {})

    def dict_find(self, d, key):
        key = self.c(key)
        if isinstance(key, str):
            unknown = False
            for e in d.entries:
                k = e[0]
                if isinstance(k, str):
                    if k == key:
                        if not unknown:
                            return e
                        break
                elif not (k is ... or isinstance(k, (int, float, bytes, NilT, type(None)))):
                    unknown = True
            else:
                if not unknown:
                    return None
        for e in list(d.entries):
            if self.same_or_eq(e[0], key):
                return e
        return None

    def dict_set(self, d, key, val):
        self.need_hashable(key)
        e = self.dict_find(d, key)
        if e is not None:
            self.touch(d)
            e = self.dict_find(d, key)
            e[1] = val
        else:
            self.touch(d)
            d.entries.append([self.c(key) if not isinstance(key, Opaque) else key, val])

    def set_has(self, s, item):
        if s.lazy is not None:
            item = self.c(item)
            if isinstance(item, (str, Cat)) or isinstance(item, Opaque):
                if self.is_str(item) and self.order(fold.length_of(self.st, item), 1) == 0:
                    if self.str_contains(self.c(item), self.c(s.lazy)):
                        return True
        if type(self.c(item)) is str:
            item = self.c(item)
            rest = [x for x in s.items if type(x) is not str]
            if len(rest) < len(s.items) and item in [x for x in s.items if type(x) is str]:
                return True
            return any(self.same_or_eq(x, item) for x in rest)
        return any(self.same_or_eq(x, item) for x in list(s.items))

    def set_add(self, s, item):
        self.need_hashable(item)
        if not self.set_has(s, item):
            self.touch(s)
            s.items.append(self.c(item))

    def as_set_items(self, v):
        """Items of any iterable operand of a set operation, for membership tests."""
        if isinstance(v, SetObj):
            if is_lazy(v):
                self.force_set(v)
            return list(v.items)
        if isinstance(v, DictView):
            return list(self.iterate(v))
        return list(self.iterate(v))

    def force_set(self, s):
        if s.lazy is not None:
            chars = list(self.iterate(s.lazy))
            s.lazy = None
            for ch in chars:
                if not self.set_has(s, ch):
                    s.items.append(ch)

    def member_of(self, coll, item):
        return self.contains(coll, item)

    def set_compare(self, op, a, b):
        if op in (">", ">="):
            return self.set_compare({">": "<", ">=": "<="}[op], b, a)
        xs = self.as_set_items(a)
        sub = all(self.member_of(b, x) for x in xs)
        if op == "<=" or not sub:
            return sub
        ys = self.as_set_items(b)
        return not all(self.member_of(a, y) for y in ys)

    # ------------------------------------------------------------------ arithmetic
    def unary(self, op, v):
        v = self.c(v)
        if isinstance(v, Obj):
            nm = {ast.Invert: "__invert__", ast.USub: "__neg__", ast.UAdd: "__pos__"}[type(op)]
            m = self.class_attr(v, nm)
            if m is not None:
                return self.call(Bound(m, v), [], {})
            self.throw(TypeError, "bad operand type for unary")
        if isinstance(v, EXACT):
            return -v if isinstance(op, ast.USub) else +v
        k, n = self.num(v)
        if k is None:
            self.throw(TypeError, "bad operand type for unary")
        if isinstance(op, ast.USub):
            if not isinstance(n, (Opaque, Lin)):
                return -n
            if k == "int":
                return lin_norm(lin_scale(self.st.to_lin(n), -1))
            return self.mk("neg", (n,), {"float"}, True)
        if isinstance(op, ast.UAdd):
            return n
        if not isinstance(n, (Opaque, Lin)) and k == "int":
            return ~n
        self.undecided("~ of unknown int")

    def mk(self, op, args, tags, approx=False, char=False):
        args = tuple(self.c(a) for a in args)
        t = Term(op, args, tags, approx, char)
        r = fold.simplify(self.st, t)
        return self.c(r)

    def inplace(self, op, a, b):
        nm = OPNAMES[type(op)][0]
        a = self.c(a)
        if isinstance(a, ListObj) and nm == "__add__":
            items = list(self.iterate(b))
            self.touch(a)
            a.items.extend(items)
            return a
        if isinstance(a, DictObj) and nm == "__or__":
            b = self.force_shape(b)
            if isinstance(b, DictObj):
                for k, v in list(b.entries):
                    self.dict_set(a, k, v)
                return a
        if isinstance(a, SetObj) and not a.frozen and nm in ("__or__", "__sub__", "__and__"):
            r = self.binop(op, a, b)
            self.touch(a)
            a.items[:] = r.items
            a.lazy = r.lazy
            return a
        if isinstance(a, Obj) and nm in INAMES:
            m = self.class_attr(a, INAMES[nm])
            if m is not None:
                return self.call(Bound(m, a), [b], {})
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        nm, rnm, symb = OPNAMES[type(op)]
        a, b = self.c(a), self.c(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                m = self.class_attr(a, nm) if isinstance(a.cls, ClassVal) else None
                if m is not None:
                    r = self.call(Bound(m, a), [b], {})
                    if r is not NotImplemented:
                        return r
                elif not isinstance(a.cls, ClassVal):
                    r = self.native_binop(nm, a, b)
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj):
                m = self.class_attr(b, rnm) if isinstance(b.cls, ClassVal) else None
                if m is not None:
                    r = self.call(Bound(m, b), [a], {})
                    if r is not NotImplemented:
                        return r
                elif not isinstance(b.cls, ClassVal):
                    r = self.native_binop(rnm, b, a)
                    if r is not NotImplemented:
                        return r
            if isinstance(op, ast.Mod) and (isinstance(a, (str, Cat))):
                return self.percent(a, b)
            self.throw(TypeError, f"unsupported operand type(s) for {symb}")
        if isinstance(a, (ClassVal, type, Typing, Alias, Ext)) and nm == "__or__":
            return Typing("Union", (a, b))
        if nm == "__or__" and isinstance(a, DictObj):
            b = self.force_shape(b)
            if isinstance(b, DictObj):
                d = DictObj([list(e) for e in a.entries])
                for k, v in list(b.entries):
                    self.dict_set(d, k, v)
                return d
            self.throw(TypeError, "unsupported operand")
        if isinstance(a, (SetObj, DictView)) and isinstance(b, (SetObj, DictView)):
            return self.set_binop(nm, a, b)
        if nm == "__add__":
            if isinstance(a, ListObj) and not isinstance(a, ByteArr):
                b2 = self.force_shape(b) if isinstance(b, Opaque) else b
                if isinstance(b2, ListObj):
                    return ListObj(a.items + b2.items)
                self.throw(TypeError, "can only concatenate list to list")
            if isinstance(a, tuple):
                if isinstance(b, tuple):
                    return a + b
                self.throw(TypeError, "can only concatenate tuple to tuple")
            if self.known_text(a) or self.known_text(b):
                if self.is_str(a) and self.is_str(b):
                    return self.c(mk_cat([self.c(a), self.c(b)]))
                if self.is_bytes(a) and self.is_bytes(b):
                    return self.c(mk_cat([self.c(a), self.c(b)], "bytes"))
                self.throw(TypeError, "can only concatenate str to str")
        if nm == "__mul__":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ListObj, tuple)) and not isinstance(x, ByteArr):
                    k, n = self.num(y)
                    if k != "int":
                        self.throw(TypeError, "can't multiply sequence")
                    n = max(self.concretize_int(n), 0)
                    return ListObj(x.items * n) if isinstance(x, ListObj) else x * n
                if self.known_text(x):
                    k, n = self.num(y)
                    if k != "int":
                        self.throw(TypeError, "can't multiply sequence")
                    if isinstance(x, (str, bytes)) and isinstance(n, int):
                        return x * n
                    if isinstance(x, str) and x.strip(" ") == "":
                        t = self.mk("strmul", (x, n), {"str"})
                        return t
                    n = max(self.concretize_int(n), 0)
                    return self.c(mk_cat([x] * n))
        if nm == "__mod__" and self.known_text(a):
            return self.percent(a, b)
        if isinstance(a, (_dt.datetime, _dt.date, _dt.timedelta)) or \
                isinstance(b, (_dt.datetime, _dt.date, _dt.timedelta)):
            if not isinstance(a, Opaque) and not isinstance(b, Opaque):
                return self.real_binop(op, a, b)
        if isinstance(a, EXACT) or isinstance(b, EXACT):
            return self.exact_op(lambda x, y: self.real_binop(op, x, y), a, b)
        ka, a = self.num(a)
        if ka is not None:
            kb, b = self.num(b)
            if kb is not None:
                return self.num_binop(op, ka, a, kb, b)
        if isinstance(a, Opaque) and self.st.tags_of(a) & {"date", "datetime"} or \
                isinstance(b, Opaque) and self.st.tags_of(b) & {"date", "datetime"}:
            for x, y, r in ((a, b, False), (b, a, True)):
                if isinstance(y, _dt.timedelta) and nm in (("__add__",) if r else ("__add__", "__sub__")):
                    from . import extern
                    sign = -1 if nm == "__sub__" else 1
                    if y.seconds == 0 and y.microseconds == 0:
                        return extern.date_plus(self, x, y.days, sign)
                    return self.mk("dateadd", (x, y if sign > 0 else -y), self.st.tags_of(x))
            self.undecided("date arithmetic")
        if isinstance(a, Opaque) and self.st.tags_of(a) & {"decimal", "fraction", "complex"}:
            self.undecided("Decimal arithmetic")
        self.throw(TypeError, f"unsupported operand type(s) for {symb}: "
                              f"{self.type_name(a)} and {self.type_name(b)}")

    def exact_op(self, f, a, b):
        """An operation with a Fraction or Decimal operand."""
        a, b = self.c(a), self.c(b)
        for x in (a, b):
            if isinstance(x, (Opaque, Lin)):
                self.undecided("Fraction or Decimal arithmetic with an unknown operand")
            if not isinstance(x, (bool, int, float, complex) + EXACT):
                self.throw(TypeError, "unsupported operand type(s)")
        return f(a, b)

    def known_text(self, v):
        if isinstance(v, (str, bytes, Cat)):
            return True
        return isinstance(v, Opaque) and self.st.tags_of(v) <= (STR_TAGS | {"bytes"})

    def real_binop(self, op, a, b):
        import operator as o
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
             ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor,
             ast.LShift: o.lshift, ast.RShift: o.rshift}[type(op)]
        try:
            if isinstance(op, ast.Pow) and isinstance(b, int) and abs(b) > 10000:
                self.undecided("huge power")
            return f(a, b)
        except Undecided:
            raise
        except Exception as e:
            self.throw(type(e), str(e))

    def num_binop(self, op, ka, a, kb, b):
        t = type(op)
        if not isinstance(a, (Opaque, Lin)) and not isinstance(b, (Opaque, Lin)):
            return self.real_binop(op, a, b)
        if ka == kb == "int":
            if t in (ast.Add, ast.Sub):
                return lin_norm(lin_add(self.st.to_lin(a), self.st.to_lin(b), 1 if t is ast.Add else -1))
            if t is ast.Mult:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, int):
                        return lin_norm(lin_scale(self.st.to_lin(y), int(x)))
                return self.mk("mul", (a, b), {"int"}, True)
            if t is ast.Div:
                if self.order(b, 0) == 0:
                    self.throw(ZeroDivisionError, "division by zero")
                return self.arith("div", a, b)
            if t in (ast.FloorDiv, ast.Mod):
                if self.order(b, 0) == 0:
                    self.throw(ZeroDivisionError, "division by zero")
                r = self.mk("floordiv" if t is ast.FloorDiv else "mod", (a, b), {"int"}, True)
                if t is ast.Mod and isinstance(b, int) and b > 0 and isinstance(r, Opaque):
                    self.st.num_node(r)
                    self.st.le(0, r)
                    self.st.le(r, b - 1)
                return r
            if t is ast.Pow:
                o = self.order(b, 0)
                if o < 0:
                    return self.arith("pow", a, b)
                r = self.mk("pow", (a, b), {"int"}, False)
                if isinstance(r, Opaque) and isinstance(a, int) and a >= 1:
                    self.st.num_node(r)
                    self.st.le(1, r)
                    if self.st.order(b, 1, decide=False) in (0, 1, (0, 1)):
                        self.st.le(a, r)
                return r
            if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
                ta = self.c(a)
                if isinstance(ta, Opaque) and self.st.tags_of(ta) == frozenset({"bool"}):
                    ta = self.truth(ta)
                tb = self.c(b)
                if isinstance(tb, Opaque) and self.st.tags_of(tb) == frozenset({"bool"}):
                    tb = self.truth(tb)
                if isinstance(ta, int) and isinstance(tb, int):
                    return self.real_binop(op, ta, tb)
            self.undecided("integer operation")
        # float arithmetic
        if t in (ast.Div, ast.FloorDiv, ast.Mod):
            if self.order(b, 0) == 0:
                self.throw(ZeroDivisionError, "float division by zero")
        name = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow",
                ast.FloorDiv: "floordiv", ast.Mod: "mod"}.get(t)
        if name is None:
            self.throw(TypeError, "unsupported operand type(s)")
        return self.arith(name, a, b)

    BIG = 1e150

    def bounded(self, v):
        """|v| known to be below BIG"""
        if isinstance(v, (int, float)):
            return abs(v) < self.BIG
        if isinstance(v, Opaque):
            self.st.num_node(v)
            lo, hi = self.st.zone.interval(v)
        elif isinstance(v, Lin):
            lo, hi = self.lin_interval(v)
        else:
            return False
        return lo is not None and hi is not None and abs(lo) < self.BIG and abs(hi) < self.BIG

    def arith(self, name, a, b):
        for x in (a, b):
            if isinstance(x, float) and (x != x or abs(x) == INF):
                y = b if x is a else a
                if x != x:
                    return x
                if name in ("add",):
                    return x
                if name == "sub":
                    return x if x is a else -x
                if name == "mul":
                    o = self.order(y, 0)
                    return float("nan") if o == 0 else x * o
                if name == "div":
                    if x is a:
                        o = self.order(y, 0)
                        return x * o
                    return 0.0
                self.undecided("infinite arithmetic")
        # overflow of the result is a separate partition
        pa, pb = self.pow_bound(a), self.pow_bound(b)
        overflow = name in ("mul", "add", "sub", "pow") and not (self.bounded(a) and self.bounded(b)) and \
            not (isinstance(a, Term) and a.op == "limited")
        if name == "mul" and (pa and self.bounded(b) or pb and self.bounded(a)):
            overflow = False
        if overflow:
            if self.st.decide("overflow", name, a, b):
                if any(isinstance(x, Term) for x in (a, b)):
                    self.st.note_imprecise(f"overflow of {name} on a derived value")
                if name == "mul":
                    s = self.order(a, 0) * self.order(b, 0)
                    if s == 0:
                        raise Infeasible
                    for x, y in ((a, b), (b, a)):
                        if isinstance(x, Opaque) and (isinstance(y, (int, float)) and abs(y) <= 1e16 or
                                                      self.pow_bound(y)):
                            # only huge operands overflow
                            if self.order(x, 0) > 0:
                                self.st.le(1e290, x)
                            else:
                                self.st.le(x, -1e290)
                    return INF * s
                if name == "add" or name == "sub":
                    o = self.order(a, 0)
                    if o == 0:
                        raise Infeasible
                    return INF * o
                self.throw(OverflowError, "Numerical result out of range")
        r = self.mk(name, (a, b), {"float"}, True)
        if isinstance(r, Opaque):
            self.st.num_node(r)
            self.arith_bounds(name, r, a, b)
        return r

    def pow_bound(self, v):
        return isinstance(v, Term) and v.op == "pow" and isinstance(v.args[0], int) and v.args[0] <= 10

    def arith_bounds(self, name, r, a, b):
        """interval bounds of a rounded operation when one operand is a constant"""
        def iv(x):
            if isinstance(x, (int, float)):
                return x, x
            if isinstance(x, Lin):
                return self.lin_interval(x)
            self.st.num_node(x)
            return self.st.zone.interval(x)
        la, ha = iv(a)
        lb, hb = iv(b)
        if None in (la, ha, lb, hb):
            if name in ("mul", "div") and isinstance(b, (int, float)) and b > 0:
                if la is not None and la >= 0:
                    self.st.le(0, r)
                if ha is not None and ha <= 0:
                    self.st.le(r, 0)
            return
        try:
            f = fold.NUM_OPS[name]
            vals = [f(float(x) if isinstance(x, float) else (int(x) if x == int(x) else float(x)),
                      (int(y) if y == int(y) else float(y)))
                    for x in (la, ha) for y in (lb, hb)]
            self.st.le(min(vals), r)
            self.st.le(r, max(vals))
        except (OverflowError, ZeroDivisionError, ValueError):
            pass

    def percent(self, a, b):
        if not isinstance(a, str):
            self.undecided("% formatting with unknown template")
        args = list(b) if isinstance(b, tuple) else [b]
        out, i, k = [], 0, 0
        while i < len(a):
            if a[i] == "%":
                if i + 1 >= len(a):
                    self.throw(ValueError, "incomplete format")
                ch = a[i + 1]
                if ch == "%":
                    out.append("%")
                elif ch in "srd":
                    if k >= len(args):
                        self.throw(TypeError, "not enough arguments for format string")
                    out.append(self.repr(args[k]) if ch == "r" else self.str(args[k]))
                    k += 1
                else:
                    self.undecided("% format")
                i += 2
            else:
                out.append(a[i])
                i += 1
        if k < len(args) and isinstance(b, tuple):
            self.throw(TypeError, "not all arguments converted during string formatting")
        return self.c(mk_cat(out))

    def set_binop(self, nm, a, b):
        frozen = isinstance(a, SetObj) and a.frozen
        r = SetObj(frozen=frozen)
        if nm == "__or__":
            for x in self.as_set_items(a) + self.as_set_items(b):
                if not self.set_has(r, x):
                    r.items.append(x)
            return r
        if nm in ("__sub__", "__and__") and isinstance(b, SetObj):
            xs, ys = self.as_set_items(a), self.as_set_items(b)
            if all(type(x) is str for x in xs) and all(type(y) is str for y in ys):
                ys = set(ys)
                r.items.extend(x for x in xs if (x in ys) == (nm == "__and__"))
                return r
        if nm == "__sub__":
            for x in self.as_set_items(a):
                if not self.member_of(b, x):
                    r.items.append(x)
            return r
        if nm == "__and__":
            for x in self.as_set_items(a):
                if self.member_of(b, x):
                    r.items.append(x)
            return r
        if nm == "__xor__":
            for x in self.as_set_items(a):
                if not self.member_of(b, x):
                    r.items.append(x)
            for x in self.as_set_items(b):
                if not self.member_of(a, x):
                    r.items.append(x)
            return r
        self.throw(TypeError, "unsupported set operation")

    # ------------------------------------------------------------------ items
    def norm_index(self, idx, n, clamp=False):
        """Concrete index for a sequence of known length n (partitions)."""
        k, i = self.num(idx)
        if k != "int":
            if isinstance(idx, Obj) and self.class_attr(idx, "__index__") is not None:
                i = self.call(Bound(self.class_attr(idx, "__index__"), idx), [], {})
            else:
                self.throw(TypeError, "indices must be integers or slices")
        if isinstance(i, (Opaque, Lin)):
            if self.order(i, 0) < 0:
                lo = -n
                for j in range(-1, lo - 1, -1):
                    if self.order(i, j) == 0:
                        return j
                return -n - 1
            for j in range(0, n):
                if self.order(i, j) == 0:
                    return j
                if self.order(i, j) < 0:
                    raise Infeasible
            if clamp:
                return n
            return n
        return int(i)

    def getitem(self, o, k):
        o = self.c(o)
        if isinstance(o, Opaque):
            if self.st.tags_of(o) & SHAPE_TAGS:
                o = self.force_shape(o)
            if isinstance(o, Opaque):
                if self.st.tags_of(o) & STR_TAGS and self.is_str(o):
                    return self.str_getitem(self.c(o), k)
                o = self.c(o)
                if isinstance(o, Opaque):
                    if "bytes" in self.st.tags_of(o):
                        self.undecided("bytes item")
                    self.throw(TypeError, "object is not subscriptable")
        if isinstance(o, (ListObj, tuple)):
            items = o.items if isinstance(o, ListObj) else o
            if isinstance(k, SliceVal):
                s = self.slice_of(k, len(items))
                r = items[s]
                return ListObj(r) if isinstance(o, ListObj) else tuple(r)
            i = self.norm_index(k, len(items))
            if -len(items) <= i < len(items):
                return items[i]
            self.throw(IndexError, "index out of range")
        if isinstance(o, DictObj):
            self.need_hashable(k)
            e = self.dict_find(o, k)
            if e is not None:
                return e[1]
            if o.factory is not None:
                v = self.call(o.factory, [], {})
                self.dict_set(o, k, v)
                return v
            self.throw(KeyError, k)
        if isinstance(o, (str, Cat)):
            return self.str_getitem(o, k)
        if isinstance(o, bytes):
            if isinstance(k, SliceVal):
                return o[self.slice_of(k, len(o))]
            i = self.norm_index(k, len(o))
            if -len(o) <= i < len(o):
                return o[i]
            self.throw(IndexError, "index out of range")
        if isinstance(o, RangeVal) and all(isinstance(x, int) for x in (o.start, o.stop, o.step)):
            r = range(o.start, o.stop, o.step)
            if isinstance(k, SliceVal):
                q = r[self.slice_of(k, len(r))]
                return RangeVal(q.start, q.stop, q.step)
            i = self.norm_index(k, len(r))
            if -len(r) <= i < len(r):
                return r[i]
            self.throw(IndexError, "range object index out of range")
        if isinstance(o, Typing):
            return Typing(o.name, k if isinstance(k, tuple) else (k,))
        if isinstance(o, ClassVal):
            f, _ = o.lookup("__class_getitem__")
            if f is not None:
                return self.call(f.func if isinstance(f, ClassM) else f, [o, k], {})
            return Alias(o, k if isinstance(k, tuple) else (k,))
        if isinstance(o, Alias):
            return Alias(o.origin, k if isinstance(k, tuple) else (k,))
        if isinstance(o, type):
            return Typing(o.__name__, k if isinstance(k, tuple) else (k,))
        if isinstance(o, Ext):
            return Typing(o.name, k if isinstance(k, tuple) else (k,))
        if isinstance(o, Obj):
            m = self.class_attr(o, "__getitem__")
            if m is not None:
                return self.call(Bound(m, o), [k], {})
            if o.cls in self.NATIVE_GETITEM:
                return self.NATIVE_GETITEM[o.cls](self, o, k)
        self.throw(TypeError, f"'{self.type_name(o)}' object is not subscriptable")

    def slice_of(self, s, n):
        def conv(x, clampto):
            if x is None:
                return None
            i = self.norm_index(x, n, True)
            return i
        st = s.step
        if st is not None and not isinstance(st, int):
            self.undecided("slice step")
        return slice(conv(s.lower, 0), conv(s.upper, n), st)

    def str_getitem(self, o, k):
        if isinstance(o, str):
            if isinstance(k, SliceVal):
                return o[self.slice_of(k, len(o))]
            i = self.norm_index(k, len(o))
            if -len(o) <= i < len(o):
                return o[i]
            self.throw(IndexError, "string index out of range")
        pieces = list(o.pieces) if isinstance(o, Cat) else [o]
        if isinstance(k, SliceVal):
            if k.step is not None and k.step != 1:
                if k.lower is None and k.upper is None and k.step == -1 and self.all_chars(o):
                    ps = []
                    for p in reversed(pieces):
                        ps.append(p[::-1] if isinstance(p, str) else p)
                    return self.c(mk_cat(ps))
                self.undecided("slice step")
            # positions relative to piece boundaries
            total = fold.length_of(self.st, o)
            if isinstance(total, int) and self.all_chars(o):
                flat = []
                for p in pieces:
                    flat.extend(p if isinstance(p, str) else [p])
                return self.c(mk_cat(flat[self.slice_of(k, len(flat))]))
            lo = self.boundary(o, k.lower, 0)
            hi = self.boundary(o, k.upper, None)
            if lo is None or hi is None:
                self.undecided("slice of unknown text")
            return self.c(mk_cat(self.cut(pieces, lo, hi), "bytes" if self.is_bytes(o) else "str"))
        total = fold.length_of(self.st, o)
        if self.all_chars(o):
            flat = []
            for p in pieces:
                flat.extend(p if isinstance(p, str) else [p])
            i = self.norm_index(k, len(flat))
            if -len(flat) <= i < len(flat):
                return flat[i]
            self.throw(IndexError, "string index out of range")
        if isinstance(k, int):
            p = pieces[0] if k >= 0 else pieces[-1]
            if isinstance(p, str) and (k if k >= 0 else -k - 1) < len(p):
                return p[k]
        m = self.c(self.materialize_str(o)) if isinstance(o, Opaque) else None
        if m is None:
            self.undecided("item of unknown text")
        return self.str_getitem(m, k) if not (isinstance(m, Opaque) and not m.char) else m

    def all_chars(self, o):
        if isinstance(o, Opaque):
            return o.char
        return all(isinstance(p, str) or p.char for p in o.pieces)

    def boundary(self, o, pos, default):
        """(piece index, offset) of a position inside o; None when unknown."""
        pieces = list(o.pieces) if isinstance(o, Cat) else [o]
        if pos is None:
            return (0, 0) if default == 0 else (len(pieces), 0)
        k, n = self.num(pos)
        if k != "int":
            self.throw(TypeError, "slice indices must be integers or None")
        if isinstance(n, int) and n < 0:
            acc = 0
            for i in range(len(pieces) - 1, -1, -1):
                p = pieces[i]
                ln = len(p) if isinstance(p, (str, bytes)) else 1 if p.char else None
                if ln is None:
                    return None
                if acc + ln >= -n:
                    return (i, ln - (-n - acc))
                acc += ln
            return (0, 0)
        acc = lin_of(0)
        for i, p in enumerate(pieces):
            d = lin_norm(lin_add(self.st.to_lin(n), acc, -1))
            if d == 0:
                return (i, 0)
            if isinstance(p, (str, bytes)) and isinstance(d, int) and 0 <= d <= len(p):
                return (i, d)
            acc = lin_add(acc, self.st.to_lin(fold.length_of(self.st, p)))
        d = lin_norm(lin_add(self.st.to_lin(n), acc, -1))
        if isinstance(d, int) and d >= 0:
            return (len(pieces), 0)
        return None

    def cut(self, pieces, lo, hi):
        out = []
        for i, p in enumerate(pieces):
            a, b = 0, None
            if i < lo[0] or (i > hi[0]) or (i == hi[0] and hi[1] == 0):
                continue
            if i == lo[0]:
                a = lo[1]
            if i == hi[0]:
                b = hi[1]
            if a == 0 and b is None:
                out.append(p)
            elif isinstance(p, (str, bytes)):
                out.append(p[a:b])
            else:
                raise Undecided("cut inside a text atom")
        return out

    def setitem(self, o, k, v):
        o = self.c(o)
        if isinstance(o, Opaque):
            o = self.force_shape(o)
        if isinstance(o, ListObj):
            if isinstance(k, SliceVal):
                items = list(self.iterate(v))
                s = self.slice_of(k, len(o.items))
                self.touch(o)
                try:
                    o.items[s] = items
                except ValueError as e:
                    self.throw(ValueError, str(e))
                return
            i = self.norm_index(k, len(o.items))
            if not -len(o.items) <= i < len(o.items):
                self.throw(IndexError, "list assignment index out of range")
            self.touch(o)
            o.items[i] = v
            return
        if isinstance(o, DictObj):
            self.dict_set(o, k, v)
            return
        if isinstance(o, Obj):
            m = self.class_attr(o, "__setitem__")
            if m is not None:
                self.call(Bound(m, o), [k, v], {})
                return
        self.throw(TypeError, f"'{self.type_name(o)}' object does not support item assignment")

    def delitem(self, o, k):
        o = self.c(o)
        if isinstance(o, ListObj):
            if isinstance(k, SliceVal):
                s = self.slice_of(k, len(o.items))
                self.touch(o)
                del o.items[s]
                return
            i = self.norm_index(k, len(o.items))
            if not -len(o.items) <= i < len(o.items):
                self.throw(IndexError, "list assignment index out of range")
            self.touch(o)
            del o.items[i]
            return
        if isinstance(o, DictObj):
            self.need_hashable(k)
            e = self.dict_find(o, k)
            if e is None:
                self.throw(KeyError, k)
            self.touch(o)
            o.entries[:] = [x for x in o.entries if x is not e and keyof(x[0]) != keyof(e[0])]
            return
        if isinstance(o, Obj):
            m = self.class_attr(o, "__delitem__")
            if m is not None:
                self.call(Bound(m, o), [k], {})
                return
        self.throw(TypeError, "object does not support item deletion")

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """Python iterator of abstract values."""
        v = self.c(v)
        if isinstance(v, Opaque):
            t = self.st.tags_of(v)
            if t & STR_TAGS and self.is_str(v):
                return self.iter_text(self.materialize_str(v))
            v = self.c(v)
            if isinstance(v, Opaque) and "bytes" in self.st.tags_of(v) and self.is_bytes(v):
                self.undecided("iterate bytes")
            v = self.force_shape(v)
            if isinstance(v, Opaque):
                self.throw(TypeError, f"object is not iterable")
        if isinstance(v, ListObj):
            return self.iter_list(v)
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, (str, Cat)):
            return self.iter_text(v)
        if isinstance(v, bytes):
            return iter(v)
        if isinstance(v, DictObj):
            return self.iter_dict(v, "keys")
        if isinstance(v, DictView):
            return self.iter_dict(v.d, v.kind)
        if isinstance(v, SetObj):
            return self.iter_set(v)
        if isinstance(v, GenObj):
            return self.iter_gen(v)
        if isinstance(v, RangeVal):
            return self.iter_range(v)
        if isinstance(v, Obj):
            m = self.class_attr(v, "__iter__")
            if m is not None:
                r = self.call(Bound(m, v), [], {})
                if isinstance(r, Obj):
                    return self.iter_next(r)
                return self.iterate(r)
            m = self.class_attr(v, "__getitem__")
            if m is not None:
                return self.iter_getitem(v, m)
            if v.cls in self.NATIVE_ITER:
                return self.NATIVE_ITER[v.cls](self, v)
        self.throw(TypeError, f"'{self.type_name(v)}' object is not iterable")

    def iter_gen(self, g):
        # a plain wrapper so that abandoning the loop does not close the generator
        while True:
            try:
                x = next(g.it)
            except StopIteration:
                return
            yield x

    def iter_next(self, o):
        m = self.class_attr(o, "__next__")
        while True:
            try:
                x = self.call(Bound(m, o), [], {})
            except PyExc as e:
                if self.exc_matches(e.value, StopIteration):
                    return
                raise
            yield x

    def iter_getitem(self, o, m):
        i = 0
        while True:
            try:
                x = self.call(Bound(m, o), [i], {})
            except PyExc as e:
                if self.exc_matches(e.value, IndexError):
                    return
                raise
            yield x
            i += 1
            if i > 300:
                raise Undecided("iteration bound")

    def iter_list(self, l):
        i = 0
        while i < len(l.items):
            yield l.items[i]
            i += 1

    def iter_text(self, v):
        if isinstance(v, (str, bytes)):
            yield from v
            return
        if isinstance(v, Opaque):
            if v.char:
                yield v
                return
            v = self.materialize_str(v)
            yield from self.iter_text(self.c(v))
            return
        for p in v.pieces:
            if isinstance(p, (str, bytes)):
                yield from p
            elif p.char:
                yield p
            else:
                yield from self.iter_text(self.c(self.materialize_str(p)))

    def iter_dict(self, d, kind):
        n = len(d.entries)
        i = 0
        while i < n:
            if len(d.entries) != n:
                self.throw(RuntimeError, "dictionary changed size during iteration")
            k, v = d.entries[i]
            yield k if kind == "keys" else v if kind == "values" else (k, v)
            i += 1
        if len(d.entries) != n:
            self.throw(RuntimeError, "dictionary changed size during iteration")

    def iter_set(self, s):
        if s.lazy is not None:
            self.force_set(s)
        items = list(s.items)
        if len(items) > 1:
            self.set_iterations.append(self.site())
            if self.set_order:
                items.reverse()
        yield from items

    def iter_range(self, r):
        start, stop, step = (self.c(x) for x in (r.start, r.stop, r.step))
        if all(isinstance(x, int) for x in (start, stop, step)):
            yield from range(start, stop, step)
            return
        if step not in (1, -1):
            self.undecided("range step")
        n = lin_norm(lin_add(self.st.to_lin(stop), self.st.to_lin(start), -1))
        if step == -1:
            n = lin_norm(lin_scale(self.st.to_lin(n), -1))
        if isinstance(n, (Opaque, Lin)):
            n = self.concretize_count(n)
        i = 0
        while i < n:
            yield lin_norm(lin_add(self.st.to_lin(start), lin_of(i * step)))
            i += 1

    def concretize_count(self, n):
        n = self.c(n)
        if isinstance(n, int):
            return max(n, 0)
        if self.order(n, 0) < 0:
            return 0
        n = self.c(n)
        if isinstance(n, int):
            return max(n, 0)
        return self.concretize_int(n)

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        v = self.c(v)
        if isinstance(v, Opaque):
            tags = self.st.tags_of(v)
            groups = {}
            for t in tags:
                groups.setdefault(TAG_TYPE[t], set()).add(t)
            if len(groups) > 1:
                for ty in sorted(groups, key=lambda x: x.__name__):
                    if self.st.split(v, frozenset(groups[ty]), ty.__name__):
                        return ty
            return TAG_TYPE[next(iter(self.st.tags_of(v)))] if isinstance(self.c(v), Opaque) else self.type_of(v)
        if isinstance(v, Lin):
            return int
        if isinstance(v, Cat):
            return str if v.kind == "str" else bytes
        if isinstance(v, (ListObj, DictObj)):
            return v.pytype
        if isinstance(v, SetObj):
            return frozenset if v.frozen else set
        if isinstance(v, tuple):
            return tuple
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, (ClassVal, type)):
            return type
        if isinstance(v, NilT):
            return NilT
        if isinstance(v, CONC):
            return type(v)
        import types
        if isinstance(v, FuncVal):
            return types.FunctionType
        if isinstance(v, Bound):
            return types.MethodType
        if isinstance(v, (Bi, BMeth)):
            return types.BuiltinFunctionType
        if isinstance(v, GenObj):
            return types.GeneratorType
        if isinstance(v, ModuleVal):
            return types.ModuleType
        if isinstance(v, RangeVal):
            return range
        if isinstance(v, DictView):
            return {"keys": type({}.keys()), "values": type({}.values()), "items": type({}.items())}[v.kind]
        self.undecided(f"type of {show(v)}")

    def type_name(self, v):
        t = self.type_of(v)
        return t.name if isinstance(t, ClassVal) else t.__name__

    def isinstance(self, v, C):
        v = self.c(v)
        if isinstance(C, tuple):
            # one split for plain builtin types keeps the partition small
            if isinstance(v, Opaque) and all(isinstance(x, type) and x in TYPE_TAGS for x in C):
                tags = frozenset().union(*[frozenset(TYPE_TAGS[x]) for x in C])
                return self.st.split(v, tags, "an instance of " + "/".join(x.__name__ for x in C))
            return any(self.isinstance(v, x) for x in C)
        if isinstance(C, Typing):
            if C.name == "Union":
                return any(self.isinstance(v, x) for x in C.args)
            if C.name in self.ABC_TAGS:
                return self.isinstance_abc(v, C.name)
            if C.name in ("List", "Dict", "Tuple", "Set", "FrozenSet") and not C.args:
                return self.isinstance(v, {"List": list, "Dict": dict, "Tuple": tuple, "Set": set,
                                           "FrozenSet": frozenset}[C.name])
            self.throw(TypeError, "isinstance() arg 2 must be a type")
        if isinstance(C, Ext):
            nm = C.name.split(".")[-1]
            if nm in self.ABC_TAGS:
                return self.isinstance_abc(v, nm)
            self.undecided(f"isinstance with {C.name}")
        if isinstance(C, Alias):
            self.throw(TypeError, "isinstance() argument 2 cannot be a parameterized generic")
        if C is object:
            return True
        if isinstance(C, ClassVal):
            return isinstance(v, Obj) and isinstance(v.cls, ClassVal) and C in v.cls.mro
        if isinstance(C, type):
            if isinstance(v, Opaque):
                tags = TYPE_TAGS.get(C)
                if tags is None:
                    if C is OpaqueObject:
                        tags = {"object"}
                    else:
                        return False
                return self.st.split(v, frozenset(tags), f"an instance of {C.__name__}")
            if isinstance(v, Obj):
                if isinstance(v.cls, ClassVal):
                    return any(isinstance(b, type) and issubclass(b, C) for b in v.cls.mro if b is not object)
                return issubclass(v.cls, C)
            t = self.type_of(v)
            if isinstance(t, ClassVal):
                return False
            return issubclass(t, C)
        self.throw(TypeError, "isinstance() arg 2 must be a type, a tuple of types, or a union")

    ABC_TAGS = {
        "Mapping": {"dict", "dictsub"}, "MutableMapping": {"dict", "dictsub"},
        "Sequence": {"list", "listsub", "tuple", "str", "strsub", "bytes", "bytearray"},
        "MutableSequence": {"list", "listsub", "bytearray"},
        "Set": {"set", "frozenset"}, "MutableSet": {"set"},
        "Sized": {"list", "listsub", "tuple", "str", "strsub", "bytes", "bytearray", "dict", "dictsub", "set",
                  "frozenset"},
        "Iterable": {"list", "listsub", "tuple", "str", "strsub", "bytes", "bytearray", "dict", "dictsub", "set",
                     "frozenset"},
        "Collection": {"list", "listsub", "tuple", "str", "strsub", "bytes", "bytearray", "dict", "dictsub",
                       "set", "frozenset"},
        "Hashable": ALL_TAGS - HASHABLE_NOT,
        "Number": {"bool", "int", "hugeint", "intsub", "float", "inf", "ninf", "nan", "floatsub", "decimal",
                   "fraction", "complex"},
        "Real": {"bool", "int", "hugeint", "intsub", "float", "inf", "ninf", "nan", "floatsub", "fraction"},
        "Integral": {"bool", "int", "hugeint", "intsub"},
        "Rational": {"bool", "int", "hugeint", "intsub", "fraction"},
        "Callable": set(),
    }

    def isinstance_abc(self, v, name):
        tags = frozenset(self.ABC_TAGS[name])
        if isinstance(v, Opaque):
            return self.st.split(v, tags, f"an instance of {name}")
        if name == "Callable":
            return self.callable(v)
        if isinstance(v, (ListObj, DictObj, SetObj, tuple, str, bytes, Cat, Lin, int, float)) \
                and not isinstance(v, type):
            ty = self.type_of(v)
            tt = next((t for t, x in TAG_TYPE.items() if x is ty and t not in ("hugeint", "inf", "ninf", "nan")), None)
            return tt in tags
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            need = {"Iterable": "__iter__", "Sized": "__len__", "Hashable": "__hash__"}.get(name)
            if need:
                return self.class_attr(v, need) is not None
            return False
        if v is None or v is ... or isinstance(v, NilT):
            return name == "Hashable"
        self.undecided(f"isinstance {name}")

    def callable(self, v):
        v = self.c(v)
        if isinstance(v, (FuncVal, Bound, Bi, BMeth, Partial, ClassVal, type, Typing, Alias)):
            return True
        if isinstance(v, Obj):
            return self.class_attr(v, "__call__") is not None
        if isinstance(v, Ext):
            self.undecided("callable(ext)")
        if isinstance(v, Opaque) and "type" in self.st.tags_of(v):
            return self.st.split(v, frozenset({"type"}))
        return False

    def issubclass(self, a, b):
        if isinstance(b, tuple):
            return any(self.issubclass(a, x) for x in b)
        if isinstance(a, ClassVal):
            if isinstance(b, ClassVal):
                return b in a.mro
            if isinstance(b, type):
                return b is object or any(isinstance(x, type) and issubclass(x, b) for x in a.mro)
        if isinstance(a, type):
            if isinstance(b, type):
                return issubclass(a, b)
            if isinstance(b, ClassVal):
                return False
        if isinstance(a, (ClassVal, type)):
            self.undecided("issubclass")
        self.throw(TypeError, "issubclass() arg 1 must be a class")

    # ------------------------------------------------------------------ attributes
    def class_attr(self, o, name):
        """A special method of the object's class (not None), else None."""
        if isinstance(o, Obj) and isinstance(o.cls, ClassVal):
            v, _ = o.cls.lookup(name)
            if isinstance(v, (StaticM,)):
                return None
            return v
        return None

    def getattr(self, o, name):
        o = self.c(o)
        if isinstance(o, Obj):
            return self.obj_getattr(o, name)
        if isinstance(o, ModuleVal):
            return self.module_attr(o, name)
        if isinstance(o, ClassVal):
            return self.cls_getattr(o, name)
        if isinstance(o, SuperVal):
            return self.super_getattr(o, name)
        if isinstance(o, Ext):
            return self.ext_attr(o.name, name)
        if isinstance(o, type):
            return self.type_getattr(o, name)
        if isinstance(o, FuncVal):
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qualname
            if name == "__module__":
                return o.module.name
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__dict__":
                return DictObj([[k, v] for k, v in o.attrs.items()])
            if name == "__get__":
                return Bi("__get__", lambda I, a, k: Bound(o, a[0]))
            if name == "__call__":
                return o
            if name in o.attrs:
                return o.attrs[name]
            self.throw(AttributeError, f"'function' object has no attribute {name!r}")
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, (Bi, BMeth)):
            if name == "__name__":
                return o.name.split(".")[-1]
            if name == "__self__" and isinstance(o, BMeth):
                return o.self
            if name == "fromkeys" or name == "maketrans":
                self.undecided(name)
            self.throw(AttributeError, name)
        if isinstance(o, Typing):
            if name == "__args__":
                return tuple(o.args)
            if name in ("__name__", "_name"):
                return o.name
            if name == "__origin__":
                return o
            return Typing(f"{o.name}.{name}")
        if isinstance(o, Alias):
            if name == "__args__":
                return tuple(o.args)
            if name == "__origin__":
                return o.origin
            return self.cls_getattr(o.origin, name)
        if isinstance(o, NilT):
            if name == "__class__":
                return NilT
            self.throw(AttributeError, f"'NilType' object has no attribute {name!r}")
        if isinstance(o, Partial):
            if name in ("func", "args", "keywords"):
                return {"func": o.func, "args": tuple(o.args), "keywords": DictObj(list(map(list, o.kwargs.items())))}[name]
        return self.builtin_getattr(o, name)

    def bind_attr(self, v, inst, cls):
        if isinstance(v, FuncVal):
            return Bound(v, inst)
        if isinstance(v, Bi):
            return Bound(v, inst)
        if isinstance(v, ClassM):
            return Bound(v.func, cls)
        if isinstance(v, StaticM):
            return v.func
        if isinstance(v, Prop):
            return self.call(v.fget, [inst], {})
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            g, _ = v.cls.lookup("__get__")
            if g is not None:
                return self.call(Bound(g, v), [inst, cls], {})
        return v

    def obj_getattr(self, o, name):
        cls = o.cls
        if isinstance(cls, ClassVal):
            if "__getattribute__" in self.overriding(cls, None):
                m, _ = cls.lookup("__getattribute__")
                if m is not None:
                    self.undecided("__getattribute__")
            v, owner = cls.lookup(name)
            if isinstance(v, Prop):
                try:
                    return self.call(v.fget, [o], {})
                except PyExc as e:
                    if self.exc_matches(e.value, AttributeError):
                        g, _ = cls.lookup("__getattr__")
                        if g is not None:
                            return self.call(Bound(g, o), [name], {})
                    raise
            if name in o.attrs:
                return o.attrs[name]
            if owner is not None:
                return self.bind_attr(v, o, cls)
            if name == "__class__":
                return cls
            if name == "__dict__":
                return self.attrs_dict(o)
            if name == "__doc__":
                return None
            if name in ("__eq__", "__ne__", "__hash__", "__repr__", "__str__", "__init__", "__reduce__",
                        "__format__", "__setattr__", "__getattribute__", "__sizeof__", "__init_subclass__"):
                return Bi(f"object.{name}", self.object_method(name, o))
            if cls.builtin_base is not None:
                r = self.native_attr(o, name, cls.builtin_base)
                if r is not None:
                    return r[0]
            g, _ = cls.lookup("__getattr__")
            if g is not None:
                return self.call(Bound(g, o), [name], {})
            self.throw(AttributeError, f"{cls.name!r} object has no attribute {name!r}")
        if name == "__class__":
            return cls
        if name in o.attrs:
            return o.attrs[name]
        r = self.native_attr(o, name, cls)
        if r is not None:
            return r[0]
        self.throw(AttributeError, f"{cls.__name__!r} object has no attribute {name!r}")

    def object_method(self, name, o):
        def fn(I, args, kw):
            if name == "__eq__":
                return True if I.c(args[0]) is o else NotImplemented
            if name == "__ne__":
                r = I.rich_eq(o, args[0])
                return not I.truth(r)
            if name == "__repr__":
                return I.default_repr(o)
            if name == "__str__":
                return I.repr(o)
            if name == "__hash__":
                return Sym("hash", {"int"})
            if name in ("__init__", "__init_subclass__"):
                return None
            if name == "__setattr__":
                I.touch(o)
                o.attrs[args[0]] = args[1]
                return None
            I.undecided("object." + name)
        return fn

    def default_repr(self, o):
        t = self.type_of(o)
        n = t.qualname if isinstance(t, ClassVal) else t.__name__
        return mk_cat([f"<{n} object at ", self.addr(o), ">"])

    def addr(self, o):
        return self.mk("addr", (o.uid if isinstance(o, Heap) else o if isinstance(o, Opaque) else
                                keyof(o) if is_conc(o) else id(o),), {"str"})

    def attrs_dict(self, o):
        d = DictObj([[k, v] for k, v in o.attrs.items()])
        return d

    def cls_getattr(self, c, name):
        if name == "__name__":
            return c.name
        if name == "__qualname__":
            return c.qualname
        if name == "__mro__":
            return tuple(c.mro)
        if name == "__bases__":
            return tuple(c.bases)
        if name == "__class__":
            return type
        if name == "__dict__":
            return DictObj([[k, v] for k, v in c.ns.items()])
        if name == "__module__":
            return c.module
        if name == "mro":
            return Bi("mro", lambda I, a, k: ListObj(c.mro))
        v, owner = c.lookup(name)
        if owner is not None:
            if isinstance(v, ClassM):
                return Bound(v.func, c)
            if isinstance(v, StaticM):
                return v.func
            return v
        if name == "__init__":
            return Bi("object.__init__", lambda I, a, k: None)
        if name == "__doc__":
            return None
        if name == "__new__":
            return Bi("__new__", lambda I, a, k: Obj(a[0]))
        if name == "__subclasses__":
            self.undecided("__subclasses__")
        if name in ("__eq__", "__ne__", "__repr__", "__hash__", "__str__", "__setattr__"):
            return Bi(f"object.{name}", lambda I, a, k: I.object_method(name, a[0])(I, a[1:], k))
        if name == "__annotations__":
            return DictObj()
        if c.builtin_base is not None and hasattr(c.builtin_base, name):
            return self.type_getattr(c.builtin_base, name)
        self.throw(AttributeError, f"type object {c.name!r} has no attribute {name!r}")

    def super_getattr(self, s, name):
        inst = s.self
        cls = inst.cls if isinstance(inst, Obj) else inst
        if not isinstance(cls, ClassVal):
            self.undecided("super of non-class")
        mro = cls.mro
        i = mro.index(s.cls)
        for c in mro[i + 1:]:
            if isinstance(c, ClassVal):
                if name in c.ns:
                    return self.bind_attr(c.ns[name], inst, cls) if isinstance(inst, Obj) else \
                        (Bound(c.ns[name].func, cls) if isinstance(c.ns[name], ClassM) else
                         Bound(c.ns[name], cls) if name in ("__init_subclass__", "__new__") else c.ns[name])
            elif c is not object:
                if name == "__init__" and issubclass(c, BaseException):
                    def init(I, args, kw):
                        I.touch(inst)
                        inst.attrs["args"] = tuple(args)
                    return Bi("BaseException.__init__", init)
                r = self.native_attr(inst, name, c) if isinstance(inst, Obj) else None
                if r is not None:
                    return r[0]
        if name == "__init__":
            return Bi("object.__init__", lambda I, a, k: None if not a and not k else
                      I.throw(TypeError, "object.__init__() takes exactly one argument"))
        if name == "__init_subclass__":
            return Bi("object.__init_subclass__", lambda I, a, k: None if not k else
                      I.throw(TypeError, "__init_subclass__() takes no keyword arguments"))
        if name == "__new__":
            return Bi("object.__new__", lambda I, a, k: Obj(a[0]))
        if name in ("__eq__", "__ne__", "__repr__", "__str__", "__hash__", "__setattr__"):
            return Bi(f"object.{name}", self.object_method(name, inst))
        self.throw(AttributeError, f"'super' object has no attribute {name!r}")

    def setattr(self, o, name, v):
        o = self.c(o)
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassVal):
                s, _ = o.cls.lookup("__setattr__")
                if s is not None:
                    self.call(Bound(s, o), [name, v], {})
                    return
                d, _ = o.cls.lookup(name)
                if isinstance(d, Prop):
                    if d.fset is None:
                        self.throw(AttributeError, f"property {name!r} of {o.cls.name!r} object has no setter")
                    self.call(d.fset, [o, v], {})
                    return
                slots, sc = o.cls.lookup("__slots__")
                if sc is not None and self.all_slotted(o.cls) and name not in self.slot_names(o.cls):
                    self.throw(AttributeError, f"no attribute {name!r}")
            self.touch(o)
            o.attrs[name] = v
            return
        if isinstance(o, ClassVal):
            self.touch(o)
            if isinstance(v, FuncVal) and False:
                pass
            o.ns[name] = v
            return
        if isinstance(o, ModuleVal):
            self.touch(o)
            o.ns[name] = v
            return
        if isinstance(o, FuncVal):
            o.attrs[name] = v
            return
        self.throw(AttributeError, f"can't set attribute {name!r}")

    def all_slotted(self, cls):
        return all("__slots__" in c.ns for c in cls.mro if isinstance(c, ClassVal))

    def slot_names(self, cls):
        out = set()
        for c in cls.mro:
            if isinstance(c, ClassVal) and "__slots__" in c.ns:
                s = c.ns["__slots__"]
                out |= {s} if isinstance(s, str) else set(s if isinstance(s, tuple) else s.items)
        return out

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bi):
            return f.fn(self, args, kwargs)
        if isinstance(f, BMeth):
            return self.call_method(f, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Alias):
            return self.instantiate(f.origin, args, kwargs)
        if isinstance(f, type):
            return self.call_type(f, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, Typing):
            if f.name in ("TypeVar", "ParamSpec", "NewType"):
                return Typing(f"{f.name}:{args[0] if args else ''}")
            if f.name.startswith("NewType:"):
                return args[0]
            self.undecided(f"call of typing {f.name}")
        if isinstance(f, Obj):
            m = self.class_attr(f, "__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kwargs)
            h = self.NATIVE_CALL.get(f.cls)
            if h is not None:
                return h(self, f, args, kwargs)
        if isinstance(f, ClassM):
            return self.call(f.func, args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Opaque) and "type" in self.st.tags_of(f):
            self.undecided("call of unknown type")
        self.throw(TypeError, f"'{self.type_name(f)}' object is not callable")

    def instantiate(self, cls, args, kwargs):
        if cls.abstract:
            self.throw(TypeError, f"Can't instantiate abstract class {cls.name}")
        new, _ = cls.lookup("__new__")
        if new is not None:
            new = new.func if isinstance(new, (StaticM, ClassM)) else new
            o = self.call(new, [cls] + list(args), kwargs)
            if not (isinstance(o, Obj) and isinstance(o.cls, ClassVal) and cls in o.cls.mro):
                return o
        else:
            if cls.builtin_base is not None and not issubclass(cls.builtin_base, BaseException):
                r = self.instantiate_native_sub(cls, args, kwargs)
                if r is not None:
                    return r
            o = Obj(cls)
        o.owner = None
        init, _ = cls.lookup("__init__")
        if cls.builtin_base is not None and issubclass(cls.builtin_base, BaseException):
            o.attrs["args"] = tuple(args)
        if init is not None:
            self.call(Bound(init, o), args, kwargs)
        elif cls.builtin_base is None and (args or kwargs) and new is None:
            self.throw(TypeError, f"{cls.name}() takes no arguments")
        return o

    def instantiate_native_sub(self, cls, args, kwargs):
        self.undecided(f"subclass of builtin {cls.builtin_base.__name__}")

    # ------------------------------------------------------------------ text
    def str(self, v):
        v = self.c(v)
        if isinstance(v, (str,)):
            return v
        if isinstance(v, Cat) and v.kind == "str":
            return v
        if isinstance(v, Opaque):
            if self.st.tags_of(v) & STR_TAGS and self.st.split(v, STR_TAGS, "a str"):
                return self.c(v)
            v = self.c(v)
            if isinstance(v, Opaque):
                if self.is_huge(v):
                    self.throw(ValueError, "Exceeds the limit (4300 digits) for integer string conversion")
                v = self.force_shape(v)
                if isinstance(v, Opaque):
                    return self.mk("str", (v,), {"str"})
            return self.str(v)
        if isinstance(v, Obj):
            m = self.class_attr(v, "__str__")
            if m is not None:
                return self.call(Bound(m, v), [], {})
            if self.is_exc(v) and self.class_attr(v, "__repr__") is None:
                a = v.attrs.get("args", ())
                if len(a) == 0:
                    return ""
                if len(a) == 1:
                    cls = v.cls if isinstance(v.cls, type) else v.cls.builtin_base
                    return self.repr(a[0]) if issubclass(cls, KeyError) else self.str(a[0])
                return self.repr(a)
            return self.repr(v)
        return self.repr(v)

    def repr(self, v):
        v = self.c(v)
        if isinstance(v, type):
            return repr(v)
        if isinstance(v, tuple):
            if is_conc(v) and not any(isinstance(x, (NilT, type)) for x in v):
                return self.safe_repr(v)
            parts = []
            for i, x in enumerate(v):
                if i:
                    parts.append(", ")
                parts.append(self.repr(x))
            return self.c(mk_cat(["("] + parts + [",)" if len(v) == 1 else ")"]))
        if isinstance(v, NilT):
            return "Nil"
        if isinstance(v, CONC):
            return self.safe_repr(v)
        if isinstance(v, Opaque):
            if self.is_huge(v):
                self.throw(ValueError, "Exceeds the limit (4300 digits) for integer string conversion")
            v = self.force_shape(v)
            if not isinstance(v, Opaque):
                return self.repr(v)
            if isinstance(v, Sym) and isinstance(v.meta, tuple) and v.meta[0] == "source":
                return v.meta[1]
            return self.mk("repr", (v,), {"str"})
        if isinstance(v, (Lin,)):
            return self.mk("repr", (v,), {"str"})
        if isinstance(v, Cat):
            return self.mk("repr", (v,), {"str"})
        if isinstance(v, ListObj):
            if v.pytype is ListSub:
                pass
            if isinstance(v, ByteArr):
                return self.mk("repr", (Sym("bytearray", {"bytearray"}),), {"str"})
            if v in self.repr_guard:
                return "[...]"
            parts = ["["]
            self.repr_guard.append(v)
            try:
                for i, x in enumerate(v.items):
                    if i:
                        parts.append(", ")
                    parts.append(self.repr(x))
            finally:
                self.repr_guard.pop()
            return self.c(mk_cat(parts + ["]"]))
        if isinstance(v, DictObj):
            if v in self.repr_guard:
                return "{...}"
            parts = ["{"]
            self.repr_guard.append(v)
            try:
                for i, (k, x) in enumerate(v.entries):
                    if i:
                        parts.append(", ")
                    parts += [self.repr(k), ": ", self.repr(x)]
            finally:
                self.repr_guard.pop()
            return self.c(mk_cat(parts + ["}"]))
        if isinstance(v, SetObj):
            self.force_set(v)
            if not v.items:
                return "frozenset()" if v.frozen else "set()"
            parts = []
            for i, x in enumerate(self.iter_set(v)):
                if i:
                    parts.append(", ")
                parts.append(self.repr(x))
            r = ["{"] + parts + ["}"]
            if v.frozen:
                r = ["frozenset("] + r + [")"]
            return self.c(mk_cat(r))
        if isinstance(v, Obj):
            m = self.class_attr(v, "__repr__")
            if m is not None:
                r = self.call(Bound(m, v), [], {})
                if not isinstance(self.c(r), (str, Cat)) and not (isinstance(self.c(r), Opaque) and self.is_str(r)):
                    self.throw(TypeError, "__repr__ returned non-string")
                return r
            if self.is_exc(v):
                n = v.cls.__name__ if isinstance(v.cls, type) else v.cls.name
                a = v.attrs.get("args", ())
                inner = self.repr(a)
                if len(a) == 1:
                    inner = self.c(mk_cat(["(", self.repr(a[0]), ")"]))
                return self.c(mk_cat([n, inner]))
            return self.default_repr(v)
        if isinstance(v, ClassVal):
            return f"<class '{v.module}.{v.qualname}'>"
        if isinstance(v, (FuncVal, Bound, Bi, BMeth, ModuleVal, GenObj, DictView, RangeVal, Ext, Typing, Alias,
                          Partial)):
            if isinstance(v, DictView):
                return self.c(mk_cat([f"dict_{v.kind}(", self.repr(ListObj(list(self.iterate(v)))), ")"]))
            return f"<{type(v).__name__}>"
        self.undecided(f"repr of {show(v)}")

    def safe_repr(self, v):
        try:
            return repr(v)
        except Exception as e:
            self.throw(type(e), str(e))

    def format(self, v, spec=""):
        if spec == "":
            v = self.c(v)
            if isinstance(v, Obj):
                m = self.class_attr(v, "__format__")
                if m is not None:
                    return self.call(Bound(m, v), [""], {})
            return self.str(v)
        v = self.c(v)
        if not isinstance(v, (Opaque, Cat, Lin, Heap)) and isinstance(spec, str):
            try:
                return format(v, spec)
            except Exception as e:
                self.throw(type(e), str(e))
        self.undecided("format spec")

    NATIVE_EQ = {}
    NATIVE_ORDER = {}
    NATIVE_ITER = {}
    NATIVE_CALL = {}
    NATIVE_GETITEM = {}
