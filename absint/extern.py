"""Models of the library code d42 uses: re, random, math, copy, datetime, uuid, typing, collections, ...

Every model is either exact on constants (host constant folding) or a sound case split on abstract values.
"""
import ast
import collections
import datetime as _dt
import math
import re as _re
import re._parser as _srep
import re._constants as _srec
import string as _string
import os as _os
import sys as _sys
import uuid as _uuid
import itertools as _it

from .values import *   # noqa
from .state import Undecided, Infeasible, lin_of, lin_add, lin_norm, lin_scale
from . import fold
from .core import PyExc, SliceVal
from .ops import Ops
from .builtin import Builtins

REAL_CONST_MODULES = {"string": _string, "math": math, "os": _os, "sys": _sys, "re._constants": _srec,
                      "sre_constants": _srec}
REAL_CONST_OK = (int, float, str, bytes, bool, tuple, type(None))

MODULES = {
    "re", "random", "math", "copy", "datetime", "uuid", "typing", "typing_extensions", "collections",
    "collections.abc", "abc", "string", "sys", "os", "os.path", "argparse", "ast", "itertools", "functools",
    "contextlib", "builtins", "re._parser", "re._constants", "sre_parse", "sre_constants", "pprint",
    "operator", "enum", "dataclasses", "warnings", "time", "secrets", "types", "decimal", "fractions",
    "numbers", "json", "textwrap", "logging", "pathlib", "io", "threading", "weakref", "inspect", "heapq",
    "bisect", "statistics", "calendar", "zoneinfo", "hashlib", "tokenize", "token", "unicodedata", "locale",
    "keyword", "struct", "codecs", "traceback", "difflib", "reprlib", "__future__", "importlib", "pkgutil",
    "gc", "atexit", "platform", "tempfile", "shutil", "glob", "fnmatch", "csv", "shlex", "sysconfig", "site",
}
TYPING = {"Any", "Union", "Optional", "List", "Dict", "Tuple", "Set", "FrozenSet", "Type", "Callable", "Generic",
          "Protocol", "Mapping", "Sequence", "Iterator", "Iterable", "Generator", "KeysView", "ValuesView",
          "ItemsView", "Sized", "Literal", "ClassVar", "Final", "Annotated", "NoReturn", "Never", "Self",
          "TypeAlias", "SupportsInt", "Hashable", "Collection", "MutableMapping", "MutableSequence", "AbstractSet",
          "Pattern", "Match", "Text", "AnyStr", "NamedTuple", "TypedDict", "Concatenate", "Awaitable",
          "AsyncIterator", "Container", "Reversible", "ContextManager", "DefaultDict", "OrderedDict", "Counter",
          "Deque", "Required", "NotRequired", "Unpack", "TypeVarTuple", "LiteralString", "TypeGuard",
          "SupportsIndex", "SupportsFloat", "SupportsAbs", "SupportsRound"}
ABCS = {"Mapping", "MutableMapping", "Sequence", "MutableSequence", "Set", "MutableSet", "Sized", "Iterable",
        "Collection", "Hashable", "Callable", "Iterator", "Generator", "KeysView", "ValuesView", "ItemsView",
        "Container", "Reversible"}

TABLE = {}


def ext(name):
    def deco(fn):
        TABLE[name] = Bi(name, fn)
        return fn
    return deco


def is_sub(I, v, tags):
    v = I.c(v)
    return isinstance(v, Opaque) and I.st.tags_of(v) <= tags


# ------------------------------------------------------------------ re
PAT = _re.Pattern
MATCH = _re.Match
RE_FAILS = ((_re.error, "validre"), (OverflowError, "re overflow"), (RecursionError, "re recursion"))


def re_flags(I, flags):
    f = I.c(flags)
    if isinstance(f, _re.RegexFlag):
        f = int(f)
    if isinstance(f, int):
        return int(f)
    I.undecided("regex flags")


def re_compile(I, p, flags=0):
    p = I.c(p)
    if isinstance(p, Obj) and p.cls is PAT:
        return p
    fl = re_flags(I, flags)
    if isinstance(p, bytes) or is_sub(I, p, frozenset({"bytes"})):
        I.undecided("bytes pattern")
    if not I.is_str(p):
        if isinstance(p, (ListObj, DictObj)) or (isinstance(p, SetObj) and not p.frozen):
            I.throw(TypeError, "unhashable type")
        I.throw(TypeError, "first argument must be string or compiled pattern")
    p = I.c(p)
    if isinstance(p, str):
        try:
            _re.compile(p, fl)
        except Exception as e:
            I.throw(type(e), str(e))
    else:
        if not I.st.decide("validre", p):
            which = I.st.choose(3, f"how {show(p)} fails to compile (error/OverflowError/RecursionError)")
            I.throw((_re.error, OverflowError, RecursionError)[which], "bad pattern")
    o = Obj(PAT, {}, native=(p, fl))
    return o


def re_apply(I, name, pat, s, extra=()):
    p, fl = pat.native
    s = I.c(s)
    if isinstance(s, (Heap, type)) or not I.is_str(s):
        I.throw(TypeError, "expected string or bytes-like object")
    s = I.c(s)
    if extra:
        I.undecided("regex position arguments")
    key = p if fl == 0 else mk_flagged(p, fl)
    if isinstance(p, str) and isinstance(s, str):
        m = getattr(_re.compile(p, fl), name)(s)
        return None if m is None else Obj(MATCH, {}, native=(p, s, m))
    if fl == 0 and isinstance(p, str) and p == "":
        if name in ("search", "match"):
            return Obj(MATCH, {}, native=(p, s, None))
        if name == "fullmatch":
            if I.st.order(fold.length_of(I.st, s), 0) == 0:
                return Obj(MATCH, {}, native=(p, s, None))
            return None
    if I.st.decide(name, key, s):
        return Obj(MATCH, {}, native=(p, s, None))
    return None


def mk_flagged(p, fl):
    return Term("flagged", (p, fl), {"str"})


for _n in ("search", "match", "fullmatch"):
    def _mk(n):
        def fn(I, args, kw):
            args = list(args)
            pat = args[0] if args else kw["pattern"]
            s = args[1] if len(args) > 1 else kw["string"]
            fl = args[2] if len(args) > 2 else kw.get("flags", 0)
            return re_apply(I, n, re_compile(I, pat, fl), s)
        TABLE[f"re.{n}"] = Bi(f"re.{n}", fn)
    _mk(_n)


@ext("re.compile")
def _(I, args, kw):
    return re_compile(I, args[0] if args else kw["pattern"], args[1] if len(args) > 1 else kw.get("flags", 0))


@ext("re.escape")
def _(I, args, kw):
    p = I.c(args[0])
    if isinstance(p, str):
        return _re.escape(p)
    return I.mk("re.escape", (p,), {"str"})


@ext("re.purge")
def _(I, args, kw):
    return None


def _re_generic(n):
    def fn(I, args, kw):
        cargs = [I.c(a) for a in args]
        if all(isinstance(a, (str, int)) for a in cargs) and all(isinstance(v, (str, int)) for v in kw.values()):
            try:
                r = getattr(_re, n)(*cargs, **kw)
            except Exception as e:
                I.throw(type(e), str(e))
            return ListObj(r) if isinstance(r, list) else r
        I.undecided(f"re.{n}")
    TABLE[f"re.{n}"] = Bi(f"re.{n}", fn)


for _n in ("sub", "split", "findall"):
    _re_generic(_n)
TABLE["re.error"] = _re.error
TABLE["re.Pattern"] = PAT
TABLE["re.Match"] = MATCH
for _n in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "A", "ASCII", "U", "UNICODE"):
    TABLE[f"re.{_n}"] = int(getattr(_re, _n))


def pat_attr(I, o, name):
    p, fl = o.native
    if name == "pattern":
        return (p,)
    if name == "flags":
        return (fl | 32,)
    if name in ("search", "match", "fullmatch"):
        return (Bi(f"Pattern.{name}", lambda I, a, k: re_apply(I, name, o, a[0] if a else k["string"],
                                                               [x for x in a[1:]])),)
    if name == "groups" and isinstance(p, str):
        return (_re.compile(p, fl).groups,)
    if hasattr(PAT, name):
        def fn(I, a, k):
            ca = [I.c(x) for x in a]
            if isinstance(p, str) and all(isinstance(x, (str, int)) for x in ca):
                r = getattr(_re.compile(p, fl), name)(*ca, **k)
                return ListObj(r) if isinstance(r, list) else r
            I.undecided(f"Pattern.{name}")
        return (Bi(f"Pattern.{name}", fn),)
    return None


def match_attr(I, o, name):
    p, s, m = o.native

    def fn(I, a, k):
        if m is not None:
            r = getattr(m, name)(*[I.c(x) for x in a])
            return r
        if name in ("group", "__getitem__"):
            return I.mk("group", (p, s) + tuple(I.c(x) for x in a), {"str"})
        if name in ("start", "end"):
            r = I.mk("match." + name, (p, s) + tuple(I.c(x) for x in a), {"int"})
            I.st.num_node(r)
            I.st.le(0, r)
            I.st.le(r, fold.length_of(I.st, s))
            return r
        I.undecided(f"Match.{name}")
    if name in ("group", "start", "end", "span", "groups", "groupdict"):
        return (Bi(f"Match.{name}", fn),)
    if name == "string":
        return (s,)
    if name == "re":
        return (Obj(PAT, {}, native=(p, 0)),)
    return None


Builtins.NATIVE_ATTR[PAT] = pat_attr
Builtins.NATIVE_ATTR[MATCH] = match_attr
Ops.NATIVE_EQ[PAT] = lambda I, x, y: (I.eq(x.native[0], y.native[0]) and x.native[1] == y.native[1]) \
    if isinstance(y, Obj) and y.cls is PAT else NotImplemented


# ------------------------------------------------------------------ sre parse trees
SUBP = _srep.SubPattern


def from_sre(t):
    if isinstance(t, _srep.SubPattern):
        return Obj(SUBP, {}, native=[from_sre(x) for x in t.data])
    if isinstance(t, tuple):
        return tuple(from_sre(x) for x in t)
    if isinstance(t, list):
        return ListObj([from_sre(x) for x in t])
    return t


def sre_parse(I, args, kw):
    p = I.c(args[0])
    fl = re_flags(I, args[1] if len(args) > 1 else kw.get("flags", 0))
    if isinstance(p, Sym) and isinstance(p.meta, dict) and "sre" in p.meta:
        return p.meta["sre"](I)
    if isinstance(p, str):
        try:
            return from_sre(_srep.parse(p, fl))
        except Exception as e:
            I.throw(type(e), str(e))
    if isinstance(p, Opaque) and I.is_str(p):
        I.undecided("parse tree of an unknown pattern")
    I.throw(TypeError, "pattern must be str")


TABLE["re._parser.parse"] = TABLE["sre_parse.parse"] = Bi("sre.parse", sre_parse)
for _n in ("re._parser", "sre_parse"):
    TABLE[_n + ".SubPattern"] = SUBP
    TABLE[_n + ".error"] = _re.error


def subp_attr(I, o, name):
    if name == "data":
        return (ListObj(o.native),)
    if name == "__len__":
        return (Bi("len", lambda I, a, k: len(o.native)),)
    if name == "getwidth":
        I.undecided("getwidth")
    return None


Builtins.NATIVE_ATTR[SUBP] = subp_attr
Ops.NATIVE_ITER[SUBP] = lambda I, o: iter(list(o.native))


def subp_getitem(I, o, k):
    if isinstance(k, SliceVal):
        return Obj(SUBP, {}, native=o.native[I.slice_of(k, len(o.native))])
    i = I.norm_index(k, len(o.native))
    if -len(o.native) <= i < len(o.native):
        return o.native[i]
    I.throw(IndexError, "list index out of range")


Ops.NATIVE_GETITEM[SUBP] = subp_getitem


# ------------------------------------------------------------------ random
def draw(I, fn, args, tags, char=False):
    """The next value of the module generator: a function of the generator state, the call and its arguments."""
    rng = I.rng
    t = Term("draw", (rng[0], rng[1], fn) + tuple(I.c(a) for a in args), tags, char=char)
    rng[1] += 1
    I.draws.append((fn, I.site()))
    return t


def need_int(I, v, what="integer"):
    k, n = I.num(v)
    if k != "int":
        if k == "float":
            if isinstance(n, float) and n.is_integer() and False:
                return int(n)
            I.throw(TypeError if True else ValueError, "'float' object cannot be interpreted as an integer")
        I.throw(TypeError, "object cannot be interpreted as an integer")
    return n


def extreme(I, label, opts):
    """One of the given outcomes of a draw (scenarios that set EXTREME); the same one in the same generator state."""
    k = ("extreme", I.rng[0], I.rng[1], label, len(opts))
    draw(I, label, tuple(opts), {"int"})
    if k in I.caches:
        return opts[I.caches[k]]
    if I.EXTREME_DEPTH is not None and len(I.draws) > I.EXTREME_DEPTH and len(opts) > 1:
        if I.extreme_turn is None:
            I.extreme_turn = I.st.choose(3, "turn of the later draws")
        i = (len(I.draws) + I.extreme_turn) % len(opts)
    else:
        i = I.st.choose(len(opts), f"outcome of {label}: {opts[:3]}") if len(opts) > 1 else 0
    I.caches[k] = i
    return opts[i]


def randint(I, a, b, label="randint"):
    a, b = need_int(I, a), need_int(I, b)
    if I.st.order(a, b) > 0:
        I.throw(ValueError, "empty range for randrange()")
    if "int" in I.EXTREME and isinstance(I.c(a), int) and isinstance(I.c(b), int):
        a, b = int(I.c(a)), int(I.c(b))
        return extreme(I, label, list(range(a, b + 1)) if b - a < I.EXTREME_ALL else sorted({a, (a + b) // 2, b}))
    t = draw(I, label, (a, b), {"int"})
    I.st.num_node(t)
    I.st.le(a, t)
    I.st.le(t, b)
    return I.c(t)


@ext("random.randint")
def _(I, args, kw):
    a = args[0] if args else kw["a"]
    b = args[1] if len(args) > 1 else kw["b"]
    return randint(I, a, b)


@ext("random.randrange")
def _(I, args, kw):
    args = list(args)
    if len(args) == 1:
        lo, hi = 0, args[0]
    else:
        lo, hi = args[0], args[1]
    if len(args) > 2 and I.c(args[2]) != 1:
        I.undecided("randrange step")
    hi = need_int(I, hi)
    return randint(I, lo, lin_norm(lin_add(I.st.to_lin(hi), lin_of(-1))), "randint")


@ext("random.getrandbits")
def _(I, args, kw):
    k = I.c(args[0])
    if not isinstance(k, int):
        I.undecided("getrandbits")
    return randint(I, 0, 2 ** k - 1, "getrandbits")


@ext("random.random")
def _(I, args, kw):
    if "float" in I.EXTREME:
        return extreme(I, "random", [0.0, 0.5, 1 - 2 ** -53])
    t = draw(I, "random", (), {"float"})
    I.st.num_node(t)
    I.st.le(0, t)
    I.st.lt(t, 1)
    return t


def finite(I, v):
    v = I.c(v)
    return not (isinstance(v, float) and (v != v or abs(v) == float("inf")))


@ext("random.uniform")
def _(I, args, kw):
    a = args[0] if args else kw["a"]
    b = args[1] if len(args) > 1 else kw["b"]
    ka, a = I.num(a)
    kb, b = I.num(b)
    if ka is None or kb is None:
        I.throw(TypeError, "unsupported operand type(s) for -")
    a, b = I.c(a), I.c(b)
    if not finite(I, a) or not finite(I, b):
        # inf - inf = nan, finite + inf*r: never inside a finite bound
        if isinstance(a, float) and isinstance(b, float) and not finite(I, a) and not finite(I, b):
            draw(I, "random", (), {"float"})
            return float("nan")
        draw(I, "random", (), {"float"})
        return float("nan") if not finite(I, a) else b
    if not (I.bounded(a) and I.bounded(b)):
        wide = None
        if not isinstance(a, (Opaque, Lin)) and not isinstance(b, (Opaque, Lin)):
            try:
                wide = math.isinf(float(b) - float(a))
            except OverflowError:
                I.throw(OverflowError, "int too large to convert to float")
        else:
            wide = I.st.decide("overflow", "sub", b, a)
        if wide:
            draw(I, "random", (), {"float"})
            return float("inf")
    if "float" in I.EXTREME and isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return extreme(I, "uniform", [a + (b - a) * r for r in (0.0, 0.5, 1 - 2 ** -53)])
    t = draw(I, "uniform", (a, b), {"float"})
    I.st.num_node(t)
    o = I.st.order(a, b, decide=False)
    if o == 1:
        I.st.le(b, t)
        I.st.le(t, a)
    elif o in (-1, 0, (-1, 0)):
        # a + (b - a) * r with r < 1 never leaves [a, b] in IEEE arithmetic while b - a is finite
        I.st.le(a, t)
        I.st.le(t, b)
    else:
        o = I.st.order(a, b)
        lo, hi = (a, b) if o <= 0 else (b, a)
        I.st.le(lo, t)
        I.st.le(t, hi)
    return I.c(t)


def choice_index(I, n, label):
    if n == 0:
        I.throw(IndexError, "Cannot choose from an empty sequence")
    if "choice" in I.EXTREME:
        return extreme(I, label, sorted({0, n // 2, n - 1}) if n > max(4, I.EXTREME_ALL) else list(range(n)))
    t = draw(I, label, (n,), {"int"})
    if n == 1:
        return 0
    I.st.num_node(t)
    I.st.le(0, t)
    I.st.le(t, n - 1)
    t = I.c(t)
    if isinstance(t, int):
        return t
    for k in range(n - 1):
        if I.st.order(t, k) == 0:
            return k
    return n - 1


def choice(I, seq, label="choice"):
    seq = I.c(seq)
    if isinstance(seq, Opaque):
        if I.st.tags_of(seq) & STR_TAGS and I.is_str(seq):
            seq = I.c(seq)
        else:
            seq = I.force_shape(seq)
    if isinstance(seq, (str, Cat)) or (isinstance(seq, Opaque) and I.st.tags_of(seq) <= STR_TAGS):
        if I.st.order(fold.length_of(I.st, seq), 0) == 0:
            I.throw(IndexError, "Cannot choose from an empty sequence")
        seq = I.c(seq)
        if isinstance(seq, str) and len(seq) == 1:
            draw(I, label, (1,), {"int"})
            return seq
        if isinstance(seq, Opaque) and seq.char:
            draw(I, label, (1,), {"int"})
            return seq
        if "char" in I.EXTREME and isinstance(seq, str):
            return seq[extreme(I, label, sorted({0, len(seq) - 1}) if len(seq) > I.EXTREME_ALL else list(range(len(seq))))]
        t = draw(I, label, (seq,), {"str"}, char=True)
        I.st.assume("charin", True, t, seq)
        return I.c(t)
    if isinstance(seq, (ListObj, tuple)):
        items = seq.items if isinstance(seq, ListObj) else seq
        return items[choice_index(I, len(items), label)]
    if isinstance(seq, RangeVal):
        if seq.step == 1:
            return randint(I, seq.start, lin_norm(lin_add(I.st.to_lin(seq.stop), lin_of(-1))), label)
        I.undecided("choice of range")
    if isinstance(seq, Obj):
        if I.class_attr(seq, "__getitem__") is not None or seq.cls is SUBP:
            n = I.length(seq) if seq.cls is not SUBP else len(seq.native)
            if isinstance(n, int):
                return I.getitem(seq, choice_index(I, n, label))
    if isinstance(seq, DictObj):
        items = [k for k, _ in seq.entries]
        i = choice_index(I, len(items), label)
        return I.getitem(seq, i)
    I.throw(TypeError, f"object of type {I.type_name(seq)!r} is not a sequence")


@ext("random.choice")
def _(I, args, kw):
    return choice(I, args[0] if args else kw["seq"])


@ext("random.choices")
def _(I, args, kw):
    if len(args) > 1 or "weights" in kw or "cum_weights" in kw:
        I.undecided("weighted choices")
    k = kw.get("k", 1)
    kk, n = I.num(k)
    if kk != "int":
        I.throw(TypeError, "k must be an integer")
    seq = args[0]
    out = []
    cnt = I.concretize_count(n) if isinstance(n, (Opaque, Lin)) else max(n, 0)
    for _ in range(cnt):
        out.append(choice(I, seq, "choices"))
    return ListObj(out)


@ext("random.sample")
def _(I, args, kw):
    seq = list(I.iterate(args[0]))
    k = args[1] if len(args) > 1 else kw["k"]
    kk, n = I.num(k)
    if isinstance(n, (Opaque, Lin)):
        n = I.concretize_count(n)
    if n < 0 or n > len(seq):
        I.throw(ValueError, "Sample larger than population or is negative")
    out = []
    for _ in range(n):
        i = choice_index(I, len(seq), "sample")
        out.append(seq.pop(i))
    return ListObj(out)


@ext("random.shuffle")
def _(I, args, kw):
    l = args[0]
    if not isinstance(l, ListObj):
        I.throw(TypeError, "object does not support item assignment")
    I.touch(l)
    items, out = list(l.items), []
    while items:
        out.append(items.pop(choice_index(I, len(items), "shuffle")))
    l.items[:] = out
    return None


@ext("random.seed")
def _(I, args, kw):
    v = I.c(args[0]) if args else I.c(kw.get("a"))
    if v is None:
        I.sources.append(("os entropy (random.seed(None))", I.site()))
        I.rng = [("entropy", len(I.sources)), 0]
    elif isinstance(v, (Heap, tuple)) and not isinstance(v, ByteArr):
        I.throw(TypeError, "The only supported seed types are: None, int, float, str, bytes, and bytearray.")
    else:
        I.rng = [("seed", keyof(v)), 0]
    return None


@ext("random.getstate")
def _(I, args, kw):
    return Obj(RNGSTATE, {}, native=list(I.rng))


@ext("random.setstate")
def _(I, args, kw):
    I.rng = list(args[0].native)
    return None


class RNGSTATE:
    pass


def _gauss(n):
    def fn(I, args, kw):
        return draw(I, n, tuple(args), {"float"})
    TABLE[f"random.{n}"] = Bi(f"random.{n}", fn)


for _n in ("gauss", "normalvariate", "triangular", "betavariate", "expovariate"):
    _gauss(_n)


class RandomObj:
    """a private generator instance"""


class SystemRandomObj:
    pass


def new_random(cls):
    def fn(I, args, kw):
        o = Obj(cls, {}, native=None)
        if cls is SystemRandomObj or not args:
            o.native = [("instance", o.uid), 0]
            I.instance_rng.add(o.uid)
        else:
            o.native = [("seeded", keyof(I.c(args[0]))), 0]
        return o
    return fn


TABLE["random.Random"] = Bi("random.Random", new_random(RandomObj))
TABLE["random.SystemRandom"] = Bi("random.SystemRandom", new_random(SystemRandomObj))


def rnd_attr(I, o, name):
    base = TABLE.get("random." + name)
    if base is None:
        return None

    def fn(I, args, kw):
        if name == "seed":
            if o.cls is SystemRandomObj:
                return None
            v = I.c(args[0]) if args else None
            o.native = [("seeded", keyof(v)), 0]
            I.instance_rng.discard(o.uid)
            return None
        if o.uid in I.instance_rng:
            I.sources.append((f"{'random.SystemRandom' if o.cls is SystemRandomObj else 'unseeded random.Random()'}"
                              f".{name}", I.site()))
        save = I.rng
        I.rng = o.native
        try:
            return base.fn(I, args, kw)
        finally:
            I.rng = save
    return (Bi(f"Random.{name}", fn),)


Builtins.NATIVE_ATTR[RandomObj] = rnd_attr
Builtins.NATIVE_ATTR[SystemRandomObj] = rnd_attr


# ------------------------------------------------------------------ other sources of nondeterminism
def source(I, what):
    I.sources.append((what, I.site()))


@ext("uuid.uuid4")
def _(I, args, kw):
    source(I, "uuid.uuid4")
    return Sym("uuid4()", {"uuid4"}, atom=True)


@ext("uuid.uuid1")
def _(I, args, kw):
    source(I, "uuid.uuid1")
    return Sym("uuid1()", {"uuidx"}, atom=True)


for _n in ("uuid3", "uuid5"):
    def _mk(n):
        TABLE[f"uuid.{n}"] = Bi(n, lambda I, a, k: I.mk(n, tuple(a), {"uuidx"}))
    _mk(_n)


def _now(name, tags):
    def fn(I, args, kw):
        source(I, name)
        return Sym(f"{name}()", tags, meta=("clock",))
    return Bi(name, fn)


Builtins.TYPE_ATTR[(_dt.datetime, "utcnow")] = _now("datetime.utcnow", {"datetime"})
Builtins.TYPE_ATTR[(_dt.datetime, "now")] = _now("datetime.now", {"datetime"})
Builtins.TYPE_ATTR[(_dt.datetime, "today")] = _now("datetime.today", {"datetime"})
Builtins.TYPE_ATTR[(_dt.date, "today")] = _now("date.today", {"date"})
Builtins.TYPE_ATTR[(_dt.datetime, "min")] = _dt.datetime.min
Builtins.TYPE_ATTR[(_dt.datetime, "max")] = _dt.datetime.max


def _fromord(I, args, kw):
    n = need_int(I, args[0])
    if isinstance(n, int):
        try:
            return _dt.date.fromordinal(n)
        except Exception as e:
            I.throw(type(e), str(e))
    if I.st.order(n, 1) < 0 or I.st.order(n, 3652059) > 0:
        I.throw(ValueError, "ordinal out of range")
    return I.mk("fromordinal", (n,), {"date"})


Builtins.TYPE_ATTR[(_dt.date, "fromordinal")] = Bi("date.fromordinal", _fromord)
for _n in ("time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "os.getpid", "os.urandom",
           "secrets.token_hex", "secrets.token_bytes", "time.perf_counter_ns", "time.monotonic_ns"):
    def _mk(n):
        def fn(I, args, kw):
            source(I, n)
            tags = {"float"} if n in ("time.time", "time.monotonic", "time.perf_counter") else \
                {"bytes"} if n in ("os.urandom", "secrets.token_bytes") else \
                {"str"} if n == "secrets.token_hex" else {"int"}
            return Sym(n + "()", tags)
        TABLE[n] = Bi(n, fn)
    _mk(_n)


@ext("secrets.choice")
def _(I, args, kw):
    source(I, "secrets.choice")
    save, I.rng = I.rng, [("secrets", len(I.sources)), 0]
    try:
        return choice(I, args[0], "secrets")
    finally:
        I.rng = save


@ext("secrets.randbelow")
def _(I, args, kw):
    source(I, "secrets.randbelow")
    save, I.rng = I.rng, [("secrets", len(I.sources)), 0]
    try:
        return randint(I, 0, lin_norm(lin_add(I.st.to_lin(need_int(I, args[0])), lin_of(-1))))
    finally:
        I.rng = save


# ------------------------------------------------------------------ timedelta
class TDelta:
    pass


def new_timedelta(I, args, kw):
    cargs = [I.c(a) for a in args]
    ckw = {k: I.c(v) for k, v in kw.items()}
    if all(is_conc(a) for a in cargs) and all(is_conc(v) for v in ckw.values()):
        try:
            return _dt.timedelta(*cargs, **ckw)
        except Exception as e:
            I.throw(type(e), str(e))
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    for n, a in zip(names, cargs):
        ckw[n] = a
    if set(ckw) != {"days"}:
        I.undecided("timedelta of unknown parts")
    d = need_int(I, ckw["days"])
    if not isinstance(d, int):
        if I.st.order(d, 999999999) > 0 or I.st.order(d, -999999999) < 0:
            I.throw(OverflowError, "days out of range")
    return Obj(TDelta, {}, native=d)


Builtins.TYPE_CALL[_dt.timedelta] = new_timedelta


def date_plus(I, d, days, sign):
    """date/datetime + sign*days where one is unknown"""
    d = I.c(d)
    tag = "datetime" if isinstance(d, _dt.datetime) or is_sub(I, d, frozenset({"datetime"})) else "date"
    if isinstance(d, _dt.date):
        lo = 1 - d.toordinal()
        hi = 3652059 - d.toordinal()
    else:
        if isinstance(d, Sym) and isinstance(d.meta, tuple) and d.meta[0] == "clock":
            # the wall clock is between the years 1970 and 2500
            lo, hi = -(719163 - 1), 3652059 - 913101
        else:
            lo = hi = None
    off = lin_norm(lin_scale(I.st.to_lin(days), sign))
    if lo is None:
        if I.st.order(off, 0) != 0 and I.st.decide("dateoverflow", d, off):
            I.throw(OverflowError, "date value out of range")
    elif I.st.order(off, lo) < 0 or I.st.order(off, hi) > 0:
        I.throw(OverflowError, "date value out of range")
    return I.mk("dateadd", (d, off), {tag})


def td_binop(I, nm, a, b):
    # a is a TDelta
    b = I.c(b)
    if nm in ("__radd__", "__add__", "__rsub__") and \
            (isinstance(b, _dt.date) or is_sub(I, b, frozenset({"date", "datetime"}))):
        return date_plus(I, b, a.native, 1 if nm != "__rsub__" else -1)
    if nm == "__mul__" or nm == "__rmul__":
        k, n = I.num(b)
        if k == "int" and isinstance(n, int):
            return Obj(TDelta, {}, native=lin_norm(lin_scale(I.st.to_lin(a.native), n)))
    return NotImplemented


Builtins.NATIVE_BINOP[TDelta] = td_binop
Builtins.NATIVE_ATTR[TDelta] = lambda I, o, name: (o.native,) if name == "days" else None


# ------------------------------------------------------------------ math
@ext("math.isclose")
def _(I, args, kw):
    a = args[0] if args else kw["a"]
    b = args[1] if len(args) > 1 else kw["b"]
    rel = I.c(kw.get("rel_tol", 1e-09))
    ab = I.c(kw.get("abs_tol", 0.0))
    ka, a = I.num(a)
    kb, b = I.num(b)
    if ka is None or kb is None:
        if isinstance(I.c(a), Opaque) and I.st.tags_of(a) & {"decimal", "fraction"} or \
                isinstance(I.c(b), Opaque) and I.st.tags_of(b) & {"decimal", "fraction"}:
            I.undecided("isclose of Decimal")
        I.throw(TypeError, "must be real number")
    a, b = I.c(a), I.c(b)
    if not isinstance(a, (Opaque, Lin)) and not isinstance(b, (Opaque, Lin)) and is_conc(rel) and is_conc(ab):
        try:
            return math.isclose(a, b, rel_tol=rel, abs_tol=ab)
        except Exception as e:
            I.throw(type(e), str(e))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, float) and x != x:
            return False
        if isinstance(x, float) and abs(x) == float("inf"):
            return isinstance(y, float) and y == x
    for x in (a, b):
        # integers are converted to float first
        if isinstance(x, (Opaque, Lin)) and (x is a and ka == "int" or x is b and kb == "int"):
            if isinstance(x, Opaque) and "hugeint" in I.st.tags_of(x) or not I.bounded(x):
                if I.st.decide("overflow", "float", x):
                    I.throw(OverflowError, "int too large to convert to float")
        elif isinstance(x, int) and not isinstance(x, bool):
            try:
                float(x)
            except OverflowError:
                I.throw(OverflowError, "int too large to convert to float")
    if not (is_conc(rel) and is_conc(ab)):
        I.undecided("isclose with unknown tolerance")
    if rel < 0 or ab < 0:
        I.throw(ValueError, "tolerances must be non-negative")
    if keyof(a) == keyof(b):
        return True
    if rel == 0 and ab == 0:
        # float() of integers may round: exact only when both sides are the same kind
        return I.st.order(a, b) == 0
    a2, b2 = I.pair(a, b)
    if (rel, ab) == (1e-09, 0.0):
        return close_default(I, a2, b2)
    if I.st.order(a, b, decide=False) == 0:
        return True
    return I.st.decide("close", a2, b2, rel, ab)


def close_default(I, a, b):
    o = I.st.order(a, b, decide=False)
    if o == 0:
        return True
    r = I.st.decide("close", a, b)
    if not r:
        # not close implies different
        I.st.facts.setdefault(("neq", a, b), (True, "neq", (a, b)))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            I.st.num_node(a)
            I.st.num_node(b)
    return r


for _n in ("isnan", "isinf", "isfinite"):
    def _mk(n):
        def fn(I, args, kw):
            k, v = I.num(args[0])
            if k is None:
                I.throw(TypeError, "must be real number")
            v = I.c(v)
            if not isinstance(v, (Opaque, Lin)):
                try:
                    return getattr(math, n)(v)
                except Exception as e:
                    I.throw(type(e), str(e))
            if k == "int" and isinstance(v, Opaque) and "hugeint" in I.st.tags_of(v):
                if I.st.decide("overflow", "float", v):
                    I.throw(OverflowError, "int too large to convert to float")
            return n == "isfinite"
        TABLE[f"math.{n}"] = Bi(f"math.{n}", fn)
    _mk(_n)


for _n in ("floor", "ceil", "trunc"):
    def _mk(n):
        def fn(I, args, kw):
            if isinstance(I.c(args[0]), (_fractions.Fraction, _decimal.Decimal)):
                try:
                    return getattr(math, n)(I.c(args[0]))
                except Exception as e:
                    I.throw(type(e), str(e))
            k, v = I.num(args[0])
            if k is None:
                I.throw(TypeError, "must be real number")
            v = I.c(v)
            if k == "int":
                return v
            return I.int_of(v, n)
        TABLE[f"math.{n}"] = Bi(f"math.{n}", fn)
    _mk(_n)


@ext("math.fabs")
def _(I, args, kw):
    k, v = I.num(args[0])
    if not isinstance(v, (Opaque, Lin)):
        return math.fabs(v)
    return v if I.st.order(v, 0) >= 0 else I.unary(ast.USub(), v)


def _math_generic(n):
    def fn(I, args, kw):
        cargs = [I.c(a) for a in args]
        if all(isinstance(a, (int, float)) for a in cargs):
            try:
                return getattr(math, n)(*cargs)
            except Exception as e:
                I.throw(type(e), str(e))
        return I.mk("math." + n, cargs, {"float"}, True)
    TABLE["math." + n] = Bi("math." + n, fn)


for _n in ("log", "log10", "log2", "sqrt", "exp", "pow", "copysign", "nextafter", "ulp", "fmod", "ldexp",
           "frexp", "modf", "gcd"):
    _math_generic(_n)


# ------------------------------------------------------------------ copy
IMMUT = (int, float, str, bytes, bool, type(None), type(...), NilT, complex, type, _uuid.UUID, _dt.datetime, _dt.date,
         _dt.timedelta, _dt.timezone)


class Memo:
    """The memo of copy.deepcopy: a dict of the program, keyed by id()."""

    def __init__(self, d):
        self.d = d

    @staticmethod
    def key(v):
        return 0x7f0000000000 + 16 * v.uid if isinstance(v, Heap) else Term("id", (v,), {"int"})

    def get(self, v):
        k = keyof(self.key(v))
        for e in self.d.entries:
            if keyof(e[0]) == k:
                return e[1]
        return None

    def put(self, v, r):
        self.d.entries.append([self.key(v), r])


def deepcopy(I, v, memo):
    v = I.c(v)
    if isinstance(v, (Heap, Opaque)):
        r = memo.get(v)
        if r is not None:
            return r
    if isinstance(v, tuple):
        out = tuple(deepcopy(I, x, memo) for x in v)
        return v if all(a is b for a, b in zip(v, out)) else out
    if isinstance(v, (ClassVal, FuncVal, Bi, BMeth, Ext, Typing, Alias, type, Lin, Cat)) or isinstance(v, CONC):
        return v
    if isinstance(v, Opaque):
        t = I.st.tags_of(v)
        if "object" in t and I.st.split(v, frozenset({"object"}), "an arbitrary object"):
            if I.st.decide("uncopyable", v):
                I.throw(TypeError, "cannot pickle object")
            c = Sym(f"copy of {show(v)}", {"object"}, atom=True)
            # default equality is identity: a copy is a different object
            memo.put(v, c)
            return c
        v = I.c(v)
        if isinstance(v, Opaque) and I.st.tags_of(v) & SHAPE_TAGS:
            w = I.force_shape(v)
            if not isinstance(w, Opaque):
                return deepcopy(I, w, memo)
        return v
    if isinstance(v, ByteArr):
        r = ByteArr(v.items, bytearray)
        memo.put(v, r)
        return r
    if isinstance(v, ListObj):
        r = ListObj([], v.pytype)
        memo.put(v, r)
        r.items.extend([deepcopy(I, x, memo) for x in list(v.items)])
        return r
    if isinstance(v, DictObj):
        r = DictObj([], v.factory, v.pytype)
        memo.put(v, r)
        for k, x in list(v.entries):
            r.entries.append([deepcopy(I, k, memo), deepcopy(I, x, memo)])
        return r
    if isinstance(v, SetObj):
        r = SetObj([deepcopy(I, x, memo) for x in v.items], v.frozen, v.lazy)
        memo.put(v, r)
        return r
    if isinstance(v, Obj):
        m = I.class_attr(v, "__deepcopy__")
        if m is not None:
            r = I.call(Bound(m, v), [memo.d], {})
            memo.put(v, r)
            return r
        if isinstance(v.cls, ClassVal):
            # the default copy protocol looks these up on the instance's class
            if any(I.class_attr(v, n) is not None for n in ("__reduce_ex__", "__reduce__", "__getstate__",
                                                            "__setstate__", "__getnewargs__")):
                I.undecided("copy protocol")
        r = Obj(v.cls, {}, v.native)
        memo.put(v, r)
        for k, x in list(v.attrs.items()):
            r.attrs[k] = deepcopy(I, x, memo)
        return r
    if isinstance(v, (GenObj, ModuleVal)):
        I.throw(TypeError, "cannot pickle object")
    if isinstance(v, Bound):
        return Bound(v.func, deepcopy(I, v.self, memo))
    I.undecided(f"deepcopy of {show(v)}")


@ext("copy.deepcopy")
def _(I, args, kw):
    m = args[1] if len(args) > 1 else kw.get("memo")
    m = I.c(m) if m is not None else None
    return deepcopy(I, args[0], Memo(m if isinstance(m, DictObj) else DictObj()))


@ext("copy.copy")
def _(I, args, kw):
    v = I.c(args[0])
    if isinstance(v, ListObj):
        return type(v)(v.items, v.pytype)
    if isinstance(v, DictObj):
        return DictObj(v.entries, v.factory, v.pytype)
    if isinstance(v, SetObj):
        return SetObj(v.items, v.frozen, v.lazy)
    if isinstance(v, Obj):
        m = I.class_attr(v, "__copy__")
        if m is not None:
            return I.call(Bound(m, v), [], {})
        return Obj(v.cls, dict(v.attrs), v.native)
    if isinstance(v, Opaque) and I.st.tags_of(v) & (SHAPE_TAGS | {"object"}):
        I.undecided("copy of unknown object")
    return v


# ------------------------------------------------------------------ typing / abc / functools / ...
@ext("typing.cast")
def _(I, args, kw):
    return args[1]


TABLE["typing.TYPE_CHECKING"] = False
for _n in ("final", "overload", "runtime_checkable", "no_type_check", "override"):
    TABLE["typing." + _n] = Bi(_n, lambda I, a, k: a[0])
TABLE["typing.get_type_hints"] = Bi("get_type_hints", lambda I, a, k: I.undecided("get_type_hints"))


@ext("typing.get_args")
def _(I, args, kw):
    v = args[0]
    return tuple(v.args) if isinstance(v, (Typing, Alias)) else ()


@ext("typing.get_origin")
def _(I, args, kw):
    v = args[0]
    return v.origin if isinstance(v, Alias) else None


@ext("abc.abstractmethod")
def _(I, args, kw):
    f = args[0]
    if isinstance(f, FuncVal):
        f.attrs["__isabstractmethod__"] = True
    return f


@ext("functools.partial")
def _(I, args, kw):
    return Partial(args[0], list(args[1:]), dict(kw))


@ext("functools.reduce")
def _(I, args, kw):
    it = I.iterate(args[1])
    if len(args) > 2:
        acc = args[2]
    else:
        try:
            acc = next(it)
        except StopIteration:
            I.throw(TypeError, "reduce() of empty iterable with no initial value")
    for x in it:
        acc = I.call(args[0], [acc, x], {})
    return acc


@ext("functools.wraps")
def _(I, args, kw):
    return Bi("wraps", lambda I, a, k: a[0])


class CacheObj:
    pass


def lru_make(I, f):
    return Obj(CacheObj, {}, native=(f, []))


def lru_call(I, o, args, kw):
    f, _ = o.native
    for a in list(args) + list(kw.values()):
        I.need_hashable(a)
    key = (tuple(args), tuple(sorted(kw.items(), key=lambda p: p[0])))
    ents = I.caches.setdefault(o.uid, [])
    for k, v in ents:
        if len(k[0]) == len(args) and [n for n, _ in k[1]] == [n for n, _ in key[1]] and \
                all(I.same_or_eq(x, y) for x, y in zip(k[0], args)) and \
                all(I.same_or_eq(x[1], y[1]) for x, y in zip(k[1], key[1])):
            return v
    v = I.call(f, list(args), kw)
    ents.append((key, v))
    return v


Ops.NATIVE_CALL[CacheObj] = lru_call


def cache_attr(I, o, name):
    if name == "cache_clear":
        return (Bi(name, lambda I, a, k: I.caches.pop(o.uid, None) and None),)
    if name == "__wrapped__":
        return (o.native[0],)
    if name == "__get__":
        return (Bi("__get__", lambda I, a, k: Partial(o, [a[0]], {})),)
    return I.getattr(o.native[0], name),


Builtins.NATIVE_ATTR[CacheObj] = cache_attr


@ext("functools.lru_cache")
def _(I, args, kw):
    if args and isinstance(args[0], FuncVal):
        return lru_make(I, args[0])
    return Bi("lru_cache", lambda I, a, k: lru_make(I, a[0]))


@ext("functools.cache")
def _(I, args, kw):
    return lru_make(I, args[0])


@ext("functools.cached_property")
def _(I, args, kw):
    return Prop(args[0])


@ext("functools.total_ordering")
def _(I, args, kw):
    I.undecided("total_ordering")


class SuppressObj:
    pass


@ext("contextlib.suppress")
def _(I, args, kw):
    return Obj(SuppressObj, {}, native=tuple(args))


def sup_attr(I, o, name):
    if name == "__enter__":
        return (Bi(name, lambda I, a, k: None),)
    if name == "__exit__":
        return (Bi(name, lambda I, a, k: a[1] is not None and I.exc_matches(a[1], o.native)),)
    return None


Builtins.NATIVE_ATTR[SuppressObj] = sup_attr


@ext("contextlib.contextmanager")
def _(I, args, kw):
    f = args[0]

    def make(I, a, k):
        return Obj(CMObj, {}, native=I.call(f, a, k))
    return Bi("contextmanager", make)


class CMObj:
    pass


def cm_attr(I, o, name):
    if name == "__enter__":
        def enter(I, a, k):
            return next(o.native.it)
        return (Bi(name, enter),)
    if name == "__exit__":
        def leave(I, a, k):
            if a[1] is None:
                for _ in o.native.it:
                    I.undecided("contextmanager yields twice")
                return False
            try:
                o.native.it.throw(PyExc(a[1], I.site()))
            except StopIteration:
                return True
            I.undecided("contextmanager yields twice")
        return (Bi(name, leave),)
    return None


Builtins.NATIVE_ATTR[CMObj] = cm_attr


@ext("collections.defaultdict")
def _(I, args, kw):
    d = DictObj([], args[0] if args else None)
    if len(args) > 1:
        I.dict_update(d, args[1])
    return d


@ext("collections.OrderedDict")
def _(I, args, kw):
    return I.new_dict(args, kw)


@ext("collections.deque")
def _(I, args, kw):
    if kw or len(args) > 1:
        I.undecided("deque maxlen")
    return ListObj(list(I.iterate(args[0])) if args else [])


@ext("collections.Counter")
def _(I, args, kw):
    d = DictObj([], Bi("zero", lambda I, a, k: 0))
    for x in (I.iterate(args[0]) if args else ()):
        e = I.dict_find(d, x)
        I.dict_set(d, x, I.binop(ast.Add(), e[1], 1) if e else 1)
    return d


@ext("itertools.chain")
def _(I, args, kw):
    its = [I.iterate(a) for a in args]

    def gen():
        for it in its:
            yield from it
    return GenObj(gen(), "chain")


def chain_from(I, args, kw):
    def gen():
        for x in I.iterate(args[0]):
            yield from I.iterate(x)
    return GenObj(gen(), "chain")


@ext("itertools.islice")
def _(I, args, kw):
    nums = []
    for a in args[1:]:
        nums.append(None if a is None else I.concretize_int(I.num(a)[1]))
    src = I.iterate(args[0])
    return GenObj(_it.islice(src, *nums), "islice")


@ext("itertools.count")
def _(I, args, kw):
    start = args[0] if args else 0

    def gen():
        i = 0
        while i < 400:
            yield lin_norm(lin_add(I.st.to_lin(start), lin_of(i)))
            i += 1
        raise Undecided("itertools.count bound")
    return GenObj(gen(), "count")


@ext("itertools.repeat")
def _(I, args, kw):
    if len(args) < 2:
        def inf():
            for _ in range(400):
                yield args[0]
            raise Undecided("itertools.repeat bound")
        return GenObj(inf(), "repeat")
    n = I.num(args[1])[1]
    n = I.concretize_count(n) if isinstance(n, (Opaque, Lin)) else n

    def gen():
        for _ in range(n):
            yield args[0]
    return GenObj(gen(), "repeat")


@ext("itertools.product")
def _(I, args, kw):
    pools = [list(I.iterate(a)) for a in args] * int(kw.get("repeat", 1))
    return GenObj(iter(list(_it.product(*pools))), "product")


for _n in ("permutations", "combinations"):
    def _mk(n):
        def fn(I, args, kw):
            pool = list(I.iterate(args[0]))
            rest = [I.concretize_int(I.num(a)[1]) for a in args[1:]]
            return GenObj(iter(list(getattr(_it, n)(pool, *rest))), n)
        TABLE[f"itertools.{n}"] = Bi(n, fn)
    _mk(_n)


@ext("itertools.zip_longest")
def _(I, args, kw):
    pools = [list(I.iterate(a)) for a in args]
    return GenObj(iter(list(_it.zip_longest(*pools, fillvalue=kw.get("fillvalue")))), "zip_longest")


@ext("itertools.accumulate")
def _(I, args, kw):
    I.undecided("accumulate")


@ext("itertools.takewhile")
def _(I, args, kw):
    src = I.iterate(args[1])

    def gen():
        for x in src:
            if not I.truth(I.call(args[0], [x], {})):
                return
            yield x
    return GenObj(gen(), "takewhile")


@ext("itertools.dropwhile")
def _(I, args, kw):
    src = I.iterate(args[1])

    def gen():
        on = False
        for x in src:
            if not on and I.truth(I.call(args[0], [x], {})):
                continue
            on = True
            yield x
    return GenObj(gen(), "dropwhile")


@ext("itertools.starmap")
def _(I, args, kw):
    src = I.iterate(args[1])

    def gen():
        for x in src:
            yield I.call(args[0], list(I.iterate(x)), {})
    return GenObj(gen(), "starmap")


@ext("itertools.groupby")
def _(I, args, kw):
    key = args[1] if len(args) > 1 else kw.get("key")
    src = I.iterate(args[0])

    def gen():
        cur, k0 = None, None
        for x in src:
            k = I.call(key, [x], {}) if key is not None else x
            if cur is not None and I.eq(k, k0):
                cur.append(x)
            else:
                if cur is not None:
                    yield (k0, ListObj(cur))
                cur, k0 = [x], k
        if cur is not None:
            yield (k0, ListObj(cur))
    return GenObj(gen(), "groupby")


import operator as _op
_OPS = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "is_": ast.Is,
        "is_not": ast.IsNot}
for _n, _c in _OPS.items():
    def _mk(c):
        return lambda I, a, k: I.compare(c(), a[0], a[1])
    TABLE[f"operator.{_n}"] = Bi(_n, _mk(_c))
_BOPS = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod,
         "or_": ast.BitOr, "and_": ast.BitAnd, "pow": ast.Pow, "concat": ast.Add}
for _n, _c in _BOPS.items():
    def _mk(c):
        return lambda I, a, k: I.binop(c(), a[0], a[1])
    TABLE[f"operator.{_n}"] = Bi(_n, _mk(_c))
TABLE["operator.not_"] = Bi("not_", lambda I, a, k: not I.truth(a[0]))
TABLE["operator.truth"] = Bi("truth", lambda I, a, k: I.truth(a[0]))
TABLE["operator.contains"] = Bi("contains", lambda I, a, k: I.contains(a[0], a[1]))
TABLE["operator.getitem"] = Bi("getitem", lambda I, a, k: I.getitem(a[0], a[1]))
TABLE["operator.index"] = Bi("index", lambda I, a, k: need_int(I, a[0]))
TABLE["operator.neg"] = Bi("neg", lambda I, a, k: I.unary(ast.USub(), a[0]))


@ext("operator.itemgetter")
def _(I, args, kw):
    ks = list(args)
    return Bi("itemgetter", lambda I, a, k: I.getitem(a[0], ks[0]) if len(ks) == 1
              else tuple(I.getitem(a[0], x) for x in ks))


@ext("operator.attrgetter")
def _(I, args, kw):
    names = list(args)

    def one(I, o, n):
        for part in n.split("."):
            o = I.getattr(o, part)
        return o
    return Bi("attrgetter", lambda I, a, k: one(I, a[0], names[0]) if len(names) == 1
              else tuple(one(I, a[0], n) for n in names))


@ext("operator.methodcaller")
def _(I, args, kw):
    return Bi("methodcaller", lambda I, a, k: I.call(I.getattr(a[0], args[0]), list(args[1:]), kw))


@ext("pprint.pformat")
def _(I, args, kw):
    return I.repr(args[0])


@ext("warnings.warn")
def _(I, args, kw):
    return None


@ext("warnings.filterwarnings")
def _(I, args, kw):
    return None


@ext("sys.getrecursionlimit")
def _(I, args, kw):
    return 1000


@ext("sys.intern")
def _(I, args, kw):
    return args[0]


@ext("textwrap.indent")
def _(I, args, kw):
    a = [I.c(x) for x in args]
    if all(isinstance(x, str) for x in a) and not kw:
        import textwrap
        return textwrap.indent(*a)
    t, pre = a[0], a[1]
    if isinstance(t, (Cat,)) and isinstance(pre, str) and not kw:
        lines = list(I.iterate(I.str_splitlines(t, [True], {})))
        out = []
        for ln in lines:
            s = I.c(I.call_method(BMeth("strip", ln), [], {}))
            if isinstance(s, str) and s == "":
                out.append(ln)
            else:
                out += [pre, ln]
        return I.c(mk_cat(out))
    I.undecided("textwrap.indent")


@ext("textwrap.dedent")
def _(I, args, kw):
    a = I.c(args[0])
    if isinstance(a, str):
        import textwrap
        return textwrap.dedent(a)
    I.undecided("textwrap.dedent")


# types of exact library classes
TYPES = {
    "datetime.datetime": _dt.datetime, "datetime.date": _dt.date, "datetime.timedelta": _dt.timedelta,
    "datetime.timezone": _dt.timezone, "datetime.time": _dt.time, "uuid.UUID": _uuid.UUID,
    "types.FunctionType": type(lambda: 0), "types.EllipsisType": type(...), "types.NoneType": type(None),
    "collections.abc.Hashable": None,
}
import decimal as _decimal
import fractions as _fractions
import types as _types
TYPES["decimal.Decimal"] = _decimal.Decimal
TYPES["fractions.Fraction"] = _fractions.Fraction
TYPES["types.MethodType"] = _types.MethodType
TYPES["types.GeneratorType"] = _types.GeneratorType
TYPES["types.ModuleType"] = _types.ModuleType
TYPES["datetime.UTC"] = _dt.timezone.utc
del TYPES["collections.abc.Hashable"]


@ext("types.MappingProxyType")
def _(I, args, kw):
    d = args[0]
    if isinstance(d, DictObj):
        return Obj(ProxyObj, {}, native=d)
    I.undecided("MappingProxyType")


class ProxyObj:
    pass


def proxy_attr(I, o, name):
    if name in ("get", "keys", "values", "items", "copy"):
        return (BMeth(name, o.native),)
    return None


Builtins.NATIVE_ATTR[ProxyObj] = proxy_attr
Ops.NATIVE_ITER[ProxyObj] = lambda I, o: I.iterate(o.native)
Ops.NATIVE_GETITEM[ProxyObj] = lambda I, o, k: I.getitem(o.native, k)
Ops.NATIVE_EQ[ProxyObj] = lambda I, x, y: I.eq(x.native, y.native if isinstance(y, Obj) and y.cls is ProxyObj else y)


class Extern:
    def ext_attr(self, mod, name):
        full = f"{mod}.{name}"
        if mod == "typing_extensions":
            full = f"typing.{name}"
        if full in TABLE:
            return TABLE[full]
        if full in TYPES:
            return TYPES[full]
        if full in MODULES:
            return Ext(full)
        if full.startswith("typing."):
            if name in ("TypeVar", "ParamSpec", "NewType"):
                return Typing(name)
            return Typing(name)
        if full == "itertools.chain.from_iterable":
            return Bi("chain.from_iterable", chain_from)
        if mod == "collections.abc" and name in ABCS:
            return Typing(name)
        if mod == "numbers":
            return Typing(name)
        if mod == "abc":
            if name == "ABC":
                return Ext("abc.ABC")
            if name == "ABCMeta":
                return Typing("ABCMeta")
        if mod == "builtins":
            if name in self.builtins:
                return self.builtins[name]
        if mod in ("re._parser", "sre_parse"):
            if hasattr(_srec, name):
                return getattr(_srec, name)
        if mod in REAL_CONST_MODULES:
            v = getattr(REAL_CONST_MODULES[mod], name, _srec)
            if v is not _srec and isinstance(v, REAL_CONST_OK):
                if mod == "sys" and name == "version_info":
                    return tuple(v)
                if mod == "sys" and isinstance(v, tuple) and type(v) is not tuple:
                    return Ext(full)
                return v
            if v is _srec:
                self.throw(AttributeError, f"module {mod!r} has no attribute {name!r}")
        if mod.startswith("sys.") and mod.count(".") == 1:
            base = getattr(_sys, mod.split(".")[1], None)
            v = getattr(base, name, None)
            if isinstance(v, REAL_CONST_OK) and v is not None:
                return v
        if full == "sys.version_info":
            return tuple(_sys.version_info)
        if mod in MODULES:
            import importlib
            try:
                m = importlib.import_module(mod)
            except ImportError:
                self.throw(ImportError, f"No module named {mod!r}")
            if not hasattr(m, name):
                self.throw(AttributeError, f"module {mod!r} has no attribute {name!r}")
            v = getattr(m, name)
            if isinstance(v, type) and issubclass(v, BaseException):
                return v
            if isinstance(v, REAL_CONST_OK) and mod not in ("sys", "os", "time"):
                return v
            return Ext(full)
        return Ext(full)

    def call_ext(self, f, args, kw):
        if f.name in TABLE and isinstance(TABLE[f.name], Bi):
            return TABLE[f.name].fn(self, args, kw)
        self.undecided(f"call of unmodelled library function {f.name}")
