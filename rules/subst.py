"""Substitution scenarios: schema forms with unknown parameters and the plain values put into them."""
import itertools
from .lib import *   # noqa
from .grid import grid

PLAIN = frozenset({"none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date", "list", "dict"})


def plain_cell(name, tags=None):
    """A plain leaf: the substituted value is an int, the value tried against the result may be of another kind."""
    return Sym(name, tags or (frozenset({"int"}) if name.startswith("v") else frozenset({"int", "none"})))


# ---------------------------------------------------------------- literal data, perturbed at one place
def kinds_of():
    """name -> (description, [(partial data, completed data)])"""
    I_, S_, N_ = D("int"), D("str"), D("none")
    same = lambda *xs: [(x, x) for x in xs]
    dd = lambda *es, **kw: D("dict", entries=list(es), **kw)
    rr = dd(("a", I_, False), ("b", S_, False))
    k = {
        "int": (D("int", min=1), same(1, 5)), "str": (D("str", alphabet="ab", min_len=1), same("a", "ba")),
        "float": (D("float", min=0.5, precision=1), same(0.5, 1.0)), "date": (D("bool"), same(True)),
        "rr": (rr, [({}, {"a": 1, "b": "x"}), ({"a": 1}, {"a": 1, "b": "x"}), ({"b": "x", "a": 1}, {"a": 1, "b": "x"})]),
        "oo": (dd(("a", I_, True), ("b", S_, True)), same({}, {"a": 1}) + [({"a": 1}, {"b": "y", "a": 1}), ({}, {"a": 2})]),
        "relaxed": (dd(("a", I_, False), relaxed="last"), [({}, {"a": 1, "z": 5}), ({"a": 1}, {"a": 1, "z": 5}), ({"z": 5, "a": 1},) * 2]),
        "free dict": (D("dict"), same({}, {"a": 1}, {"a": {"b": [1]}})),
        "empty dict": (dd(), same({})),
        "nested": (dd(("d", rr, True), ("e", D("list", form="typed", type=rr), False)), [
            ({"d": {"a": 1}}, {"d": {"a": 1, "b": "x"}, "e": []}), ({"e": [{"a": 1}, {}]}, {"e": [{"a": 1, "b": "x"}, {"a": 3, "b": "y"}]})]),
        "typed": (D("list", form="typed", type=I_), same([], [1], [1, 2, 3])),
        "typed bounded": (D("list", form="typed", type=I_, min_len=1, max_len=3), same([1], [1, 1])),
        "exact": (D("list", form="exact", els=[I_, S_]), same([1, "x"])),
        "head": (D("list", form="head", els=[I_]), same([1], [1, None])),
        "tail": (D("list", form="tail", els=[I_, S_]), same([1, "x"], [None, 1, "x"])),
        "contains": (D("list", form="contains", els=[I_, S_], max_len=4), same([1, "x"], [1, 1, "x"])),
        "free list": (D("list", min_len=1, max_len=2), same([1], [None, "x"])),
        "any": (D("any", types=[N_, I_, rr]), same(None, 1) + [({"a": 1}, {"a": 1, "b": "x"})]),
        "any dicts": (D("any", types=[dd(("a", I_, False), ("b", S_, True)), dd(("a", S_, False), relaxed="last")]), [
            ({}, {"a": 1}), ({}, {"a": "x", "q": 1}), ({"a": 1},) * 2, ({"a": "x", "q": 1},) * 2]),
        "any free": (D("any"), same(1, None, [1], {"a": 1})),
        "alias": (D("alias", type=rr), [({}, {"a": 1, "b": "x"}), ({"a": 1}, {"a": 1, "b": "x"})]),
    }
    return k


def positions_of(kinds):
    """name -> (description of the whole, how data sits in it, numbers of parts)"""
    lst = lambda form, d, **kw: D("list", form=form, **({"type": d} if form == "typed" else {"els": [d]}), **kw)
    L = lambda xs: list(xs)
    n13 = (1, 2, 3)
    out = {
        "alone": (lambda d: d, lambda xs: xs[0], (1,)),
        "typed": (lambda d: lst("typed", d), L, n13 + (0,)),
        "typed len": (lambda d: lst("typed", d, len=2), L, (2,)),
        "typed min": (lambda d: lst("typed", d, min_len=2), L, (2, 3)),
        "typed max": (lambda d: lst("typed", d, max_len=2), L, (1, 2)),
        "exact": (lambda d: D("list", form="exact", els=[d, d]), L, (2,)),
        "exact len": (lambda d: D("list", form="exact", els=[D("any"), d, d], len=3), lambda xs: [0] + xs, (2,)),
        "head": (lambda d: lst("head", d), L, n13), "head max": (lambda d: lst("head", d, max_len=2), L, (1, 2)),
        "tail": (lambda d: lst("tail", d), L, n13), "tail min": (lambda d: lst("tail", d, min_len=2), L, (2,)),
        "tail len": (lambda d: lst("tail", d, len=2), L, (2,)),
        "contains": (lambda d: lst("contains", d), L, n13), "contains mixed": (lambda d: lst("contains", d), lambda xs: [None] + xs + [None], (1,)),
        "contains len": (lambda d: lst("contains", d, len=2), L, (2,)),
        "key": (lambda d: D("dict", entries=[("d", d, False), ("o", D("int"), True)]), lambda xs: {"d": xs[0]}, (1,)),
        "optional": (lambda d: D("dict", entries=[("d", d, True), ("o", D("int"), False)]), lambda xs: {"d": xs[0], "o": 1}, (1,)),
        "two keys": (lambda d: D("dict", entries=[("d", d, False), ("f", d, False)], relaxed="first"), lambda xs: {"f": xs[1], "d": xs[0]}, (2,)),
        "any": (lambda d: D("any", types=[D("none"), d]), lambda xs: xs[0], (1,)),
        "only any": (lambda d: D("any", types=[d]), lambda xs: xs[0], (1,)),
        "alias": (lambda d: D("alias", type=d), lambda xs: xs[0], (1,)),
        "typed typed": (lambda d: lst("typed", lst("typed", d)), lambda xs: [xs, xs[:1]], (1, 2)),
        "key typed": (lambda d: D("dict", entries=[("l", lst("typed", d), True)], relaxed="last"), lambda xs: {"l": xs}, (1, 2)),
        "any typed": (lambda d: D("any", types=[lst("typed", d), D("int")]), L, (1, 2)),
        "head typed": (lambda d: D("list", form="head", els=[D("any"), lst("typed", d)]), lambda xs: [None, xs, 1], (1, 2)),
    }
    return out


def places(x, at=()):
    yield at
    if isinstance(x, dict):
        ks = list(x)
        for i in sorted({0, len(ks) // 2, len(ks) - 1} if len(ks) > 4 else range(len(ks))):
            yield from places(x[ks[i]], at + (ks[i],))
    elif isinstance(x, list):
        for i in sorted({0, len(x) // 2, len(x) - 1} if len(x) > 2 else range(len(x))):
            yield from places(x[i], at + (i,))


def alter(x, at, f):
    if not at:
        return f(x)
    if isinstance(x, dict):
        return {k: alter(v, at[1:], f) if k == at[0] else v for k, v in x.items()}
    return [alter(v, at[1:], f) if i == at[0] else v for i, v in enumerate(x)]


def variants(x, at):
    """What may be done to the part of x at a place."""
    y = x
    for a in at:
        y = y[a]
    out = [("another value", lambda p, q=q: q) for q in ((2, "b") if y.__class__ in (int, str) else (None, 2)) if q != y]
    if isinstance(y, dict):
        out += [(f"without {k}", lambda p, k=k: {a: b for a, b in p.items() if a != k}) for k in [*y][:3] + [*y][3:][-1:]]
        out += [("with zz", lambda p: {**p, "zz": 1})] + [(f"with {k} of another kind", lambda p, k=k: {**p, k: 1.5}) for k in ("a", "b", "o") if k not in y]
        out += [(f"with {k}", lambda p, k=k: {**p, k: {"a": 7, "b": "n", "o": 3}[k]}) for k in ("a", "b", "o") if k not in y]
    elif isinstance(y, list):
        out += [("longer", lambda p: p + p[-1:] if p else [None]), ("shorter", lambda p: p[:-1]), ("later", lambda p: [None] + p),
                ("longer by None", lambda p: p + [None]), ("reversed", lambda p: p[::-1]), ("empty", lambda p: [])]
    return out


class Alternatives(list):
    """Values to be tried one after another on the same path."""


def altered(x, at=None, limit=99):
    return Alternatives([lift(x)] + [lift(alter(x, a, f)) for a in (places(x) if at is None else at) for _, f in variants(x, a)[:limit]])


def each(w):
    return w if isinstance(w, Alternatives) else [w]


def literal(deep, few=False):
    """Cases over literal data: w is the completed data of v altered in at most one place."""
    out = []
    kinds = kinds_of()
    pos = positions_of(kinds)
    ks = list(kinds.items())
    if deep:
        for (kn, (kd, _)), (pn, (pd, put, ns)) in itertools.product(list(ks), pos.items()):
            if kn in ("rr", "relaxed", "any dicts") and pn in ("typed", "exact", "tail", "key", "optional", "any", "alias", "contains"):
                pairs = kinds[kn][1]
                ks.append((f"{kn} in {pn}", (pd(kd), [(put([a] * n), put([b] * n)) for a, b in pairs for n in ns[:2] if n])))
    core = ("alone", "typed", "exact", "head", "tail", "contains", "key", "any")
    for (kn, (kd, pairs)), (pn, (pd, put, ns)) in itertools.product(ks, pos.items()):
        if not deep and (pn not in core and kn not in ("rr", "oo", "any dicts", "int") or kn == "nested" and len(ns) > 1):
            continue

        def value(I, n, pairs=pairs, put=put, ns=ns):
            if n == "v":
                m = choose(I, ns, "parts")
                ps = [choose(I, pairs, "part")] * m if m != 2 else [choose(I, pairs, "part 1"), choose(I, pairs[::-1], "part 2")]
                I._full = put([p[1] for p in ps])
                return lift(put([p[0] for p in ps]))
            return altered(I._full)
        out.append((f"literal {kn} / {pn}", lambda I, kd=kd, pd=pd: pd(kd), value, {"set": {"SHAPE_MAX": 2}}))
    return out


def big(deep):
    """Wider and deeper than any cut-off."""
    out = []

    def add(name, desc, v, full):
        def value(I, n):
            if n == "v":
                return lift(v)
            return altered(full, list(places(full)), 4)
        out.append((name, lambda I: desc, value, {"set": {"SHAPE_MAX": 2}}))
    I_ = D("int")
    for n in (33, 70) if deep else (33,):
        xs = list(range(n))
        for form in ("exact", "head", "tail"):
            add(f"wide {n} {form}", D("list", form=form, els=[I_] * n), xs, xs)
            add(f"wide {n} {form} 1", D("list", form=form, els=[I_]), xs if form != "exact" else [5], xs if form != "exact" else [5])
        add(f"wide {n} typed", D("list", form="typed", type=I_), xs, xs)
        add(f"wide {n} contains", D("list", form="contains", els=[D("str")]), xs + ["x"], xs + ["x"])
        add(f"wide {n} free", D("list"), xs, xs)
        ks = {f"k{i}": i for i in xs}
        for rel in (None, "last"):
            d = D("dict", entries=[(k, I_, i % 3 == 0) for i, k in enumerate(ks)], relaxed=rel)
            add(f"wide {n} dict {rel}", d, ks, ks)
            add(f"wide {n} dict {rel} first", d, {"k0": 0}, ks)
            add(f"wide {n} dict {rel} last", d, {f"k{n - 1}": n - 1}, ks)
        add(f"wide {n} free dict", D("dict"), ks, ks)
        add(f"wide {n} any", D("any", types=[D("int", value=i) for i in xs]), n - 1, n - 1)
    for n in (8, 16) if deep else (8,):
        for mk, put in ((("dict", "exact"), lambda x, i: {"a": x} if i % 2 else [x]), (("dict",), lambda x, i: {"a": x}),
                        (("exact",), lambda x, i: [x]), (("typed",), lambda x, i: [x, x] if i < 2 else [x]),
                        (("any",), lambda x, i: x), (("alias", "tail"), lambda x, i: [x] if i % 2 == 0 else x)):
            d, v, w = D("dict", entries=[("a", I_, False), ("b", D("str"), False)]), {"a": 1}, {"a": 1, "b": "x"}
            for i in range(n):
                m = mk[(i + 1) % len(mk)]
                d = {"dict": D("dict", entries=[("a", d, i % 3 == 0)]), "exact": D("list", form="exact", els=[d]),
                     "typed": D("list", form="typed", type=d), "any": D("any", types=[D("none"), d]), "alias": D("alias", type=d),
                     "tail": D("list", form="tail", els=[d])}[m]
                v, w = put(v, i), put(w, i)
            add(f"depth {n} {' '.join(mk)}", d, v, w)
        v = 1
        for i in range(n):
            v = {"a": v} if i % 2 else [v, i]
        add(f"depth {n} free", D("any", types=[D("list"), D("dict")]), v, v)
        add(f"depth {n} undeclared", D("any"), v, v)
    return out


def cases(deep):
    """[(name, description maker, maker of v / w, options)]"""
    out = []

    def add(name, desc, value=lambda I, n: anyval(n, PLAIN), **opt):
        if "contains" in name:
            opt.update(weight=10, time=25 if not deep else 400)
        out.append((name, desc, value, opt))

    S = lambda *t: (lambda I, n: anyval(n, frozenset(t)))
    iv = lambda k: sym(k, "int")
    add("none", lambda I: D("none"))
    for t, tg in {"bool": ("bool",), "bytes": ("bytes",), "uuid4": ("uuid4",), "datetime": ("datetime",),
                  "date": ("date", "datetime")}.items():
        for ks in ([], ["value"]):
            add(" ".join([t] + ks), lambda I, t=t, tg=tg, ks=ks: D(t, **{k: sym("x", tg) for k in ks}))
    subsets = lambda ks: [[k for i, k in enumerate(ks) if m >> i & 1] for m in range(1 << len(ks))]
    for ks in subsets(["value", "min", "max"]):
        add("int " + " ".join(ks), lambda I, ks=ks: D("int", **{k: sym(k, "int") for k in ks}), S("int", "bool", "str"))
        add("float " + " ".join(ks), lambda I, ks=ks: D("float", **{k: sym(k, "float") for k in ks}),
            S("float", "inf", "nan", "int"))
    fl = [0.0, 0.1, 0.14, 0.16, 1.0, 1.0 + 6e-10, 1.0 + 1.2e-9, 1.0 + 1e-6, 1e300, float("nan"), float("inf")]
    for p in (None, 1, 2):
        for fixed in (False, True):
            add(f"float constants precision {p} value {fixed}", lambda I, p=p, fixed=fixed: D(
                "float", **({"precision": p} if p else {}), **({"value": choose(I, fl, "fixed value")} if fixed else {})),
                lambda I, n: choose(I, fl, n))
    near = [0.1, 0.14, 0.149, 0.15, 0.151, 0.2, -0.149, 0.25, 1.005, 2.5, 0.0]
    for p in (0, 1, 2):
        for kw in ("min", "max"):
            add(f"float constants precision {p} {kw}", lambda I, p=p, kw=kw: D("float", precision=p, **{kw: choose(I, near[1:7], kw)}),
                lambda I, n: choose(I, near if n == "v" else [0.1, 0.14, 0.149, 0.2, 0.0], n))
    lens = [[], ["len"], ["min_len"], ["max_len"], ["min_len", "max_len"]]
    for ls in lens:
        for extra in ([], ["value"], ["substr"]):
            add("str " + " ".join(ls + extra), lambda I, ls=ls, extra=extra: D(
                "str", **{k: iv(k) for k in ls}, **{k: sym(k, "str") for k in extra}), S("str", "int"))
    add("str pattern", lambda I: D("str", pattern=sym("p", "str")), S("str", "int"))
    tx = ["", "a", "ab", "abc", "ba", "xyz", 0]
    add("str alphabet", lambda I: D("str", alphabet=choose(I, ["", "a", "ab"], "alphabet")), lambda I, n: choose(I, tx, n))
    add("str alphabet len", lambda I: D("str", alphabet="ab", min_len=1, max_len=2), lambda I, n: choose(I, tx, n))

    # ------------------------------------------------------------ lists
    N = 4 if deep else 3
    lv = lambda I, n, hi=N: choose_list(I, n, 0, hi, plain_cell)
    for ls in lens:
        add("list free " + " ".join(ls), lambda I, ls=ls: D("list", **{k: iv(k) for k in ls}), lambda I, n: lv(I, n, 2))
        add("list typed " + " ".join(ls), lambda I, ls=ls: D("list", form="typed", type=mem(I, "T"), **{k: iv(k) for k in ls}),
            lv)
        for form in ("exact", "head", "tail", "contains"):
            for k in range(1, 4 if deep else 3):
                if k == 2 and ls and (form == "contains" or len(ls) == 2) and not deep:
                    continue
                add(f"list {form} {k} " + " ".join(ls), lambda I, ls=ls, form=form, k=k: D(
                    "list", form=form, els=[mem(I, f"E{i}") for i in range(k)], **{x: iv(x) for x in ls}),
                    lambda I, n, hi=2 if form == "contains" and not deep else N: lv(I, n, hi))
    if not deep:
        add("list contains 2 of 3", lambda I: D("list", form="contains", els=[mem(I, f"E{i}") for i in range(2)]),
            lambda I, n: choose_list(I, n, 3, 3, plain_cell))
    add("list exact 0", lambda I: D("list", form="exact", els=[]), lv)
    add("list tail 0", lambda I: D("list", form="tail", els=[]), lv)
    add("list typed any", lambda I: D("list", form="typed", type=D("any")), lambda I, n: lv(I, n, 2))
    for form in ("typed", "exact", "head", "tail", "contains"):
        add(f"list {form} of any kind of value", lambda I, form=form: D(
            "list", form=form, type=mem(I, "T"), els=[mem(I, "E0")]), set={"SHAPE_MAX": 2})

    # ------------------------------------------------------------ dicts
    def dicts(name, opts, relaxed, extras):
        def desc(I):
            I._keys = [key(f"k{i}") for i in range(len(opts))]
            I._extra = [key(f"x{i}") for i in range(extras)]
            return D("dict", entries=[(I._keys[i], mem(I, f"M{i}"), o) for i, o in enumerate(opts)], relaxed=relaxed)
        add(name, desc, lambda I, n: choose_dict(I, n, I._keys, I._extra, plain_cell))

    def free(rel):
        def desc(I):
            I._extra = [key("x0"), key("x1")]
            return D("dict", entries=[], relaxed=rel) if rel else D("dict")
        return desc
    fv = lambda I, n: choose_dict(I, n, I._extra, [], plain_cell)
    add("dict free", free(None), fv)
    add("dict only relaxed", free("last"), fv)
    for rel in (None, "last", "first"):
        for n in range(0, 3):
            for o in itertools.product((False, True), repeat=n):
                if rel == "first" and n == 2 and not deep:
                    continue
                dicts(f"dict {''.join('o' if x else 'r' for x in o) or 'empty'} {rel or ''}", o, rel, 1)
    odd = [None, 0, "", False, 1.5, b"k", (1, 2)]
    for rel in (None, "last"):
        add(f"dict unusual keys {rel}", lambda I, rel=rel: D(
            "dict", entries=[(choose(I, odd, "declared key"), mem(I, "M"), bool(choose(I, [0, 1], "optional")))], relaxed=rel),
            lambda I, n: DictObj([[choose(I, odd, "key of " + n), plain_cell(n + "0")]] if choose(I, [1, 0], n) else []))
    more = lambda I: choose(I, ODD_KEYS, "the key")
    for rel in (None, "last"):
        for opt in (False, True):
            def kdesc(I, rel=rel, opt=opt):
                I._odd = more(I)
                return D("dict", entries=[("k", mem(I, "K"), False), (I._odd, mem(I, "M"), opt)], relaxed=rel)
            add(f"keys: {'optional' if opt else 'required'} {rel}", kdesc, lambda I, n: DictObj(
                ([["k", plain_cell(n + "k", frozenset({"none", "int"}))]] if choose(I, [1, 0], "k in " + n) else []) +
                choose(I, [[[I._odd, plain_cell(n + "0", frozenset({"none", "int"}))]], [], [["other", 1]]], "the rest of " + n)))
        def fdesc(I, rel=rel):
            I._odd = more(I)
            return D("dict", entries=[], relaxed=rel) if rel else choose(I, [D("dict"), D("any")], "schema")
        add(f"keys: free {rel}", fdesc, lambda I, n: DictObj([[I._odd, choose(I, [1, None, ListObj([])], n)], ["other", 1]]))
        add(f"keys: free, nothing much {rel}", lambda I, rel=rel: D("dict", entries=[], relaxed=rel) if rel else choose(I, [D("dict"), D("any")], "schema"),
            lambda I, n: DictObj([["other", lift(choose(I, NOTHING, n))]]))
    for kn, kd in {"any": D("any"), "any of": D("any", types=[D("none"), D("list"), D("dict"), D("int"), D("str")]), "member": None,
                   "typed": D("list", form="typed", type=D("any")), "dict": D("dict"), "list": D("list"), "keys": D("dict", entries=[("", D("any"), True), ("k", D("any"), True)]),
                   "relaxed": D("dict", entries=[], relaxed="last")}.items():
        for pn, pd, pv in (("alone", lambda d: d, lambda v: v), ("in list", lambda d: D("list", form="head", els=[d]), lambda v: [v]),
                           ("in dict", lambda d: D("dict", entries=[("d", d, True)]), lambda v: {"d": v}), ("in any", lambda d: D("any", types=[D("int", value=9), d]), lambda v: v)):
            add(f"nothing much: {kn} {pn}", lambda I, kd=kd, pd=pd: pd(kd or mem(I, "M")), lambda I, n, pv=pv: lift(pv(choose(I, NOTHING, n))))
    # ------------------------------------------------------------ any, alias
    C = lambda I, n: plain_cell(n, PLAIN - {"list", "dict"})
    add("any free", lambda I: D("any"), C)
    for n in range(1, 4):
        add(f"any {n}", lambda I, n=n: D("any", types=[mem(I, f"A{i}") for i in range(n)]), lambda I, n: plain_cell(n, frozenset({"none", "int", "str"})))
    add("alias", lambda I: D("alias", type=mem(I, "T")), lambda I, n: plain_cell(n, frozenset({"none", "int", "str"})))
    add("alias of alias", lambda I: D("alias", type=D("alias", type=mem(I, "T"), name="t2")), lambda I, n: plain_cell(n, frozenset({"none", "int", "str"})))
    # ------------------------------------------------------------ partial values in every position
    inner = {
        "dict": lambda I: D("dict", entries=[("a", mem(I, "MA"), False), ("b", mem(I, "MB"), False)]),
        "relaxed": lambda I: D("dict", entries=[("a", mem(I, "MA"), False)], relaxed="last"),
        "optional": lambda I: D("dict", entries=[("a", mem(I, "MA"), True), ("b", D("none"), True)]),
        "any of dicts": lambda I: D("any", types=[D("dict", entries=[("a", mem(I, "MA"), False)], relaxed="last"),
                                                  D("dict", entries=[("a", mem(I, "MA2"), False), ("b", D("none"), False),
                                                                     ("c", D("none"), False)])]),
        "any with dict": lambda I: D("any", types=[D("none"), D("dict", entries=[("a", mem(I, "MA"), False)])]),
        "list": lambda I: D("list", form="contains", els=[mem(I, "MA")]),
        "typed": lambda I: D("list", form="typed", type=D("any", types=[mem(I, "MA"), D("none")])),
        "free": lambda I: D("any"),
        "int": lambda I: D("int", min=sym("lo", "int")),
    }
    pos = {
        "exact": lambda d: D("list", form="exact", els=[d]), "head": lambda d: D("list", form="head", els=[d]),
        "tail": lambda d: D("list", form="tail", els=[d]), "contains": lambda d: D("list", form="contains", els=[d]),
        "typed": lambda d: D("list", form="typed", type=d), "dict": lambda d: D("dict", entries=[("d", d, False)]),
        "optional": lambda d: D("dict", entries=[("d", d, True), ("e", D("int"), False)]),
        "relaxed": lambda d: D("dict", entries=[("d", d, False)], relaxed="last"),
        "any": lambda d: D("any", types=[D("int"), d]), "alias": lambda d: D("alias", type=d),
    }

    def leaf(I, n, kind, few=False):
        if kind in ("dict", "relaxed", "optional", "any of dicts", "any with dict"):
            shapes = [["a"], ["a", "b"], [], ["b", "a"], ["b"], ["c"]] if deep else [["a"], ["a", "b"], ["b"]] if kind == "any of dicts" else [["a"], ["a", "b"], []]
            ks = choose(I, shapes + [None] if not few else [["a"], ["a", "b"]], "keys of " + n)
            ks = list(ks) if ks else ks
            return None if ks is None else DictObj([[k, plain_cell(f"{n}.{k}")] for k in ks])
        if kind in ("list", "typed"):
            return choose_list(I, n, 0, 2 if deep else 1, plain_cell)
        return plain_cell(n, frozenset({"none", "int", "str", "float"}) if deep else None)

    def hold(kind, p, I, n):
        if p in ("exact", "head", "tail", "contains", "typed"):
            k = choose(I, [1, 2, 0] if p != "exact" else [1], "length of " + n)
            if p == "contains" and not deep and k == 2 and kind in ("relaxed", "optional", "any with dict"):
                k = 1
            xs = [leaf(I, f"{n}[{i}]", kind, k > 1 and not deep) for i in range(k)]
            return ListObj(xs)
        if p in ("dict", "optional", "relaxed"):
            ent = [["d", leaf(I, n + ".d", kind)]] if choose(I, [1, 0], "d in " + n) else []
            if p == "optional" and choose(I, [1, 0], "e in " + n):
                ent.append(["e", 1])
            return DictObj(ent)
        return leaf(I, n, kind)
    for (kn, kd), (pn, pd) in itertools.product(inner.items(), pos.items()):
        if not deep and kn in ("any of dicts", "list", "typed") and pn in ("head", "tail", "typed", "contains"):
            continue
        add(f"{kn} in {pn}", lambda I, kd=kd, pd=pd: pd(kd(I)), lambda I, n, kn=kn, pn=pn: hold(kn, pn, I, n))
    return out + literal(deep) + big(deep)
