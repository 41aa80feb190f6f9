"""C15: schema equality is structural; schema == value means the value validates."""
import itertools
from .lib import *   # noqa
from .grid import grid
from .edits import edits
from .subst import altered, big, kinds_of, positions_of

RULES = {
    "rebuild": "two independent builds of one declaration are equal, in both directions, and != says so",
    "congruence": "schemas that compare equal give the same verdict on every value (so a parameter, key, flag, element or "
                  "alternative that alters what is accepted makes them unequal); == is symmetric and != its negation",
    "transitive": "a == b and b == c imply a == c",
    "value": "schema == v, v == schema and their negations say whether v validates",
}
EXPLANATION = """
Abstract interpretation of Schema.__eq__/__ne__, Props equality and the value fallback.  rebuild: every schema form with
unknown parameters is built twice from the same description.  congruence: all pairs of variants of a kind (other, shared or
missing parameters; other form, member, key, flag, alternative; free, member and built-in members) are compared in both
directions, and on the paths where they are equal the reference semantics and the interpreted validator must agree on an
unknown value.  transitive: all triples of a variant family.  value: every schema form against unknown values.
"""
NUMV = frozenset({"int", "none", "bool", "str", "float", "nan", "inf"})
VAL = frozenset({"none", "int", "str", "list", "dict", "object", "float", "bool", "bytes", "ellipsis"})


class Names:
    """Symbols and members shared between the two sides of a pair."""
    def __init__(self, I):
        self.I, self.m = I, {}

    def __call__(self, n, *tags, **kw):
        if n not in self.m:
            self.m[n] = sym(n, *tags, **kw)
        return self.m[n]

    def mem(self, n):
        if n == "any":
            return D("any")
        if n == "none":
            return D("none")
        if n not in self.m:
            self.m[n] = mem(self.I, n)
        return self.m[n]

    def key(self, n):
        if n not in self.m:
            self.m[n] = key(n)
        return self.m[n]


def scalar(t, props, tags):
    """Each property absent, x or y."""
    out = []
    for combo in itertools.product((None, "x", "y"), repeat=len(props)):
        def mk(S, combo=combo):
            return D(t, **{p: S(p + c, *tags[p]) for p, c in zip(props, combo) if c})
        out.append((" ".join([t] + [p + "=" + c for p, c in zip(props, combo) if c]), mk))
    return out


LIST_ELS = [(), ("A",), ("B",), ("any",), ("A", "A"), ("A", "any"), ("any", "A"), ("any", "any")]


def lists(deep):
    out = [("list", lambda S: D("list"))]
    for m in ("A", "B", "any"):
        out.append((f"list({m})", lambda S, m=m: D("list", form="typed", type=S.mem(m))))
        out.append((f"list({m}).len(x)", lambda S, m=m: D("list", form="typed", type=S.mem(m), len=S("lx", "int"))))
    for els in LIST_ELS:
        for form in ("exact", "head", "tail", "contains"):
            if form in ("head", "contains") and not els:
                continue
            out.append((f"list {form} {' '.join(els)}", lambda S, form=form, els=els: D(
                "list", form=form, els=[S.mem(e) for e in els])))
    return out


def lens(base, pre="list"):
    out = []
    for nm, ks in (("", ()), ("len=x", (("len", "x"),)), ("len=y", (("len", "y"),)), ("min=x", (("min_len", "x"),)),
                   ("max=x", (("max_len", "x"),)), ("min=x max=y", (("min_len", "x"), ("max_len", "y"))),
                   ("min=y", (("min_len", "y"),)), ("min=x max=x", (("min_len", "x"), ("max_len", "x")))):
        out.append((f"{pre} {nm}", lambda S, ks=ks: {**base(S), **{k: S("l" + c, "int") for k, c in ks}}))
    return out


def dicts(deep):
    out = [("dict", lambda S: D("dict"))]
    shapes = [()]
    for m in ("A", "B", "any"):
        for o in (0, 1):
            shapes.append((("k", m, o),))
    shapes += [(("j", "A", 0),), (("k", "A", 0), ("j", "A", 0)), (("j", "A", 0), ("k", "A", 0)),
               (("k", "A", 0), ("j", "B", 0)), (("k", "A", 1), ("j", "A", 0)), (("k", "A", 0), ("j", "any", 1))]
    for sh in shapes:
        for rel in (None, "last", "first"):
            out.append((f"dict {' '.join(k + ':' + m + '?' * o for k, m, o in sh)} {rel or ''}",
                        lambda S, sh=sh, rel=rel: D("dict", relaxed=rel,
                                                    entries=[(S.key(k), S.mem(m), bool(o)) for k, m, o in sh])))
    return out


def anys(deep):
    out = [("any", lambda S: D("any"))]
    for ts in ((), ("A",), ("B",), ("A", "B"), ("B", "A"), ("A", "A"), ("any",), ("A", "any"), ("none", "A")):
        out.append((f"any of {' '.join(ts)}", lambda S, ts=ts: D("any", types=[S.mem(m) for m in ts])))
        if ts:
            out.append((f"alias of any of {' '.join(ts)}",
                        lambda S, ts=ts: D("alias", type=D("any", types=[S.mem(m) for m in ts]))))
    for m in ("A", "B", "any"):
        out.append((f"alias {m}", lambda S, m=m: D("alias", type=S.mem(m))))
        out.append((f"alias2 {m}", lambda S, m=m: D("alias", type=S.mem(m), name="other")))
    return out


def odd_dict(S):
    return D("dict", entries=[(choose(S.I, [None, 0, "", False, 1, True, (1,), "k", "K", "k ", "0", b"k", "None", (), 1.5], "key"), S.mem("A"), False)])


def families(deep):
    I_ = ("int", "bool")
    F_ = ("float", "inf")
    T = lambda *t: t
    fam = {
        "none": ([("none", lambda S: D("none"))], None),
        "bool": (scalar("bool", ["value"], {"value": T("bool")}), lambda I: anyval("v", NUMV)),
        "bytes": (scalar("bytes", ["value"], {"value": T("bytes")}), lambda I: anyval("v", {"bytes", "str", "bytearray"})),
        "uuid4": (scalar("uuid4", ["value"], {"value": T("uuid4")}), lambda I: anyval("v", {"uuid4", "uuidx", "str"})),
        "datetime": (scalar("datetime", ["value"], {"value": T("datetime")}), lambda I: anyval("v", {"datetime", "date"})),
        "date": (scalar("date", ["value"], {"value": T("date", "datetime")}), lambda I: anyval("v", {"datetime", "date"})),
        "int": (scalar("int", ["value", "min", "max"], dict.fromkeys(["value", "min", "max"], I_)),
                lambda I: anyval("v", {"int", "bool", "float"})),
        "float bounds": (scalar("float", ["min", "max"], dict.fromkeys(["min", "max"], F_)),
                         lambda I: anyval("v", {"float", "inf", "nan", "int"})),
        "float value": (scalar("float", ["value"], {"value": T("float", "inf", "nan")}),
                        lambda I: anyval("v", {"float", "inf", "nan"})),
        "str": (scalar("str", ["value", "substr"], {"value": T("str"), "substr": T("str")}),
                lambda I: anyval("v", {"str", "int"})),
        "str pattern": (scalar("str", ["value", "pattern"], {"value": T("str"), "pattern": T("str")}),
                        lambda I: anyval("v", {"str", "int"})),
        "str len": (scalar("str", ["len"], {"len": T("int")}) + scalar("str", ["min_len"], {"min_len": T("int")})[1:] +
                    scalar("str", ["max_len"], {"max_len": T("int")})[1:] +
                    scalar("str", ["min_len", "max_len"], {"min_len": T("int"), "max_len": T("int")})[4:],
                    lambda I: anyval("v", {"str"})),
        "list": (lists(deep), lambda I: choose_list(I, "v", 0, 2)),
        "list len": (lens(lambda S: D("list")) + lens(lambda S: D("list", form="typed", type=S.mem("A")), "typed")[:3],
                     lambda I: choose_list(I, "v", 0, 2)),
        "dict": (dicts(deep), None),
        "any": (anys(deep), lambda I: anyval("v", VAL)),
    }
    alph = [(f"str alphabet {a!r}", lambda S, a=a: D("str", **({"alphabet": a} if a is not None else {})))
            for a in (None, "", "a", "ab", "ba", "abc")]
    fam["str alphabet"] = (alph, lambda I: choose(I, ["", "a", "b", "ab", "c"], "v"))
    gr = [0.0, 0.1, 0.14, 0.16, 1.04, 1.06, float("nan"), float("inf")]
    prec = [(f"float({x}) precision {p}", lambda S, x=x, p=p: D("float", value=x, **({"precision": p} if p else {})))
            for x in (0.1, 0.14, 1.04, float("nan")) for p in (None, 1, 2)]
    fam["float precision"] = (prec, lambda I: choose(I, gr, "v"))
    # the same parameter under different members: nested differences reach the outer comparison
    leaves = [("A", lambda S: S.mem("A")), ("B", lambda S: S.mem("B")), ("any", lambda S: D("any")),
              ("int", lambda S: D("int")), ("int min x", lambda S: D("int", min=S("x", "int"))),
              ("int min y", lambda S: D("int", min=S("y", "int"))), ("list any", lambda S: D("list", form="typed", type=D("any"))),
              ("list", lambda S: D("list")), ("dict", lambda S: D("dict")), ("empty dict", lambda S: D("dict", entries=[]))]
    pos = {
        "typed": lambda d: D("list", form="typed", type=d), "exact": lambda d: D("list", form="exact", els=[d]),
        "dict value": lambda d: D("dict", entries=[("a", d, False)]), "alternative": lambda d: D("any", types=[d, D("none")]),
        "alias": lambda d: D("alias", type=d),
        "deep": lambda d: D("dict", entries=[("a", D("list", form="head", els=[D("any", types=[d])]), True)]),
    }
    hold = {"typed": lambda x: ListObj([x]), "exact": lambda x: ListObj([x]), "dict value": lambda x: DictObj([["a", x]]),
            "alternative": lambda x: x, "alias": lambda x: x, "deep": lambda x: DictObj([["a", ListObj([x, 1])]])}
    for pn, p in pos.items():
        fam[f"members as {pn}"] = ([(f"{pn} {ln}", lambda S, lf=lf, p=p: p(lf(S))) for ln, lf in leaves],
                                   lambda I, pn=pn: hold[pn](Sym("x", frozenset({"none", "int", "str", "list", "dict", "ellipsis"}))))
    kinds = [(k, lambda S, k=k: D(k)) for k in ("none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date",
                                               "list", "dict", "any")]
    kinds += [("A", lambda S: S.mem("A")), ("any none", lambda S: D("any", types=[D("none")])),
              ("alias int", lambda S: D("alias", type=D("int"))), ("int 1", lambda S: D("int", value=1)),
              ("bool True", lambda S: D("bool", value=True)), ("int True", lambda S: D("int", value=True)),
              ("float 1.0", lambda S: D("float", value=1.0)), ("str ''", lambda S: D("str", value="")),
              ("list []", lambda S: D("list", form="exact", els=[])), ("dict {}", lambda S: D("dict", entries=[]))]
    fam["kinds"] = (kinds, lambda I: anyval("v"))
    return fam


def rebuild(desc):
    def fn(I, ctx):
        d = lift(desc(I))
        a, b = I.py("build(d)", d=d), I.py("build(d)", d=d)
        ctx.inputs.update(schema=d)
        for e, want, what in (("a == b", True, "independent builds are unequal"), ("b == a", True, "independent builds are unequal"),
                              ("a != b", False, "independent builds are !="), ("a == a", True, "a schema is unequal to itself"),
                              ("a != a", False, "a schema is != itself")):
            r = I.attempt(e, a=a, b=b)
            if ctx.check(r[0] == "ok", f"{e} raised", lambda: I.exc_text(r[1]), r[2]):
                ctx.check(I.truth(r[1]) is want, what)
    return fn


def pair(n1, d1, n2, d2, value):
    def fn(I, ctx):
        S = Names(I)
        da, db = lift(d1(S)), lift(d2(S))
        ra, rb = I.attempt("build(d)", d=da), I.attempt("build(d)", d=db)
        if ra[0] == "exc" or rb[0] == "exc":
            return
        a, b = ra[1], rb[1]
        ctx.inputs.update(a=da, b=db)
        res = {}
        for e in ("a == b", "b == a", "a != b", "b != a"):
            r = I.attempt(e, a=a, b=b)
            if not ctx.check(r[0] == "ok", "comparing schemas raised", lambda: I.exc_text(r[1]), r[2]):
                return
            res[e] = I.truth(r[1])
        ctx.check(res["a == b"] == res["b == a"], "== is not symmetric", lambda: f"a == b is {res['a == b']}")
        ctx.check(res["a != b"] != res["a == b"] and res["b != a"] != res["b == a"], "!= is not the negation of ==")
        if not (res["a == b"] and res["b == a"]):
            return
        if value is None:
            ks = sorted({keyof(e[0]): e[0] for x in (da, db) for e in entries(x)}.values(), key=str)
            v = choose_dict(I, "v", ks, [key("other")])
        else:
            v = value(I)
        ctx.inputs["value"] = v
        x, y = I.truth(I.py("conforms(d, v)", d=da, v=v)), I.truth(I.py("conforms(d, v)", d=db, v=v))
        ctx.check(x == y, "equal schemas mean different sets of values", lambda: f"a accepts: {x}, b accepts: {y}")
        r1, r2 = (I.attempt("validate(s, v).has_errors()", s=s, v=v) for s in (a, b))
        if r1[0] == r2[0] == "ok":
            ctx.check(I.truth(r1[1]) == I.truth(r2[1]), "equal schemas give different verdicts")
    return fn


def entries(d):
    for k, v in d.entries:
        if k == "entries":
            return v.items
    return []


def triple(fam):
    def fn(I, ctx):
        S = Names(I)
        ds = [choose(I, fam, n) for n in ("a", "b", "c")]
        ss = []
        for n, mk in ds:
            r = I.attempt("build(d)", d=lift(mk(S)))
            if r[0] == "exc":
                return
            ss.append(r[1])
        ctx.inputs.update(a=ds[0][0], b=ds[1][0], c=ds[2][0])
        a, b, c = ss
        if I.truth(I.py("a == b", a=a, b=b)) and I.truth(I.py("a == b", a=b, b=c)):
            ctx.check(I.truth(I.py("a == b", a=a, b=c)), "== is not transitive")
    return fn


def value_eq(desc, value):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I)
        ctx.inputs.update(schema=d, value=v)
        if I.isinstance(v, I.scen.ns["Schema"]):
            return
        r = I.attempt("validate(s, v).has_errors()", s=s, v=v)
        if r[0] == "exc":
            return
        ok = not I.truth(r[1])
        own = I.isinstance(v, I.scen.ns["optional"])       # compares itself with anything
        for e, want in (("s == v", ok), ("v == s", ok), ("s != v", not ok), ("v != s", not ok)):
            if own and e.startswith("v"):
                continue
            q = I.attempt(e, s=s, v=v)
            if ctx.check(q[0] == "ok", f"{e} raised", lambda: I.exc_text(q[1]), q[2]):
                ctx.check(I.truth(q[1]) == want, f"{e} does not say whether the value validates",
                          lambda: f"{e} is {not want}, validate says {'no errors' if ok else 'errors'}")
    return fn


def edited(d1, edits_, probes):
    """A description against others that differ in one place: where they compare equal they mean the same."""
    def fn(I, ctx):
        what, d2 = choose(I, edits_, "the difference")
        da, db = lift(d1), lift(d2)
        rb = I.attempt("build(d)", d=db)
        if rb[0] == "exc":
            return
        a, b = I.py("build(d)", d=da), rb[1]
        ctx.inputs.update(a=da, b=db)
        res = [I.attempt(e, a=a, b=b) for e in ("a == b", "b == a", "a != b", "b != a")]
        for r in res:
            if not ctx.check(r[0] == "ok", "comparing schemas raised", lambda: I.exc_text(r[1]), r[2]):
                return
        t = [I.truth(r[1]) for r in res]
        ctx.check(t[0] == t[1], "== is not symmetric", lambda: f"a == b is {t[0]}; {what}")
        ctx.check(t[2] != t[0] and t[3] != t[1], "!= is not the negation of ==")
        if not (t[0] and t[1]):
            return
        for v in probes:
            x, y = I.truth(I.py("conforms(d, v)", d=da, v=v)), I.truth(I.py("conforms(d, v)", d=db, v=v))
            ctx.check(x == y, "equal schemas mean different sets of values", lambda: f"{what}: {show(v)}: a accepts: {x}, b accepts: {y}")
    return fn


def one_edit(deep):
    out = []
    pos = positions_of(None)
    for (kn, (kd, pairs)), (pn, (pd, put, ns)) in itertools.product(kinds_of().items(), pos.items()):
        if not deep and pn not in ("alone", "exact", "head max", "key", "optional", "any", "alias", "key typed", "contains", "typed min"):
            continue
        d = pd(kd)
        full = [put([p[1]] * n) for p in pairs for n in ns[:1] if n]
        probes = [w for x in full for w in altered(x)] + [lift(x) for x in ([], {}, None, 1, "a", ["x"], {"q": 1})]
        out.append((f"{kn} / {pn}", edited(d, list(edits(d)), probes), {"set": {"SHAPE_MAX": 2}}))
    for name, desc, value, opt in big(deep):
        d = desc(None)
        v = value(None, "v")
        out.append((name, edited(d, list(edits(d)), [v] + list(value(None, "w"))), opt))
    return out


def pick(deep, name):
    import zlib
    return deep or zlib.crc32(name.encode()) % 3 == 0 or not any(x in name for x in ("depth 3", " as "))


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for name, desc, value, opt in grid(deep):
        if pick(deep, name):
            out.append(("value", name, value_eq(desc, value), opt))
        out.append(("rebuild", name, rebuild(desc), opt))
    out.append(("value", "ellipsis", value_eq(lambda I: D("any", types=[D("none"), D("any")]), lambda I: ...), {}))
    for fn_, (fam, value) in families(deep).items():
        fam = list(dict(fam).items())
        for (n1, d1), (n2, d2) in itertools.combinations_with_replacement(fam, 2):
            out.append(("congruence", f"{fn_}: {n1} ~ {n2}", pair(n1, d1, n2, d2, value), {}))
        out.append(("transitive", fn_, triple(fam[:9] if not deep else fam), {}))
    for n, f, o in one_edit(deep):
        out.append(("congruence", "one difference: " + n, f, o))
    return out
