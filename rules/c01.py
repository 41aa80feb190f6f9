"""C01: whatever fake(S) returns validates against S."""
import itertools
from .lib import *   # noqa
from .grid import grid
from .subst import cases

RULES = {
    "declared": "on every abstract path over every outcome of every draw, fake(S) of a satisfiable declared S returns a value "
                "on which validate(S, value) reports no error",
    "bounds": "the same with concrete bounds around and far beyond the defaults, every draw taken at its least, middle and "
              "greatest outcome",
    "nested": "the same for built-in schemas in every position and combination",
    "substituted": "the same for the results of S % v, of a + b, a | b and of make_required",
}
EXPLANATION = """
Abstract interpretation of d42/generation composed with d42/validation, from source: a draw of random yields an unknown
constrained only by the call's contract (any int of the range, any letter, any element, any order), so one abstract path
covers every outcome; generated values flow into the interpreted validator.  Members are opaque schemas whose generator
returns a value they accept (induction hypothesis), so the forms of depth one carry over to any nesting.  Satisfiability is
decided by the interpreted oracle `sat` of rules/model.py over the schema's public props.  Where bounds matter numerically
(default limits, precision grids, float range) the bounds are literals and draws take their extreme outcomes.
"""
ASSUMPTIONS = [
    "random.Random keeps its documented contract (randint inclusive, uniform within the rounded interval, choice an element)",
    "patterns are C09's subject", "members admit a value and generate one they accept",
]


def generated(make, sure=True):
    def fn(I, ctx):
        s = make(I)
        if s is None:
            return
        ctx.inputs["schema"] = s
        if not I.truth(I.py("sat(s)", s=s)):
            return
        r = I.attempt("fake(s)", s=s)
        if r[0] == "exc":
            ctx.check(False, f"fake raised {I.exc_name(r[1])}", lambda: f"{I.exc_text(r[1])} for {show(I.py('observe(s)', s=s))}", r[2])
            return
        ctx.inputs["generated"] = r[1]
        e = I.attempt("validate(s, v).get_errors()", s=s, v=r[1])
        if e[0] == "exc":
            return                       # C02, C08
        errs = list(I.iterate(e[1]))
        ctx.check(not errs, "a generated value does not validate against its schema",
                  lambda: f"{show(r[1])}: {[show(x) for x in errs]}")
    return fn


def tame(I, x):
    """A float far from overflow (the ends of the range are literals elsewhere)."""
    I.st.num_node(x)
    I.st.le(-1e149, x)
    I.st.le(x, 1e149)
    return x


def decl(d):
    """Build a description; None when the declaration is refused."""
    def make(I):
        r = I.attempt("build(d)", d=lift(d(I)))
        if r[0] == "exc":
            return None
        return r[1]
    return make


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(rule, name, make, **opt):
        out.append((rule, name, generated(make), opt))
    EX = lambda *ks, **kw: {"EXTREME": frozenset(ks or ("int", "float")), **kw}
    subsets = lambda ks: [[k for i, k in enumerate(ks) if m >> i & 1] for m in range(1 << len(ks))]
    iv = lambda k: sym(k, "int", "hugeint", "bool")
    for t in ("none", "bool", "int", "float", "bytes", "uuid4", "datetime", "date", "list", "dict", "any", "str"):
        add("declared", t, decl(lambda I, t=t: D(t)), time=20, **({"set": EX("int")} if t in ("str", "list", "bytes") else {}))
    for t, tg in {"bool": ("bool",), "bytes": ("bytes",), "uuid4": ("uuid4", "uuidx"), "datetime": ("datetime",),
                  "date": ("date", "datetime")}.items():
        add("declared", t + " value", decl(lambda I, t=t, tg=tg: D(t, value=sym("x", tg))))
    for ks in subsets(["value", "min", "max"]):
        if ks:
            add("declared", "int " + " ".join(ks), decl(lambda I, ks=ks: D("int", **{k: iv(k) for k in ks})))
            add("declared", "float " + " ".join(ks), decl(lambda I, ks=ks: D(
                "float", **{k: tame(I, sym(k, "float")) for k in ks})))
            add("declared", "float special " + " ".join(ks), decl(lambda I, ks=ks: D("float", **{
                k: choose(I, [float("inf"), float("-inf"), 0.0, 1e308, -1e308, 5e-324] + ([float("nan")] if k == "value" else []), k)
                for k in ks})), set=EX())
    # ------------------------------------------------------------ literal bounds
    big = 2 ** 63
    ints = [-10 ** 30, -big - 1, -big, -1, 0, 1, 7, big - 1, big, 10 ** 30]
    add("bounds", "int", decl(lambda I: D("int", **{k: x for k in ("min", "max") if (
        x := choose(I, [None] + ints, k)) is not None})), set=EX())
    fl = [-1.7e308, -1e19, -float(big), -5.55, -1.0, -0.25, -0.19, -1e-7, -0.0, 0.0, 1e-300, 0.1, 0.15, 0.19, 0.2, 0.3, 1.0, 1.5,
          2.675, 3.14159, 1e15, 4503599627370497.5, 1e16, float(big), 1e19, 1.7e308]
    fl = fl if deep else [-1.7e308, -1e19, -5.55, -0.19, 0.0, 0.1, 0.15, 0.19, 0.3, 1.0, 1.05, 2.675, 4503599627370497.5, 1e19, 1.7e308]
    INF = float("inf")
    for p in [None, 0, 1, 2, 3, 7, 15, 17, 30, 400] if deep else [None, 0, 1, 2, 15, 30]:
        for name, prs in {"both": [(a, b) for a in fl for b in fl if a <= b], "min": [(a, None) for a in fl + [-INF, INF]],
                          "max": [(None, b) for b in fl + [-INF, INF]],
                          "infinite": [(a, b) for a in fl + [-INF] for b in fl + [INF] if -INF == a or b == INF]}.items():
            def fd(I, p=p, prs=prs):
                a, b = choose(I, prs, "bounds")
                return D("float", **{k: x for k, x in (("min", a), ("max", b), ("precision", p)) if x is not None})
            add("bounds", f"float precision {p} {name}", decl(fd), set=EX())
    adj = [(0.1, 0.10000000000000002), (1.0, 1.0000000000000002), (5e-324, 1e-323), (-1e-323, -5e-324), (1e16, 1e16 + 2),
           (0.1 + 0.2, 0.30000000000000010), (1.15, 1.15), (0.285, 0.285), (-0.285, -0.285), (2.5, 2.5), (1e22, 1e22)]
    add("bounds", "float narrow", decl(lambda I: (lambda ab: D("float", min=ab[0], max=ab[1], **(
        {"precision": p} if (p := choose(I, [None, 0, 1, 2, 16, 30], "precision")) is not None else {})))(choose(I, adj, "bounds"))), set=EX())
    lens = [None, 0, 1, 2, 16, 17, 32, 33, 40]
    few = [None, 0, 2, 17, 33]

    def lengths(I, ls=few, short=False):
        """Length keywords: exact, minimum, maximum or both."""
        n = choose(I, ["len", "max", "both"] + ([] if short else ["none", "min"]), "length form")
        if n == "none":
            return {}
        if n == "len":
            return {"len": choose(I, ls[1:], "len")}
        a = choose(I, ls[1:], "min_len") if n != "max" else None
        b = choose(I, ls[1:], "max_len") if n != "min" else None
        return {k: x for k, x in (("min_len", a), ("max_len", b)) if x is not None}
    for sub in (None, "", "ab", "long" * 10, "unknown"):
        for alpha in (None, "", "a", "abc", "unknown"):
            if sub == "unknown" and alpha:
                continue

            def sd(I, sub=sub, alpha=alpha):
                short = (alpha == "unknown" or sub == "unknown") and not deep
                kw = lengths(I, lens if deep else [None, 0, 1, 3] if alpha == "unknown" or sub == "unknown" else [None, 0, 2, 33], short)
                if sub is not None:
                    kw["substr"] = sub if sub != "unknown" else mk_cat([sym("u0", "str", char=True), sym("u1", "str", char=True)])
                if alpha is not None:
                    kw["alphabet"] = alpha if alpha != "unknown" else mk_cat([sym("a0", "str", char=True), sym("a1", "str", char=True)])
                return D("str", **kw)
            add("bounds", f"str {'' if sub is None else 'substr ' + repr(sub)[:8]} {'' if alpha is None else 'alphabet ' + alpha}", decl(sd),
                set=EX("int"), time=60, weight=3)
    add("bounds", "str value", decl(lambda I: D("str", value=choose(I, ["", "ab", "a b"], "value"), **lengths(I, [None, 0, 1, 2, 3]), **choose(
        I, [{}, {"substr": "b"}, {"alphabet": "ab "}], "more"))))
    for form in ("free", "typed", "typed int"):
        def ld(I, form=form):
            kw = lengths(I, few if not deep else lens)
            if form == "free":
                return D("list", **kw)
            return D("list", form="typed", type=mem(I, "T") if form == "typed" else D("float"), **kw)
        add("bounds", f"list {form}", decl(ld), set=EX("int"), weight=3)
    # far beyond any default or cut-off
    far = [65, 130, 300] + ([1100] if deep else [])
    for form, mk in {"str": lambda I, kw: D("str", **kw), "str alphabet": lambda I, kw: D("str", alphabet="ab", **kw),
                     "str substr": lambda I, kw: D("str", substr="ab" * 30, **kw), "free": lambda I, kw: D("list", **kw),
                     "typed": lambda I, kw: D("list", form="typed", type=D("none"), **kw),
                     "head": lambda I, kw: D("list", form="head", els=[D("none")] * 3, **kw),
                     "tail": lambda I, kw: D("list", form="tail", els=[D("none")] * 3, **kw),
                     "contains": lambda I, kw: D("list", form="contains", els=[D("none")] * 3, **kw)}.items():
        add("bounds", f"far {form}", decl(lambda I, mk=mk: mk(I, {k: choose(I, far, "n") for k in [choose(
            I, ["len", "min_len"], "keyword")]})), set=EX("int", "choice"), time=60)
        add("bounds", f"far range {form}", decl(lambda I, mk=mk: mk(I, choose(I, [{"min_len": a, "max_len": b} for a, b in [
            (60, 62), (62, 200), (130, 130), (0, 300)]], "bounds"))), set=EX("int", "choice"), time=60)
    for n in (70,) + ((200,) if deep else ()):
        add("nested", f"wide {n} exact", decl(lambda I, n=n: D("list", form="exact", els=[D("int", value=i) for i in range(n)])))
        for rel in (None, "last"):
            add("nested", f"wide {n} dict {rel}", decl(lambda I, n=n, rel=rel: D("dict", entries=[
                (f"k{i}", D("int", value=i), False) for i in range(n)], relaxed=rel)))
        add("nested", f"wide {n} any", decl(lambda I, n=n: D("any", types=[D("int", value=i) for i in range(n)])),
            set=EX("choice"))
    for n in (9,) + ((25,) if deep else ()):
        def deepd(I, n=n):
            d = D("str", min_len=1, max_len=2)
            for i in range(n):
                d = [lambda: D("dict", entries=[(f"k{i}", d, False)]), lambda: D("list", form="exact", els=[d]),
                     lambda: D("list", form="typed", type=d, min_len=1, max_len=1), lambda: D("any", types=[d]),
                     lambda: D("alias", type=d)][i % 5]()
            return d
        add("nested", f"depth {n}", decl(deepd), set=EX("int"))
    for form, k in itertools.product(("exact", "head", "tail", "contains"), (0, 1, 2, 3)):
        if form in ("head", "contains") and not k:
            continue
        add("bounds", f"list {form} {k}", decl(lambda I, form=form, k=k: D(
            "list", form=form, els=[mem(I, f"E{i}") for i in range(k)], **lengths(I, [None, 0, 1, 2, 3, 5, 17] if deep else [None, 0, 2, 4] if form == "contains" else [None, 0, 1, 2, 4, 17]))), set=EX("int"))
    add("bounds", "list exact repeated", decl(lambda I: (lambda m: D("list", form=choose(
        I, ["exact", "head", "tail", "contains"], "form"), els=[m, m], **lengths(I, [None, 0, 1, 2, 3])))(mem(I, "E"))), set=EX("int"))
    for form in ("exact", "head", "tail", "contains"):
        for n in ("len", "min_len", "max_len"):
            add("declared", f"list {form} unknown {n}", decl(lambda I, form=form, n=n: D(
                "list", form=form, els=[mem(I, "E0"), mem(I, "E1")], **{n: sym(n, "int")})), time=8)
    # ------------------------------------------------------------ dicts and unions
    for rel in (None, "last", "first"):
        for n in range(0, 4):
            for o in itertools.product((False, True), repeat=n):
                add("declared", f"dict {''.join('o' if x else 'r' for x in o)} {rel or ''}", decl(lambda I, o=o, rel=rel: D(
                    "dict", entries=[(key(f"k{i}"), mem(I, f"M{i}"), x) for i, x in enumerate(o)], relaxed=rel)))
    odd = [None, 0, "", False, 1.5, b"k", (1, 2), "...", ("a", ...)]
    add("declared", "dict unusual keys", decl(lambda I: D("dict", entries=[(choose(I, odd, "key"), mem(I, "M"), bool(choose(
        I, [0, 1], "optional")))], relaxed=choose(I, [None, "last"], "relaxed"))))
    for n in range(1, 5):
        add("declared", f"any {n}", decl(lambda I, n=n: D("any", types=[mem(I, f"A{i}") for i in range(n)])))
    add("declared", "alias", decl(lambda I: D("alias", type=mem(I, "T"))))
    add("declared", "any with an unsatisfiable alternative", decl(lambda I: D("any", types=choose(
        I, [[D("int"), bad], [bad, D("int")]], "order"))), set=EX("int", "choice"))
    add("declared", "typed list of an unsatisfiable schema", decl(lambda I: D("list", form="typed", type=bad)), set=EX("int"))
    # ------------------------------------------------------------ nesting of built-ins
    kinds = {
        "none": lambda I: D("none"), "bool": lambda I: D("bool"), "int": lambda I: D("int", min=sym("lo", "int")),
        "int value": lambda I: D("int", value=sym("x", "int")),
        "float": lambda I: D("float", min=0.15, max=0.3, precision=1), "str": lambda I: D("str", min_len=1, max_len=2, alphabet="ab"),
        "str value": lambda I: D("str", value=sym("t", "str")), "uuid4": lambda I: D("uuid4"), "date": lambda I: D("date"),
        "datetime": lambda I: D("datetime"), "free list": lambda I: D("list", min_len=1), "free dict": lambda I: D("dict"),
        "typed": lambda I: D("list", form="typed", type=mem(I, "T"), min_len=1, max_len=2),
        "exact": lambda I: D("list", form="exact", els=[mem(I, "E0"), mem(I, "E1")]),
        "head": lambda I: D("list", form="head", els=[mem(I, "E0")], min_len=2),
        "tail": lambda I: D("list", form="tail", els=[mem(I, "E0")], len=3),
        "contains": lambda I: D("list", form="contains", els=[mem(I, "E0")]),
        "dict": lambda I: D("dict", entries=[("p", mem(I, "P"), False), ("q", mem(I, "Q"), True)]),
        "relaxed": lambda I: D("dict", entries=[("p", mem(I, "P"), False)], relaxed="last"),
        "any": lambda I: D("any"), "any of": lambda I: D("any", types=[mem(I, "A"), D("none")]),
        "alias": lambda I: D("alias", type=mem(I, "T2")), "custom": lambda I: D("custom", inner=mem(I, "C")),
    }
    pos = {
        "typed": lambda I, d: D("list", form="typed", type=d, min_len=1, max_len=2),
        "exact": lambda I, d: D("list", form="exact", els=[mem(I, "F0"), d]),
        "head": lambda I, d: D("list", form="head", els=[d], len=2), "tail": lambda I, d: D("list", form="tail", els=[d], min_len=2),
        "contains": lambda I, d: D("list", form="contains", els=[d, mem(I, "F1")], min_len=3),
        "dict": lambda I, d: D("dict", entries=[("a", d, False), ("b", mem(I, "N"), True)]),
        "any": lambda I, d: D("any", types=[d, mem(I, "B")]), "alias": lambda I, d: D("alias", type=d),
    }
    for (kn, kd), (pn, pd) in itertools.product(kinds.items(), pos.items()):
        add("nested", f"{kn} in {pn}", decl(lambda I, kd=kd, pd=pd: pd(I, kd(I))), set=EX("int"))
    for (an, ad), (bn, bd) in itertools.product(pos.items(), pos.items()):
        for kn in ("float", "str", "dict", "tail") if deep else ("str", "tail"):
            add("nested", f"{kn} in {bn} in {an}", decl(lambda I, kd=kinds[kn], ad=ad, bd=bd: ad(I, bd(I, kd(I)))), set=EX("int"), time=20)
    # ------------------------------------------------------------ operators
    def two(text):
        def make(I):
            ka = choose(I, ["r", "o", "both", "relaxed", "empty"], "left")
            kb = choose(I, ["r", "o", "same", "relaxed", "empty"], "right")
            forms = {"r": [("a", False)], "o": [("a", True)], "both": [("a", False), ("b", True)], "same": [("a", False), ("b", False)],
                     "relaxed": [("c", False)], "empty": []}
            mk = lambda k, t: D("dict", entries=[(x, mem(I, f"{t}{x}"), o) for x, o in forms[k]], relaxed="last" if k == "relaxed" else None)
            r = I.attempt(text, a=I.py("build(d)", d=lift(mk(ka, "L"))), b=I.py("build(d)", d=lift(mk(kb, "R"))))
            return r[1] if r[0] == "ok" else None
        return make
    for text in ("a + b", "a | b", "a + b + schema.dict({optional('z'): schema.int})", "make_required(a)", "make_required(a + b)",
                 "make_required(a | b)", "a | b | schema.none", "make_required(a, ['a'])"):
        add("substituted", text, two(text))
    for (an, ad), (bn, bd) in itertools.product(kinds.items(), kinds.items()):
        if an < bn and (deep or an in ("float", "tail", "str", "dict", "any of")):
            add("substituted", f"{an} | {bn}", lambda I, ad=ad, bd=bd: I.py(
                "a | b", a=I.py("build(d)", d=lift(ad(I))), b=I.py("build(d)", d=lift(bd(I)))), set=EX("int"))
    for name, desc, value, opt in cases(deep):
        def make(I, desc=desc, value=value):
            r = I.attempt("build(d)", d=lift(desc(I)))
            if r[0] == "exc":
                return None
            r = I.attempt("s % v", s=r[1], v=value(I, "v"))
            return r[1] if r[0] == "ok" else None
        if not deep and (name.startswith("typed in") or "contains" in name):
            opt = {**opt, "time": 10, "weight": 10}
        add("substituted", "% " + name, make, **{**opt, "set": {**opt.get("set", {}), "EXTREME": frozenset({"int"})}})
    return out


bad = D("str", alphabet="", len=1)
