"""C16: custom schema types behave like built-ins in every position."""
import itertools
from .lib import *   # noqa

RULES = {
    "validate": "validating a tree with forwarding custom types gives the errors of the tree with the built-ins: same classes, "
                "paths, actual values and parameters, in the same order",
    "generate": "generating from the tree with custom types raises nothing the built-in tree does not raise, and the built-in "
                "tree accepts the value",
    "represent": "both trees print the same",
    "substitute": "substitution succeeds on both trees or raises the same error on both, and the results are the same up to "
                  "the custom types",
}
EXPLANATION = """
Relational abstract interpretation of d42/custom_type and the four visitors from source: each tree is built twice from one
description, once with sub-schemas replaced by CustomSchema subclasses that forward to them (one keeping itself on
substitution, one returning the built-in's result), and both run on the same unknown value in the same abstract state; the
observations are compared field by field.  The replaced sub-schemas cover every built-in kind and form, in every position,
at depth 1 and 2, alone and several at a time, with opaque members inside.
"""
WIDE = frozenset({"none", "bool", "int", "str", "float", "list", "dict", "object", "bytes", "uuid4", "uuidx", "datetime", "date"})
SMALL = frozenset({"none", "int", "str", "object"})

iv = lambda k: sym(k, "int")
KINDS = {
    "none": lambda I: D("none"), "bool": lambda I: D("bool"), "bool value": lambda I: D("bool", value=sym("x", "bool")),
    "int": lambda I: D("int", min=iv("lo"), max=iv("hi")), "int value": lambda I: D("int", value=iv("x")),
    "float": lambda I: D("float", min=sym("lo", "float")), "float value": lambda I: D("float", value=sym("x", "float")),
    "str": lambda I: D("str", min_len=iv("a"), substr=sym("u", "str")), "str value": lambda I: D("str", value=sym("x", "str")),
    "str pattern": lambda I: D("str", pattern=sym("p", "str")), "str len": lambda I: D("str", len=iv("n")),
    "bytes": lambda I: D("bytes"), "uuid4": lambda I: D("uuid4"), "datetime": lambda I: D("datetime"),
    "date": lambda I: D("date"), "date value": lambda I: D("date", value=sym("x", "date")),
    "list": lambda I: D("list", max_len=iv("b")), "typed": lambda I: D("list", form="typed", type=mem(I, "T")),
    "exact": lambda I: D("list", form="exact", els=[mem(I, "E0"), mem(I, "E1")]),
    "empty list": lambda I: D("list", form="exact", els=[]),
    "head": lambda I: D("list", form="head", els=[mem(I, "E")]), "tail": lambda I: D("list", form="tail", els=[mem(I, "E")]),
    "contains": lambda I: D("list", form="contains", els=[mem(I, "E")]),
    "dict": lambda I: D("dict"), "empty dict": lambda I: D("dict", entries=[]),
    "keys": lambda I: D("dict", entries=[("p", mem(I, "P"), False)]),
    "optkeys": lambda I: D("dict", entries=[("p", mem(I, "P"), True), ("q", D("int"), False)]),
    "relaxed": lambda I: D("dict", entries=[("p", mem(I, "P"), False)], relaxed=True),
    "any": lambda I: D("any"), "any types": lambda I: D("any", types=[mem(I, "A"), D("none")]),
    "alias": lambda I: D("alias", type=mem(I, "T")),
}
POS = {
    "alone": lambda I, d: d,
    "typed element": lambda I, d: D("list", form="typed", type=d),
    "typed element with len": lambda I, d: D("list", form="typed", type=d, min_len=iv("m")),
    "only element": lambda I, d: D("list", form="exact", els=[d]),
    "second element": lambda I, d: D("list", form="exact", els=[mem(I, "E9"), d]),
    "head element": lambda I, d: D("list", form="head", els=[d]),
    "tail element": lambda I, d: D("list", form="tail", els=[d]),
    "contains element": lambda I, d: D("list", form="contains", els=[d]),
    "dict value": lambda I, d: D("dict", entries=[("a", d, False)]),
    "second dict value": lambda I, d: D("dict", entries=[("b", mem(I, "M"), False), ("a", d, False)]),
    "optional dict value": lambda I, d: D("dict", entries=[("a", d, True)]),
    "relaxed dict value": lambda I, d: D("dict", entries=[("a", d, False)], relaxed=True),
    "alternative": lambda I, d: D("any", types=[mem(I, "A9"), d]),
    "first alternative": lambda I, d: D("any", types=[d, D("none")]),
    "alias target": lambda I, d: D("alias", type=d),
}


def leafval(I, name, tags):
    return Sym(name, tags)


def values(I, pos, name, inner, lens=(1, 2, 0)):
    """An unknown value shaped for a position."""
    if "element" in pos:
        if choose(I, [0, 1], f"{name} is a list") == 1:
            return 5
        n = choose(I, list(lens), f"length of {name}")
        xs = [cell(f"{name}{i}") for i in range(n)]
        if n:
            at = n - 1 if pos in ("second element", "tail element") else 0
            xs[at] = inner()
        return ListObj(xs)
    if "dict" in pos:
        if choose(I, [0, 1], f"{name} is a dict") == 1:
            return 5
        ent = [["a", inner()]] if choose(I, [1, 0], f"a in {name}") else []
        if choose(I, [0, 1], f"extra keys in {name}"):
            ent = [["b", cell(name + "b")]] + ent + [["x", 1]]
        return DictObj(ent)
    return inner()


def both(I, d):
    return I.py("build(d)", d=d), I.py("build(without_custom(d))", d=d)


def outcome(r, I):
    return r[1] if r[0] == "ok" else ("raised", I.exc_name(r[1]))


def check(make, value, rules, keep=None):
    def fn(I, ctx):
        k = bool(choose(I, [0, 1], "the custom type keeps itself")) if keep is None else keep
        k = not k if keep is None else k
        d = lift(make(I, k))
        c = I.attempt("build(d)", d=d)
        p = I.attempt("build(without_custom(d))", d=d)
        ctx.inputs["tree"] = d
        if not ctx.check(c[0] == p[0], "declaring with a custom type differs", lambda: show(outcome(c, I)) + " / " + show(outcome(p, I))):
            return
        if c[0] == "exc":
            return
        c, p = c[1], p[1]
        for r in rules:
            r(I, ctx, c, p, value)
    return fn


def validating(I, ctx, c, p, value):
    v = value(I)
    ctx.inputs["value"] = v
    compare_validation(I, ctx, c, p, v, "")


def compare_validation(I, ctx, c, p, v, tag):
    a = I.attempt("validate(s, v).get_errors()", s=c, v=v)
    b = I.attempt("validate(s, v).get_errors()", s=p, v=v)
    if not ctx.check(a[0] == b[0], f"{tag}validation raises on one tree only",
                     lambda: f"custom: {show(outcome(a, I))}, built-in: {show(outcome(b, I))}", a[2] or b[2]):
        return
    if a[0] == "exc":
        return
    ea, eb = list(I.iterate(a[1])), list(I.iterate(b[1]))
    text = lambda: f"custom: {[show(x) for x in ea]}; built-in: {[show(x) for x in eb]}"
    if not ctx.check(len(ea) == len(eb), f"{tag}validation gives another number of errors", text):
        return
    for x, y in zip(ea, eb):
        ctx.check(I.truth(I.py("same_error(a, b)", a=x, b=y)), f"{tag}validation gives other errors or paths", text)


def representing(I, ctx, c, p, value):
    for text in ("repr(s)", "represent(s)"):
        a, b = I.attempt(text, s=c), I.attempt(text, s=p)
        if ctx.check(a[0] == "ok", f"{text} raised with a custom type", lambda: I.exc_text(a[1]), a[2]) and b[0] == "ok":
            ctx.check(I.truth(I.py("a == b", a=a[1], b=b[1])), f"{text} prints a custom type differently",
                      lambda: f"{show(a[1])} / {show(b[1])}")


def generating(I, ctx, c, p, value):
    rng = list(I.rng)
    a = I.attempt("fake(s)", s=c)
    I.rng[:] = rng
    b = I.attempt("fake(s)", s=p)      # the same draws
    text = lambda: f"custom: {show(outcome(a, I))}, built-in: {show(outcome(b, I))}"
    if not ctx.check(a[0] == b[0], "generation raises on one tree only", text, a[2] or b[2]) or a[0] == "exc":
        return
    if I.truth(I.py("identical(a, b)", a=a[1], b=b[1])):
        ctx.check(True, "")
        return
    q = I.attempt("validate(p, v).has_errors()", p=p, v=b[1])
    if q[0] == "exc" or I.truth(q[1]):
        return                         # C01
    q = I.attempt("validate(p, v).has_errors()", p=p, v=a[1])
    ctx.check(q[0] == "ok" and not I.truth(q[1]), "a custom type generates a value the built-in schema rejects", text)


def substituting(I, ctx, c, p, value):
    v = value(I)
    ctx.inputs["substituted"] = v
    a, b = I.attempt("s % v", s=c, v=v), I.attempt("s % v", s=p, v=v)
    text = lambda: f"custom: {show(outcome(a, I))}, built-in: {show(outcome(b, I))}"
    if not ctx.check(a[0] == b[0], "substitution succeeds on one tree only", text, a[2] or b[2]):
        return
    if a[0] == "exc":
        ctx.check(I.exc_name(a[1]) == I.exc_name(b[1]), "substitution raises another exception", text, a[2])
        return
    x, y = I.py("bare(s)", s=a[1]), I.py("bare(s)", s=b[1])
    ctx.check(I.truth(I.py("unchanged(a, b)", a=x, b=y)), "substitution gives another schema", lambda: f"{show(x)} / {show(y)}")


def scenarios(tier):
    deep = tier == "thorough"
    out = []

    def add(rule, name, make, value, rules, keep=None, **opt):
        out.append((rule, name, check(make, value, rules, keep), {"set": {"SHAPE_MAX": 2}, **opt}))
    for (pn, pos), (kn, kd) in itertools.product(POS.items(), KINDS.items()):
        name = f"{kn} as {pn}"
        tags = WIDE if pn in ("alone", "alias target") or deep else (WIDE - {"uuidx", "bytes", "object", "datetime"} | (
            {kn.split()[0]} & ALL_TAGS))
        make = lambda I, k, pos=pos, kd=kd: pos(I, D("custom", inner=kd(I), keep=k))
        val = lambda I, pn=pn, tags=tags: values(I, pn, "v", lambda: leafval(I, "v.x", tags))
        add("validate", name, make, val, [validating], True)
        add("represent", name, make, val, [representing], True)
        if "with len" not in pn and kn != "str pattern":
            gmake = make if pn != "typed element" else lambda I, k, kd=kd: D("list", form="typed", len=2, type=D(
                "custom", inner=kd(I), keep=k))
            add("generate", name, gmake, val, [generating], True, **({} if deep else {"time": 5}))
        few = {"none", "int", "str", "list", "dict"} | ({kn.split()[0]} & ALL_TAGS)
        stags = tags if deep or pn in ("alone", "alias target") else tags & few
        lens = (1, 0) if not deep and ("len" in pn or ("contains" in pn and kn not in ("int", "keys", "none"))) else (1, 2, 0)
        sub = lambda I, pn=pn, tags=stags, lens=lens: values(
            I, pn, "v", lambda: leafval(I, "v.x", tags - {"object", "uuidx"}), lens)
        add("substitute", name, make, sub, [substituting], None, weight=5 if "contains" in name or "typed" in name else 1,
            set={"SHAPE_MAX": 1 if kn == "contains" and pn != "alone" and not deep else 2})
    two = ["typed element", "second element", "tail element", "contains element", "dict value", "optional dict value",
           "relaxed dict value", "alternative", "alias target"]
    some = {"int": KINDS["int"], "keys": KINDS["keys"], "exact": KINDS["exact"]}
    for a, b in itertools.product(two, two):
        for kn, kd in some.items():
            if not deep and kn == "exact" and (a == "contains element" or b == "contains element"):
                continue
            if not deep and kn != "int" and not {a, b} & {"alternative", "dict value", "tail element"}:
                continue
            for where in ("inner", "middle", "both"):
                if not deep and where != "inner" and kn != "int":
                    continue
                if not deep and where == "both" and a == b:
                    continue

                def make(I, k, a=a, b=b, kd=kd, where=where):
                    x = kd(I)
                    x = D("custom", inner=x, keep=k) if where != "middle" else x
                    x = POS[b](I, x)
                    x = D("custom", inner=x, keep=k) if where != "inner" else x
                    return POS[a](I, x)

                def val(I, a=a, b=b, kn=kn):
                    leaf = {"int": lambda: Sym("v.x", SMALL - {"object"}),
                            "keys": lambda: choose(I, [DictObj([["p", cell("v.p")]]), DictObj([]), 5], "v.x"),
                            "exact": lambda: choose(I, [ListObj([cell("v.0"), cell("v.1")]), ListObj([cell("v.0")]), 5], "v.x")}[kn]
                    def short(pos, inner, nm):
                        if "element" in pos:
                            return ListObj(([0] if pos in ("second element", "tail element") else []) + [inner()])
                        if "dict" in pos:
                            return DictObj([["a", inner()]] + ([["x", 1]] if choose(I, [0, 1], "extra key in " + nm) else []))
                        return inner()
                    return short(a, lambda: short(b, leaf, "v.inner"), "v")
                nm = f"{kn} as {b} as {a}, custom {where}"
                add("validate", nm, make, val, [validating, representing], True)
                if deep or kn != "exact" or {a, b} <= {"alternative", "dict value", "tail element"}:
                    add("substitute", nm, make, val, [substituting], None)
    # deeper than any fixed cut of a path or an indentation
    chain = ("second dict value", "second element", "typed element", "dict value", "alias target", "tail element", "dict value",
             "relaxed dict value", "only element", "dict value", "typed element", "dict value")
    for n in (7, 12) if deep else (7,):
        for at in ("leaf", "2", "4", "all"):
            for kn in ("int", "keys", "exact", "any types", "uuid4"):
                def make(I, k, n=n, at=at, kn=kn):
                    x = KINDS[kn](I)
                    cu = lambda x: D("custom", inner=x, keep=k)
                    x = cu(x) if at != "2" and at != "4" else x
                    for i in reversed(range(n)):
                        x = POS[chain[i]](I, x)
                        x = cu(x) if at == "all" or at == str(i) else x
                    return x

                def val(I, n=n, kn=kn):
                    x = {"keys": lambda: choose(I, [DictObj([["p", cell("v.p")]]), DictObj([["q", 1]]), 5], "v.x"),
                         "exact": lambda: choose(I, [ListObj([cell("v.0"), cell("v.1")]), ListObj([cell("v.0")]), 5], "v.x"),
                         }.get(kn, lambda: Sym("v.x", frozenset({"int", "str", "uuid4"})))()
                    for i in reversed(range(n)):
                        if "element" in chain[i]:
                            x = ListObj(([0] if chain[i] in ("second element", "tail element") else []) + [x])
                        elif "dict" in chain[i]:
                            x = DictObj([["a", x]])
                    return x
                nm = f"depth {n} {kn}, custom at {at}"
                add("validate", nm, make, val, [validating], True)
                add("represent", nm, make, val, [representing], True)
                if at in ("leaf", "all"):
                    add("substitute", nm, make, val, [substituting], None)
    # many siblings, one of them or all of them custom; the value fits or departs at one place
    for n in (33,) + ((130,) if deep else ()):
        for shape in ("exact", "tail", "dict", "optional", "any", "typed"):
            for which in ("first", "last", "all"):
                for off in (None, 0, n - 1):
                    def make(I, k, n=n, shape=shape, which=which):
                        cu = lambda i, x: D("custom", inner=x, keep=k) if which == "all" or i == (0 if which == "first" else n - 1) else x
                        xs = [cu(i, D("int", value=i)) for i in range(n)]
                        if shape in ("exact", "tail"):
                            return D("list", form=shape, els=xs)
                        if shape in ("dict", "optional"):
                            return D("dict", entries=[(f"k{i}", x, shape == "optional" and i % 2 == 0) for i, x in enumerate(xs)])
                        if shape == "any":
                            return D("any", types=xs)
                        return D("list", form="typed", type=D("custom", inner=D("int", max=n), keep=k))

                    def val(I, n=n, shape=shape, off=off):
                        x = choose(I, ["no", n + 7], "wrong value") if off is not None else 0
                        if shape == "any":
                            return x if off is not None else n - 1
                        vs = [x if i == off else i for i in range(n)]
                        return DictObj([[f"k{i}", v] for i, v in enumerate(vs)]) if shape in ("dict", "optional") else ListObj(vs)
                    if shape == "typed" and which != "all":
                        continue
                    nm = f"{n} {shape}, custom {which}, departing at {off}"
                    add("validate", nm, make, val, [validating], True)
                    add("substitute", nm, make, val, [substituting], None)
                    if off is None:
                        add("represent", nm, make, val, [representing], True)
                        add("generate", nm, make, val, [generating], True)
    for pn, pos in POS.items():
        make = lambda I, k, pos=pos: D("custom", inner=D("custom", inner=pos(I, D("custom", inner=D("int", min=iv("lo")))), keep=k), keep=k)
        val = lambda I, pn=pn: values(I, pn, "v", lambda: leafval(I, "v.x", SMALL - {"object"}))
        add("validate", f"custom of custom around {pn}", make, val, [validating, representing], True)
        add("substitute", f"custom of custom around {pn}", make, val, [substituting], None)
    return out
