"""C12: substitution fails only with SubstitutionError and is idempotent."""
from .lib import *   # noqa
from .grid import grid
from .subst import cases, plain_cell

RULES = {
    "error": "S % v returns a schema or raises SubstitutionError, for values of every kind, with and without placeholders and "
             "members that cannot be converted",
    "usable": "where S % v is defined, generating from the result raises nothing, the result accepts what it generates and "
              "validation against it raises nothing",
    "again": "where S % v is defined for a plain v, (S % v) % v is defined and equals S % v",
}
EXPLANATION = """
Exception-escape analysis and abstract interpretation of d42/substitution (with from_native, validation, generation).  error:
every schema form against unknown values of all 31 kinds, including containers holding `...`, unconvertible objects, ints
without a repr, unusual and placeholder keys.  usable: the value generated from the result (every draw unknown) is validated
against it.  again: the same value is substituted into the result, and the two schemas are compared.
"""
MARKS = frozenset({"int", "hugeint", "object", "none", "ellipsis"})


def attempt(I, ctx, s, v):
    r = I.attempt("s % v", s=s, v=v)
    if r[0] == "exc":
        ctx.check(I.is_a(r[1], "SubstitutionError"), f"substitution raised {I.exc_name(r[1])}", lambda: I.exc_text(r[1]), r[2])
        return None
    if not ctx.check(I.isinstance(r[1], I.scen.ns["Schema"]), "substitution returned something other than a schema"):
        return None
    return r[1]


def usable(I, ctx, r, fixed=False):
    res = lambda: f"result {show(I.py('observe(r)', r=r))[:300]}"
    g = I.attempt("fake(r)", r=r)
    if not ctx.check(g[0] == "ok", "the substituted schema cannot be generated from",
                     lambda: I.exc_text(g[1]) + "; " + res(), g[2]):
        return
    q = I.attempt("validate(r, g).has_errors()", r=r, g=g[1])
    if ctx.check(q[0] == "ok", "validating against the substituted schema raised", lambda: I.exc_text(q[1]) + "; " + res(), q[2]):
        ctx.check(not I.truth(q[1]), "the substituted schema rejects what it generates",
                  lambda: f"generated {show(g[1])}; {res()}")


def error(desc, value, use):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I)
        ctx.inputs.update(schema=d, substituted=v)
        r = attempt(I, ctx, s, v)
        if r is not None and use:
            ctx.inputs["result"] = I.py("observe(r)", r=r)
            usable(I, ctx, r)
    return fn


def again(desc, value):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I, "v")
        ctx.inputs.update(schema=d, substituted=v)
        r = attempt(I, ctx, s, v)
        if r is None:
            return
        q = I.attempt("r % v", r=r, v=v)
        if ctx.check(q[0] == "ok", "substituting the same value again raised", lambda: I.exc_text(q[1]), q[2]):
            ctx.check(I.truth(I.py("a == b and b == a", a=q[1], b=r)), "substituting the same value again gives another schema",
                      lambda: f"{show(I.py('observe(r)', r=r))[:200]} and {show(I.py('observe(r)', r=q[1]))[:200]}")
    return fn


def gen(desc, value):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I, "v")
        ctx.inputs.update(schema=d, substituted=v)
        r = attempt(I, ctx, s, v)
        if r is not None:
            usable(I, ctx, r)
    return fn


def marked_list(I, n=3):
    """A list of plain members, `...`, unconvertible members and nested containers of them."""
    k = choose(I, range(n + 1), "length")
    return ListObj([marked(I, f"v{i}", i == 0) for i in range(k)])


def marked(I, name, deep):
    k = choose(I, ["int", "...", "object"] + (["nested", "huge"] if deep else []), name)
    return {"int": lambda: Sym(name, {"int"}), "...": lambda: ..., "object": lambda: Sym(name, {"object"}),
            "nested": lambda: ListObj([1, choose(I, [..., 10 ** 5000, Sym(name + "o", {"object"})], name + "[1]"),
                                       Sym(name + "o", {"object"})]),
            "huge": lambda: 10 ** 5000}[k]()


def marked_dict(I):
    ent = []
    for i in range(choose(I, [0, 1, 2], "entries")):
        k = choose(I, ["a", "b", ..., 10 ** 5000] + (["optional"] if i == 0 else []), f"key {i}")
        if k == "optional":
            k = I.py("optional('a')")
        if any(keyof(e[0]) == keyof(k) for e in ent):
            continue
        ent.append([k, marked(I, f"v{i}", i == 0)])
    return DictObj(ent)


def placeholders(deep):
    iv = lambda k: sym(k, "int")
    M = lambda I: mem(I, "T")
    out = []
    n = 3
    forms = {
        "free": lambda I: D("list"), "typed": lambda I: D("list", form="typed", type=M(I)),
        "typed any": lambda I: D("list", form="typed", type=D("any")),
        "typed int": lambda I: D("list", form="typed", type=D("int")),
        "exact": lambda I: D("list", form="exact", els=[M(I), D("any")]),
        "head": lambda I: D("list", form="head", els=[M(I)]), "tail": lambda I: D("list", form="tail", els=[M(I)]),
        "contains": lambda I: D("list", form="contains", els=[M(I)]),
        "contains any": lambda I: D("list", form="contains", els=[D("any")]),
        "head any": lambda I: D("list", form="head", els=[D("any")]),
        "in any": lambda I: D("any", types=[D("list"), D("list", form="typed", type=D("any")), D("none")]),
        "any": lambda I: D("any"),
    }
    for fnm, f in forms.items():
        for ls in ([], ["len"], ["min_len"], ["max_len"]):
            if ls and (fnm in ("any", "in any", "typed int", "contains any", "head any") or fnm == "contains"):
                continue
            out.append((f"list {fnm} {' '.join(ls)}".strip(),
                        lambda I, f=f, ls=ls: {**f(I), **{k: choose(I, [0, 1, 2, 3], k) for k in ls}},
                        lambda I: marked_list(I, n if fnm != "contains" or deep else 2)))
    out.append(("list in dict", lambda I: D("dict", entries=[("a", D("list"), False), ("b", D("any"), True)]),
                lambda I: DictObj([["a", marked_list(I, 2)], ["b", choose(I, [..., 1, ListObj([...])], "b")]])))
    for nm, d in {
        "free": lambda I: D("dict"), "only relaxed": lambda I: D("dict", entries=[], relaxed=True),
        "empty": lambda I: D("dict", entries=[]),
        "keys": lambda I: D("dict", entries=[("a", M(I), False), ("b", D("any"), True)]),
        "relaxed": lambda I: D("dict", entries=[("a", D("any"), True)], relaxed=True),
        "in any": lambda I: D("any", types=[D("dict"), D("dict", entries=[("a", D("any"), False)]), D("none")]),
    }.items():
        out.append((f"dict {nm}", d, marked_dict))
    for nm, d in {"typed": lambda I: D("list", form="typed", type=D("dict")),
                  "contains": lambda I: D("list", form="contains", els=[D("dict", entries=[("a", D("any"), False)], relaxed=True)]),
                  "exact": lambda I: D("list", form="exact", els=[D("dict", entries=[("a", D("int"), True)], relaxed=True)]),
                  }.items():
        out.append((f"dict in {nm} list", d, lambda I: ListObj([marked_dict(I)])))
    return out


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for name, desc, value, opt in grid(deep):
        if not deep and (name.startswith("depth 3") or "precision" in name and "min" in name):
            continue
        if not deep and "contains" in name:
            opt = {**opt, "time": 12, "weight": 12}
            if name != "list contains 1":
                opt["set"] = {"SHAPE_MAX": 1, **opt.get("set", {})}
        out.append(("error", name, error(desc, value, False), opt))
    for name, desc, value in placeholders(deep):
        out.append(("error", "placeholders in " + name, error(desc, value, True), {}))
    for n, d, v, o in cases(deep):
        out.append(("again", n, again(d, v), o))
        if deep or n not in ("typed in dict", "typed in optional", "typed in relaxed"):
            out.append(("usable", n, gen(d, v), o))
    return out
