"""C13: combinators mean what their parts mean."""
import itertools
from .lib import *   # noqa

RULES = {
    "union": "a | b and schema.any(a, b, ...) accept exactly what an operand accepts, for every nesting of unions",
    "merge": "d1 + d2 accepts what the merged key table accepts, relaxed if an operand is; operands are left alone",
    "required": "make_required(d, keys) accepts exactly the values of d holding the listed keys, refuses unknown keys",
    "alias": "an alias accepts exactly what its target accepts",
    "members": "d[key] is the declared member, unknown keys raise KeyError, iteration yields the declared keys or alternatives",
}
EXPLANATION = """
Abstract interpretation of the combinators on opaque member schemas and unknown values, compared with the reference
semantics of the combined description (rules/model.py): unions of members, free and declared unions, aliases and built-in
types nested to depth three; sums of key tables over unknown keys that may coincide, with every optionality and relaxation
of both operands; make_required with every subset of keys given as list, tuple, set or default.
"""


def verdict(I, ctx, s, v, want, what):
    r = I.attempt("len(validate(s, v).get_errors()) == 0", s=s, v=v)
    if not ctx.check(r[0] == "ok", f"{what}: validate raised", lambda: I.exc_text(r[1]), r[2]):
        return
    got = I.truth(r[1])
    w = I.truth(want())
    ctx.check(got == w, f"{what}: {'accepts what the parts refuse' if got else 'refuses what the parts accept'}",
              lambda: f"combined says {got}, the parts say {w}")


VAL = frozenset({"none", "int", "str", "list", "dict", "object", "float", "bool"})


def any_of(*ds):
    return D("any", types=list(ds))


OPS = {
    "member": lambda I, n: mem(I, n), "int": lambda I, n: D("int", min=sym(n + ".lo", "int")), "none": lambda I, n: D("none"),
    "free": lambda I, n: D("any"), "union": lambda I, n: any_of(mem(I, n + "0"), mem(I, n + "1")),
    "union1": lambda I, n: any_of(mem(I, n + "0")),
    "deep": lambda I, n: any_of(any_of(mem(I, n + "0"), any_of(mem(I, n + "1"), D("str"))), mem(I, n + "2")),
    "alias": lambda I, n: D("alias", type=any_of(mem(I, n + "0"), mem(I, n + "1"))),
    "with free": lambda I, n: any_of(mem(I, n + "0"), D("any")),
    "list": lambda I, n: D("list", form="typed", type=any_of(mem(I, n + "0"), D("none"))),
    "dict": lambda I, n: D("dict", entries=[("k", any_of(mem(I, n + "0"), D("none")), False)]),
}


def union(names, expr):
    def fn(I, ctx):
        ds = [OPS[n](I, f"{c}") for n, c in zip(names, "ABC")]
        xs = {c: I.py("build(d)", d=lift(d)) for c, d in zip("abc", ds)}
        before = {c: I.py("observe(s)", s=s) for c, s in xs.items()}
        s = I.py(expr, **xs)
        v = Sym("v", VAL)
        ctx.inputs.update(operands=lift(ds), value=v)
        ctx.check(I.isinstance(s, I.scen.ns["Schema"]), "the union is no schema")
        verdict(I, ctx, s, v, lambda: I.py("conforms(without_custom(d), v)", d=lift(any_of(*ds)), v=v), expr)
        for c, x in xs.items():
            ctx.check(I.py("unchanged(a, observe(s))", a=before[c], s=x), "the union changed an operand")
    return fn


def table(I, pre, keys, opts, rel, kinds=()):
    sub = lambda i: KINDS[kinds[i]](I, f"{pre}{i}") if i < len(kinds) and kinds[i] else mem(I, f"{pre}{i}")
    return D("dict", entries=[(k, sub(i), bool(o)) for i, (k, o) in enumerate(zip(keys, opts))], relaxed=rel)


KINDS = {
    "none": lambda I, n: D("none"), "bool": lambda I, n: D("bool", value=True), "int": lambda I, n: D("int", min=sym(n + ".lo", "int")),
    "float": lambda I, n: D("float"), "str": lambda I, n: D("str", len=sym(n + ".l", "int")),
    "bytes": lambda I, n: D("bytes"), "uuid4": lambda I, n: D("uuid4"), "datetime": lambda I, n: D("datetime"), "date": lambda I, n: D("date"),
    "free list": lambda I, n: D("list"), "typed": lambda I, n: D("list", form="typed", type=mem(I, n + ".T")),
    "exact": lambda I, n: D("list", form="exact", els=[mem(I, n + ".E")]),
    "free dict": lambda I, n: D("dict"), "empty dict": lambda I, n: D("dict", entries=[]),
    "keys": lambda I, n: D("dict", entries=[("p", mem(I, n + ".P"), False), ("q", D("int"), True)]),
    "other keys": lambda I, n: D("dict", entries=[("p", mem(I, n + ".P"), True), ("s", D("int"), False)]),
    "relaxed": lambda I, n: D("dict", entries=[("p", mem(I, n + ".P"), True)], relaxed=True),
    "any": lambda I, n: D("any"), "any of": lambda I, n: D("any", types=[mem(I, n + ".A"), D("none")]),
    "alias": lambda I, n: D("alias", type=D("dict", entries=[("p", mem(I, n + ".P"), True)])),
    "custom": lambda I, n: D("custom", inner=D("dict", entries=[("p", mem(I, n + ".P"), True)])),
}


def inner_value(I, kind, name):
    """A value that may or may not suit a member of a kind."""
    if kind in ("keys", "other keys", "relaxed", "alias", "custom", "empty dict"):
        ks = [k for k in ("p", "q", "s") if choose(I, [0, 1], f"{k} in {name}")]
        return DictObj([[k, cell(f"{name}.{k}")] for k in ks])
    if kind in ("typed", "exact"):
        return ListObj([cell(f"{name}.{i}") for i in range(choose(I, [1, 0, 2], f"length of {name}"))])
    return Sym(name, VAL)


def merge_kinds(k1, k2, opts, rel):
    """Both operands declare one key, with members of any kind: the right one replaces the left one whole."""
    def fn(I, ctx):
        k, x, y = key("k"), key("x"), key("y")
        d1 = table(I, "L", [x, k], (opts[0], opts[1]), rel[0], (None, k1))
        d2 = table(I, "R", [k, y], (opts[2], opts[3]), rel[1], (k2, None))
        a, b = I.py("build(d)", d=lift(d1)), I.py("build(d)", d=lift(d2))
        before = [I.py("observe(s)", s=s) for s in (a, b)]
        ents = [d1["entries"][0], d2["entries"][0], d2["entries"][1]]
        want = D("dict", entries=ents, relaxed=bool(rel[0] or rel[1]))
        ent = [[x, cell("v.x")], [y, cell("v.y")]]
        if choose(I, [1, 0], "k in v"):
            ent.append([k, inner_value(I, k2, "v.k")])
        v = DictObj(ent)
        ctx.inputs.update(left=lift(d1), right=lift(d2), value=v)
        r = I.attempt("a + b", a=a, b=b)
        if not ctx.check(r[0] == "ok", "d1 + d2 raised", lambda: I.exc_text(r[1]), r[2]):
            return
        verdict(I, ctx, r[1], v, lambda: I.py("conforms(without_custom(d), v)", d=lift(want), v=v), "d1 + d2")
        for w, s in zip(before, (a, b)):
            ctx.check(I.py("unchanged(a, observe(s))", a=w, s=s), "d1 + d2 changed an operand")
        g = I.attempt("s[k]", s=r[1], k=k)
        if ctx.check(g[0] == "ok", "(d1 + d2)[key] raised", lambda: I.exc_text(g[1]), g[2]):
            ctx.check(I.py("unchanged(observe(m), observe(n))", m=g[1], n=I.py("s[k]", s=b, k=k)),
                      "(d1 + d2)[key] is not the declared member")
    return fn


def required_kinds(kind, other, opts, listed, rel):
    def fn(I, ctx):
        ks = [key("k0"), key("k1")]
        d = table(I, "M", ks, opts, rel, (kind, other))
        s = I.py("build(d)", d=lift(d))
        before = I.py("observe(s)", s=s)
        picked = ks if listed is None else [ks[i] for i in listed]
        ent = []
        for k, m, o, kd in zip(ks, "ab", opts, (kind, other)):
            if choose(I, [1, 0], f"{k.name} in v"):
                ent.append([k, inner_value(I, kd, f"v.{m}")])
        v = DictObj(ent)
        ctx.inputs.update(schema=lift(d), keys=ListObj(picked), value=v)
        r = I.attempt("make_required(s)" if listed is None else "make_required(s, ks)", s=s, ks=ListObj(picked))
        if not ctx.check(r[0] == "ok", "make_required raised", lambda: I.exc_text(r[1]), r[2]):
            return
        want = D("dict", entries=[(k, m, o and not any(k is p for p in picked)) for k, m, o in d["entries"]], relaxed=rel)
        verdict(I, ctx, r[1], v, lambda: I.py("conforms(without_custom(d), v)", d=lift(want), v=v), "make_required")
        ctx.check(I.py("unchanged(a, observe(s))", a=before, s=s), "make_required changed the schema")
    return fn


def members_kinds(kind, opt, rel):
    def fn(I, ctx):
        ks = [key("k0"), key("k1")]
        d = table(I, "M", ks, (opt, not opt), rel, (kind, kind))
        s = I.py("build(d)", d=lift(d))
        ctx.inputs.update(schema=lift(d))
        for k, m, o in d["entries"]:
            g = I.attempt("s[k]", s=s, k=k)
            if ctx.check(g[0] == "ok", "d[key] raised", lambda: I.exc_text(g[1]), g[2]):
                ctx.check(I.py("unchanged(observe(m), observe(n))", m=g[1], n=I.py("build(d)", d=lift(m))),
                          "d[key] is not the declared member", lambda: show(g[1]))
    return fn


def union_of_kinds(k1, k2, expr):
    def fn(I, ctx):
        ds = [KINDS[k1](I, "A"), KINDS[k2](I, "B")]
        xs = {c: I.py("build(d)", d=lift(d)) for c, d in zip("ab", ds)}
        v = choose(I, [lambda: inner_value(I, k1, "v"), lambda: inner_value(I, k2, "v")], "value suits")() if k1 != k2 else \
            inner_value(I, k1, "v")
        ctx.inputs.update(operands=lift(ds), value=v)
        s = I.py(expr, **xs)
        verdict(I, ctx, s, v, lambda: I.py("conforms(without_custom(d), v)", d=lift(any_of(*ds)), v=v), expr)
    return fn


def merge(o1, o2, r1, r2, shared, free=None, chain=False):
    def fn(I, ctx):
        k1 = [key(f"k{i}") for i in range(len(o1))]
        k2 = [k1[i] if i < shared else key(f"j{i}") for i in range(len(o2))]
        d1 = table(I, "L", k1, o1, r1)
        d2 = table(I, "R", k2, o2, r2)
        if free == "left":
            d1 = D("dict")
        if free == "right":
            d2 = D("dict")
        a, b = I.py("build(d)", d=lift(d1)), I.py("build(d)", d=lift(d2))
        before = [I.py("observe(s)", s=s) for s in (a, b)]
        ents = {keyof(k): (k, m, o) for k, m, o in d1.get("entries", [])}
        ents.update({keyof(k): (k, m, o) for k, m, o in d2.get("entries", [])})
        rel = bool(r1 and free != "left" or r2 and free != "right")
        want = D("dict", entries=list(ents.values()), relaxed=rel)
        v = choose_dict(I, "v", [e[0] for e in ents.values()], [key("x")])
        ctx.inputs.update(left=lift(d1), right=lift(d2), value=v)
        r = I.attempt("a + b", a=a, b=b)
        if not ctx.check(r[0] == "ok", "d1 + d2 raised", lambda: I.exc_text(r[1]), r[2]):
            return
        verdict(I, ctx, r[1], v, lambda: I.py("conforms(without_custom(d), v)", d=lift(want), v=v), "d1 + d2")
        for w, s in zip(before, (a, b)):
            ctx.check(I.py("unchanged(a, observe(s))", a=w, s=s), "d1 + d2 changed an operand")
        for k, m, o in ents.values():
            g = I.attempt("s[k]", s=r[1], k=k)
            if ctx.check(g[0] == "ok", "(d1 + d2)[key] raised", lambda: I.exc_text(g[1]), g[2]):
                ctx.check(I.c(g[1]) is I.c(m["m"]), "(d1 + d2)[key] is not the declared member")
    return fn


def required(opts, rel, listed, how):
    def fn(I, ctx):
        ks = [key(f"k{i}") for i in range(len(opts))]
        d = table(I, "M", ks, opts, rel)
        s = I.py("build(d)", d=lift(d))
        before = I.py("observe(s)", s=s)
        picked = ks if listed is None else [ks[i] for i in listed]
        arg = {"default": None, "list": ListObj(picked), "tuple": tuple(picked), "set": SetObj(list(picked))}[how]
        v = choose_dict(I, "v", ks, [key("x")])
        ctx.inputs.update(schema=lift(d), keys=arg, value=v)
        r = I.attempt("make_required(s)" if how == "default" else "make_required(s, ks)", s=s, ks=arg)
        if not ctx.check(r[0] == "ok", "make_required raised", lambda: I.exc_text(r[1]), r[2]):
            return
        want = D("dict", entries=[(k, m, o and not any(k is p for p in picked)) for k, m, o in d["entries"]], relaxed=rel)
        verdict(I, ctx, r[1], v, lambda: I.py("conforms(without_custom(d), v)", d=lift(want), v=v), "make_required")
        ctx.check(I.py("unchanged(a, observe(s))", a=before, s=s), "make_required changed the schema")
    return fn


def required_free(how):
    def fn(I, ctx):
        s = I.py("schema.dict")
        v = Sym("v", VAL)
        ctx.inputs.update(value=v)
        r = I.attempt("make_required(s)" if how == "default" else "make_required(s, [])", s=s)
        if ctx.check(r[0] == "ok", "make_required raised", lambda: I.exc_text(r[1]), r[2]):
            verdict(I, ctx, r[1], v, lambda: I.py("isinstance(v, dict)", v=v), "make_required of a free dict")
        q = I.attempt("make_required(s, ['a'])", s=s)
        ctx.check(q[0] == "exc" and I.is_a(q[1], "DeclarationError"), "make_required accepts an unknown key")
    return fn


def required_unknown(rel):
    def fn(I, ctx):
        d = table(I, "M", [key("k0"), key("k1")], [True, False], rel)
        s = I.py("build(d)", d=lift(d))
        q = I.attempt("make_required(s, ks)", s=s, ks=ListObj([key("x")]))
        ctx.inputs.update(schema=lift(d))
        ctx.check(q[0] == "exc" and I.is_a(q[1], "DeclarationError"), "make_required accepts an unknown key")
    return fn


def alias(name, nest):
    def fn(I, ctx):
        d = OPS[name](I, "A")
        for _ in range(nest):
            d = D("alias", type=d)
        t = I.py("build(d)", d=lift(d))
        s = I.py("schema.alias('t', t)", t=t)
        v = Sym("v", VAL)
        ctx.inputs.update(target=lift(d), value=v)
        verdict(I, ctx, s, v, lambda: I.py("conforms(without_custom(d), v)", d=lift(d), v=v), "alias")
    return fn


def members(opts, rel, odd=False):
    def fn(I, ctx):
        ks = [key(f"k{i}") for i in range(len(opts))] if not odd else (ODD_KEYS[odd:] + ODD_KEYS[:odd])[:len(opts)]
        d = table(I, "M", ks, opts, rel)
        s = I.py("build(d)", d=lift(d))
        ctx.inputs.update(schema=lift(d))
        for k, m, o in d["entries"]:
            g = I.attempt("s[k]", s=s, k=k)
            if ctx.check(g[0] == "ok", "d[key] raised", lambda: I.exc_text(g[1]), g[2]):
                ctx.check(I.c(g[1]) is I.c(m["m"]), "d[key] is not the declared member", lambda: show(g[1]))
        for bad in (key("x"), ...):
            g = I.attempt("s[k]", s=s, k=bad)
            ctx.check(g[0] == "exc" and I.exc_name(g[1]) == "KeyError", "d[key] of an undeclared key does not raise KeyError",
                      lambda: show(g[1]) if g[0] == "ok" else I.exc_text(g[1]), g[2])
        for e in ("[*s]", "[*s.keys()]"):
            it = I.attempt(e, s=s)
            if ctx.check(it[0] == "ok", f"{e} raised", lambda: I.exc_text(it[1]), it[2]):
                got = [x for x in I.iterate(it[1]) if x is not ...]
                ctx.check([keyof(x) for x in got] == [keyof(k) for k in ks],
                          f"{e} does not yield the declared keys in order", lambda: show(it[1]))
    return fn


def free_members(I, ctx):
    s = I.py("schema.dict")
    ctx.check(len(list(I.iterate(I.py("[*s]", s=s)))) == 0, "iterating a free dict yields keys")
    g = I.attempt("s['a']", s=s)
    ctx.check(g[0] == "exc" and I.exc_name(g[1]) == "KeyError", "d[key] of a free dict does not raise KeyError")
    ctx.check(len(list(I.iterate(I.py("[*s]", s=I.py("schema.any"))))) == 0, "iterating a free any yields alternatives")


def alternatives(n):
    def fn(I, ctx):
        ms = [I.member(f"A{i}") for i in range(n)]
        s = I.py("schema.any(*ms)", ms=ListObj(ms))
        it = list(I.iterate(I.py("[*s]", s=s)))
        ctx.check(len(it) == n and all(I.c(a) is b for a, b in zip(it, ms)), "iterating any does not yield its alternatives")
    return fn


def far(count, pre, opt, kinds=("member",)):
    """A table of many keys: names that are told apart only by their ends, lengths and types."""
    out = []
    for i in range(count):
        k = [f"key{i}", f"{'x' * (i % 7)}{i}", i, (pre, i), f"KEY{i}", i * 1.5 + 0.25][i % 6]
        out.append((k, D("int", value=i), bool(opt(i))))
    return out


def swapped(entries, at, what):
    return [(k, what if i == at else m, o) for i, (k, m, o) in enumerate(entries)]


def good(entries):
    return [[k, m["value"]] for k, m, o in entries]


def wide_merge(n, m, shared, at):
    """Sums of wide tables; the value departs from the right one at one place."""
    def fn(I, ctx):
        left = far(n, "L", lambda i: i % 3 == 0)
        right = [(k, D("int", value=1000 + i), i % 2 == 0) for i, (k, _, _) in enumerate(left[:shared])]
        right += [((k, "R"), s, o) for k, s, o in far(m - shared, "R", lambda i: i % 4 == 1)]
        ents = {keyof(k): (k, s, o) for k, s, o in left}
        ents.update({keyof(k): (k, s, o) for k, s, o in right})
        want = list(ents.values())
        a, b = (I.py("build(d)", d=lift(D("dict", entries=e, relaxed=None))) for e in (left, right))
        before = [I.py("observe(s)", s=s) for s in (a, b)]
        r = I.attempt("a + b", a=a, b=b)
        ctx.inputs.update(left=n, right=m, shared=shared, at=at)
        if not ctx.check(r[0] == "ok", "d1 + d2 raised", lambda: I.exc_text(r[1]), r[2]):
            return
        v = good(want)
        how = choose(I, ["whole", "wrong", "absent", "extra", "optional absent"], "value")
        if how == "wrong":
            v[at][1] = -1
        elif how == "absent":
            del v[at]
        elif how == "extra":
            v.append(["unknown", 0])
        elif how == "optional absent":
            v = [p for p, e in zip(v, want) if not e[2]]
        ctx.inputs["value"] = how
        v = DictObj(v)
        verdict(I, ctx, r[1], v, lambda: I.py("conforms(d, v)", d=lift(D("dict", entries=want, relaxed=None)), v=v), "d1 + d2")
        for w, s in zip(before, (a, b)):
            ctx.check(I.py("unchanged(a, observe(s))", a=w, s=s), "d1 + d2 changed an operand")
        g = I.attempt("s[k].props.value", s=r[1], k=want[at][0])
        if ctx.check(g[0] == "ok", "(d1 + d2)[key] raised", lambda: I.exc_text(g[1]), g[2]):
            ctx.check(I.truth(I.py("a == b", a=g[1], b=want[at][1]["value"])), "(d1 + d2)[key] is not the declared member")
    return fn


def wide_required(n, listed, at, how):
    def fn(I, ctx):
        ents = far(n, "L", lambda i: i % 5 != 1)
        d = D("dict", entries=ents, relaxed="last" if n % 2 else None)
        s = I.py("build(d)", d=lift(d))
        before = I.py("observe(s)", s=s)
        picked = [ents[i][0] for i in listed]
        arg = {"list": ListObj(picked), "tuple": tuple(picked), "set": SetObj(list(picked))}.get(how)
        ctx.inputs.update(keys=n, listed=show(arg) if arg is not None else "default", absent=at)
        r = I.attempt("make_required(s)" if how == "default" else "make_required(s, ks)", s=s, ks=arg)
        if not ctx.check(r[0] == "ok", "make_required raised", lambda: I.exc_text(r[1]), r[2]):
            return
        names = set(range(n)) if how == "default" else set(listed)
        want = D("dict", entries=[(k, m, o and i not in names) for i, (k, m, o) in enumerate(ents)], relaxed=d["relaxed"])
        v = [p for i, p in enumerate(good(ents)) if i != at]
        v = DictObj(v)
        verdict(I, ctx, r[1], v, lambda: I.py("conforms(d, v)", d=lift(want), v=v), "make_required")
        ctx.check(I.py("unchanged(a, observe(s))", a=before, s=s), "make_required changed the schema")
        q = I.attempt("make_required(s, ks)", s=s, ks=ListObj(picked + ["no such key"]))
        ctx.check(q[0] == "exc" and I.is_a(q[1], "DeclarationError"), "make_required accepts an unknown key",
                  lambda: show(q[1]), q[2])
    return fn


def wide_members(n):
    def fn(I, ctx):
        ents = far(n, "L", lambda i: i % 3 == 0)
        s = I.py("build(d)", d=lift(D("dict", entries=ents, relaxed=None)))
        ctx.inputs.update(keys=n)
        for k, m, o in ents:
            g = I.attempt("s[k].props.value", s=s, k=k)
            if ctx.check(g[0] == "ok", "d[key] raised", lambda: I.exc_text(g[1]), g[2]):
                ctx.check(I.truth(I.py("a == b", a=g[1], b=m["value"])), "d[key] is not the declared member", lambda: f"at {k!r}")
        it = I.attempt("[*s]", s=s)
        if ctx.check(it[0] == "ok", "[*s] raised", lambda: I.exc_text(it[1]), it[2]):
            ctx.check([keyof(x) for x in I.iterate(it[1])] == [keyof(k) for k, _, _ in ents], "[*s] does not yield the declared keys in order")
        for bad in ("key1 ", n + 1000, ("L",), None, ...):
            g = I.attempt("s[k]", s=s, k=bad)
            ctx.check(g[0] == "exc" and I.exc_name(g[1]) == "KeyError", "d[key] of an undeclared key does not raise KeyError",
                      lambda: f"at {bad!r}", g[2])
    return fn


def chain(n, expr, at):
    """A union of many: one by one from the left, from the right, at once, halves of halves, through aliases."""
    def fn(I, ctx):
        ms = [I.py("schema.int(i)", i=i) for i in range(n)]
        pair = lambda a, b: I.py("a | b", a=a, b=b)
        if expr == "left":
            s = ms[0]
            for m in ms[1:]:
                s = pair(s, m)
        elif expr == "right":
            s = ms[-1]
            for m in ms[-2::-1]:
                s = pair(m, s)
        elif expr == "at once":
            s = I.py("schema.any(*ms)", ms=ListObj(ms))
        elif expr == "halves":
            row = list(ms)
            while len(row) > 1:
                row = [pair(*row[i:i + 2]) if i + 1 < len(row) else row[i] for i in range(0, len(row), 2)]
            s = row[0]
        else:
            s = ms[0]
            for m in ms[1:]:
                s = I.py("schema.any(m, schema.alias('t', s))", s=s, m=m) if expr == "aliases" else I.py("schema.any(s, m)", s=s, m=m)
        v = n if at is None else at
        ctx.inputs.update(parts=n, form=expr, value=v)
        verdict(I, ctx, s, v, lambda: at is not None, f"union of {n}, {expr}")
        if expr in ("at once",):
            it = list(I.iterate(I.py("[*s]", s=s)))
            ctx.check(len(it) == n and all(I.c(a) is I.c(b) for a, b in zip(it, ms)), "iterating any does not yield its alternatives")
    return fn


def tower(n, top, v):
    """n combinators around one another, of every kind in turn."""
    def fn(I, ctx):
        d, x = D("int", value=7), v
        for i in range(n):
            kind = ["any", "alias", "dict", "list", "exact", "sum"][(i + top) % 6]
            if kind == "any":
                d = any_of(D("str", value="no"), d)
            elif kind == "alias":
                d = D("alias", type=d)
            elif kind in ("dict", "sum"):
                d = D("dict", entries=[("k", d, False), ("o", D("none"), True)], relaxed=None)
                x = DictObj([["k", x]])
            else:
                d = D("list", form="typed", type=d) if kind == "list" else D("list", form="exact", els=[d])
                x = ListObj([x])
        s = I.py("build(d)", d=lift(d))
        ctx.inputs.update(schema=lift(d), value=x)
        want = lambda: I.py("conforms(d, v)", d=lift(d), v=x)
        verdict(I, ctx, s, x, want, f"{n} nested combinators")
        verdict(I, ctx, I.py("schema.str('no') | s", s=s), x, want, f"str | {n} nested combinators")
        verdict(I, ctx, I.py("schema.alias('t', s)", s=s), x, want, f"alias of {n} nested combinators")
        if d["t"] == "dict":
            verdict(I, ctx, I.py("s + schema.dict({})", s=s), x, want, f"{n} nested combinators + {{}}")
            verdict(I, ctx, I.py("schema.dict({}) + s", s=s), x, want, f"{{}} + {n} nested combinators")
            verdict(I, ctx, I.py("make_required(s, ['k'])", s=s), x, want, f"make_required of {n} nested combinators")
    return fn


def odd_required(at, rel):
    def fn(I, ctx):
        ks = (ODD_KEYS[at:] + ODD_KEYS[:at])[:4]
        ents = [(k, D("int"), True) for k in ks]
        d = D("dict", entries=ents, relaxed=rel)
        s = I.py("build(d)", d=lift(d))
        picked = choose(I, [[ks[0]], [ks[1], ks[2]], ks, None], "listed keys")
        gone = choose(I, [None, 0, 1, 3], "absent key")
        v = DictObj([[k, 1] for i, k in enumerate(ks) if i != gone])
        ctx.inputs.update(schema=lift(d), keys=show(ListObj(picked)) if picked else "default", value=v)
        r = I.attempt("make_required(s, ks)", s=s, ks=ListObj(picked) if picked else None)
        if not ctx.check(r[0] == "ok", "make_required raised", lambda: I.exc_text(r[1]), r[2]):
            return
        need = [keyof(k) for k in (picked or ks)]
        want = D("dict", entries=[(k, m, keyof(k) not in need) for k, m, o in ents], relaxed=rel)
        verdict(I, ctx, r[1], v, lambda: I.py("conforms(d, v)", d=lift(want), v=v), "make_required")
    return fn


def odd_merge(at, rel):
    def fn(I, ctx):
        ks = (ODD_KEYS[at:] + ODD_KEYS[:at])[:4]
        a = [(k, D("int", value=0), False) for k in ks[:3]]
        b = [(ks[1], D("none"), True), (ks[3], D("none"), False)]
        want = D("dict", entries=[a[0], b[0], a[2], b[1]], relaxed=rel)
        x, y = (I.py("build(d)", d=lift(D("dict", entries=e, relaxed=w))) for e, w in ((a, None), (b, rel)))
        v = choose(I, [[0, None, 0, None], [0, 0, 0, None], [0, ..., 0, None], [0, None, 0, ...], [..., None, 0, None], [0, None, 0, 0]], "value")
        v = DictObj([[k, m] for k, m in zip(ks, v) if m is not ...] + ([["extra key", 1]] if choose(I, [0, 1], "extra key") else []))
        ctx.inputs.update(keys=show(ListObj(ks)), value=v)
        r = I.attempt("a + b", a=x, b=y)
        if ctx.check(r[0] == "ok", "d1 + d2 raised", lambda: I.exc_text(r[1]), r[2]):
            verdict(I, ctx, r[1], v, lambda: I.py("conforms(d, v)", d=lift(want), v=v), "d1 + d2")
    return fn


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for a, b in itertools.product(OPS, OPS):
        out.append(("union", f"{a} | {b}", union([a, b], "a | b"), {}))
        out.append(("union", f"any({a}, {b})", union([a, b], "schema.any(a, b)"), {}))
    some = list(OPS) if deep else ["member", "free", "union", "alias"]
    for a, b, c in itertools.product(some, some, some):
        if not deep and len({a, b, c} - {"member"}) > 2:
            continue
        for e in ("a | b | c", "a | (b | c)", "schema.any(a, b, c)", "schema.any(a, schema.any(b, c))",
                  "schema.alias('n', a | b) | c")[:5 if deep else 4]:
            out.append(("union", f"{e} of {a}, {b}, {c}", union([a, b, c], e), {}))
    N = 3
    for n1, n2 in itertools.product(range(N), range(N)):
        for o1 in itertools.product((0, 1), repeat=n1):
            for o2 in itertools.product((0, 1), repeat=n2):
                for sh in range(0, min(n1, n2) + 1):
                    for r1, r2 in itertools.product((None, "last"), (None, "last")):
                        if not deep and n1 + n2 == 4 and (sh != 1 or (r1 or r2) and (o1 != (0, 1) or o2 == (0, 0))):
                            continue
                        out.append(("merge", f"{o1} + {o2}, {sh} shared, relaxed {bool(r1)}/{bool(r2)}",
                                    merge(o1, o2, r1, r2, sh), {}))
    for r in (None, "last", "first"):
        for o in ((0,), (1,), (0, 1)):
            out.append(("merge", f"free + {o} relaxed {r}", merge((), o, None, r, 0, "left"), {}))
            out.append(("merge", f"{o} + free relaxed {r}", merge(o, (), r, None, 0, "right"), {}))
            out.append(("merge", f"first {o} + {o} relaxed {r}", merge(o, o, "first", r, 1), {}))
    for n in range(0, 4):
        for opts in itertools.product((0, 1), repeat=n):
            for rel in (None, "last"):
                out.append(("members", f"{opts} relaxed {bool(rel)}", members(opts, rel), {}))
                out.append(("members", f"{opts} unusual keys, relaxed {bool(rel)}", members(opts, rel, 1 + sum(opts) * 9 + 3 * n + bool(rel)), {}))
                out.append(("required", f"{opts} default, relaxed {bool(rel)}", required(opts, rel, None, "default"), {}))
                for m in range(1 << n):
                    listed = [i for i in range(n) if m >> i & 1]
                    for how in ("list", "tuple", "set"):
                        if n < 3 or deep or how == "set":
                            out.append(("required", f"{opts} keys {listed} as {how}, relaxed {bool(rel)}",
                                        required(opts, rel, listed, how), {}))
    for k1, k2 in itertools.product(KINDS, KINDS):
        few = {"keys", "other keys", "relaxed", "any of", "exact"}
        if deep or {k1, k2} <= few or k1 == k2:
            for opts, rel in (((0, 0, 0, 0), (None, None)), ((0, 1, 0, 0), (None, None)), ((1, 0, 1, 1), ("last", None)),
                              ((0, 1, 1, 0), (None, "first")))[:4 if deep or k1 == k2 else 2]:
                out.append(("merge", f"{k1} + {k2} on one key {opts} {rel}", merge_kinds(k1, k2, opts, rel), {}))
        if deep or k1 == k2 or "custom" in (k1, k2) or {k1, k2} <= few:
            out.append(("union", f"kinds any({k1}, {k2})", union_of_kinds(k1, k2, "schema.any(a, b)"), {}))
            out.append(("union", f"kinds {k1} | {k2}", union_of_kinds(k1, k2, "a | b"), {}))
    for kind in KINDS:
        for opts, listed in (((1, 1), (0,)), ((1, 1), (1,)), ((1, 1), None), ((1, 0), (1,)), ((1, 1), ())):
            for rel in (None, "last"):
                if rel is None or deep or listed == (1,):
                    out.append(("required", f"{kind} member {opts} keys {listed} relaxed {bool(rel)}",
                                required_kinds(kind, None, opts, listed, rel), {}))
        out.append(("required", f"two {kind} members, one listed", required_kinds(kind, kind, (1, 1), (0,), None), {})
                   ) if deep or kind in ("any", "any of", "free dict", "alias", "typed") else None
        for opt in (0, 1):
            out.append(("members", f"{kind} member {opt}", members_kinds(kind, opt, None if opt else "last"), {}))
    for how in ("default", "empty"):
        out.append(("required", f"free dict {how}", required_free(how), {}))
    for rel in (None, "last"):
        out.append(("required", f"unknown key, relaxed {bool(rel)}", required_unknown(rel), {}))
    for n in OPS:
        for k in range(3):
            out.append(("alias", f"{n}, {k} more aliases", alias(n, k), {}))
    out.append(("members", "free", free_members, {}))
    for n in range(1, 4):
        out.append(("members", f"any of {n}", alternatives(n), {}))
    for n, m, sh in ((33, 1, 1), (1, 33, 1), (33, 33, 0), (33, 33, 17), (33, 33, 33)) + (((120, 120, 60), (257, 3, 2)) if deep else ()):
        total = n + m - sh
        for at in sorted({0, sh - 1 if sh else 0, n - 1, total - 1} | ({total // 2, 15, 16, 31} if deep else set())):
            if 0 <= at < total:
                out.append(("merge", f"wide {n} + {m} keys, {sh} shared, at {at}", wide_merge(n, m, sh, at), {}))
    for n in (33, 34) + ((200,) if deep else ()):
        for how, listed in (("list", (0, n - 1)), ("tuple", tuple(range(n))), ("set", tuple(range(1, n, 2))),
                            ("default", ()), ("list", ())):
            for at in (None, 0, n - 1) + ((1, n // 2) if deep else ()):
                out.append(("required", f"wide {n} keys, {len(listed)} listed as {how}, {at} absent",
                            wide_required(n, listed, at, how), {}))
        out.append(("members", f"wide {n}", wide_members(n), {}))
    for at in range(0, len(ODD_KEYS), 4):
        for rel in (None, "last"):
            out.append(("members", f"keys of every kind from {at}, relaxed {bool(rel)}", members((0, 1, 0, 1), rel, at or 1), {}))
            out.append(("required", f"keys of every kind from {at}, relaxed {bool(rel)}", odd_required(at, rel), {}))
            out.append(("merge", f"keys of every kind from {at}, relaxed {bool(rel)}", odd_merge(at, rel), {}))
    for n in (8, 33) + ((100,) if deep else ()):
        for expr in ("left", "right", "at once", "halves", "aliases", "pairs"):
            if n > 33 and expr not in ("at once", "halves"):
                continue
            for at in (None, 0, n // 2, n - 1):
                out.append(("union", f"chain of {n}, {expr}, value {at}", chain(n, expr, at), {}))
    for n in (6, 9, 14) + ((24,) if deep else ()):
        for top in range(6):
            for v in (7, 8):
                out.append(("alias", f"tower of {n}, {top}, value {v}", tower(n, top, v), {}))
    return out
