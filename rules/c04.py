"""C04: substitution pins the given value into the schema."""
from .lib import *   # noqa
from .subst import cases, each

RULES = {
    "carries": "if S % v is defined, every value S % v accepts carries v at the positions v names",
    "generates": "if S % v is defined, every value generated from S % v carries v at the positions v names",
    "own": "if S % v is defined and v conforms to S, then S % v accepts v",
    "rest": "keys of a declared dict that v does not name keep their schema and optionality",
}
EXPLANATION = """
Abstract interpretation of d42/substitution, d42/validation and d42/generation from source.  Each schema form is declared
with unknown parameters and an unknown plain value v is substituted.  carries: a second unknown value w is validated against
the result, and where it is accepted rules/model.py:carries must hold of (v, w); the same for the value generated from the
result, with every random draw unknown.  own: where v conforms to the description, the result must accept v.  rest: the
unnamed keys of the result hold the same member and flag.  Opaque members supply the induction hypothesis for nesting.
"""


def carries(desc, value):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I, "v")
        ctx.inputs.update(schema=d, substituted=v)
        r = I.attempt("s % v", s=s, v=v)
        if r[0] == "exc":
            return
        for w in each(value(I, "w")):
            ctx.inputs["w"] = w
            g = I.attempt("validate(r, w).has_errors()", r=r[1], w=w)
            if g[0] == "exc" or I.truth(g[1]):
                continue
            ctx.check(I.truth(I.py("carries(d, v, w)", d=d, v=v, w=w)), "the substituted schema accepts a value without the data",
                      lambda: f"result {show(I.py('observe(r)', r=r[1]))[:300]}")
    return fn


def own(desc, value):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I, "v")
        ctx.inputs.update(schema=d, substituted=v)
        r = I.attempt("s % v", s=s, v=v)
        if r[0] == "exc":
            return
        if I.truth(I.py("conforms(d, v)", d=d, v=v)):
            q = I.attempt("validate(r, v).has_errors()", r=r[1], v=v)
            if ctx.check(q[0] == "ok", "validating the substituted value raised", lambda: I.exc_text(q[1]), q[2]):
                ctx.check(not I.truth(q[1]), "the substituted schema rejects the conforming value it was made from",
                          lambda: f"result {show(I.py('observe(r)', r=r[1]))[:300]}")
        dd = d
        while get(dd, "t") == "alias":
            dd = get(dd, "type")
            r = (r[0], I.py("r.props.type", r=r[1]))
        if get(dd, "t") == "dict" and get(dd, "entries") is not None:
            rest(I, ctx, dd, s, v, r[1])
    return fn


def generates(desc, value):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I, "v")
        ctx.inputs.update(schema=d, substituted=v)
        r = I.attempt("s % v", s=s, v=v)
        if r[0] == "exc":
            return
        gen = I.attempt("fake(r)", r=r[1])
        if gen[0] == "exc":
            return      # C12
        ctx.inputs["generated"] = gen[1]
        ctx.check(I.truth(I.py("carries(d, v, w)", d=d, v=v, w=gen[1])), "the substituted schema generates a value without "
                  "the data", lambda: f"result {show(I.py('observe(r)', r=r[1]))[:300]}")
    return fn


def get(d, k):
    for e in d.entries:
        if e[0] == k:
            return e[1]


def rest(I, ctx, d, s, v, r):
    v = I.c(v)
    if not isinstance(v, DictObj):
        return
    for k, m, o in [I.iterate(e) if not isinstance(e, tuple) else e for e in get(d, "entries").items]:
        if I.truth(I.py("k in v", k=k, v=v)) or len(I.py("r.props.keys", r=r).entries) == 0:
            continue
        got = I.attempt("r.props.keys[k]", r=r, k=k)
        if ctx.check(got[0] == "ok", "an unnamed key is lost", lambda: f"key {show(k)}"):
            ctx.check(I.truth(I.py("unchanged(observe(g[0]), observe(build(m)))", g=got[1], m=m)),
                      "an unnamed key has another schema", lambda: f"key {show(k)}")
            ctx.check(I.truth(I.py("g[1]", g=got[1])) == bool(o), "an unnamed key has another optionality",
                      lambda: f"key {show(k)}")
    if get(d, "relaxed"):
        ctx.check(I.truth(I.py("... in r.props.keys", r=r)), "a relaxed dict is no longer relaxed")


def scenarios(tier):
    out = []
    for n, d, v, o in cases(tier == "thorough"):
        out.append(("carries", n, carries(d, v), o))
        out.append(("own", n, own(d, v), o))
        if tier == "thorough" or n not in ("typed in dict", "typed in optional", "typed in relaxed"):
            out.append(("generates", n, generates(d, v), o))
    return out
