"""C05: substitution only narrows."""
from .lib import *   # noqa
from .subst import cases, each

RULES = {"narrow": "if S % v is defined, every value S % v accepts conforms to S (interpreted validator of S % v against the "
                   "interpreted reference semantics and the interpreted validator of S)"}
EXPLANATION = """
Abstract interpretation of d42/substitution and d42/validation from source.  Each schema form is declared with unknown
parameters, an unknown plain value v is substituted, and on the paths where that succeeds a second unknown value w is
validated against the result; where the result accepts w, the description of the original schema must accept it.  Members
are opaque schemas whose own substitution is assumed to narrow (structural induction over nesting).
"""


def narrow(desc, value):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I, "v")
        ctx.inputs.update(schema=d, substituted=v)
        r = I.attempt("s % v", s=s, v=v)
        if r[0] == "exc":
            return
        for w in each(value(I, "w")):
            narrower(I, ctx, d, s, r[1], w)
    return fn


def narrower(I, ctx, d, s, r, w):
    ctx.inputs["w"] = w
    g = I.attempt("validate(r, w).has_errors()", r=r, w=w)
    if g[0] == "exc" or I.truth(g[1]):
        return
    ctx.check(I.truth(I.py("conforms(d, w)", d=d, w=w)), "the substituted schema accepts what the original rejects",
              lambda: f"result {show(I.py('observe(r)', r=r))[:300]}")
    o = I.attempt("validate(s, w).has_errors()", s=s, w=w)
    if o[0] == "ok":
        ctx.check(not I.truth(o[1]), "the original schema reports errors on a value the substituted one accepts")


def scenarios(tier):
    return [("narrow", n, narrow(d, v), o) for n, d, v, o in cases(tier == "thorough")]
