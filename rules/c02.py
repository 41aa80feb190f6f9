"""C02: the validator's verdict is the meaning of the schema."""
from .lib import *   # noqa
from .grid import grid

RULES = {
    "verdict": "on every abstract path, `validate(S, v)` has no errors if and only if the reference semantics of the "
               "declared constraints accepts v (both interpreted over the same facts)",
}
EXPLANATION = """
Abstract interpretation of d42/validation (with declaration and dependencies) from source.  For each schema form the
schema is declared with unknown parameters, members are opaque schemas known only through a predicate ok(member, value),
and the value is an unknown over every kind of Python value.  On every abstract path the verdict of the interpreted
validator is compared with the interpreted reference semantics rules/model.py.
"""
ASSUMPTIONS = [
    "containers of unknown shape are enumerated up to the stated sizes; members inside them are arbitrary schemas, so "
    "deeper nesting follows by structural induction",
    "float arithmetic is value-numbered: comparisons over rounded terms give no violation",
]


def verdict(desc, value, pre=None):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I)
        ctx.inputs.update(schema=d, value=v)
        r = I.attempt("validate(s, v).has_errors()", s=s, v=v)
        want = I.py("conforms(d, v)", d=d, v=v)
        if r[0] == "exc":
            ctx.check(False, f"validate raised {I.exc_name(r[1])} instead of giving a verdict",
                      lambda: f"{I.exc_text(r[1])} on a value that {'conforms' if want else 'does not conform'}",
                      r[2])
            return
        got = not I.truth(r[1])
        ctx.check(got == want, "accepts a non-conforming value" if got else "rejects a conforming value",
                  lambda: f"schema {I.show_desc(d)}")
    return fn


def scenarios(tier):
    return [("verdict", name, verdict(desc, value), opt) for name, desc, value, opt in grid(tier == "thorough")]
