"""C03: every reported error is true, points at its sub-value, and its message names the path."""
from .lib import *   # noqa
from .grid import grid

RULES = {
    "validate": "for every error of validate(S, v): following its path from v reaches the reported actual value (the "
                "same value), the stated fact holds for that sub-value and the declared parameter at that position, "
                "and Formatter names the path",
    "substitution": "the same for the errors of the validator used by substitution",
}
EXPLANATION = """
Abstract interpretation of the validator over the schema forms of rules/grid.py with unknown parameters and values.  On
each abstract path every error object is inspected: its path operators are applied to the root value, the result must be
the very value the error holds, the fact it states must hold under the path's facts (rules/model.py: fact), and the text
produced by the interpreted Formatter must contain the rendered path.  Opaque members record the path object they were
given without copying, so a later mutation of a shared path is visible.
"""


def errors_true(desc, value, sub):
    run = "s.__accept__(SubstitutorValidator(), value=v)" if sub else "validate(s, v)"

    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I)
        ctx.inputs.update(schema=d, value=v)
        r = I.attempt(run + ".get_errors()", s=s, v=v)
        if r[0] == "exc":
            ctx.note("raised (see C08)")
            return
        errs = list(I.iterate(r[1]))
        if not errs:
            ctx.check(True, "no errors")
        for e in errs:
            kind = I.exc_name(e) if isinstance(e, Obj) else show(e)
            f = I.attempt("follow(v, e.path)", v=v, e=e)
            where = I.py("repr(e.path)", e=e)
            det = lambda: f"{kind} with path {show(where)}, actual value {show(I.py('e.actual_value', e=e))}"
            if not ctx.check(f[0] == "ok", f"{kind}: the path can not be followed from the value", det):
                continue
            if not ctx.check(I.py("same(a, e.actual_value)", a=f[1], e=e),
                             f"{kind}: the path does not lead to the reported value", det):
                continue
            keys = I.attempt("[op.operand for op in e.path]", e=e)
            nodes = I.attempt("declared_at(d, v, ks)", d=d, v=v, ks=keys[1])
            if nodes[0] == "exc":
                ctx.check(False, f"{kind}: the path names a position that is not declared", det)
                continue
            t = I.attempt("true_of_some(n, a, e, p)", n=nodes[1], a=f[1], e=e, p=sub)
            ctx.check(t[0] == "ok" and I.truth(t[1]), f"{kind}: the stated fact is not true of the sub-value", det)
            if I.is_a(e, "MemberError"):
                continue
            m = I.attempt("e.format(Formatter())", e=e)
            if m[0] == "exc":
                ctx.note("formatting raised (see C08)")
                continue
            ctx.check(I.py("path_text(e) in m", e=e, m=m[1]), f"{kind}: the message does not name the path",
                      lambda: f"message {show(I.c(m[1]))}, path {show(I.py('path_text(e)', e=e))}")
    return fn


def scenarios(tier):
    out = []
    for name, desc, value, opt in grid(tier == "thorough"):
        if name.startswith("float constants"):
            continue
        out.append(("validate", name, errors_true(desc, value, False), opt))
        if name.startswith(("list", "dict", "depth", "any", "opaque")) or " as " in name:
            if tier == "thorough" or not name.startswith("list contains 3"):
                out.append(("substitution", name, errors_true(desc, value, True), opt))
    return out
