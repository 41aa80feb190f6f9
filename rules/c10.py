"""C10: a declaration raises DeclarationError or yields a self-consistent schema."""
import itertools
from .lib import *   # noqa
from .decl import STEPS, slot

RULES = {
    "clean": "a declaration call with arguments of any kind returns a schema or raises DeclarationError, and shows the "
             "receiver unchanged",
    "consistent": "a returned schema with a fixed value (or a fully fixed element list) accepts that value",
    "again": "declaring an already declared property raises DeclarationError",
}
EXPLANATION = """
Exception-escape analysis and abstract interpretation of the declaration chains.  clean: every refinement of every type,
on a fresh receiver and after each other refinement, with arguments of all 31 kinds (element lists and key tables mix
members, markers and arbitrary values).  consistent: chains of refinements with unknown arguments of the expected kinds;
when the chain returns and a value is fixed, both the interpreted validator and the reference semantics must accept the
value under the facts of that path.  again: every refinement repeated, with up to one other refinement in between.
"""


def outcome(I, ctx, step, s, args, where):
    before = I.py("observe(s)", s=s)
    r = step.apply(I, s, args)
    if r[0] == "exc":
        ctx.check(I.is_a(r[1], "DeclarationError"), f"{where} raised {I.exc_name(r[1])}", lambda: I.exc_text(r[1]), r[2])
    else:
        ctx.check(I.isinstance(r[1], I.scen.ns["Schema"]), f"{where} returned something other than a schema",
                  lambda: show(r[1]))
    ctx.check(I.py("unchanged(a, observe(s))", a=before, s=s), f"{where} changed its receiver")
    return r


def clean(kind, before, step):
    def fn(I, ctx):
        s = I.py(f"schema.{kind}")
        for i, b in enumerate(before):
            a = b.make(I, str(i))
            r = b.apply(I, s, a)
            if r[0] == "exc":
                ctx.check(I.is_a(r[1], "DeclarationError"), f"schema.{kind} {b.label} raised {I.exc_name(r[1])}",
                          lambda: I.exc_text(r[1]), r[2])
                return
            ctx.inputs[f"{i}: {b.label}"] = DictObj([[k, v] for k, v in a.items()])
            s = r[1]
        a = step.make(I, "", wrong=True)
        ctx.inputs[step.label] = DictObj([[k, v] for k, v in a.items()])
        r = outcome(I, ctx, step, s, a, f"schema.{kind} {step.label}")
        if r[0] == "ok" and I.isinstance(r[1], I.scen.ns["Schema"]):
            accepts(I, ctx, r[1])
    return fn


def constants(kind, before, expr, consts):
    def fn(I, ctx):
        s = I.py(before)
        a = {n: choose(I, c, n) for n, c in consts.items()}
        ctx.inputs.update(receiver=before, call=expr, **a)
        r = I.attempt(expr, s=s, **a)
        if r[0] == "exc":
            ctx.check(I.is_a(r[1], "DeclarationError"), f"schema.{kind} raised {I.exc_name(r[1])}",
                      lambda: I.exc_text(r[1]), r[2])
            return
        ctx.check(I.isinstance(r[1], I.scen.ns["Schema"]), "no schema returned")
        accepts(I, ctx, r[1])
    return fn


def accepts(I, ctx, s, d=None):
    if not I.truth(I.py("s.props.get('value') is not Nil", s=s)):
        return
    v = I.py("s.props.get('value')", s=s)
    r = I.attempt("validate(s, v).get_errors()", s=s, v=v)
    if r[0] == "exc":
        ctx.note("validate raised (see C08)")
        return
    ctx.check(len(r[1].items) == 0, "the fixed value does not conform to its own schema",
              lambda: f"value {show(v)}, errors {', '.join(I.exc_name(e) for e in r[1].items)}")
    if d is not None:
        ctx.check(I.py("conforms(d, v)", d=d, v=d.get("value", v)), "the fixed value contradicts a declared constraint",
                  lambda: f"value {show(v)}")


def get(d, k):
    for e in d.entries:
        if e[0] == k:
            return e[1]


def consistent(kind, steps):
    def fn(I, ctx):
        s = I.py(f"schema.{kind}")
        d = {"t": kind}
        for i, st in enumerate(steps):
            a = st.make(I, str(i))
            ctx.inputs[f"{i}: {st.label}"] = DictObj([[k, v] for k, v in a.items()])
            r = outcome(I, ctx, st, s, a, f"schema.{kind} {st.label}")
            if r[0] == "exc":
                return
            s = r[1]
            st.describe(d, a)
        if "value" in d:
            dd = lift(d)
            v = d["value"]
            have = I.py("s.props.get('value')", s=s)
            ctx.check(I.py("same(a, b)", a=have, b=v), "the returned schema does not hold the given value",
                      lambda: f"{show(have)} instead of {show(v)}")
            accepts(I, ctx, s)
            ctx.check(I.py("conforms(d, v)", d=dd, v=v), "the fixed value contradicts a declared constraint",
                      lambda: f"value {show(v)}")
    return fn


def fixed_list(steps, n):
    def fn(I, ctx):
        vals = [sym(f"x{i}", "int") for i in range(n)]
        s = I.py("schema.list([schema.int(x) for x in xs])", xs=ListObj(vals))
        d = D("list", form="exact", els=[D("int", value=x) for x in vals])
        for i, st in enumerate(steps):
            a = st.make(I, str(i))
            ctx.inputs[f"{i}: {st.label}"] = DictObj([[k, v] for k, v in a.items()])
            r = outcome(I, ctx, st, s, a, f"schema.list {st.label}")
            if r[0] == "exc":
                return
            s = r[1]
            st.describe(d, a)
        v = ListObj(vals)
        e = I.py("validate(s, v).get_errors()", s=s, v=v)
        ctx.check(len(e.items) == 0, "the fixed elements do not conform to their own schema")
        ctx.check(I.py("conforms(d, v)", d=lift(d), v=v), "the fixed elements contradict the declared length")
    return fn


def len_first(step, n):
    """A length declared before the elements: the elements are refused or agree with it."""
    def fn(I, ctx):
        a = step.make(I, "")
        ctx.inputs["length"] = DictObj([[k, v] for k, v in a.items()])
        r = step.apply(I, I.py("schema.list"), a)
        if r[0] == "exc":
            return
        vals = ListObj([sym(f"x{i}", "int") for i in range(n)])
        q = I.attempt("s([schema.int(x) for x in xs])", s=r[1], xs=vals)
        if q[0] == "exc":
            ctx.check(I.is_a(q[1], "DeclarationError"), f"schema.list elements raised {I.exc_name(q[1])}",
                      lambda: I.exc_text(q[1]), q[2])
            return
        e = I.py("validate(s, v).get_errors()", s=q[1], v=vals)
        ctx.check(len(e.items) == 0, "the fixed elements do not conform to their own schema")
    return fn


def again(kind, steps):
    def fn(I, ctx):
        s = I.py(f"schema.{kind}")
        for i, st in enumerate(steps[:-1]):
            a = st.make(I, str(i))
            ctx.inputs[f"{i}: {st.label}"] = DictObj([[k, v] for k, v in a.items()])
            r = st.apply(I, s, a)
            if r[0] == "exc":
                return
            s = r[1]
        st = steps[-1]
        a = st.make(I, "again")
        ctx.inputs[f"again: {st.label}"] = DictObj([[k, v] for k, v in a.items()])
        r = outcome(I, ctx, st, s, a, f"schema.{kind} {st.label}")
        ctx.check(r[0] == "exc", f"schema.{kind} {st.label} was declared twice")
    return fn


def again_same(kind, steps):
    """The same argument again."""
    def fn(I, ctx):
        s = I.py(f"schema.{kind}")
        st = steps[0]
        a = st.make(I, "")
        ctx.inputs[st.label] = DictObj([[k, v] for k, v in a.items()])
        r = st.apply(I, s, a)
        if r[0] == "ok":
            q = outcome(I, ctx, st, r[1], a, f"schema.{kind} {st.label}")
            ctx.check(q[0] == "exc", f"schema.{kind} {st.label} was declared twice")
    return fn


PATTERNS = ["a", "", "(", "[", "a{2,1}", "*", "(?P<n>a)(?P<n>b)", "\\", "a{99999999999}", "(?<=a+)b", "(?L)a",
            "a{" + "9" * 4400 + "}", "(" * 200 + "a" + ")" * 200, "(" * 6000 + "a" + ")" * 6000, "\\1", "(?P=x)",
            "[z-a]", "a**", "(?i)a", "a(?i)b", "\\N{nope}", "(?(9)a|b)", "(?P<0>a)", "\ud800", "\0"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind, steps in STEPS.items():
        for st in steps:
            out.append(("clean", f"{kind} {st.label}", clean(kind, [], st), {}))
            for b in steps:
                if kind in ("list", "dict") and b.label in ("elements", "keys") and st.label == b.label:
                    out.append(("clean", f"{kind} {b.label} then {st.label}", clean(kind, [b], st),
                                {"paths": 3000}))
                    continue
                out.append(("clean", f"{kind} {b.label} then {st.label}", clean(kind, [b], st), {}))
            out.append(("again", f"{kind} {st.label} same argument", again_same(kind, [st]), {}))
            for q in steps:
                if slot(q) == slot(st):
                    out.append(("again", f"{kind} {st.label}, {q.label}", again(kind, [st, q]), {}))
                    for mid in steps:
                        if slot(mid) != slot(st):
                            out.append(("again", f"{kind} {st.label}, {mid.label}, {q.label}",
                                        again(kind, [st, mid, q]), {}))
    for kind, steps in STEPS.items():
        if steps[0].label != "value":
            continue
        val, ref = steps[0], steps[1:]
        for n in range(0, 5 if deep else 4):
            for combo in itertools.permutations(ref, n):
                if len({slot(x) for x in combo}) != n:
                    continue
                if n and any(x.label == "regex" for x in combo) and n > 2:
                    continue
                if not deep and n == 3 and list(combo) != sorted(combo, key=ref.index):
                    continue
                out.append(("consistent", f"{kind} value {' '.join(x.label for x in combo)}",
                            consistent(kind, [val, *combo]), {}))
                if 0 < n <= 2:
                    out.append(("consistent", f"{kind} {' '.join(x.label for x in combo)} value",
                                consistent(kind, [*combo, val]), {}))
                    if n == 2:
                        out.append(("consistent", f"{kind} {combo[0].label} value {combo[1].label}",
                                    consistent(kind, [combo[0], val, combo[1]]), {}))
    for n in range(0, 4 if deep else 3):
        for st in STEPS["list"][1:]:
            out.append(("consistent", f"list of {n} fixed elements {st.label}", fixed_list([st], n), {}))
            out.append(("consistent", f"list {st.label}, then {n} fixed elements", len_first(st, n), {}))
    strs = ["", "a", "ab", "a\n", "abc", "b", "cab", "caB", "\ud800"]
    for v in ("a", "ab", "", "cab"):
        out.append(("consistent", f"str {v!r} constants alphabet", constants("str", f"schema.str({v!r})", "s.alphabet(x)", {"x": strs}), {}))
        out.append(("consistent", f"str {v!r} constants contains", constants("str", f"schema.str({v!r})", "s.contains(x)", {"x": strs}), {}))
        out.append(("consistent", f"str {v!r} constants regex", constants(
            "str", f"schema.str({v!r})", "s.regex(x)", {"x": PATTERNS + ["^a$", "a$", "b", "^b"]}), {}))
    out.append(("clean", "str patterns", constants("str", "schema.str", "s.regex(x)", {"x": PATTERNS}), {}))
    fl = [0.0, -0.0, 1.5, 1.0000000001, 1e308, float("inf"), float("-inf"), float("nan"), 5e-324]
    for m in ("min", "max"):
        for v in ("1.5", "float('nan')", "float('inf')", "-0.0"):
            out.append(("consistent", f"float {v} constants {m}", constants("float", f"schema.float({v})", f"s.{m}(x)", {"x": fl}), {}))
    ps = [-1, 0, 1, 2, 15, 16, True, False, 10 ** 5000]
    for v in ("1.5", "float('nan')", "float('inf')", "1e308"):
        out.append(("consistent", f"float {v} constants precision", constants("float", f"schema.float({v})", "s.precision(x)", {"x": ps}), {}))
    return out
