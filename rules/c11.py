"""C11: refinements commute."""
import itertools
from .lib import *   # noqa
from .decl import STEPS, slot

RULES = {
    "orders": "for one set of arguments every order of a set of refinements is refused with DeclarationError or every order "
              "yields equal schemas holding the same parameters",
}
EXPLANATION = """
Abstract interpretation of every order of every set of distinct refinements (int: min, max; float: min, max, precision;
str: the four forms of len, alphabet, contains, regex; list: the four forms of len, on untyped, typed and element
receivers), with or without a value fixed first, on shared unknown arguments: all orders are evaluated under the facts of
one path, so their outcomes are compared for the same partition of the arguments.
"""


def orders(kind, combo, value, receiver=None, consts=None):
    def fn(I, ctx):
        s0 = I.py(receiver(I)) if isinstance(receiver, str) else receiver(I) if receiver else I.py(f"schema.{kind}")
        if value is not None:
            a = consts["value"](I) if consts else value.make(I, "")
            ctx.inputs["value"] = DictObj([[k, v] for k, v in a.items()])
            r = value.apply(I, s0, a)
            if r[0] == "exc":
                return
            s0 = r[1]
        args = {}
        for st in combo:
            args[st.label] = consts[st.label](I) if consts else st.make(I, "")
            if len(combo) > 2 and not consts:
                for x in args[st.label].values():
                    if "hugeint" in I.st.tags_of(x):
                        I.st.restrict(x, frozenset({"int"}))
            ctx.inputs[st.label] = DictObj([[k, v] for k, v in args[st.label].items()])
        first = None
        for perm in itertools.permutations(combo):
            s, out = s0, "ok"
            where = " ".join(x.label for x in perm)
            for st in perm:
                r = st.apply(I, s, args[st.label])
                if r[0] == "exc":
                    if not ctx.check(I.is_a(r[1], "DeclarationError"), f"{kind}: {where} raised {I.exc_name(r[1])}",
                                     lambda: I.exc_text(r[1]), r[2]):
                        return
                    out = "refused"
                    break
                s = r[1]
            if first is None:
                first = (where, out, s)
                continue
            if not ctx.check(out == first[1], f"{kind}: orders of {' '.join(sorted(x.label for x in combo))} differ",
                             lambda: f"{first[0]}: {first[1]}; {where}: {out}"):
                return
            if out == "ok":
                ctx.check(I.py("a == b and b == a", a=first[2], b=s), f"{kind}: orders yield unequal schemas",
                          lambda: f"{first[0]}; {where}")
                names = {k for x in (first[2], s) for k in I.iterate(I.py("[*x.props]", x=x))}
                for n in sorted(names):
                    ctx.check(I.py("same(a.props.get(n), b.props.get(n))", a=first[2], b=s, n=n),
                              f"{kind}: orders yield different {n}", lambda: f"{first[0]}; {where}")
    return fn


def consts_of(kind):
    pick = lambda opts, n: lambda I: dict(zip("ab", o) if isinstance(o := choose(I, opts, n), tuple) else {"a": o})
    if kind == "str":
        return {"value": pick(["", "ab", "aab"], "value"), "len": pick([0, 2, 3], "len"), "min_len": pick([0, 2, 3], "min_len"),
                "max_len": pick([0, 2, 3], "max_len"), "min_max_len": pick([(0, 2), (2, 2), (3, 1)], "min_max_len"),
                "alphabet": pick(["", "ab", "b"], "alphabet"), "contains": pick(["", "b", "aa"], "contains"),
                "regex": pick(["", "^a", "b$", "("], "regex")}
    return {"value": pick([0.0, 1.5, float("nan"), float("inf")], "value"), "min": pick([0.0, 2.0, float("nan"), -0.0], "min"),
            "max": pick([0.0, 1.0, float("nan"), float("inf")], "max"), "precision": pick([0, 1, 15, 16], "precision")}


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("int", "float", "str"):
        val, ref = STEPS[kind][0], STEPS[kind][1:]
        for n in range(2, 5):
            for combo in itertools.combinations(ref, n):
                if len({slot(x) for x in combo}) != n:
                    continue
                for v in (None, val):
                    nm = f"{kind} {'value ' if v else ''}{' '.join(x.label for x in combo)}"
                    if n < 4 or deep or not v:
                        out.append(("orders", nm, orders(kind, combo, v), {}))
                    if kind != "int":
                        out.append(("orders", nm + " constants", orders(kind, combo, v, consts=consts_of(kind)), {}))
    recv = {"untyped": lambda I: I.py("schema.list"), "typed": lambda I: I.py("schema.list(m)", m=I.member("T")),
            "elements": lambda I: I.py("schema.list([m, n])", m=I.member("E0"), n=I.member("E1")),
            "head": lambda I: I.py("schema.list([m, ...])", m=I.member("E0"))}
    lens = STEPS["list"][1:]
    for rn, r in recv.items():
        for combo in itertools.combinations(lens, 2):
            out.append(("orders", f"list {rn} {' '.join(x.label for x in combo)}", orders("list", combo, None, r), {}))
    for combo in itertools.combinations(STEPS["str"][1:5], 2):
        for v in (None, STEPS["str"][0]):
            out.append(("orders", f"str {'value ' if v else ''}{' '.join(x.label for x in combo)}",
                        orders("str", combo, v), {}))
    return out
