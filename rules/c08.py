"""C08: validation never raises, and every error renders."""
from .lib import *   # noqa
from .grid import grid

RULES = {
    "total": "validate(S, v) returns a result on every abstract path, for v any kind of Python value, alone or nested",
    "render": "every error of the result formats to a non-empty message without raising; format_result too",
    "or_fail": "validate_or_fail returns True iff there are no errors, else raises ValidationException with one line per "
               "error",
}
EXPLANATION = """
Exception-escape analysis by abstract interpretation: every schema form of rules/grid.py is applied to unknown values of
every kind (31 kinds including non-finite floats, ints with too many digits to print, Decimal, Fraction, sets,
bytearrays, subclasses of built-ins, UUIDs of other versions, opaque objects), and the same kinds are placed at every
position inside otherwise conforming containers and as dict keys.  Exceptions raised by the modelled built-in operations
propagate through the interpreted code; one that leaves validate or a formatter is a violation.
"""
HOSTILE_KEYS = [None, True, 0, -1, 10 ** 5000, 1.5, float("nan"), float("inf"), "", "a\n", b"k", (), (1, "x"), ...]


def total(desc, value):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I)
        ctx.inputs.update(schema=d, value=v)
        go(I, ctx, s, v)
    return fn


def go(I, ctx, s, v):
    r = I.attempt("validate(s, v)", s=s, v=v)
    if not ctx.check(r[0] == "ok", f"validate raised {I.exc_name(r[1]) if r[0] == 'exc' else ''}",
                     lambda: I.exc_text(r[1]), r[2]):
        return
    if not ctx.check(I.is_a(r[1], "ValidationResult"), "validate did not return a ValidationResult"):
        return
    errs = list(I.iterate(I.py("r.get_errors()", r=r[1])))
    for e in errs:
        m = I.attempt("e.format(Formatter())", e=e)
        kind = I.exc_name(e)
        if not ctx.check(m[0] == "ok", f"formatting {kind} raised {I.exc_name(m[1]) if m[0] == 'exc' else ''}",
                         lambda: I.exc_text(m[1]), m[2]):
            continue
        ctx.check(I.py("isinstance(m, str) and len(m) > 0", m=m[1]), f"{kind} renders to an empty message")
    f = I.attempt("format_result(r)", r=r[1])
    if ctx.check(f[0] == "ok", "format_result raised", lambda: I.exc_text(f[1]), f[2]):
        ctx.check(I.py("isinstance(f, list) and (len(f) == 0) == (len(es) == 0) and len(f) >= len(es)", f=f[1],
                       es=ListObj(errs)), "format_result does not list the errors", lambda: show(f[1]))


def or_fail(desc, value):
    def fn(I, ctx):
        d = lift(desc(I))
        s = I.py("build(d)", d=d)
        v = value(I)
        ctx.inputs.update(schema=d, value=v)
        errs = I.py("[e.format(Formatter()) for e in validate(s, v).get_errors()]", s=s, v=v)
        n = len(errs.items)
        r = I.attempt("validate_or_fail(s, v)", s=s, v=v)
        if r[0] == "ok":
            ctx.check(I.c(r[1]) is True, "validate_or_fail returned something other than True", lambda: show(r[1]))
            ctx.check(n == 0, "validate_or_fail returned for a value with errors", lambda: show(errs))
            return
        ctx.check(n > 0, "validate_or_fail raised for a value without errors", lambda: I.exc_text(r[1]), r[2])
        ok = I.is_a(r[1], "ValidationException")
        if not ctx.check(ok, f"validate_or_fail raised {I.exc_name(r[1])}", lambda: I.exc_text(r[1]), r[2]):
            return
        lines = I.py("[x for x in str(e).split('\\n') if x]", e=r[1])
        ctx.check(len(lines.items) == n, "the exception does not carry one line per error",
                  lambda: f"{len(lines.items)} lines for {n} errors: {show(lines)}")
        for i, m in enumerate(errs.items[:len(lines.items)]):
            ctx.check(I.py("m in l", m=m, l=lines.items[i]), "a line of the exception does not carry its error",
                      lambda: f"{show(lines.items[i])} for {show(m)}")
    return fn


TWIN = """
class Same:
    def __repr__(self):
        return "Same"
"""


def twin_setup(f):
    """Makes a class whose objects are unequal and print alike."""
    def fn(I, ctx):
        I.exec_text(TWIN)
        I.twin = I.scen.ns["Same"]
        f(I, ctx)
    return fn


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for name, desc, value, opt in grid(deep):
        if name.startswith("float constants"):
            continue
        if name.startswith("list contains 3") and not deep:
            continue
        out.append(("total", name, total(desc, value), opt))

    def add(name, desc, value=lambda I: anyval(), **opt):
        out.append(("total", "hostile " + name, total(desc, value), opt))
    hk = lambda I, n="key": choose(I, HOSTILE_KEYS + [Sym("opaque key", {"object"}), Sym("u", {"uuidx"}),
                                                      Sym("dec", {"decimal"}), Sym("frac", {"fraction"}),
                                                      Sym("fs", {"frozenset"})], n)
    x = lambda n="x": Sym(n, ANY)
    small = {"SHAPE_MAX": 1}
    leafs = {
        "int": lambda I: D("int", min=sym("lo", "int", "hugeint")), "int value": lambda I: D("int", value=sym("c", "int", "hugeint")),
        "float": lambda I: D("float", min=sym("lo", "float"), max=sym("hi", "float")),
        "float value": lambda I: D("float", value=sym("c", "float", "inf", "ninf", "nan")),
        "float precision": lambda I: D("float", value=sym("c", "float", "inf", "ninf", "nan"), precision=sym("p", "int")),
        "float precision 1": lambda I: D("float", value=choose(I, [1.5, 1e308, float("inf"), float("nan")], "fixed"),
                                         precision=15),
        "str": lambda I: D("str", min_len=1, max_len=2, alphabet="ab", substr="a"), "str re": lambda I: D("str", pattern=sym("p", "str")),
        "str value": lambda I: D("str", value=sym("c", "str")), "bytes": lambda I: D("bytes", value=sym("c", "bytes")),
        "bool": lambda I: D("bool", value=True),
        "uuid4": lambda I: D("uuid4", value=sym("c", "uuid4")), "datetime": lambda I: D("datetime", value=sym("c", "datetime")),
        "date": lambda I: D("date", value=sym("c", "date", "datetime")), "none": lambda I: D("none"),
        "any": lambda I: D("any", types=[D("int", min=sym("lo", "hugeint", "int")), D("str"), D("float", value=1.5, precision=1)]),
        "list len": lambda I: D("list", min_len=sym("l", "int", "hugeint")),
        "str len": lambda I: D("str", len=sym("l", "int", "hugeint")),
        "dict": lambda I: D("dict", entries=[("k", D("int"), True)]),
    }
    for k, leaf in leafs.items():
        add(f"{k} anything", leaf, lambda I: x(), set=small)
        add(f"{k} in typed list", lambda I, leaf=leaf: D("list", form="typed", type=leaf(I)), lambda I: ListObj([x()]), set=small)
        add(f"{k} in exact list", lambda I, leaf=leaf: D("list", form="exact", els=[leaf(I)]), lambda I: ListObj([x()]), set=small)
        add(f"{k} in head list", lambda I, leaf=leaf: D("list", form="head", els=[leaf(I)]), lambda I: ListObj([x(), 1]), set=small)
        add(f"{k} in tail list", lambda I, leaf=leaf: D("list", form="tail", els=[leaf(I)]), lambda I: ListObj([1, x()]), set=small)
        add(f"{k} in contains list", lambda I, leaf=leaf: D("list", form="contains", els=[leaf(I)]),
            lambda I: ListObj([1, x()]), set=small)
        add(f"{k} in dict", lambda I, leaf=leaf: D("dict", entries=[("a", leaf(I), False)]), lambda I: DictObj([["a", x()]]), set=small)
        add(f"{k} under an unusual key", lambda I, leaf=leaf: D("dict", entries=[("a", D("dict", entries=[(k2(I), leaf(I), False)]), False)]),
            lambda I: DictObj([["a", DictObj([[I._k2, x()]] if choose(I, [1, 0], "present") else [])]]), set=small)
        add(f"{k} in any", lambda I, leaf=leaf: D("any", types=[leaf(I), D("none")]), lambda I: x(), set=small)
        add(f"{k} in alias", lambda I, leaf=leaf: D("alias", type=leaf(I)), lambda I: x(), set=small)

    def k2(I):
        I._k2 = hk(I) if deep else choose(I, [float("nan"), (1, "x"), Sym("opaque key", {"object"})], "key")
        return I._k2
    add("dict unusual keys nested", lambda I: D("dict", entries=[("a", D("dict", entries=[(k3(I), D("int"), False)]), False)]),
        lambda I: DictObj([["a", DictObj([[I._k2, x()]] if choose(I, [1, 0], "present") else [])]]), set=small)

    def k3(I):
        I._k2 = hk(I)
        return I._k2
    for rel in (None, "last"):
        add(f"dict extra keys {rel}", lambda I, rel=rel: D("dict", entries=[("a", D("int"), True)], relaxed=rel),
            lambda I: DictObj([[hk(I), x()]]), set=small)
        add(f"dict empty extra keys {rel}", lambda I, rel=rel: D("dict", entries=[], relaxed=rel),
            lambda I: DictObj([[hk(I), x()]]), set=small)

    def two_keys(I):
        a, b = hk(I, "first key"), hk(I, "second key")
        return DictObj([[a, x("y")]] + ([[b, 1]] if keyof(a) != keyof(b) else []))
    add("dict two unusual keys", lambda I: D("dict", entries=[(0, D("int"), False)]), two_keys, set=small)
    lv = lambda I: choose_list(I, "v", 0, 4)
    mems = {
        "exact": lambda I: D("list", form="exact", els=[mem(I, f"E{i}") for i in range(3)]),
        "typed": lambda I: D("list", form="typed", type=mem(I, "T")),
        "head": lambda I: D("list", form="head", els=[mem(I, f"E{i}") for i in range(3)]),
        "member": lambda I: mem(I, "M"), "any": lambda I: D("any", types=[mem(I, "A"), mem(I, "B")]),
        "alias": lambda I: D("alias", type=mem(I, "A")), "int": lambda I: D("int", value=5),
        "nested": lambda I: D("dict", entries=[("a", mem(I, "M"), False), ("b", mem(I, "N"), False),
                                               ("c", D("list", form="typed", type=mem(I, "T")), True)]),
    }
    for k, dm in mems.items():
        if k == "nested":
            val = lambda I: choose_dict(I, "v", ["a", "b"], [])
        elif k in ("member", "any", "alias"):
            val = lambda I: cell("v")
        elif k == "int":
            val = lambda I: choose(I, [5, 6, "x", None], "value")
        else:
            val = lv
        out.append(("or_fail", k, or_fail(dm, val), {}))
    for name, desc, value, opt in grid(deep):
        if name.startswith(("wide", "depth", "str alphabet constants", "zero", "falsy", "str substr constants")):
            out.append(("or_fail", name, or_fail(desc, value), opt))
    # several errors with the same text
    out.append(("or_fail", "equal letters", or_fail(lambda I: D("str", alphabet="ab"), lambda I: choose(I, ["cc", "cac", "ccc", "cd", ""], "text")), {}))
    for rel in (None, "nested", "in any"):
        d = D("dict", entries=[])
        d = {None: d, "nested": D("dict", entries=[("a", d, False)]), "in any": D("any", types=[d])}[rel]

        def twins(I, rel=rel):
            ks = choose(I, [["Same()", "Same()"], ["float('nan')", "float('nan')"], ["Same()", "1", "Same()"], ["'Same'", "Same()"]], "keys")
            v = DictObj([[I.py(k, Same=I.twin), i] for i, k in enumerate(ks)])
            return DictObj([["a", v]]) if rel == "nested" else v
        out.append(("or_fail", f"keys of equal text {rel or ''}", twin_setup(or_fail(lambda I, d=d: d, twins)), {}))
    out.append(("or_fail", "elements of equal text", twin_setup(or_fail(lambda I: D("list", form="exact", els=[]), lambda I: ListObj(
        [I.py("Same()", Same=I.twin) for _ in range(choose(I, [1, 2, 3], "length"))]))), {}))
    return out
