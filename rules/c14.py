"""C14: from_native(value) denotes exactly that value."""
from .lib import *   # noqa
from .subst import altered, each, kinds_of, positions_of

RULES = {
    "kinds": "from_native returns a schema for every plain value and raises ValueError for every other kind of value, at "
             "every position of a list or dict",
    "accepts": "from_native(v) accepts v",
    "generates": "every value generated from from_native(v) is v",
    "rejects": "every value from_native(v) accepts agrees with v in kind, content, length, key set and nested members "
               "(1/True and the float tolerance apart)",
}
EXPLANATION = """
Abstract interpretation of d42/utils/_from_native (with declaration, validation and generation) from source.  v is an unknown
of every kind of Python value, a container of unknown members of every kind, or a constant chosen to be close to a
neighbour; the second value w is independent, a perturbation of v (element dropped, appended, swapped, key renamed), or
another constant.  Whether a value is plain is decided by rules/c14.py from the kind the path has fixed.
"""
LEAF = frozenset({"none", "bool", "int", "hugeint", "float", "inf", "ninf", "nan", "str", "bytes", "uuid4", "datetime", "date"})
SUBS = frozenset({"intsub", "floatsub", "strsub"})
CONT = frozenset({"list", "dict"})
NOT = ALL_TAGS - LEAF - CONT - SUBS - {"listsub", "dictsub"}


def tag_split(I, v, name):
    """Fix the kind of an unknown, one path per kind."""
    v = I.c(v)
    if isinstance(v, Sym):
        ts = sorted(I.st.tags_of(v))
        if len(ts) > 1:
            I.st.restrict(v, frozenset({choose(I, ts, f"kind of {name}")}))
    return I.c(v)


def run(I, ctx, v):
    return I.attempt("from_native(v)", v=v)


def leafkind(plain):
    def fn(I, ctx):
        v = tag_split(I, sym("v", (LEAF | SUBS) if plain else NOT), "v")
        wrap = choose(I, ["alone", "in list", "second in list", "in dict", "second in dict", "in nested list",
                          "in nested dict", "list in dict"], "position")
        x = {"alone": lambda: v, "in list": lambda: ListObj([v]), "second in list": lambda: ListObj([1, v]),
             "in dict": lambda: DictObj([["k", v]]), "second in dict": lambda: DictObj([["a", 1], ["k", v]]),
             "in nested list": lambda: ListObj([1, ListObj([v])]), "in nested dict": lambda: DictObj([["k", DictObj([["j", v]])]]),
             "list in dict": lambda: DictObj([["k", ListObj([v])]])}[wrap]()
        ctx.inputs["value"] = x
        r = run(I, ctx, x)
        sub = isinstance(v, Opaque) and bool((I.st.tags_of(v) or SUBS ^ SUBS) & SUBS)
        judge(I, ctx, x, r, plain, sub)
    return fn


def judge(I, ctx, x, r, plain, either=False):
    if r[0] == "exc":
        name = I.exc_name(r[1])
        ctx.check(I.isinstance(r[1], ValueError), f"from_native raised {name} instead of ValueError", lambda: I.exc_text(r[1]), r[2])
        if plain and not either:
            ctx.fail("from_native refuses a plain value", I.exc_text(r[1]), r[2])
        return
    if not ctx.check(plain, "from_native accepts a value of another kind"):
        return
    if not ctx.check(I.isinstance(r[1], I.scen.ns["Schema"]), "from_native returned something other than a schema"):
        return
    full(I, ctx, x, r[1])


def full(I, ctx, x, s):
    obs = lambda: show(I.py("observe(s)", s=s))[:300]
    a = I.attempt("validate(s, v).has_errors()", s=s, v=x)
    if ctx.check(a[0] == "ok", "validating the value raised", lambda: I.exc_text(a[1]), a[2]):
        ctx.check(not I.truth(a[1]), "from_native(v) rejects v", obs)
    g = I.attempt("fake(s)", s=s)
    if ctx.check(g[0] == "ok", "generating from from_native(v) raised", lambda: I.exc_text(g[1]), g[2]):
        ctx.check(I.truth(I.py("identical(v, g)", v=x, g=g[1])), "from_native(v) generates something other than v",
                  lambda: f"generated {show(g[1])} from {obs()}")


def rejects(mk):
    def fn(I, ctx):
        v, w = mk(I)
        ctx.inputs["value"] = v
        r = run(I, ctx, v)
        if not ctx.check(r[0] == "ok", "from_native refuses a plain value", lambda: I.exc_text(r[1]), r[2]):
            return
        s = r[1]
        full(I, ctx, v, s)
        for w in each(w):
            ctx.inputs["w"] = w
            a = I.attempt("validate(s, w).has_errors()", s=s, w=w)
            if a[0] == "exc" or I.truth(a[1]):
                continue
            ctx.check(I.truth(I.py("exactly(v, w)", v=v, w=w)), "from_native(v) accepts another value",
                      lambda: show(I.py("observe(s)", s=s))[:300])
    return fn


CONSTS = [None, True, False, 0, 1, -1, 2 ** 70, 10 ** 5000, 0.0, 1.0, -0.0, 0.5, 1e300, float("inf"), float("-inf"), float("nan"), "",
          "a", "A", "a ", "1", b"", b"a", b"1"]


def constant(I, name, cs=CONSTS):
    k = choose(I, list(range(len(cs))), name)
    return lift(cs[k])


def values(deep):
    out = []
    few = frozenset({"int", "str", "none"})
    C = lambda n: Sym(n, few)
    for t in sorted(LEAF):
        out.append((f"{t} against any value", lambda I, t=t: (sym("v", {t}), anyval("w"))))
    out.append(("constants", lambda I: (constant(I, "v"), constant(I, "w"))))
    n = 4 if deep else 3
    for a in range(n):
        for b in range(n):
            out.append((f"list of {a} against list of {b}", lambda I, a=a, b=b: (
                ListObj([C(f"v{i}") for i in range(a)]), ListObj([C(f"w{i}") for i in range(b)]))))
    out.append(("list of 3 against a rearrangement", lambda I: (lambda xs: (ListObj(list(xs)), ListObj([xs[i] for i in choose(
        I, [(0, 2, 1), (1, 0, 2), (2, 1, 0), (0, 0, 0), (0, 1), (0, 1, 2, 2), (1, 2)], "w")])))([C(f"v{i}") for i in range(3)])))
    out.append(("list of any kind against list", lambda I: (ListObj([Sym("v0", LEAF)]), ListObj([anyval("w0", LEAF | {"tuple"})]))))
    out.append(("list against any kind", lambda I: (ListObj([C("v0")] if choose(I, [0, 1], "n") else []), anyval("w"))))

    def dicts(a, b):
        def mk(I):
            ks = [key(f"k{i}") for i in range(3)]
            v = DictObj([[ks[i], C(f"v{i}")] for i in a])
            return v, DictObj([[ks[i], C(f"w{i}")] for i in b])
        return mk
    subs = [(), (0,), (1,), (0, 1), (1, 0), (0, 2), (0, 1, 2)]
    for a in subs[:2] + [subs[3]] + ([subs[6]] if deep else []):
        for b in subs:
            out.append((f"dict {a} against dict {b}", dicts(a, b)))
    out.append(("dict of any kind against dict", lambda I: (DictObj([["k", Sym("v0", LEAF)]]),
                                                            DictObj([["k", anyval("w0", LEAF | {"tuple"})]]))))
    out.append(("dict against any kind", lambda I: (DictObj([["k", C("v0")]] if choose(I, [0, 1], "n") else []), anyval("w"))))
    odd = [k for k in ODD_KEYS if keyof(k) != keyof(True)] + [True, False, float("nan")]
    out.append(("dict with unusual keys", lambda I: (DictObj([[choose(I, odd, "key of v"), 1]]),
                                                     DictObj([[choose(I, odd, "key of w"), 1]]))))
    for wrap, wn in ((lambda v: v, "alone"), (lambda v: [v], "in list"), (lambda v: {"k": v, "z": 1}, "in dict"), (lambda v: [[0, {"k": [v]}]], "nested")):
        out.append((f"nothing much {wn}", lambda I, wrap=wrap: (lift(wrap(choose(I, NOTHING, "v"))), lift(wrap(choose(I, NOTHING, "w"))))))
    nest = {
        "list of list": lambda I, n: ListObj([ListObj([C(n + "0")]), C(n + "1")]),
        "list of dict": lambda I, n: ListObj([DictObj([["a", C(n + "0")]]), DictObj([["b", C(n + "1")]])]),
        "dict of list": lambda I, n: DictObj([["a", ListObj([C(n + "0"), C(n + "1")])]]),
        "dict of dict": lambda I, n: DictObj([["a", DictObj([["b", C(n + "0")]])], ["c", C(n + "1")]]),
        "depth 3": lambda I, n: ListObj([DictObj([["a", ListObj([C(n + "0"), 1])]])]),
        "empty containers": lambda I, n: ListObj([ListObj([]), DictObj([])]),
        "shorter": lambda I, n: ListObj([ListObj([])]), "list of none": lambda I, n: ListObj([None, None]),
        "shorter dict": lambda I, n: DictObj([["a", DictObj([])], ["c", 1]]),
    }
    for x in nest:
        for y in nest:
            if deep or x == y or x.split()[0] == y.split()[0]:
                out.append((f"{x} against {y}", lambda I, x=x, y=y: (nest[x](I, "v"), nest[y](I, "w"))))
    for d in (4, 6):
        def tower(I, n, d=d):
            x = C(n)
            for i in range(d):
                x = ListObj([x]) if i % 2 else DictObj([["k", x]])
            return x
        out.append((f"depth {d}", lambda I, t=tower: (t(I, "v"), t(I, "w"))))
    # literal data against the same data altered in one place
    data = {}
    for kn, (_, pairs) in kinds_of().items():
        for pn, (_, put, ns) in positions_of(None).items():
            for n in ns if deep else ns[-1:]:
                if n:
                    data.setdefault(f"{kn} / {pn}"[:99], []).extend(put([p[1]] * n) for p in pairs)
    for n in (40, 200) if deep else (40,):
        data[f"wide {n}"] = [list(range(n)), [None] * n, {f"k{i}": i for i in range(n)}, [{"a": i} for i in range(n)], {i: [i] for i in range(n)},
                             "x" * 10 * n, ["x" * n, "x" * (n + 1)], [[]] * n, [{}] * n]
    for n in (12, 30) if deep else (12,):
        a = b = c = 1
        for i in range(n):
            a, b, c = [a], {"k": b}, [c, i] if i % 2 else {"k": c, "j": None}
        data[f"deep {n}"] = [a, b, c]
    for name, vs in data.items():
        def mk(I, vs=vs):
            v = choose(I, vs, "v")
            return lift(v), altered(v, limit=6)
        out.append((f"literal {name}", mk))
    return out


def shared(I, ctx):
    """The same container object in several places, and containers that compare equal."""
    mk = {"list twice": "[x, x]", "list in dict": "{'a': x, 'b': x}", "dict twice": "[y, y]", "crossed": "{'a': [x, y], 'b': [y, x]}", "in itself": "[x, [x, [x]]]",
          "equal": "[[1], [True], [1.0]]", "keys": "{'1': 1, 1: '1', None: None, 'None': ''}", "alias of empty": "[e, [e], {'a': e}]"}
    t = choose(I, list(mk), "value")
    v = I.py(mk[t], x=I.py("[1, 'a']"), y=I.py("{'k': 1}"), e=I.py("[]"))
    w = choose(I, ["same", *mk], "w")
    w = v if w == "same" else I.py(mk[w], x=I.py("[1, 'a']"), y=I.py("{'k': 1}"), e=I.py("[]"))
    rejects(lambda I: (v, w))(I, ctx)


def markers(I, ctx):
    k = choose(I, [..., "optional", "Nil"], "key")
    if k == "optional":
        k = I.py("optional(k)", k=choose(I, ["a", 1], "its key"))
    elif k == "Nil":
        k = NIL
    v = choose(I, [1, "..."], "value")
    v = ... if v == "..." else v
    x = DictObj([["a", 1], [k, v]] if choose(I, [0, 1], "after another key") else [[k, v]])
    if choose(I, [0, 1], "nested"):
        x = ListObj([x])
    ctx.inputs["value"] = x
    r = run(I, ctx, x)
    if k is NIL and v == 1:
        return
    judge(I, ctx, x, r, False)


def consts(I, ctx):
    v = constant(I, "v")
    wrap = choose(I, [0, 1, 2], "position")
    v = v if wrap == 0 else ListObj([v, 1]) if wrap == 1 else DictObj([["k", v]])
    ctx.inputs["value"] = v
    judge(I, ctx, v, run(I, ctx, v), True)


def mixed(I, ctx):
    """One unplain member among plain ones, at every index."""
    n = choose(I, [1, 2, 3], "length")
    at = choose(I, list(range(n)), "index of the other kind")
    bad = Sym("bad", frozenset({"tuple", "object", "decimal", "ellipsis", "set", "uuidx"}))
    xs = [bad if i == at else Sym(f"v{i}", {"int", "str"}) for i in range(n)]
    x = ListObj(xs) if choose(I, [1, 0], "list") else DictObj([[f"k{i}", y] for i, y in enumerate(xs)])
    ctx.inputs["value"] = x
    judge(I, ctx, x, run(I, ctx, x), False)


def scenarios(tier):
    deep = tier == "thorough"
    out = [("kinds", "plain kinds", leafkind(True), {}), ("kinds", "other kinds", leafkind(False), {}),
           ("kinds", "declaration markers as keys", markers, {}), ("kinds", "one other kind among plain ones", mixed, {}),
           ("accepts", "constants", consts, {}), ("rejects", "shared containers", shared, {})]
    for n, mk in values(deep):
        out.append(("rejects", n, rejects(mk), {}))
    return out
