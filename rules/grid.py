"""Schema forms with unknown parameters, and the unknown values they are applied to."""
from .lib import *   # noqa


def grid(deep):
    """[(name, description maker, value maker, options)]: every schema form against unknown values."""
    out = []

    def add(name, desc, value=lambda I: anyval(), **opt):
        out.append((name, desc, value, opt))

    add("none", lambda I: D("none"))
    scal = {"bool": ("bool",), "bytes": ("bytes",), "uuid4": ("uuid4",), "datetime": ("datetime",),
            "date": ("date", "datetime")}
    for t, tg in scal.items():
        add(t, lambda I, t=t: D(t))
        add(t + " value", lambda I, t=t, tg=tg: D(t, value=sym("x", tg)))
    subsets = lambda ks: [[k for i, k in enumerate(ks) if m >> i & 1] for m in range(1 << len(ks))]
    for ks in subsets(["value", "min", "max"]):
        add("int " + " ".join(ks), lambda I, ks=ks: D("int", **{k: sym(k, "int", "bool", "hugeint") for k in ks}))
        add("float " + " ".join(ks), lambda I, ks=ks: D("float", **{k: sym(k, "float", "inf", "ninf") for k in ks}))
    for ks in subsets(["min", "max"]):
        add("float value precision " + " ".join(ks), lambda I, ks=ks: D(
            "float", precision=sym("p", "int"), **{k: sym(k, "float") for k in ["value"] + ks}),
            lambda I: anyval("v", {"float", "int", "inf", "nan", "ninf"}))
        add("float precision " + " ".join(ks), lambda I, ks=ks: D(
            "float", precision=sym("p", "int"), **{k: sym(k, "float") for k in ks}))
    grid = [0.0, 0.1, 0.14, 0.16, 0.26, 1.0, 1.06, 1.14, -0.14, -0.26, 2.71828, 2.718, 1e17,
            1e308, 1.1e308, float("inf"), float("nan")]
    for p in (1, 2, 3, 15) if deep else (1, 2):
        add(f"float constants precision {p}", lambda I, p=p: D(
            "float", value=choose(I, grid, "fixed value"), precision=p), lambda I: choose(I, grid, "value"))
    near = [1.0, 1.0000000001, 1.00000001, 1.0001, 0.0, 1e-12, -1.0, 2.0, 1e300, float("inf")]
    add("float constants tolerance", lambda I: D("float", value=choose(I, near, "fixed value")),
        lambda I: choose(I, near, "value"))

    lens = [[], ["len"], ["min_len"], ["max_len"], ["min_len", "max_len"]]
    iv = lambda k: sym(k, "int")
    strv = lambda I: anyval("v", {"str", "strsub", "int", "none", "list", "bytes"})
    for ls in lens:
        for sub in (False, True):
            for val in (False, True):
                for alpha in (None, "abc", "unknown"):
                    if val and alpha and ls and not deep:
                        continue
                    ks = {}

                    def desc(I, ls=ls, sub=sub, val=val, alpha=alpha):
                        ks = {k: iv(k) for k in ls}
                        if sub:
                            ks["substr"] = sym("u", "str") if not alpha else choose(I, ["", "a", "ab"], "substr")
                        if val:
                            ks["value"] = sym("x", "str") if not alpha else choose(I, ["", "a", "cab"], "value")
                        if alpha == "abc":
                            ks["alphabet"] = "abc"
                        elif alpha:
                            ks["alphabet"] = mk_cat([sym("a0", "str", char=True), sym("a1", "str", char=True)])
                        return D("str", **ks)
                    name = " ".join(["str"] + ls + (["substr"] if sub else []) + (["value"] if val else []) +
                                    ([f"alphabet {alpha}"] if alpha else []))
                    add(name, desc, (lambda I: anyval()) if not alpha and not val else strv)
    # boundary parameters: falsy is not absent
    texts = ["", "a", "b", "ab", "ba", "aa", "\n", "\0", "A", "é", "е", "ß", "ss", " ", "a" * 40]
    for al in ("", "a", "ab", "aab", "é", "\n", "A", " ", "ß", "".join(map(chr, range(33, 127)))):
        add(f"str alphabet constants {al[:9]!r}", lambda I, al=al: D("str", alphabet=al), lambda I: choose(I, texts, "text"))
        add(f"str alphabet unknown text {al[:3]!r}", lambda I, al=al: D("str", alphabet=al), lambda I: mk_cat(
            [sym(f"c{i}", "str", char=True) for i in range(choose(I, [1, 2], "length"))])) if len(al) < 9 else None
    for su in ("", "a", "ab", "aa", "\n", "é", "ss"):
        add(f"str substr constants {su!r}", lambda I, su=su: D("str", substr=su), lambda I: choose(I, texts, "text"))
    for k in ("len", "min_len", "max_len"):
        for form in ("str", "free", "typed", "exact", "head", "tail", "contains"):
            els = [] if form in ("exact", "tail") else [D("any")]
            add(f"zero {k} {form}", lambda I, k=k, form=form, els=els: D("str", **{k: choose(I, [0, 1, 2], k)}) if form == "str" else D(
                "list", **{k: choose(I, [0, 1, 2], k)}, **({} if form == "free" else {"form": form, "type": D("any")} if form == "typed"
                                                          else {"form": form, "els": els})),
                lambda I, form=form: choose(I, ["", "a", "ab", "abc"] if form == "str" else [0, 1, 2, 3], "value") if form == "str" else ListObj(
                    [cell(f"z{i}") for i in range(choose(I, [0, 1, 2, 3], "length"))]))
    for k in ("value", "min", "max"):
        add(f"zero int {k}", lambda I, k=k: D("int", **{k: choose(I, [0, -1, 1, False, True], k)}),
            lambda I: choose(I, [0, 1, -1, 2, True, False, 0.0, "0", None], "value"))
        add(f"zero float {k}", lambda I, k=k: D("float", **{k: choose(I, [0.0, -0.0, 1.0, -1.0], k)}),
            lambda I: choose(I, [0.0, -0.0, 0, 5e-324, 1.0, -1.0, "0", None], "value"))
    for pr in (0, 1):
        add(f"precision {pr}", lambda I, pr=pr: D("float", value=choose(I, [0.0, 1.0, 0.5, -0.5], "value"), precision=pr),
            lambda I: choose(I, [0.0, 0.4, 0.04, 0.5, 0.54, 1.0, 1.4, 1.6, -0.5, -0.4], "value"))
    for t, vs in {"bool": [False, True], "str": ["", "a"], "bytes": [b"", b"a"]}.items():
        add(f"falsy value {t}", lambda I, t=t, vs=vs: D(t, value=choose(I, vs, "value")),
            lambda I: choose(I, [False, True, "", "a", b"", b"a", 0, 1, None], "v"))
    add("str pattern", lambda I: D("str", pattern=sym("p", "str")))
    add("str pattern value", lambda I: D("str", pattern=sym("p", "str"), value=sym("x", "str")), strv)
    pats = ["a", "^a", "a$", "^a$", "^a+$", "b*", "a|b", "[^a]", "", "^$"]
    txts = ["", "a", "b", "ba", "ab", "aa", "bab", "a\n", "xyz"]
    add("str pattern constants", lambda I: D("str", pattern=choose(I, pats, "pattern")),
        lambda I: choose(I, txts, "text"))

    # ------------------------------------------------------------ lists
    N = 5 if deep else 4
    lv = lambda I: choose_list(I, "v", 0, N)
    for ls in lens:
        add("list free " + " ".join(ls), lambda I, ls=ls: D("list", **{k: iv(k) for k in ls}))
        add("list typed " + " ".join(ls), lambda I, ls=ls: D(
            "list", form="typed", type=mem(I, "T"), **{k: iv(k) for k in ls}), lv)
        for form in ("exact", "head", "tail", "contains"):
            for k in range(0 if form in ("exact", "tail") else 1, 5 if deep else 4):
                if form == "contains" and k == 3 and ls and not deep:
                    continue
                add(f"list {form} {k} " + " ".join(ls), lambda I, ls=ls, form=form, k=k: D(
                    "list", form=form, els=[mem(I, f"E{i}") for i in range(k)], **{x: iv(x) for x in ls}), lv)
    for form in ("typed", "exact", "head", "tail", "contains"):
        add(f"list {form} of any kind of value", lambda I, form=form: D(
            "list", form=form, type=mem(I, "T"), els=[mem(I, "E0"), mem(I, "E1")]))
        add(f"list {form} repeated element", lambda I, form=form: (
            lambda m: D("list", form=form, type=m, els=[m, m]))(mem(I, "E")), lv)

    # ------------------------------------------------------------ dicts
    def dicts(name, ents, relaxed=None, extras=1, conc=False):
        names = ["a", "b", "c", "d"] if conc else None

        def desc(I):
            I._keys = [names[i] if conc else key(f"k{i}") for i in range(len(ents))]
            return D("dict", entries=[(I._keys[i], mem(I, f"M{i}"), opt) for i, opt in enumerate(ents)],
                     relaxed=relaxed)

        def value(I):
            return choose_dict(I, "v", I._keys, [key(f"x{i}") for i in range(extras)])
        add(name, desc, value)
    add("dict free", lambda I: D("dict"))
    for rel in (None, "last", "first"):
        for n in range(0, 4 if deep else 3):
            for m in range(1 << n):
                opts = [bool(m >> i & 1) for i in range(n)]
                dicts(f"dict {''.join('o' if o else 'r' for o in opts) or 'empty'}"
                      f"{' relaxed ' + rel if rel else ''}", opts, rel, 2)
        dicts(f"dict literal keys {rel}", [False, True], rel, 1, conc=True)
        add(f"dict of any kind of value {rel}", lambda I, rel=rel: D(
            "dict", entries=[("a", mem(I, "M"), False), ("b", mem(I, "N"), True)], relaxed=rel))
    odd = [None, 0, "", False, 1.5, b"k", (1, 2), 10]
    for rel in (None, "last"):
        add(f"dict unusual keys {rel}", lambda I, rel=rel: D(
            "dict", entries=[(choose(I, odd, "declared key"), mem(I, "M"), bool(choose(I, [0, 1], "optional")))],
            relaxed=rel),
            lambda I: DictObj([[choose(I, odd + [...], "present key"), cell("x")]]
                              if choose(I, [1, 0], "non-empty") else []))

    okey = lambda I: Sym("opaque key", {"object"}, atom=True)
    for rel in (None, "last"):
        for sh in ("dict", "exact", "typed"):
            def odesc(I, rel=rel, sh=sh):
                I._k = okey(I)
                leaf = choose(I, [D("int"), mem(I, "M")], "member")
                inner = D("dict", entries=[("b", D("list", form="typed", type=leaf), False)])
                inner = D("dict", entries=[(I._k, inner, False)], relaxed=rel)
                return {"dict": lambda: D("dict", entries=[("a", inner, False)]),
                        "exact": lambda: D("list", form="exact", els=[inner]),
                        "typed": lambda: D("list", form="typed", type=inner)}[sh]()

            def ovalue(I, sh=sh):
                x = ListObj([1, cell("x")])
                x = DictObj([[I._k, DictObj([["b", x]])]] if choose(I, [1, 0], "opaque key present") else [])
                return DictObj([["a", x]]) if sh == "dict" else ListObj([x])
            add(f"opaque dict keys {rel} in {sh}", odesc, ovalue)
    # keys of every spelling and kind: declared, absent, extra, holding the wrong value, holding nothing much
    nothing = lambda I: choose(I, [lambda: None, lambda: False, lambda: 0, lambda: 0.0, lambda: "", lambda: b"", lambda: ListObj([]), lambda: DictObj([]),
                                   lambda: (), lambda: Ellipsis, lambda: I.py("Nil"), lambda: I.py("NotImplemented"), lambda: I.py("int"),
                                   lambda: I.py("schema.int"), lambda: I.py("optional('k')"), lambda: SetObj([])], "the member")()
    more = lambda I: choose(I, ODD_KEYS + [okey(I)], "the key")
    for rel in (None, "last", "first"):
        for opt in (False, True):
            nm = f"{'optional' if opt else 'required'} relaxed {rel}"
            add(f"keys: extra, {nm}", lambda I, rel=rel, opt=opt: D("dict", entries=[("k", D("int"), opt)], relaxed=rel),
                lambda I: DictObj((lambda a, b: a + b if choose(I, [0, 1], "order") else b + a)(
                    [["k", 1]] if choose(I, [1, 0], "k present") else [], [[more(I), choose(I, [1, None, "x"], "extra value")]])))

            def kdesc(I, rel=rel, opt=opt):
                I._odd = more(I)
                return D("dict", entries=[("k", D("int"), False), (I._odd, D("int"), opt), ("z", D("none"), True)], relaxed=rel)
            add(f"keys: declared, {nm}", kdesc, lambda I: DictObj([["k", 1]] + choose(I, [
                [], [[I._odd, 1]], [[I._odd, "x"]], [[I._odd, None]], [[I._odd, 1], ["z", None]], [["z", None]], [["z", 0]]], "the rest")))
            add(f"keys: nothing much, {nm}", lambda I, rel=rel, opt=opt: D("dict", entries=[
                ("k", choose(I, [mem(I, "M"), D("any"), D("int"), D("none"), D("any", types=[D("none"), D("dict", entries=[])])], "schema"), opt)], relaxed=rel),
                lambda I: DictObj([["k", nothing(I)]]))
    for form in ("typed", "exact", "head", "tail", "contains"):
        add(f"elements: nothing much, {form}", lambda I, form=form: (lambda d: D("list", form=form, type=d, els=[d]))(
            choose(I, [mem(I, "M"), D("any"), D("int"), D("none"), D("any", types=[D("none"), D("list", form="exact", els=[])])], "schema")),
            lambda I: ListObj([nothing(I)]))
    for kn in ("none", "bool", "int", "float", "str", "bytes", "list", "dict", "any", "uuid4", "date", "datetime"):
        add(f"nothing much against {kn}", lambda I, kn=kn: D(kn), lambda I: nothing(I))
        add(f"nothing much against any of {kn}", lambda I, kn=kn: D("any", types=[D(kn), D("int", value=7)]), lambda I: nothing(I))
    # patterns: anchors, flags and letters that a flag or another entry point of re would read differently
    for pat in ("^[a-z]+$", "^a.b$", "a.b", "\\w+$", "^\\d+$", "^K$", "k", "^$", "^a\\Z", "b", "^b", "(?i)k", "(?s)a.b", "a  b", "a#b", "^\\s$", "\\bk\\b", "ſ", "^[^a]$"):
        add(f"pattern {pat!r}", lambda I, pat=pat: D("str", pattern=pat), lambda I: choose(I, [
            "", "a", "b", "k", "K", "ab", "ba", "a\nb", "b\na", "abc\n", "ABC\nabc", "\n", "a\n\n", "é", "١٢", "12", "ſ", "s", "\u212a", " ", "\u2003", "a  b", "a#b", "ab#b", "1 k 2", "xkx", "\r"], "text"))
    # ------------------------------------------------------------ any, alias
    add("any free", lambda I: D("any"))
    for n in range(1, 5 if deep else 4):
        add(f"any {n}", lambda I, n=n: D("any", types=[mem(I, f"A{i}") for i in range(n)]))
    add("alias", lambda I: D("alias", type=mem(I, "T")))
    add("alias of alias", lambda I: D("alias", type=D("alias", type=mem(I, "T"), name="t2")))
    # ------------------------------------------------------------ built-in members in every position
    kinds = {
        "none": lambda I, n: D("none"), "bool": lambda I, n: D("bool"), "int": lambda I, n: D("int", min=sym(n + ".lo", "int")),
        "float": lambda I, n: D("float"), "str": lambda I, n: D("str", min_len=sym(n + ".l", "int")),
        "bytes": lambda I, n: D("bytes"), "uuid4": lambda I, n: D("uuid4"), "datetime": lambda I, n: D("datetime"),
        "date": lambda I, n: D("date"),
        "list": lambda I, n: D("list"), "typed": lambda I, n: D("list", form="typed", type=mem(I, n + ".T")),
        "exact": lambda I, n: D("list", form="exact", els=[mem(I, n + ".E")]),
        "head": lambda I, n: D("list", form="head", els=[mem(I, n + ".E")]),
        "contains": lambda I, n: D("list", form="contains", els=[mem(I, n + ".E")]),
        "dict": lambda I, n: D("dict"),
        "keys": lambda I, n: D("dict", entries=[("p", mem(I, n + ".P"), False)]),
        "optkeys": lambda I, n: D("dict", entries=[("p", mem(I, n + ".P"), True)]),
        "relaxed": lambda I, n: D("dict", entries=[("p", mem(I, n + ".P"), True)], relaxed=True),
        "any": lambda I, n: D("any"), "anyof": lambda I, n: D("any", types=[mem(I, n + ".A"), D("none")]),
        "alias": lambda I, n: D("alias", type=mem(I, n + ".T")),
    }
    positions = {
        "typed element": lambda I, d: D("list", form="typed", type=d),
        "exact element": lambda I, d: D("list", form="exact", els=[mem(I, "E0"), d]),
        "head element": lambda I, d: D("list", form="head", els=[d]),
        "tail element": lambda I, d: D("list", form="tail", els=[d]),
        "contains element": lambda I, d: D("list", form="contains", els=[d]),
        "dict value": lambda I, d: D("dict", entries=[("a", d, False)]),
        "optional dict value": lambda I, d: D("dict", entries=[("a", d, True), ("b", mem(I, "M"), False)],
                                              relaxed=True),
        "alternative": lambda I, d: D("any", types=[mem(I, "A"), d]),
        "first alternative": lambda I, d: D("any", types=[d, mem(I, "A")]),
        "alias target": lambda I, d: D("alias", type=d),
    }
    wide = frozenset({"none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date", "list", "dict",
                      "object"})

    def hold(pos):
        def inner(I, nm="x"):
            return Sym(nm, wide)

        def value(I):
            x = inner(I)
            if "element" in pos:
                n = choose(I, [1, 2, 0] if "exact" not in pos else [2, 1], "length")
                return ListObj([cell(f"y{i}") for i in range(n - 1)] + [x] if n else [])
            if "dict" in pos:
                ents = [["a", x]] if choose(I, [1, 0], "a present") else []
                if "optional" in pos:
                    ents.append(["b", cell("y")])
                return DictObj(ents)
            return x
        return value
    shells = {
        "typed": lambda I, d, n: D("list", form="typed", type=d),
        "exact": lambda I, d, n: D("list", form="exact", els=[D("any"), d]),
        "tail": lambda I, d, n: D("list", form="tail", els=[d]),
        "contains": lambda I, d, n: D("list", form="contains", els=[d]),
        "dict": lambda I, d, n: D("dict", entries=[("a", d, False), ("z", D("int"), True)]),
        "alias": lambda I, d, n: D("alias", type=d),
    }

    def wrap(shell, x, n):
        if shell == "typed":
            return ListObj([0, x] if n else [x])
        if shell in ("exact", "tail", "contains"):
            return ListObj([0, x])
        if shell == "dict":
            return DictObj([["z", 0], ["a", x]] if n else [["a", x]])
        return x
    import itertools
    for a, b in itertools.product(shells, shells):
        for c in shells if deep else ("dict", "exact"):
            add(f"depth 3 {a}/{b}/{c}",
                lambda I, a=a, b=b, c=c: shells[a](I, shells[b](I, shells[c](I, D("str", alphabet="ab", min_len=1), 2), 1),
                                                   0),
                lambda I, a=a, b=b, c=c: wrap(a, wrap(b, wrap(c, choose(I, ["", "ab", "ac", 5, None], "leaf"), 1), 0), 1))
    # chains of containers deeper than any fixed cut of a path
    chain = ("dict", "exact", "typed", "dict", "tail", "alias", "dict", "dict", "exact", "dict", "typed", "dict")

    def chained(n, kd):
        def desc(I):
            I._names = [key(f"c{i}") for i in range(n)]
            d = kd(I, "n")
            for i in reversed(range(n)):
                d = {"dict": lambda: D("dict", entries=[(I._names[i], d, False)]),
                     "exact": lambda: D("list", form="exact", els=[D("any"), d]),
                     "typed": lambda: D("list", form="typed", type=d),
                     "tail": lambda: D("list", form="tail", els=[d]),
                     "alias": lambda: D("alias", type=d)}[chain[i]]()
            return d

        def value(I):
            x = Sym("x", frozenset({"int", "str", "list", "dict", "uuid4", "object"}))
            for i in reversed(range(n)):
                x = {"dict": lambda: DictObj([[I._names[i], x]]), "alias": lambda: x,
                     "typed": lambda: ListObj([x])}.get(chain[i], lambda: ListObj([0, x]))()
            return x
        return desc, value
    for n in (7, 12) if deep else (7,):
        for kn in ("int", "str", "exact", "contains", "keys", "relaxed", "anyof", "uuid4"):
            desc, value = chained(n, kinds[kn])
            add(f"depth {n} {kn}", desc, value, set={"SHAPE_MAX": 2})
    # wider than any fixed number of elements, keys, alternatives or errors
    odd_one = lambda I, n, mk: [Sym("x", frozenset({"int", "str", "none"})) if i == at else mk(i)
                                for at in [choose(I, [0, n // 2, n - 1], "the unknown one")] for i in range(n)]
    for n in (33, 130) if deep else (33,):
        ints = lambda n=n: [D("int") for _ in range(n)]
        for form in ("exact", "head", "tail"):
            add(f"wide {n} {form}", lambda I, form=form, ints=ints: D("list", form=form, els=ints()),
                lambda I, n=n: ListObj(odd_one(I, n, lambda i: i) + choose(I, [[], [1], [1, "y"] * 20], "more")))
            add(f"wide {n} {form} all wrong", lambda I, form=form, ints=ints: D("list", form=form, els=ints()),
                lambda I, n=n: ListObj(["y"] * choose(I, [n, n - 1, n + 30], "length")))
        add(f"wide {n} typed", lambda I: D("list", form="typed", type=D("int")),
            lambda I, n=n: ListObj(odd_one(I, n, lambda i: i)))
        add(f"wide {n} typed all wrong", lambda I: D("list", form="typed", type=D("int")), lambda I, n=n: ListObj(["y"] * n))
        add(f"wide {n} contains", lambda I: D("list", form="contains", els=[D("int", value=1), D("int", value=2)]),
            lambda I, n=n: ListObj([0] * (n - 8) + choose(I, [[1, 2], [1, 0], [0, 2]], "the end")))
        for rel in (None, "last"):
            add(f"wide {n} dict {rel}", lambda I, n=n, rel=rel: D("dict", entries=[
                (f"k{i}", D("int"), i % 3 == 1) for i in range(n)], relaxed=rel),
                lambda I, n=n: DictObj([[f"k{i}", x] for i, x in enumerate(odd_one(I, n, lambda i: i))
                                        if i % 3 != 1 or n % 2] + ([["z", 1]] if choose(I, [0, 1], "extra key") else [])))
            add(f"wide {n} dict {rel} all wrong", lambda I, n=n, rel=rel: D("dict", entries=[
                (f"k{i}", D("int"), i % 3 == 1) for i in range(n)], relaxed=rel),
                lambda I, n=n: DictObj([[f"{c}{i}", "y"] for c in [choose(I, ["k", "j", ""], "keys")] for i in range(n) if c]))
        add(f"wide {n} any", lambda I, n=n: D("any", types=[D("int", value=i) for i in range(n)]),
            lambda I, n=n: choose(I, [0, n // 2, n - 1, n], "value"))
    for pn, pos in positions.items():
        for kn, kd in kinds.items():
            add(f"{kn} as {pn}", lambda I, pos=pos, kd=kd: pos(I, kd(I, "n")), hold(pn),
                set={"SHAPE_MAX": 2 if not deep else 3})
    return out
