"""C06: the text of a schema is an expression that rebuilds it."""
import ast
import builtins
import itertools
from .lib import *   # noqa
from .decl import STEPS, slot
from .edits import edits
from .subst import big, kinds_of, positions_of

RULES = {
    "declared": "whatever a chain of declaration calls built, its text evaluates to an equal schema with the same text",
    "nested": "the same for every built-in form in every position of every other, three levels deep",
    "lists": "the same for every placement of members and `...` in a list, with every form of len()",
    "dicts": "the same for every table of keys: optional and required, `...` first, last or between, keys of every kind",
    "derived": "the same for results of +, |, %, make_required, indexing and refinement of those",
    "indented": "the same at every indentation, and through any name of the facade",
    "pinned": "values of every kind, alone and as keys, are written so that evaluating the text gives the value back",
}
EXPLANATION = """
Abstract interpretation of the representor over schemas with unknown parameters and opaque members.  Its result is text with
holes: literal pieces, `repr(x)` of an unknown value, the text of a member.  The literal pieces are parsed by Python's own
parser with every hole as one name (so a hole that is glued to other text, quoted or cut is noticed), the names used are
checked against `schema`, `optional`, `UUID`, `datetime` and the built-ins, and the expression is interpreted abstractly, a
hole being the value it is the text of.  What comes back is compared with the original by ==, by its public parts and by its
own text.  Opaque members carry the induction over nesting: a member's text is assumed to evaluate to the member.
"""
ASSUMPTIONS = ["a value's own __repr__ is trusted for int, float, str, bytes, UUID, datetime and date, not for subclasses of them",
               "NaN as a dict key is left out: no two NaN objects are the same key",
               "dict keys that have no expression over builtins, UUID and datetime (arbitrary objects) are left out"]

LITERAL = {"none", "bool", "int", "float", "str", "bytes", "ellipsis", "bytearray"}
NAMED = {"uuid4": "UUID", "uuidx": "UUID", "datetime": "datetime", "date": "datetime"}


class Cut(Exception):
    pass


def hole(I, p):
    """The value the text piece p evaluates to."""
    p = I.c(p)
    if isinstance(p, Term) and p.op == "srepr":
        return I.member("", p.args[0])
    if isinstance(p, Term) and p.op in ("repr", "brepr", "str", "hex", "bin", "oct"):
        x = I.c(p.args[0])
        if p.op in ("hex", "bin", "oct"):
            return x
        if isinstance(x, (Lin,)):
            return x
        if isinstance(x, CONC) and not isinstance(x, str):
            return constant(x)
        if isinstance(x, (Cat, str)):
            if p.op == "str":
                raise Cut(f"the text {show(x)} is written without quotes")
            return x
        tags = I.st.tags_of(x)
        if p.op == "brepr":
            return I.py("1 if x else 0", x=x) if "bool" in tags else x
        for t in sorted(tags):
            if isinstance(I.c(x), CONC) or I.st.split(x, frozenset({t}), t):
                break
        x = I.c(x)
        if isinstance(x, CONC):
            return constant(x)
        if not isinstance(x, Opaque):
            return x
        tags = I.st.tags_of(x)
        if p.op == "str" and not tags <= {"int", "hugeint", "float", "bool", "none"}:
            raise Cut(f"str() of {show(x)} ({', '.join(tags)}) is no expression")
        if tags <= LITERAL | {"hugeint"}:
            return x
        need = {NAMED.get(t) for t in tags}
        if None in need:
            raise Cut(f"the text of {show(x)} ({', '.join(sorted(tags))}) is no expression that evaluates to it")
        return x
    raise Cut(f"{show(p)} is written as it is")


def constant(x):
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        raise Cut(f"{x!r} is no expression")
    return x


def rebuild(I, ctx, text, name="schema"):
    """Evaluate text with holes; raises Cut with what is wrong with the text."""
    text = I.c(text)
    pieces = list(text.pieces) if isinstance(text, Cat) else [text]
    src, holes = "", {}
    for p in pieces:
        if isinstance(p, str):
            src += p
        else:
            n = f"__hole_{len(holes)}__"
            holes[n] = p
            src += n
    try:
        tree = ast.parse(src.lstrip(" \t"), mode="eval")
    except (SyntaxError, ValueError) as e:
        raise Cut(f"the text is no expression ({e}): {src[:400]}")
    seen = set()
    for nd in ast.walk(tree):
        if isinstance(nd, ast.Name):
            if nd.id in holes:
                seen.add(nd.id)
            elif nd.id not in (name.split(".")[0], "optional", "UUID", "datetime") and not hasattr(builtins, nd.id):
                raise Cut(f"the text uses the name {nd.id}: {src[:400]}")
    for n in holes:
        if n not in seen:
            raise Cut(f"{show(holes[n])} is not a token of its own in {src[:400]}")
    names = {n: hole(I, p) for n, p in holes.items()}
    r = I.attempt(src.lstrip(" \t").replace("\n", " ") if "'''" not in src else src, **names,
                  **{name.split(".")[0]: I.scen.ns["schema"]}, UUID=I.scen.ns["UUID"], datetime=Ext("datetime"))
    if r[0] == "exc":
        raise Cut(f"evaluating the text raises {I.exc_text(r[1])}: {src[:400]}")
    return r[1]


def roundtrip(I, ctx, s, text=None):
    ctx.inputs["schema"] = I.py("observe(s)", s=s)
    t = I.attempt("repr(s)", s=s) if text is None else text
    if not ctx.check(t[0] == "ok", "repr raised", lambda: I.exc_text(t[1]), t[2]):
        return
    t = t[1]
    try:
        r = rebuild(I, ctx, t)
    except Cut as e:
        return ctx.check(False, "the text does not evaluate", lambda: str(e))
    if not ctx.check(I.isinstance(r, I.scen.ns["Schema"]), "the text evaluates to something other than a schema", lambda: show(t)):
        return
    ctx.check(I.truth(I.py("alike(s, r)", s=s, r=r)), "the rebuilt schema has other parts",
              lambda: f"text {show(t)[:400]}; rebuilt {show(I.py('observe(r)', r=r))[:400]}")
    for e in ("s == r", "r == s", "not (s != r)"):
        q = I.attempt(e, s=s, r=r)
        if ctx.check(q[0] == "ok", f"{e} raised", lambda: I.exc_text(q[1]), q[2]):
            ctx.check(I.truth(q[1]), f"the rebuilt schema is not equal: {e}", lambda: f"text {show(t)[:400]}")
    for e in ("repr(r)", "represent(r)"):
        q = I.attempt(e, r=r)
        if ctx.check(q[0] == "ok", f"{e} of the rebuilt schema raised", lambda: I.exc_text(q[1]), q[2]):
            if text is None:
                ctx.check(I.truth(I.py("a == b", a=t, b=q[1])), "the rebuilt schema has another text", lambda: f"{show(t)} / {show(q[1])}")
    if text is None:
        ctx.check(I.truth(I.py("a == represent(s)", a=t, s=s)), "repr and represent differ", lambda: show(t))
        ctx.check(I.truth(I.py("a == repr(s)", a=t, s=s)), "repr twice differs", lambda: show(t))


# ------------------------------------------------------------------ declaration chains
def declared(t, steps):
    def fn(I, ctx):
        s = I.py(f"schema.{t}")
        for i, step in enumerate(steps):
            args = step.make(I, str(i))
            r = step.apply(I, s, args)
            if r[0] == "exc":
                return ctx.note("declaration refused")
            s = r[1]
        roundtrip(I, ctx, s)
    return fn


def chains(t, n):
    """Every sequence of up to n steps of different slots."""
    for k in range(n + 1):
        for seq in itertools.permutations(STEPS.get(t, []), k):
            if len({slot(s) for s in seq}) == k:
                yield seq


# ------------------------------------------------------------------ forms in positions
iv = lambda k: sym(k, "int")
FORMS = {
    "none": lambda I, n: D("none"), "bool": lambda I, n: D("bool", value=sym(n, "bool")), "int": lambda I, n: D("int", min=iv(n + "lo")),
    "float": lambda I, n: D("float", value=sym(n, "float", "inf", "ninf", "nan"), precision=iv(n + "p")),
    "str": lambda I, n: D("str", min_len=iv(n + "l")), "text": lambda I, n: D("str", value=sym(n, "str")),
    "bytes": lambda I, n: D("bytes", value=sym(n, "bytes")), "uuid4": lambda I, n: D("uuid4", value=sym(n, "uuid4")),
    "datetime": lambda I, n: D("datetime", value=sym(n, "datetime")), "date": lambda I, n: D("date", value=sym(n, "date", "datetime")),
    "list": lambda I, n: D("list", min_len=iv(n + "l")), "typed": lambda I, n: D("list", form="typed", type=mem(I, n + "T")),
    "typed len": lambda I, n: D("list", form="typed", type=mem(I, n + "T"), len=iv(n + "l")),
    "exact": lambda I, n: D("list", form="exact", els=[mem(I, n + "E"), mem(I, n + "F")]),
    "empty": lambda I, n: D("list", form="exact", els=[]), "any list": lambda I, n: D("list", form="tail", els=[]),
    "head len": lambda I, n: D("list", form="head", els=[mem(I, n + "E")], min_len=iv(n + "l")),
    "tail": lambda I, n: D("list", form="tail", els=[mem(I, n + "E")]), "contains": lambda I, n: D("list", form="contains", els=[mem(I, n + "E")]),
    "dict": lambda I, n: D("dict"), "no keys": lambda I, n: D("dict", entries=[]), "only ...": lambda I, n: D("dict", entries=[], relaxed="last"),
    "keys": lambda I, n: D("dict", entries=[("a", mem(I, n + "A"), False), ("b", mem(I, n + "B"), True)]),
    "relaxed": lambda I, n: D("dict", entries=[(key(n + "k"), mem(I, n + "A"), True)], relaxed="last"),
    "relaxed first": lambda I, n: D("dict", entries=[(key(n + "k"), mem(I, n + "A"), False)], relaxed="first"),
    "any": lambda I, n: D("any"), "any of": lambda I, n: D("any", types=[mem(I, n + "A"), mem(I, n + "B")]),
    "any of one": lambda I, n: D("any", types=[mem(I, n + "A")]),
}
POS = {
    "typed": lambda I, d, n: D("list", form="typed", type=d), "typed max": lambda I, d, n: D("list", form="typed", type=d, max_len=iv(n + "m")),
    "exact": lambda I, d, n: D("list", form="exact", els=[mem(I, n + "0"), d]), "head": lambda I, d, n: D("list", form="head", els=[d]),
    "tail": lambda I, d, n: D("list", form="tail", els=[d, mem(I, n + "0")]), "contains": lambda I, d, n: D("list", form="contains", els=[d]),
    "dict": lambda I, d, n: D("dict", entries=[("a", mem(I, n + "0"), True), ("b", d, False)]),
    "optional": lambda I, d, n: D("dict", entries=[(key(n + "k"), d, True)], relaxed="last"),
    "first of any": lambda I, d, n: D("any", types=[d, mem(I, n + "0")]), "last of any": lambda I, d, n: D("any", types=[mem(I, n + "0"), d]),
}


def nested(pos, form):
    def fn(I, ctx):
        d = FORMS[form](I, "n")
        for i, p in enumerate(reversed(pos)):
            d = POS[p](I, d, f"p{i}")
        r = I.attempt("build(d)", d=lift(d))
        if r[0] == "exc":
            return ctx.note("declaration refused")
        roundtrip(I, ctx, r[1])
    return fn


LEN = {"": "s", "len": "s.len(a)", "from": "s.len(a, ...)", "to": "s.len(..., a)", "between": "s.len(a, b)"}


def lists(shape, ln, builtin):
    def fn(I, ctx):
        els = [... if c == "." else I.py("schema.int.min(x)", x=iv(f"x{i}")) if builtin else I.member(f"E{i}") for i, c in enumerate(shape)]
        r = I.attempt("schema.list(els)", els=ListObj(els))
        if r[0] == "exc":
            return ctx.note("declaration refused")
        r = I.attempt(LEN[ln], s=r[1], a=iv("a"), b=iv("b"))
        if r[0] == "exc":
            return ctx.note("declaration refused")
        roundtrip(I, ctx, r[1])
    return fn


KEYTAGS = ("none", "bool", "int", "hugeint", "float", "inf", "ninf", "str", "bytes", "uuid4", "uuidx", "datetime", "date", "intsub", "floatsub", "strsub")
FEW = ("int", "inf", "intsub", "str", "bytes", "uuid4")
CONCKEYS = ["", "it's", 'say "x"', "a\nb", "a'\"b", "\\", "{x}", "%s", "é", "\x00", "\ud800", "schema", b"\x00'", 0, -1, True, None, 1.5, -0.0, 1e22,
            float("inf"), float("-inf"), (), (1,), (1, "a"), ((1, 2), ("a",)), (float("inf"), 1), ("x", (float("-inf"),)), 10 ** 5000, (10 ** 5000,), (..., 1), (None, True)]
CONCKEYS += [k for k in ODD_KEYS if not any(type(k) is type(x) and k == x for x in CONCKEYS)]


def dicts(entries, rel):
    def fn(I, ctx):
        ent = []
        for i, kind in enumerate(entries):
            k = key(f"k{i}")
            ent.append([I.py("optional(k)", k=k) if kind == "o" else k, I.member(f"M{i}")])
        if rel is not None:
            ent.insert(rel, [..., ...])
        r = I.attempt("schema.dict(k)", k=DictObj(ent))
        if r[0] == "exc":
            return ctx.note("declaration refused")
        roundtrip(I, ctx, r[1])
    return fn


def dict_keys(make, opt, nest=False):
    def fn(I, ctx):
        k = make(I)
        ctx.inputs["key"] = k
        e = [[I.py("optional(k)", k=k) if opt else k, I.member("M")], ["other", I.member("N")]]
        r = I.attempt("schema.dict(k)" if not nest else "schema.list([schema.dict({'q': schema.dict(k)})])", k=DictObj(e))
        if r[0] == "exc":
            return ctx.note("declaration refused")
        roundtrip(I, ctx, r[1])
    return fn


DERIVED = {
    "sum": "schema.dict({'a': A, optional('b'): B}) + schema.dict({'b': C, 'c': A})",
    "sum relaxed left": "schema.dict({'a': A, ...: ...}) + schema.dict({optional('b'): B})",
    "sum relaxed right": "schema.dict({'a': A}) + schema.dict({optional('b'): B, ...: ...})",
    "sum relaxed both": "schema.dict({...: ..., 'a': A}) + schema.dict({'b': B, ...: ...})",
    "sum with free": "schema.dict + schema.dict({'a': A})", "sum with free right": "schema.dict({'a': A}) + schema.dict",
    "sum with only ...": "schema.dict({'a': A}) + schema.dict({...: ...})", "sum of three": "schema.dict({'a': A}) + schema.dict({'a': B, optional('z'): C}) + schema.dict({optional('a'): C})",
    "empty sum": "schema.dict({}) + schema.dict({})",
    "required": "make_required(schema.dict({optional('a'): A, optional('b'): B, ...: ...}))",
    "required some": "make_required(schema.dict({optional('a'): A, optional('b'): B}), ['b'])",
    "required of sum": "make_required(schema.dict({optional('a'): A}) + schema.dict({optional('b'): B, ...: ...}), ['a'])",
    "required nested": "schema.dict({'x': make_required(schema.dict({optional('a'): A}))})",
    "or": "A | B", "or three": "(A | B) | C", "or right": "A | (B | C)", "or nested any": "schema.any(A, schema.any(B, schema.any(C)))", "or free": "A | schema.any",
    "or in list": "schema.list(A | B)", "or in dict": "schema.dict({'a': A | schema.none})", "or builtins": "schema.int.min(x) | schema.str.len(x, ...) | schema.none",
    "subst dict": "schema.dict({'a': schema.int, optional('b'): A}) % {'a': x}", "subst relaxed": "schema.dict({'a': schema.int, ...: ...}) % {'a': x, 'z': 'new'}",
    "subst typed list": "schema.list(schema.int) % [x, 1]", "subst head": "schema.list([schema.int, ...]) % [x, 1, 'q']", "subst contains": "schema.list([..., schema.int, ...]) % [x, 1]",
    "subst free list": "schema.list % [x, None, [1]]", "subst free dict": "schema.dict % {'a': {'b': x}}", "subst any": "schema.any(schema.int, schema.str) % x",
    "subst float": "schema.float.precision(2) % f", "subst str": "schema.str.len(1, ...) % q", "subst date": "schema.date % d", "subst nested ...": "schema.dict({'a': schema.list([A, B])}) % {'a': [..., ...]}",
    "indexed": "schema.dict({'a': schema.list([A, ...])})['a']", "indexed refined": "schema.dict({'a': schema.int})['a'].min(x)",
    "from_native": "from_native({'a': [x, q, f, None, True, b'q', {'z': []}], 'n': {}})",
    "rolled out": "schema.dict(rollout({'a.b': A, optional('a.c'): B, 'd': C}))",
    "optional around optional": "schema.dict({optional('a'): schema.dict({optional('b'): schema.dict({optional('c'): A, ...: ...})})})",
    "or in or in list": "schema.list([A | B, ..., ]) | schema.list([..., A])",
}


def derived(text):
    def fn(I, ctx):
        names = dict(A=I.member("A"), B=I.member("B"), C=I.member("C"), x=iv("x"), q=sym("q", "str"), f=sym("f", "float", "inf", "ninf", "nan"),
                     d=sym("d", "date", "datetime"))
        r = I.attempt(text, **names)
        if r[0] == "exc":
            return ctx.note("refused: " + I.exc_text(r[1]))
        roundtrip(I, ctx, r[1])
    return fn


FROZEN = ["frozenset()", "frozenset([x])", "frozenset([('a', x), 'b'])", "frozenset(['a', 'b'])", "frozenset([1, ('a', y)])", "(frozenset(['a', 'b']), frozenset())"]


def hash_order(text, opt):
    """The text does not depend on the iteration order of sets, which differs between processes."""
    def fn(I, ctx):
        I.set_order = False
        k = I.py(text, x="x", y=2)
        s = I.attempt("schema.dict({optional(k): schema.int})" if opt else "schema.dict({k: schema.int})", k=k)
        if s[0] == "exc":
            return ctx.note("declaration refused")
        a = I.attempt("repr(s)", s=s[1])
        I.set_order = True
        b = I.attempt("repr(s)", s=s[1])
        I.set_order = False
        if a[0] == b[0] == "ok":
            ctx.check(I.truth(I.py("a == b", a=a[1], b=b[1])), "the text depends on the order sets are iterated in", lambda: f"{show(a[1])} / {show(b[1])}")
    return fn


CALLS = {"indent": "represent(s, indent=n)", "width": "s.__accept__(Representor(indent=n))", "both": "s.__accept__(Representor(indent=n), indent=3)",
         "named": "s.__accept__(Representor('schema', n))"}


def indented(form, pos, call):
    def fn(I, ctx):
        d = POS[pos](I, POS["dict"](I, FORMS[form](I, "n"), "i"), "o")
        r = I.attempt("build(d)", d=lift(d))
        if r[0] == "exc":
            return ctx.note("declaration refused")
        n = choose(I, [0, 1, 2, 4, 8], "indentation")
        ctx.inputs["indentation"] = n
        roundtrip(I, ctx, r[1], I.attempt(CALLS[call], s=r[1], n=n))
    return fn


VALUES = {
    "bool": [True, False], "int": [0, -1, 10 ** 20, -10 ** 5000, 10 ** 5000], "float": [0.0, -0.0, 0.1, 1e22, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan")],
    "str": CONCKEYS[:12] + ["x" * 100, "multi\nline", "'''", '"""', "\r", "\u2028", "\\n", "\N{GRINNING FACE}"], "bytes": [b"", b"\x00\xff", b"'", b'"', b"\\"],
}


def pinned(t, wrap):
    def fn(I, ctx):
        if choose(I, [0, 1], "constant") and t in VALUES:
            x = choose(I, VALUES[t], "value")
        else:
            x = Sym("x", ALL_TAGS)
        ctx.inputs["value"] = x
        r = I.attempt(wrap.format(f"schema.{t}(x)"), x=x, A=I.member("A"))
        if r[0] == "exc":
            return ctx.note("refused")
        roundtrip(I, ctx, r[1])
    return fn


def odd(text, args):
    """Refinements given subclasses of the kinds they document, and constants with unusual text."""
    def fn(I, ctx):
        names = {n: Sym(n, frozenset(t)) if isinstance(t, tuple) else choose(I, t, n) for n, t in args.items()}
        ctx.inputs.update(names)
        r = I.attempt(text, **names)
        if r[0] == "exc":
            return ctx.note("refused")
        roundtrip(I, ctx, r[1])
    return fn


ANYINT = ("bool", "int", "hugeint", "intsub")
ANYFLT = ("float", "inf", "ninf", "nan", "floatsub")
ANYSTR = ("str", "strsub")
STRS = VALUES["str"]
ODD = [("schema.int.min(a).max(b)", dict(a=ANYINT, b=ANYINT)), ("schema.int(a).min(b)", dict(a=ANYINT, b=ANYINT)), ("schema.float.min(a).max(b)", dict(a=ANYFLT, b=ANYFLT)),
       ("schema.float(a).precision(b)", dict(a=ANYFLT, b=ANYINT)), ("schema.float.precision(b)", dict(b=ANYINT)), ("schema.str.len(a)", dict(a=ANYINT)),
       ("schema.str.len(a, b)", dict(a=ANYINT, b=ANYINT)), ("schema.list.len(a, b)", dict(a=ANYINT, b=ANYINT)), ("schema.list.len(a)", dict(a=ANYINT)),
       ("schema.list(schema.int).len(a, ...)", dict(a=ANYINT)), ("schema.list(schema.int).len(..., a)", dict(a=ANYINT)),
       ("schema.str.alphabet(a)", dict(a=ANYSTR)), ("schema.str.contains(a)", dict(a=ANYSTR)), ("schema.str.regex(a)", dict(a=("str",))), ("schema.str(a)", dict(a=ANYSTR)),
       ("schema.str.alphabet(a)", dict(a=STRS)), ("schema.str.contains(a)", dict(a=STRS)),
       ("schema.str.regex(a)", dict(a=["a", "", "^a$", "\\d+", "a'b", 'a"b', "a\nb", "[\\\\]", "{", "\\.", "(?P<x>a)", "é", "%s{0}"])),
       ("schema.float.min(a)", dict(a=VALUES["float"])), ("schema.float.max(a)", dict(a=VALUES["float"])), ("schema.int.min(a)", dict(a=VALUES["int"])), ("schema.int.max(a)", dict(a=VALUES["int"])),
       ("schema.date(a)", dict(a=("date", "datetime"))), ("schema.uuid4(a)", dict(a=("uuid4", "uuidx")))]


def edited(ds):
    """Literal descriptions and what differs from them in one place."""
    def fn(I, ctx):
        what, d = choose(I, ds, "description")
        r = I.attempt("build(d)", d=lift(d))
        if r[0] == "exc":
            return ctx.note("declaration refused")
        roundtrip(I, ctx, r[1])
    return fn


def literal(deep):
    pos = positions_of(None)
    for (kn, (kd, _)), (pn, (pd, _, _)) in itertools.product(kinds_of().items(), pos.items()):
        d = pd(kd)
        more = deep or pn == "alone" or kn != "nested" and pn in ("exact len", "key typed", "head max")
        yield f"{kn} / {pn}", [("", d)] + (list(edits(d)) if more else [])
    for name, desc, _, _ in big(deep):
        d = desc(None)
        yield name, [("", d)] + (list(edits(d)) if deep else list(edits(d))[:2] + list(edits(d))[-2:-1])
    long = "lorem ipsum " * 30
    for t, d in {"str": D("str", value=long), "alphabet": D("str", alphabet=long), "substr": D("str", substr=long),
                 "pattern": D("str", pattern="(?:" + "|".join(f"word{i}" for i in range(60)) + ")"), "bytes": D("bytes", value=bytes(range(256))),
                 "key": D("dict", entries=[(long, D("int"), True)]), "int": D("int", value=10 ** 300), "tuple": D("dict", entries=[(tuple(range(60)), D("int"), False)]),
                 "str lines": D("str", value="\n".join(["a", "    b", "\tc"] * 30))}.items():
        for w in ("alone", "key typed", "exact"):
            yield f"long {t} {w}", [("", pos[w][0](d))]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for t in ("none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date", "list", "dict", "any"):
        for seq in chains(t, {"str": 5 if deep else 3, "float": 4, "int": 3}.get(t, 2)):
            out.append(("declared", " ".join([t] + [s.label for s in seq]), declared(t, seq), {}))
    for f in FORMS:
        out.append(("nested", f, nested([], f), {}))
        for n in (1, 2, 3) if deep else (1, 2):
            for pos in itertools.product(POS, repeat=n):
                out.append(("nested", " / ".join(pos + (f,)), nested(pos, f), {}))
    for n in range(5 if deep else 4):
        for shape in itertools.product("e.", repeat=n):
            for ln in LEN:
                for b in (0, 1):
                    out.append(("lists", f"[{''.join(shape)}] {ln} {'int' if b else ''}", lists(shape, ln, b), {}))
    for n in range(4 if deep else 3):
        for e in itertools.product("ro", repeat=n):
            for rel in [None] + list(range(n + 1)):
                out.append(("dicts", f"{''.join(e)} {rel}", dicts(e, rel), {}))
    for opt in (0, 1):
        for nest in (0, 1):
            out.append(("dicts", f"constant key {opt} {nest}", dict_keys(lambda I: choose(I, CONCKEYS, "key"), opt, nest), {}))
            out.append(("dicts", f"unknown key {opt} {nest}", dict_keys(lambda I: Sym("key", frozenset(KEYTAGS)), opt, nest), {}))
            out.append(("dicts", f"unknown pair {opt} {nest}", dict_keys(
                lambda I: (Sym("key0", frozenset(KEYTAGS)), (Sym("key1", frozenset(KEYTAGS if deep else FEW)),)), opt, nest), {"time": 60}))
    for opt in (0, 1):
        for i, text in enumerate(FROZEN):
            out.append(("dicts", f"frozenset key {i} {opt}", dict_keys(lambda I, t=text: I.py(t, x=Sym("x", frozenset(KEYTAGS)), y=sym("y", "int")), opt), {}))
            out.append(("dicts", f"order of frozenset key {i} {opt}", hash_order(text, opt), {}))
    for n, text in DERIVED.items():
        out.append(("derived", n, derived(text), {}))
    for f in FORMS:
        for pos in POS if deep else ("exact", "dict", "last of any", "typed"):
            for c in CALLS:
                out.append(("indented", f"{f} in {pos} {c}", indented(f, pos, c), {}))
    for t in ("bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date"):
        for i, w in enumerate(["{0}", "schema.dict({{'k': {0}}})", "schema.list([{0}, ...])", "schema.any({0}, A)"]):
            out.append(("pinned", f"{t} {i}", pinned(t, w), {}))
    for i, (text, args) in enumerate(ODD):
        out.append(("pinned", f"{text} {i}", odd(text, args), {}))
    for n, ds in literal(deep):
        ds = [x for x in ds if "'alias'" not in repr(x[1])]      # aliases are outside the statement
        if not ds:
            continue
        out.append(("nested", "literal " + n, edited(ds), {}))
    return out
