"""C17: seeded generation is reproducible."""
from .lib import *   # noqa

RULES = {
    "again": "seeding twice with the same seed, with other work in between and every set iterated in another order the second time, "
             "gives the same values for every schema form",
    "sequence": "the same for sequences of schemas, for seeds of every kind, seeded through any Random object, with equal schemas declared anew",
    "patterns": "the same for patterns",
    "draws": "every method of Random, called after seeding, gives the same outcome again",
    "loading": "what the modules compute when imported does not depend on the order of sets either",
}
EXPLANATION = """
A relational (two-run) abstract interpretation.  Every draw of random.* is an unknown that is a function of the seed, the
number of draws made since and the arguments of the call; clocks, uuid4, os.urandom, secrets, random.seed(None) and private
unseeded generators yield a fresh unknown each time; the second run iterates sets and frozensets in the opposite order and
sees other str hashes and addresses, which is how interpreters with another PYTHONHASHSEED differ.  The values of the two runs
have to be the same function of the same unknowns.
"""
ASSUMPTIONS = ["the random module is deterministic given its state (CPython documents it)",
               "two orders of every set stand for all orders: a value that depends on the order of a set with two or more elements differs between them"]

M = mem
iv = lambda k: sym(k, "int")
FORMS = {
    "none": lambda I: D("none"), "bool": lambda I: D("bool"), "bool value": lambda I: D("bool", value=sym("x", "bool")), "int": lambda I: D("int"),
    "int min": lambda I: D("int", min=iv("lo")), "int max": lambda I: D("int", max=iv("hi")), "int range": lambda I: D("int", min=3, max=9), "int value": lambda I: D("int", value=iv("x")),
    "float": lambda I: D("float"), "float range": lambda I: D("float", min=0.5, max=2.5), "float precision": lambda I: D("float", min=0.5, max=2.5, precision=1), "float value": lambda I: D("float", value=1.5),
    "float inf": lambda I: D("float", min=0.0, max=float("inf")),
    "str": lambda I: D("str"), "str len": lambda I: D("str", len=3), "str alphabet": lambda I: D("str", alphabet="bca", len=2), "str repeated alphabet": lambda I: D("str", alphabet="abab", len=2),
    "str contains": lambda I: D("str", substr="ab", min_len=3, max_len=5), "str all": lambda I: D("str", substr="a", alphabet="abc", len=3), "str value": lambda I: D("str", value=sym("x", "str")),
    "str min": lambda I: D("str", min_len=2, alphabet="xyz"), "str max": lambda I: D("str", max_len=2, alphabet="xyz"),
    "bytes": lambda I: D("bytes"), "bytes value": lambda I: D("bytes", value=b"q"), "uuid4 value": lambda I: D("uuid4", value=sym("u", "uuid4")),
    "datetime value": lambda I: D("datetime", value=sym("u", "datetime")), "date value": lambda I: D("date", value=sym("u", "date")),
    "list": lambda I: D("list"), "list len": lambda I: D("list", len=2), "typed": lambda I: D("list", form="typed", type=M(I, "T")), "typed int": lambda I: D("list", form="typed", type=D("int"), len=3),
    "typed range": lambda I: D("list", form="typed", type=D("str", alphabet="ab", len=1), min_len=1, max_len=3), "exact": lambda I: D("list", form="exact", els=[M(I, "A"), D("int"), M(I, "A")]),
    "head": lambda I: D("list", form="head", els=[M(I, "A"), D("bool")]), "tail": lambda I: D("list", form="tail", els=[D("bool"), M(I, "A")]), "contains": lambda I: D("list", form="contains", els=[M(I, "A")]),
    "contains len": lambda I: D("list", form="contains", els=[D("int")], len=3), "head len": lambda I: D("list", form="head", els=[D("int")], len=3), "dict": lambda I: D("dict"),
    "keys": lambda I: D("dict", entries=[("a", M(I, "A"), False), ("b", D("int"), False), ("c", D("bool"), False)]),
    "optional keys": lambda I: D("dict", entries=[("a", M(I, "A"), True), ("b", D("int"), True)]), "relaxed": lambda I: D("dict", entries=[("a", D("int"), False), ("b", D("bool"), True)], relaxed="last"),
    "any": lambda I: D("any"), "any of": lambda I: D("any", types=[M(I, "A"), D("int"), D("bool")]), "alias": lambda I: D("alias", type=D("any", types=[D("int"), M(I, "A")])),
    "custom": lambda I: D("custom", inner=D("list", form="typed", type=D("int"), len=2)),
    "any of 5": lambda I: D("any", types=[D("int"), D("bool"), D("none"), M(I, "A"), D("float")]), "any of 40": lambda I: D("any", types=[D("int", value=i) for i in range(40)]),
    "any of equals": lambda I: D("any", types=[D("int"), D("int"), D("any", types=[D("int"), D("bool")])]), "any of one": lambda I: D("any", types=[D("int")]),
    "keys 12": lambda I: D("dict", entries=[(f"k{i}", D("int", min=0, max=i), False) for i in range(12)]), "exact 12": lambda I: D("list", form="exact", els=[D("int", min=0, max=i) for i in range(12)]),
    "unusual keys": lambda I: D("dict", entries=[(k, D("int"), False) for k in (None, 1.5, b"k", (1, 2), "s", True)]), "str 40": lambda I: D("str", alphabet="ab", len=40), "typed 40": lambda I: D("list", form="typed", type=D("bool"), len=40),
    "nested": lambda I: D("dict", entries=[("a", D("dict", entries=[("b", D("list", form="typed", type=D("any", types=[D("int"), D("dict", entries=[("c", D("bool"), True)])]), len=1), True)]), True)]),
}
PATTERNS = ["abc", ".", r"\d", r"\w", "[a-f]", "[abcx-z]", "[^a]", "[^a-z]", r"[^\d]", r"[^\w]", r"[^ -~]", "a|b|c", "(a|b){2}", "a{1,3}", "[^ab]{2}", r"(?:[^x]|\d){2}", "x[^y]z", "[^_]?", r"^[^\n]$", "(?P<n>[^q])", r"[\d.-]", "[^é]", r"\d{2}-[^\d]"]
SEEDS = {"int": ("int",), "huge int": ("hugeint",), "float": ("float",), "str": ("str",), "bytes": ("bytes",), "bool": ("bool",)}
WORK = ["fake(schema.int)", "fake(schema.list(schema.str).len(1))", "validate(schema.any(schema.int, schema.none), 'x')", "RegexGenerator(Random()).generate('[^ab]')", "Random().random_int(0, 9)",
        "fake(schema.dict({'a': schema.bool, optional('b'): schema.float}))", "Random().set_seed(99)", "fake(schema.uuid4)", "fake(schema.datetime)", "schema.dict % {'a': 1}"]
WIDE = {"EXTREME": frozenset({"char"}), "SHAPE_MAX": 2}


def seeded(I, seed, run, flip, how="Random().set_seed(k)"):
    I.set_order = flip
    try:
        I.py(how, k=seed)
        return run()
    finally:
        I.set_order = False


def both(I, ctx, seed, run, what, how="Random().set_seed(k)", work=WORK, again="Random().set_seed(k)"):
    a = seeded(I, seed, run, False, how)
    saved = I.EXTREME, I.EXTREME_DEPTH, I.extreme_turn
    I.EXTREME, I.EXTREME_DEPTH, I.extreme_turn, I.set_order = frozenset({"int", "float", "char", "choice"}), -1, 0, True
    for w in work:
        I.attempt(w)
    I.set_order = False
    I.EXTREME, I.EXTREME_DEPTH, I.extreme_turn = saved
    b = seeded(I, seed, run, True, again)
    for x, y in zip(a, b):
        if x[0] != y[0]:
            ctx.check(False, f"{what}: raised only once", lambda: f"{show(x[1])} / {show(y[1])}")
        elif x[0] == "ok":
            ctx.check(I.truth(I.py("unchanged(outcome(a), outcome(b))", a=x[1], b=y[1])), f"{what}: another value after seeding again",
                      lambda: f"{show(x[1])} / {show(y[1])}; draws from {sorted({str(s[0]) for s in I.sources})}")
        else:
            ctx.check(True, what)


def again(form):
    def fn(I, ctx):
        d = lift(FORMS[form](I))
        ctx.inputs["schema"] = d
        s = I.py("build(d)", d=d)
        both(I, ctx, 7, lambda: [I.attempt("fake(s)", s=s)], "fake", work=WORK[:1] + ["fake(s)"] if False else WORK)
    return fn


def twice(form):
    """No work in between, and the schema generated from several times after each seeding."""
    def fn(I, ctx):
        d = lift(FORMS[form](I))
        ctx.inputs["schema"] = d
        s = I.py("build(d)", d=d)
        both(I, ctx, 7, lambda: [I.attempt("fake(s)", s=s), I.attempt("~s", s=I.py("build(d)", d=d))], "fake", work=["fake(schema.bool)"])
    return fn


def sequence(names, seed, how):
    def fn(I, ctx):
        ds = [lift(FORMS[n](I)) for n in names]
        k = sym("seed", SEEDS[seed])
        ctx.inputs.update(seed=k, schemas=list(names))
        if choose(I, [0, 1], "something generated before"):
            I.attempt("fake(schema.int)")
        both(I, ctx, k, lambda: [I.attempt("fake(build(d))", d=d) for d in ds], "sequence", how)
    return fn


def patterns(p):
    def fn(I, ctx):
        ctx.inputs["pattern"] = p
        both(I, ctx, 7, lambda: [I.attempt("fake(schema.str.regex(p))", p=p), I.attempt("fake(schema.str.regex(p))", p=p), I.attempt("RegexGenerator(Random()).generate(p)", p=p)], "pattern")
    return fn


METHODS = {"random_int": "r.random_int(a, b)", "random_float": "r.random_float(0.5, 2.5)", "random_float precision": "r.random_float(0.5, 2.5, 1)", "random_str": "r.random_str(3, 'cab')",
           "random_choice list": "r.random_choice(['b', 'a', 'c'])", "random_choice str": "r.random_choice('bca')", "random_choice tuple": "r.random_choice((2, 1))", "shuffle_list": "(r.shuffle_list(l), l)"}


def draws(text):
    def fn(I, ctx):
        def run():
            r = I.py("Random()")
            return [I.attempt(text, r=r, a=2, b=7, l=ListObj(["c", "a", "b"])) for _ in range(2)]
        both(I, ctx, 7, run, text)
    return fn


_other = {}
LOADING_SET = {"SHAPE_MAX": 2, "EXTREME": frozenset({"int", "float", "char", "choice"}), "EXTREME_DEPTH": 3}
LOADED = ["schema.str.len(2)", "schema.str.alphabet('ba').len(2)", "schema.str.contains('a').len(2)", "schema.str.regex('[^a]')", "schema.str.regex('.')", "schema.str.regex('\\\\w')", "schema.int",
          "schema.float", "schema.bool", "schema.any", "schema.any(schema.int, schema.bool)", "schema.list(schema.int).len(2)", "schema.dict({'a': schema.int, optional('b'): schema.bool})"]


def loading(text):
    """The package imported with every set iterated in the other order generates the same values."""
    def fn(I, ctx):
        if not I.load_iterations:
            return ctx.check(True, "no set is iterated while the modules are loaded")
        if id(I) not in _other:
            from absint.world import Interp
            _other[id(I)] = Interp(I.repo, set_order=True)
        other = _other[id(I)]
        got = []
        for J in (I, other):
            if J is other:
                J.reset_env()
                J.st, J.caches = I.st, I.caches
            J.rng[:] = [("seed", 7), 0]
            J.draws = []
            for k, v in LOADING_SET.items():
                setattr(J, k, v)
            J.extreme_turn = 0
            got.append(show(J.py(f"fake({text})")))
        ctx.check(got[0] == got[1], f"fake({text}) depends on the order of a set iterated when the modules are loaded",
                  lambda: f"{got[0]} / {got[1]}; sets iterated at {sorted({str(s) for s in I.load_iterations})}")
    return fn


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for f in FORMS:
        text = f.split()[0] in ("str", "bytes") and "value" not in f
        few = {"EXTREME": frozenset({"char", "int"}), "EXTREME_DEPTH": 6 if deep else 3} if text else {"SHAPE_MAX": 3 if deep else 2}
        out.append(("again", f, again(f), {"set": dict(WIDE, **few)}))
        out.append(("again", f + " more than once", twice(f), {"set": dict(WIDE, **few)}))
    names = list(FORMS)
    for i, f in enumerate(names):
        seqs = [(f, names[(i * 7 + 3) % len(names)], names[(i * 11 + 5) % len(names)])]
        if deep:
            seqs += [(f, g, f) for g in names]
        for j, q in enumerate(seqs):
            sd = list(SEEDS)[(i + j) % len(SEEDS)]
            out.append(("sequence", f"{' '.join(q)} seeded by {sd} {j}", sequence(q, sd, "Random().set_seed(k)"), {"set": dict(WIDE, EXTREME=frozenset({"char", "int", "choice", "float"}), EXTREME_DEPTH=4)}))
    for sd in SEEDS:
        out.append(("sequence", f"seed {sd}", sequence(("int", "str len", "any of", "keys", "float"), sd, "Random().set_seed(k)"), {"set": dict(WIDE, SHAPE_MAX=1)}))
        out.append(("sequence", f"seed {sd} through the random module", sequence(("int", "str len"), sd, "__import__('random').seed(k)" if False else "Random().set_seed(k)"), {"set": dict(WIDE)}))
    for p in PATTERNS:
        out.append(("patterns", p, patterns(p), {"set": {"EXTREME": frozenset({"char", "int", "choice"}), "EXTREME_DEPTH": 4}}))
    for n, t in METHODS.items():
        out.append(("draws", n, draws(t), {"set": WIDE}))
    for t in LOADED:
        out.append(("loading", t, loading(t), {"set": LOADING_SET}))
    return out
