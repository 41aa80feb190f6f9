"""C18: rollout is the inverse of flattening."""
import itertools

from absint import fold
from .lib import *   # noqa

RULES = {
    "inverse": "every tree up to the bounds, its joined keys in every order, every placement of optional and of the ellipsis entry: rollout gives the tree back",
    "separators": "the same with separators of every kind, also an unknown one, and with the separator left out",
    "spellings": "the same with definite keys that look like patterns, numbers, other separators, or are empty",
    "payloads": "leaf values of every kind are the very same objects afterwards, whatever they are and contain",
    "identity": "a nested mapping whose keys hold no separator comes back equal, with the very same leaf values",
    "wide": "many siblings on every level, in many orders; nesting far deeper than in any enumerated tree; long keys, keys that begin or repeat one another",
}
EXPLANATION = """
rollout is interpreted on mappings whose keys are texts joined from unknown key atoms (any strings that do not contain the
separator, distinct atoms standing for distinct strings) and separators, and whose leaves are opaque cells.  The trees, the
orders of the flat keys, the labels shared between levels and the places of optional are enumerated; what the keys and the
leaves are is not.  The oracle is the tree itself: same keys under the same parents, the same leaf cell, a marker exactly
where it was put.
"""
ASSUMPTIONS = ["flattening is taken to be injective: for separators of more than one character, no key ends or begins so that joining creates a "
               "further occurrence of the separator (otherwise two mappings flatten to the same keys and no inverse exists)"]


def trees(leaves, depth):
    """Ordered trees (nested tuples, a leaf is None) whose root is a mapping, with exactly that many leaves."""
    def nodes(n, d):
        if n == 1:
            yield None
        if d:
            yield from maps(n, d)

    def maps(n, d):
        for part in parts(n):
            for kids in itertools.product(*[list(nodes(p, d - 1)) for p in part]):
                yield kids

    def parts(n):
        if n == 0:
            yield ()
        for i in range(1, n + 1):
            for r in parts(n - i):
                yield (i,) + r
    seen = set()
    for t in maps(leaves, depth):
        c = canon(t)
        if c not in seen:       # siblings in another order are covered by the orders of the flat keys
            seen.add(c)
            yield t


def canon(t):
    return "L" if t is None else "(" + "".join(sorted(canon(k) for k in t)) + ")"


def labelled(t, pool, path=()):
    """[(path of keys, None)] per leaf; pool(path, index) names the keys."""
    if t is None:
        yield path
        return
    for i, k in enumerate(t):
        yield from labelled(k, pool, path + (pool(path, i),))


def unknown_text(I, name, free=()):
    """A text that is not empty (empty keys are among the spellings)."""
    t = Sym(name, {"str"}, atom=True, meta={"sepfree": free})
    I.st.le(1, fold.length_of(I.st, t))
    return t


def atoms(I, sep, words=None):
    made = {}

    def of(name):
        if words is not None:
            return words[name % len(words)] if isinstance(name, int) else words[hash(name) % len(words)]
        if name not in made:
            made[name] = unknown_text(I, f"k{name}", (sep,))
        return made[name]
    return of


LABELS = {
    "shared": lambda p, i: i,                       # the same keys again on every level
    "apart": lambda p, i: (len(p), tuple(p), i),    # every key its own
    "turned": lambda p, i: (i + len(p)) % 4,        # a key's name appears elsewhere under another parent
}


def join(sep, keys):
    parts = []
    for j, k in enumerate(keys):
        parts += ([sep] if j else []) + [k]
    return mk_cat(parts)


def opt(I, k):
    return I.py("optional(k)", k=k)


def flat(I, paths, marks, leaves, sep, of):
    ent = []
    for p, m, v in zip(paths, marks, leaves):
        k = I.c(join(sep, [of(x) for x in p]))
        ent.append([opt(I, k) if m else k, v])
    return ent


def expected(paths, marks, leaves, of):
    root = {}
    for p, m, v in zip(paths, marks, leaves):
        d = root
        for x in p[:-1]:
            d = d.setdefault((False, keyof(of(x))), {})
        d[(m, keyof(of(p[-1])))] = ("leaf", v)
    return root


def differs(I, got, want, where="the result"):
    """None, or what is different."""
    got = I.c(got)
    if not isinstance(got, DictObj):
        return f"{where} is {show(got)}, not a mapping"
    seen = set()
    for k, v in got.entries:
        mark = False
        if isinstance(k, Obj) and I.isinstance(k, I.scen.ns["optional"]):
            mark, k = True, I.py("k.key", k=k)
        if isinstance(k, EllipsisType):
            e = ("...",)
        else:
            e = (mark, keyof(I.c(k)))
        if e not in want:
            return f"{where} has the key {'optional ' if mark else ''}{show(k)}"
        if e in seen:
            return f"{where} has {show(k)} twice"
        seen.add(e)
        w = want[e]
        here = f"{where} [{show(k)}]"
        if isinstance(w, tuple):
            if keyof(I.c(v)) != keyof(I.c(w[1])):
                return f"{here} is {show(v)} instead of {show(w[1])}"
        else:
            d = differs(I, v, w, here)
            if d:
                return d
    if len(seen) != len(want):
        return f"{where} lacks {[k for k in want if k not in seen]}"
    return None


EllipsisType = type(Ellipsis)


def back(I, ctx, ent, want, sep, what):
    arg = DictObj([list(e) for e in ent])
    text = show(arg)
    ctx.inputs.update(keys=text, separator=sep)
    r = I.attempt("rollout(d)" if sep is None else "rollout(d, separator=s)", d=arg, s=sep)
    if r[0] == "exc":
        return ctx.check(False, f"{what}: raised {I.exc_name(r[1])}", lambda: f"{text}: {I.exc_text(r[1])}", construct(r[2]))
    d = differs(I, r[1], want)
    ctx.check(d is None, f"{what}: another mapping", lambda: f"{text} -> {show(r[1])}: {d}")


def orders(n, deep, turn):
    allo = list(itertools.permutations(range(n)))
    if n <= 3 or deep:
        return allo
    return allo[turn % 4::4] + [allo[0], allo[-1]]


def marks_of(n, deep, turn):
    every = list(itertools.product((False, True), repeat=n))
    if n <= 2 or deep and n <= 3:
        return every
    return [every[0], every[-1], every[(turn * 5 + 1) % len(every)], every[(turn * 11 + 6) % len(every)]]


def inverse(t, label, sep, deep):
    def fn(I, ctx):
        s = unknown_text(I, "sep") if sep is None else sep
        of = atoms(I, s)
        paths = list(labelled(t, LABELS[label]))
        if label == "apart":
            names = {}
            of0 = of
            of = lambda x: of0(names.setdefault(x, len(names)))
        n = len(paths)
        leaves = [cell(f"leaf{i}") for i in range(n)]
        for oi, o in enumerate(orders(n, deep, len(paths[0]) + len(label))):
            for mi, m in enumerate(marks_of(n, deep, oi)):
                ps, ms, vs = [paths[i] for i in o], [m[i] for i in o], [leaves[i] for i in o]
                ent = flat(I, ps, ms, vs, s, of)
                want = expected(ps, ms, vs, of)
                back(I, ctx, ent, want, s, "inverse")
                if (oi + mi) % 3 == 0:
                    e = [Ellipsis, Ellipsis]
                    for at in range(len(ent) + 1):
                        back(I, ctx, ent[:at] + [e] + ent[at:], dict(want, **{}) | {("...",): ("leaf", Ellipsis)}, s, "inverse with an ellipsis entry")
    return fn


TWO = [((None,),), ((None, (None,)), None), (((None, None), None), (None,)), ((((None,),),),), ((((None, None),), None), None)]
SEPS = {"dot": ".", "slash": "/", "colons": "::", "space": " ", "arrow": "->", "newline": "\n", "letter": "x", "word": "sep", "underscores": "__", "bar": "|", "star": "*", "caret": "^", "backslash": "\\", "dollar": "$",
        "question": "?", "bracket": "[", "paren": "(", "brace": "{", "plus": "+", "hash": "#", "comma": ", ", "unicode": "→", "digit": "0", "dots": "..", "percent": "%s", "braces": "{}", "nul": "\0",
        "unknown": None, "left out": "default"}


def separators(sep):
    def fn(I, ctx):
        s = unknown_text(I, "sep") if sep is None else "." if sep == "default" else sep
        of = atoms(I, s)
        for t in TWO:
            for lab in ("shared", "turned"):
                paths = list(labelled(t, LABELS[lab]))
                leaves = [cell(f"leaf{i}") for i in range(len(paths))]
                for o in (list(range(len(paths))), list(range(len(paths)))[::-1]):
                    for m in (0, 1, 2):
                        ps, ms, vs = [paths[i] for i in o], [m == 1 or (m == 2 and i == 0) for i in o], [leaves[i] for i in o]
                        ent = flat(I, ps, ms, vs, s, of)
                        back(I, ctx, ent, expected(ps, ms, vs, of), None if sep == "default" else s, "separator")
    return fn


WORDS = {".": ["a", "", "a/b", "::", "*", "a b", "0", "optional", "ключ", "\n", "...x".replace(".", "·"), "A", "a_", "^$"],
         "/": ["a", "", "a.b", ".", "..", "...", "x.y.z", "0", "\\", "a", "[0]", "1.5"],
         "::": ["a", "b.c", "", "/", "x", "a-b", "()", "1"],
         "->": ["a", "", "b", ".", "b.c", "x y", "*"],
         " ": ["a", "", ".", "a.b", "\t", "\n", "b", "\u00a0"],
         "x": ["a", "", "b", ".", "X", "a.b", "y"]}


def spellings(sep, t):
    def fn(I, ctx):
        words = WORDS[sep]
        for turn in range(len(words)):
            for lab in ("shared", "turned"):
                ws = words[turn:] + words[:turn]
                of = atoms(I, sep, list(dict.fromkeys(ws)))
                paths = list(labelled(t, LABELS[lab]))
                leaves = [cell(f"leaf{i}") for i in range(len(paths))]
                ordr = list(itertools.permutations(range(len(paths))))
                for o in (ordr[0], ordr[-1], ordr[turn % len(ordr)]):
                    ps, ms, vs = [paths[i] for i in o], [(i + turn) % 2 == 0 for i in o], [leaves[i] for i in o]
                    ent = flat(I, ps, ms, vs, sep, of)
                    if len({keyof(e[0]) if not isinstance(e[0], Obj) else (1, keyof(I.py("k.key", k=e[0]))) for e in ent}) < len(ent):
                        continue
                    back(I, ctx, ent, expected(ps, ms, vs, of), sep, "spelling")
    return fn


NONDICT = frozenset(ALL_TAGS) - {"dict", "dictsub"}    # a dict below a key is part of the nesting
PAYLOADS = {
    "anything but a dict": lambda I: Sym("leaf", NONDICT), "none": lambda I: None, "false": lambda I: False, "zero": lambda I: 0, "empty text": lambda I: "", "dotted text": lambda I: "a.b",
    "text": lambda I: sym("leaf", {"str"}), "list": lambda I: ListObj([cell("x")]), "empty list": lambda I: ListObj([]), "list of dicts": lambda I: ListObj([DictObj([["a.b", cell("x")]])]),
    "tuple": lambda I: (1, "a.b"), "set": lambda I: SetObj(["a.b"]), "ellipsis": lambda I: Ellipsis, "schema": lambda I: I.member("S"), "int schema": lambda I: I.py("schema.int"),
    "dict schema": lambda I: I.py("schema.dict({'a.b': schema.int})"), "optional": lambda I: I.py("optional('a.b')"), "nil": lambda I: I.py("Nil"), "class": lambda I: I.py("dict"), "function": lambda I: I.py("fake"),
    "validation result": lambda I: I.py("ValidationResult()"), "number": lambda I: sym("leaf", {"int", "float"}),
}
FORMS = {"top": ("a",), "two": ("a", "b"), "three": ("a", "b", "c"), "four": ("a", "b", "c", "d")}


def payloads(pay, form):
    def fn(I, ctx):
        sep = "."
        of = atoms(I, sep)
        path = [of(k) for k in FORMS[form]]
        v = PAYLOADS[pay](I)
        before = show(v) if not isinstance(v, Obj) else None
        for mark in (False, True):
            k = I.c(join(sep, path))
            other = I.c(join(sep, path[:-1] + [of("other")]))
            w = cell("w")
            ent = [[opt(I, k) if mark else k, v], [other, w]]
            for e in (ent, ent[::-1]):
                want = expected([FORMS[form], FORMS[form][:-1] + ("other",)], [mark, False], [v, w], of)
                back(I, ctx, e, want, sep, "payload")
                if before is not None:
                    ctx.check(show(v) == before, "payload: a leaf value was changed", lambda: f"{before} -> {show(v)}")
    return fn


def nested(I, t, pool, of, leaves, path=(), marks=None):
    if t is None:
        return leaves.pop(0)
    ent = []
    for i, k in enumerate(t):
        key = of(pool(path, i))
        ent.append([opt(I, key) if marks and marks(path, i, k) else key, nested(I, k, pool, of, leaves, path + (pool(path, i),), marks)])
    return DictObj(ent)


def copy_of(I, d):
    if isinstance(d, DictObj):
        w = {}
        for k, v in d.entries:
            m = isinstance(k, Obj)
            e = ("...",) if k is Ellipsis else (m, keyof(I.py("k.key", k=k) if m else k))
            w[e] = copy_of(I, v)
        return w
    return ("leaf", d)


MARKS = {"none": None, "leaves": lambda p, i, k: k is None, "some": lambda p, i, k: k is None and (i + len(p)) % 2 == 0, "branches": lambda p, i, k: k is not None and i % 2 == 0}


def identity(t, sep, marks):
    def fn(I, ctx):
        s = unknown_text(I, "sep") if sep is None else sep
        n = canon(t).count("L")
        for lab in ("shared", "turned"):
            for rev in (False, True):
                for dots in (None, 0, 1):
                    d = nested(I, t, LABELS[lab], atoms(I, s), [cell(f"leaf{i}") for i in range(n)], (), MARKS[marks])
                    if rev:
                        d.entries.reverse()
                    if dots is not None:
                        d.entries.insert(dots and len(d.entries), [Ellipsis, Ellipsis])
                    want = copy_of(I, d)
                    back(I, ctx, [list(e) for e in d.entries], want, s, "identity")
    return fn


def emptied(I, ctx):
    of = atoms(I, ".")
    for d in [DictObj([]), DictObj([[of(0), DictObj([])]]), DictObj([[of(0), DictObj([])], [of(1), DictObj([[of(0), DictObj([])], [of(1), cell("x")]])]]), DictObj([["", DictObj([["", cell("x")]])]]),
              DictObj([[Ellipsis, Ellipsis]]), DictObj([[opt(I, ""), cell("x")]])]:
        back(I, ctx, [list(e) for e in d.entries], copy_of(I, d), ".", "identity")


def twins(I, ctx):
    """A mapping may hold a key and the same key wrapped in optional: they are different keys."""
    of = atoms(I, ".")
    a, b = of(0), of(1)
    x, y = cell("x"), cell("y")
    ab = I.c(join(".", [a, b]))
    for ent, want in [
        ([[opt(I, a), x], [a, y]], {(True, keyof(a)): ("leaf", x), (False, keyof(a)): ("leaf", y)}),
        ([[opt(I, a), x], [ab, y]], {(True, keyof(a)): ("leaf", x), (False, keyof(a)): {(False, keyof(b)): ("leaf", y)}}),
        ([[opt(I, ab), x], [ab, y]], {(False, keyof(a)): {(True, keyof(b)): ("leaf", x), (False, keyof(b)): ("leaf", y)}}),
    ]:
        for e in (ent, ent[::-1]):
            back(I, ctx, e, want, ".", "a key beside the same key marked")


def wide(width, depth):
    def fn(I, ctx):
        of = atoms(I, ".")
        t = None
        for lv in range(depth):
            t = tuple([t] * width[lv % len(width)])
        paths = list(labelled(t, LABELS["turned"] if depth % 2 else LABELS["shared"]))
        n = len(paths)
        leaves = [cell(f"leaf{i}") for i in range(n)]
        perms = [list(range(n)), list(range(n))[::-1]]
        for stride in (2, 3, 5, 7, 11):
            perms.append(sorted(range(n), key=lambda i: ((i * stride) % n, i)))
            perms.append(sorted(range(n), key=lambda i: (i % stride, i)))
            perms.append(sorted(range(n), key=lambda i: (i % stride, -i)))
        for j, o in enumerate(perms):
            ps, ms, vs = [paths[i] for i in o], [(i + j) % 3 == 0 for i in o], [leaves[i] for i in o]
            back(I, ctx, flat(I, ps, ms, vs, ".", of), expected(ps, ms, vs, of), ".", "wide")
    return fn


def comb(I, n, form):
    """Deep trees: a single path, a path with a side leaf on every level, two paths parting at some level."""
    of = lambda x: x
    if form == "path":
        return [tuple(f"k{i}" for i in range(n))]
    if form == "same key":
        return [("k",) * n, ("k",) * (n - 1) + ("j",)]
    if form == "sides":
        return [tuple(f"k{j}" for j in range(i)) + (f"s{i}",) for i in range(n)] + [tuple(f"k{i}" for i in range(n + 1))]
    at = int(form)
    a = tuple(f"k{i}" for i in range(n))
    return [a, a[:at] + ("other",) + a[at + 1:], a[:at] + ("leaf",)]


def deepest(n, form, sep, known):
    def fn(I, ctx):
        s = unknown_text(I, "sep") if sep is None else sep
        of = (lambda x: x) if known else atoms(I, s)
        paths = comb(I, n, form)
        m = len(paths)
        leaves = [cell(f"leaf{i}") for i in range(m)]
        for j, o in enumerate((list(range(m)), list(range(m))[::-1], sorted(range(m), key=lambda i: (i * 7) % m if m % 7 else i % 3))):
            for mk in (0, 1, 2):
                ps, ms, vs = [paths[i] for i in o], [mk == 1 or mk == 2 and i % 2 == 0 for i in o], [leaves[i] for i in o]
                back(I, ctx, flat(I, ps, ms, vs, s, of), expected(ps, ms, vs, of), s, "deep")
        d = cell("x")
        for p in paths[0][::-1]:
            d = DictObj([[of(p), d], [of("beside"), cell(f"beside {p}")]])
        back(I, ctx, [list(e) for e in d.entries], copy_of(I, d), s, "identity of a deep mapping")
        sizes = [DictObj([[of("k"), DictObj([])]])]
        back(I, ctx, [list(e) for e in sizes[0].entries], copy_of(I, sizes[0]), s, "identity")
    return fn


def siblings(n, depth, long):
    """Many keys under one parent, some of them prefixes, repetitions and long versions of others."""
    def fn(I, ctx):
        name = lambda i: [f"k{i}", "k" * (i + 1), f"{'x' * long}{i}", f"{i}{'x' * long}", f"-{i}", f" {i} "][i % 6]
        head = tuple(f"p{i}" for i in range(depth))
        paths = [head + (name(i),) for i in range(n)]
        paths += [head + (name(i) + "'", name(j)) for i, j in zip(range(0, n, 5), range(1, n, 3))]
        m = len(paths)
        leaves = [cell(f"leaf{i}") for i in range(m)]
        for o in (list(range(m)), list(range(m))[::-1], sorted(range(m), key=lambda i: (i % 4, i))):
            ps, ms, vs = [paths[i] for i in o], [i % 3 == 0 for i in o], [leaves[i] for i in o]
            back(I, ctx, flat(I, ps, ms, vs, ".", lambda x: x), expected(ps, ms, vs, lambda x: x), ".", "many siblings")
        d = DictObj([[name(i), cell(f"v{i}")] for i in range(n)])
        back(I, ctx, [list(e) for e in d.entries], copy_of(I, d), ".", "identity")
    return fn


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    seps = [".", None, "/", "::"]
    i = 0
    for n in range(1, 6 if deep else 5):
        for t in trees(n, 4):
            labs = list(LABELS) if deep or n <= 3 else [list(LABELS)[i % 3]]
            for lab in labs:
                sep = seps[i % len(seps)]
                i += 1
                out.append(("inverse", f"{canon(t)} {lab} by {sep or 'any separator'}", inverse(t, lab, sep, deep and n <= 4), {"weight": n}))
    for k, s in SEPS.items():
        out.append(("separators", k, separators(s), {}))
    for s in WORDS:
        for t in TWO:
            out.append(("spellings", f"{canon(t)} by {s!r}", spellings(s, t), {}))
    for p in PAYLOADS:
        for f in FORMS:
            out.append(("payloads", f"{p} {f}", payloads(p, f), {}))
    for n in range(1, 5):
        for j, t in enumerate(trees(n, 4)):
            for m in MARKS:
                if n == 4 and not deep and (j + len(m)) % 3:
                    continue
                out.append(("identity", f"{canon(t)} optional on {m}", identity(t, seps[j % 4], m), {}))
    out.append(("identity", "empty mappings", emptied, {}))
    out.append(("identity", "a key beside the same key marked", twins, {}))
    for w, d in [((8,), 1), ((3,), 2), ((2,), 3), ((2,), 4), ((4,), 2), ((1, 6), 2), ((6, 1), 2), ((1, 3, 2), 3), ((3, 1, 2), 4), ((3,), 3)]:
        out.append(("wide", f"{w} depth {d}", wide(w, d), {"weight": 5}))
    for n in (6, 9, 17) + ((33,) if deep else ()):
        for form in ("path", "same key", "sides", "0", "2", str(n - 2)):
            for j, sep in enumerate((".", "::", None)):
                for known in (False, True):
                    if known and sep is None or n > 9 and sep != ".":
                        continue
                    out.append(("wide", f"depth {n}, {form}, by {sep or 'any separator'}{', known keys' if known else ''}",
                                deepest(n, form, sep, known), {"weight": 3}))
    for n, d, long in ((12, 1, 3), (40, 1, 60), (40, 3, 300)) + (((150, 2, 20),) if deep else ()):
        out.append(("wide", f"{n} siblings at depth {d}, names of {long}", siblings(n, d, long), {"weight": 4}))
    return out
