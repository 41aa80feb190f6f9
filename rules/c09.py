"""C09: generation from a pattern yields a full match, or refuses loudly."""
import itertools
import re
import warnings
from .lib import *   # noqa

warnings.simplefilter("ignore")

RULES = {
    "atom": "every construct alone: every outcome of every draw (each character of each alphabet, each end of each range) matches",
    "composed": "patterns composed from the supported constructs, two and three levels deep: every branch, the least, middle and "
                "greatest repeat counts and range ends give a string that matches the whole pattern",
    "repeats": "every pair of repeat bounds around every cap of the generator, greedy and lazy, open-ended and not",
    "anchors": "anchors at the ends of the pattern, of groups and of alternatives there",
    "refused": "a construct that is not supported, embedded anywhere: an error, or a string that matches all the same",
    "through": "fake(schema.str.regex(p)) does the same, and every other string schema is unaffected",
    "literals": "literals are copied for every character: the text is the pattern's characters in order, whatever they are",
}
EXPLANATION = """
Abstract interpretation of the regex generator, over a grammar of patterns, and over the outcomes of its draws: a draw is
forked into its outcomes (all of them for single constructs; least, middle and greatest otherwise; draws beyond a depth take
turns), so the interpreted text is known on every path and is compared with the pattern by the definition of matching itself
(re.fullmatch, the oracle of the property).  The parse trees are those of Python's own parser.  literals: parse trees with
unknown characters; the generated text has to be exactly these characters, which carries what is shown for the sampled
literals over to all literals.
"""
ASSUMPTIONS = ["inline flags and anchors or \\b in the middle of a pattern are outside the property's two lists and left out",
               "beyond the enumerated nesting, composition follows the parse tree: a compound pattern's text is assembled from its parts' texts"]

LIT = ["a", "Z", "0", " ", "-", "_", "é", "я", "\n", "\t", r"\n", r"\t", r"\.", r"\\", r"\*", r"\x41", r"\u00e9", r"\101", r"\0", r"\-", r"\/", r"\{", "]", "}", ",", "#", r"\U0001f600", "\ud800", "~"]
CLS = [".", r"\d", r"\w", "[abc]", "[a-c]", "[a-cx-z]", "[a-c5]", r"[\d]", r"[\w]", r"[\da-f]", r"[\w.-]", r"[.\\\]]", "[-a]", "[a-]", r"[\n\t]", "[а-я]", "[!-~]", "[ -!]", "[a]", "[]a]", "[a^]", r"[\x41-\x43]",
       "[A-z]", r"[\ud800-\ud801]", r"[\U00010000-\U00010003]", "[0-9A-Fa-f]", "[|]", "[.]", "[$^]", "[aa]", "[a-a]"]
NEG = ["[^a]", "[^abc]", "[^a-z]", r"[^\d]", r"[^\w]", r"[^\d\w]", r"[^\da-z]", r"[^\w ]", r"[^!-~]", r"[^ -~]", r"[^ -~\n]", r"[^\w!-/:-@\[-`{-~ ]", r"[^\W_]" if False else "[^_]", "[^-]", "[^^]", "[^]]", r"[^\\]", r"[^\n]",
       "[^é]", "[^а-я]", r"[^\x00-\x1f]", r"[^\x00-\xff]", r"[^\x00-~]", "[^ ]", "[^0-9A-Za-z]", r"[^\x20-\x7e]", "[^a-zA-Z0-9_]", r"[^\d!-~ ]", "[^A-z]", r"[^\x21-\U000000ff ]"]
UNSUP = [r"\s", r"\S", r"\D", r"\W", "(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?>a)", "a++", "a*+", "a?+", "a{1,2}+", r"[\s]", r"[\S]", r"[\D]", r"[\W]", r"[^\s]", r"[^\S]", r"[^\D]", r"[^\W]", r"[a\s]", r"[\sa]",
         r"[\Wa]", r"[^a\s]", r"[^\sa]", r"[^\d\s]", r"[\d\D]"]
BACK = [r"(a|b)\1", r"(?P<n>a|b)(?P=n)", r"(a)?(?(1)b|c)", r"(\w)x\1", r"(a|b)(?:\1|c)", r"(\d){2}\1", r"(?:(a|b)\1)+", r"([ab])\1{2}", r"((a|b)\2)", r"(?P<x>\w)(?(x)\d|_)"]
GROUPS = ["({})", "(?:{})", "(?P<g{n}>{})"]
QUANT = ["?", "*", "+", "{2}", "{1,3}", "{2,}", "{0,2}", "{0}", "{0,0}", "{0,1}", "??", "*?", "+?", "{1,3}?", "{2,}?", "{,2}", "{3,3}?"]
BIG = ["{40,}", "{33,}", "{32,}", "{31,}", "{44}", "{40,50}", "{0,40}", "{33,}?", "{,33}"]
EXT = frozenset({"int", "choice", "char"})


def generated(I, ctx, p, expr="RegexGenerator(Random()).generate(p)", refuse=False, **names):
    ctx.inputs["pattern"] = p
    r = I.attempt(expr, p=p, **names)
    if r[0] == "exc":
        if not refuse:
            ctx.check(False, f"generating raised {I.exc_name(r[1])}", lambda: f"{p!r}: {I.exc_text(r[1])}", r[2])
        else:
            ctx.check(True, "refused")
        return
    t = I.c(r[1])
    if not isinstance(t, str):
        if isinstance(t, CONC):
            return ctx.check(False, "what is generated is no string", lambda: f"{p!r}: {t!r}")
        raise Undecided(f"the generated text is {show(t)}")
    ctx.check(re.fullmatch(p, t) is not None, "the generated string does not match the whole pattern" + (" of an unsupported construct" if refuse else ""),
              lambda: f"{p!r} gives {t!r}")


def group(pats, expr="RegexGenerator(Random()).generate(p)", refuse=False, **names):
    def fn(I, ctx):
        p = choose(I, pats, "pattern")
        generated(I, ctx, p, expr, refuse, **names)
    return fn


def quantify(p, q):
    """p{q}, grouped when needed."""
    try:
        tree = re._parser.parse(p)
    except re.error:
        return None
    single = len(tree) == 1 and str(tree[0][0]) in ("LITERAL", "NOT_LITERAL", "IN", "ANY", "SUBPATTERN")
    return (p if single else f"(?:{p})") + q


def valid(pats):
    out = []
    for p in pats:
        if p is None:
            continue
        try:
            re.compile(p)
        except (re.error, OverflowError, RecursionError):
            continue
        if p not in out:
            out.append(p)
    return out


_n = itertools.count()


def wrap(g, p):
    return g.replace("{n}", str(next(_n))).replace("{}", p)


def combine(xs, ys):
    """Everything one composition step makes of parts."""
    out = []
    for x in xs:
        out += [wrap(g, x) for g in GROUPS]
        out += [quantify(x, q) for q in QUANT]
    for x, y in zip(xs, ys):
        out += [x + y, f"{x}|{y}", f"(?:{x}|{y})", f"({x}|{y}|)", f"(?:|{x})", f"({x}){y}", f"({x}|{y}){{2}}", f"(?:{x}|{y})+?", f"{x}{y}|{y}{x}|{x}", f"({x}({y}))", f"((({x})|{y})*)"]
    return out


def flat(I, name, text):
    """A parse tree for the template, with unknown characters in place of the private-use ones."""
    from absint.extern import from_sre, _srep
    units = {}

    def replace(t):
        if isinstance(t, tuple):
            if len(t) == 2 and str(t[0]) in ("LITERAL", "NOT_LITERAL") and isinstance(t[1], int) and 0xe000 <= t[1] < 0xe100:
                i = t[1] - 0xe000
                if i not in units:
                    c = Sym(f"character {i}", {"str"}, char=True, atom=True)
                    units[i] = (c, I.py("ord(c)", c=c))
                return (t[0], units[i][1])
            return tuple(replace(x) for x in t)
        if isinstance(t, ListObj):
            return ListObj([replace(x) for x in t.items])
        if isinstance(t, Obj):
            return Obj(t.cls, {}, native=[replace(x) for x in t.native])
        return t
    tree = replace(from_sre(_srep.parse(text)))
    return Sym(name, {"str"}, atom=True, meta={"sre": lambda I: tree}), units


X, Y, Z = "\ue000", "\ue001", "\ue002"
TEMPLATES = {   # pattern over unknown characters -> the texts it may produce
    X: ["0"], X + Y: ["01"], X + Y + Z: ["012"], f"({X})": ["0"], f"(?:{X}){Y}": ["01"], f"(?P<a>{X}){Y}": ["01"], f"{X}|{Y}": ["0", "1"], f"({X}|{Y}{Z})": ["0", "12"], f"{X}{{2}}": ["00"],
    f"{X}?": ["", "0"], f"{X}{{1,3}}": ["0", "00", "000"], f"({X}{Y}){{2}}{Z}": ["01012"], f"({X}|{Y}){{2}}": ["00", "01", "10", "11"], f"[{X}{Y}]": ["0", "1"], f"[{X}]{Y}": ["01"],
    f"^{X}$": ["0"], f"{X}??{Y}": ["01", "1"], f"({X}({Y}({Z})))": ["012"], f"(({X}|{Y})|{Z})": ["0", "1", "2"], f"{X}{{33,}}": ["0" * n for n in range(33, 120)], f"(?:{X}|){Y}": ["01", "1"],
    f"{X}({Y}|{Z}){X}": ["010", "020"], f"({X}{{2}}){{2}}": ["0000"], "": [""], "()": [""], f"{X}{{0}}": [""], f"(|{X})": ["", "0"],
}


def literals(t, want):
    def fn(I, ctx):
        p, units = flat(I, "pattern", t)
        ctx.inputs["template"] = t
        r = I.attempt("RegexGenerator(Random()).generate(p)", p=p)
        if not ctx.check(r[0] == "ok", "generating raised", lambda: I.exc_text(r[1]), r[2]):
            return
        got = I.c(r[1])
        texts = [I.c(mk_cat([units[int(c)][0] for c in w])) for w in want]
        ctx.check(any(keyof(I.c(w)) == keyof(got) for w in texts), "the text is not made of the pattern's characters in order",
                  lambda: f"{t!r} gives {show(got)}")
    return fn


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def scenarios(tier):
    global _n
    _n = itertools.count()
    deep = tier == "thorough"
    out = []
    all_ = {"EXTREME": EXT, "EXTREME_ALL": 200}
    few = {"EXTREME": EXT, "EXTREME_DEPTH": 6 if deep else 4}
    for p in valid(LIT + CLS + NEG):
        out.append(("atom", repr(p), group([p]), {"set": all_, "paths": 3000, "time": 60}))
    custom = "RegexGenerator(Random(), max_repeat=n, alphabet=a).generate(p)"
    # escaped and bracketed operators in every place: the text of a pattern is not its meaning
    ops = "^$.*+?{}[]()|\\-/ #&~\"'"
    esc = [f.replace("@", "\\" + c) for c in ops for f in ("@", "a@", "@a", "@@", "a@$", "^@a", "^@$", "(?:@)", "@|a", "a|@", "[a]@", "@{2}", "[@]", "[a@]", "[^@]")]
    esc += [f.replace("@", c) for c in "$.*+?{}()|^/ #&~" for f in ("[@]", "[a@]", "[a@]$", "a[a@]", "[^a@]")]
    esc += [" a", "a ", " a ", "a b", "\ta", "a\n", "#a", "a#b", " ", "\n", "a\\\\", "\\\\$", "\\\\\\$", "^\\^", "\\A\\^", "{", "}", "a{", "a{,", "a{1", "{1}"[1:], "a{,2}", "]", "a]", "a{x}", "-", "a-", "&&", "--", "||a"]
    for i, c in enumerate(chunks(valid(esc), 60)):
        out.append(("atom", f"escaped {i}", group(c), {"set": few, "paths": 20000, "time": 200}))
        out.append(("through", f"escaped {i}", group(c[::3], "fake(schema.str.regex(p))"), {"set": dict(few, EXTREME_DEPTH=2), "paths": 20000, "time": 200}))
    for nm, a in {"letters": {"letters": "ab-_1"}, "digits": {"digits": "01"}, "word": {"word": "xy"}}.items():
        for n in (0, 1, 3):
            out.append(("atom", f"own {nm}, cap {n}", group([".", r"\d", r"\w", "[^a]", r"[^\d]", r"[^\w]", "[^b-]", ".*", r"\d+", "[^b]{2,}"], custom, n=n, a=lift(a)),
                        {"set": dict(few, EXTREME_ALL=6), "paths": 2000, "time": 60}))
    cap3 = "RegexGenerator(Random(), max_repeat=n).generate(p)"
    base = ["a", ".", r"\d", r"\w", "[a-cx]", r"[^\d]", "[^a-y]", "ab", "x|yz", "é", r"\.", "[-a]"]
    one = valid(combine(base, base[1:] + base[:1]))
    rot = lambda xs, k: xs[k % len(xs):] + xs[:k % len(xs)]
    step = one if deep else one[::5]
    two = valid(combine(step, rot(step, 7)))
    thr = valid(combine(two[::40], rot(two[::40], 11))) + (valid(combine(two[::7], rot(two[::7], 5))) if deep else [])
    for i, c in enumerate(chunks(one, 40)):
        out.append(("composed", f"one level {i}", group(c, cap3, n=3), {"set": few, "paths": 20000, "time": 300}))
    for i, c in enumerate(chunks(two, 30)):
        out.append(("composed", f"two levels {i}", group(c, cap3, n=3), {"set": dict(few, EXTREME_DEPTH=5 if deep else 2), "paths": 20000, "time": 300}))
    for i, c in enumerate(chunks(thr, 10)):
        out.append(("composed", f"three levels {i}", group(c, cap3, n=3), {"set": dict(few, EXTREME_DEPTH=3 if deep else 1), "paths": 20000, "time": 300}))
    bounds = [0, 1, 2, 3, 31, 32, 33, 40, 44, 70]
    for cap in (0, 1, 3, 32):
        for lazy in ("", "?"):
            ps = []
            for lo in bounds:
                ps += [f"{x}{{{lo},}}{lazy}" for x in ("a", "(?:ab|[^c])", r"\d")] + [f"a{{{lo}}}{lazy}"] + [f"[a-c]{{{lo},{hi}}}{lazy}" for hi in bounds if hi >= lo]
            ps += [x + q + lazy for x in ("a", "(a|b)", "[^a]", "(?:a{2,}b)") for q in ("*", "+", "?")]
            for i, c in enumerate(chunks(ps, 40)):
                out.append(("repeats", f"cap {cap} {'lazy' if lazy else 'greedy'} {i}", group(c, "RegexGenerator(Random(), max_repeat=n).generate(p)", n=cap), {"set": dict(few, EXTREME_DEPTH=1), "paths": 20000, "time": 200}))
    inner = ["a", "", "a|b", r"\d+", "[^a]", "(a|b)", ".", "a{2,}", "x*y"]
    anch = []
    for x in inner:
        anch += [f"^(?:{x})$", rf"\A(?:{x})\Z", f"^(?:{x})", f"(?:{x})$", f"^{x}" if "|" not in x else None, f"(^(?:{x}))", f"((?:{x})$)", f"^(?:{x})$|^b$", f"(?:^(?:{x})|^c)$", rf"(?:^)(?:{x})(?:$)", rf"^(?:{x})\Z", rf"\A(?:{x})$", f"^^(?:{x})$$", f"(?:^|^)(?:{x})"]
    for i, c in enumerate(chunks(valid(anch), 30)):
        out.append(("anchors", f"anchors {i}", group(c), {"set": few, "paths": 20000, "time": 200}))
    emb = []
    for u in UNSUP + BACK:
        k = u.count("(") - u.count("(?")
        emb += [u, f"x{u}", f"{u}y", f"x{u}y", f"(?:{u})", f"({u})" if u not in BACK else None, f"{u}|z", f"z|{u}", f"(?:z|{u})+", f"(?:{u}){{2}}", f"(?:x(?:{u}))?", f"(?:x{u}|y)*", f"(?:(?:{u})z){{1,2}}?", f"^{u}$", f".{u}.", f"(?P<q>{u}){{2,}}" if u not in BACK else None, f"[^a]{u}", f"{u}{u}" if u not in BACK else None]
    for i, c in enumerate(chunks(valid(emb), 40)):
        out.append(("refused", f"unsupported {i}", group(c, refuse=True), {"set": few, "paths": 20000, "time": 200}))
    thru = valid(one[::5] + two[::23] + LIT[:8] + CLS[:12] + NEG[:12] + anch[::4] + ["a{33,}", "a{40,}", "[ab]{44}", r"(?:\d{2,}-)+"])
    for i, c in enumerate(chunks(thru, 30)):
        out.append(("through", f"schema {i}", group(c, "fake(schema.str.regex(p))"), {"set": dict(few, EXTREME_DEPTH=2), "paths": 20000, "time": 200}))
    for i, c in enumerate(chunks(valid(emb[::3]), 40)):
        out.append(("through", f"unsupported {i}", group(c, "fake(schema.str.regex(p))", refuse=True), {"set": dict(few, EXTREME_DEPTH=2), "paths": 20000, "time": 200}))
    out.append(("through", "nested", group([".", "a|b", r"\d{2,}", "[^a]+"], "fake(schema.dict({'a': schema.list([schema.str.regex(p), ...])}))['a'][0]"), {"set": few, "paths": 20000, "time": 100}))
    for t, want in TEMPLATES.items():
        out.append(("literals", "".join(dict(zip((X, Y, Z), "XYZ")).get(c, c) for c in t), literals(t, want), {"set": {"EXTREME": frozenset({"int"})}}))
    return out
