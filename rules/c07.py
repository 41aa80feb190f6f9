"""C07: schemas are immutable values and operations are pure."""
from .lib import *   # noqa

RULES = {
    "pure": "after any operation, successful or raising, every schema of the pool and every argument shows what it showed before",
    "history": "an operation, then every operation (on the same schema and on what the first returned), in both orders: neither the "
               "pool nor what the first returned changes, and the first operation repeated on equal inputs gives an equal result",
    "handed-out": "mutating the containers an operation returned changes no schema, argument or later result",
    "aliasing": "mutating a list or dict (or a container inside it) after it was passed to a declaration, to from_native, to "
                "substitute, to rollout or to make_required changes nothing about the schema built from it",
}
EXPLANATION = """
Heap-sensitive abstract interpretation of every public operation over pools of schemas that share sub-schemas (opaque
members, or built-ins in the history rule).  The analysis keeps the identity of every object, so aliasing between a
schema's registry, its arguments, its results, the visitor singletons, class attributes and module globals is tracked; the
decision compares what the public interface shows (props, text, iteration, verdicts and errors on probe values) before and
after, so a cache that is written but not observable is not an alarm.  history interprets long sequences made of all operations.
"""
ASSUMPTIONS = ["sequences longer than three operations are covered by the invariant that no operation changes what any later one observes"]

iv = lambda k: sym(k, "int")
M = lambda I, n, conc: D("int") if conc else mem(I, n)
KINDS = {
    "none": lambda I, c: D("none"), "bool": lambda I, c: D("bool"), "int": lambda I, c: D("int"),
    "int min": lambda I, c: D("int", min=1 if c else iv("lo")),
    "int value": lambda I, c: D("int", value=5 if c else iv("x")),
    "float": lambda I, c: D("float"), "float min": lambda I, c: D("float", min=0.5), "str": lambda I, c: D("str"),
    "str len": lambda I, c: D("str", min_len=1), "str alphabet": lambda I, c: D("str", alphabet="abc"),
    "bytes": lambda I, c: D("bytes"), "uuid4": lambda I, c: D("uuid4"), "datetime": lambda I, c: D("datetime"),
    "date": lambda I, c: D("date"), "list": lambda I, c: D("list"), "list len": lambda I, c: D("list", min_len=1),
    "typed": lambda I, c: D("list", form="typed", type=M(I, "T", c)),
    "exact": lambda I, c: D("list", form="exact", els=[M(I, "E0", c), D("str")]),
    "head": lambda I, c: D("list", form="head", els=[M(I, "E0", c)]),
    "tail": lambda I, c: D("list", form="tail", els=[M(I, "E0", c)]),
    "contains": lambda I, c: D("list", form="contains", els=[M(I, "E0", c)]),
    "dict": lambda I, c: D("dict"), "keys": lambda I, c: D("dict", entries=[("a", M(I, "P", c), False), ("b", D("str"), True)]),
    "relaxed": lambda I, c: D("dict", entries=[("a", M(I, "P", c), True)], relaxed="last"),
    "nested keys": lambda I, c: D("dict", entries=[("a", D("dict", entries=[("b", M(I, "P", c), True)]), False)]),
    "list of dicts": lambda I, c: D("list", form="exact", els=[D("dict", entries=[("b", M(I, "P", c), True)])]),
    "any": lambda I, c: D("any"), "any of": lambda I, c: D("any", types=[M(I, "A", c), D("none")]),
    "any of dicts": lambda I, c: D("any", types=[D("dict", entries=[("b", M(I, "P", c), True)]), D("str")]),
    "alias": lambda I, c: D("alias", type=M(I, "T", c)), "custom": lambda I, c: D("custom", inner=M(I, "T", c)),
}
# operations over: s (a schema), t (another), v (a value), w (another value), p (a path), L / K (containers of schemas), N (a native container)
OPS = {
    "validate": "validate(s, v)", "validate other": "validate(s, w)", "validate at a path": "with_path(s, v, p)",
    "validate_or_fail": "validate_or_fail(s, v)", "validate_or_fail other": "validate_or_fail(s, w)",
    "substitute": "s % v", "substitute other": "s % w", "substitute native": "substitute(s, N)",
    "repr": "repr(s)", "represent indented": "represent(s, indent=4)", "equal": "(s == t, s != t, t == s)", "equal value": "(s == v, s != w)",
    "or": "s | t", "or other way": "t | s", "or none": "s | schema.none", "invert": "~s", "add": "s + t", "add other way": "t + s",
    "add keys": "s + schema.dict({'z': t, optional('a'): schema.none, ...: ...})", "add to literal": "schema.dict({'z': t, 'a': schema.none}) + s",
    "in a list": "schema.list([s, t])", "in open lists": "(schema.list([s, ...]), schema.list([..., s]), schema.list([..., s, ...]))",
    "in a typed list": "schema.list(s).len(1, 3)", "in a dict": "schema.dict({'k': s, optional('o'): t, ...: ...})",
    "in any": "schema.any(s, t)", "in an alias": "schema.alias('x', s)", "declare list": "schema.list(L)", "declare dict": "schema.dict(K)",
    "call": "s(v)", "call other": "s(w)", "call with a list": "s(L)", "call with a dict": "s(K)", "call with a schema": "s(t)",
    "call with schemas": "s(t, schema.none)",
    "min": "s.min(2)", "max": "s.max(9)", "bad min": "s.min('x')", "min max": "s.min(2).max(9)", "precision": "s.precision(1)", "float bounds": "s.min(0.5).max(1.5)",
    "len": "s.len(2)", "len range": "s.len(1, 2)", "len from": "s.len(1, ...)", "len to": "s.len(..., 3)", "bad len": "s.len('x')",
    "alphabet": "s.alphabet('ab')", "contains": "s.contains('a')", "regex": "s.regex('a+')", "bad regex": "s.regex('(')",
    "item": "s['a']", "missing item": "s['nope']", "keys": "list(s.keys())", "iterate": "list(s)", "make_required": "make_required(s)",
    "make_required some": "make_required(s, ['a'])", "make_required missing": "make_required(s, ['a', 'nope'])",
    "generate": "fake(s)", "from_native": "from_native(N)", "rollout": "rollout(K)", "props": "[(k, s.props.get(k)) for k in s.props]",
    "props set": "s.props.set('type', t)", "props update": "s.props.update(keys=K, value=v, len=1)",
    "format": "format_result(validate(s, w))", "format path": "[e.format(Formatter()) for e in validate(s, w, path=p).get_errors()]",
    "member": "[validate(x, v) for x in s]", "member item": "(s['a'] % 1, validate(s['a'], w))",
}
FIRST = ["validate", "validate other", "validate at a path", "substitute", "substitute other", "repr", "represent indented", "or", "or none",
         "add keys", "in open lists", "in a dict", "in any", "make_required", "call", "call with a list", "call with a dict", "len", "min", "alphabet",
         "iterate", "item", "generate", "keys", "from_native", "invert", "contains", "equal", "declare dict"]
PLAINV = {"none": (None, 5), "bool": (True, 5), "int": (5, "x"), "float": (1.5, 5), "str": ("ab", 5), "bytes": (b"x", 5), "uuid4": (5, None),
          "datetime": (5, None), "date": (5, None), "any": (5, "x"), "alias": (5, "x"), "custom": (5, "x")}


def values(I, kn, leaf):
    """A fitting and an unfitting value of the kind."""
    k = kn.split()[0]
    L = lambda *xs: ListObj(list(xs))
    Dc = lambda **kw: DictObj([[a, b] for a, b in kw.items()])
    if kn in ("list", "list len", "typed", "head", "tail", "contains"):
        return L(leaf), L()
    if kn == "exact":
        return L(leaf, "x"), L(leaf, 7, "y")
    if kn in ("dict", "keys", "relaxed"):
        return Dc(a=leaf), Dc(b=7, z=1)
    if kn == "nested keys":
        return Dc(a=Dc(b=leaf)), Dc(a=Dc(z=1))
    if kn == "list of dicts":
        return L(Dc(b=leaf)), L(Dc(z=1))
    if kn == "any of dicts":
        return Dc(b=leaf), Dc(z=1)
    if k in ("int", "any", "alias", "custom") and kn != "int value":
        return leaf, "x"
    return PLAINV[k]


def world(I, kn, conc):
    """The pool for a kind: name -> abstract object."""
    leaf = 5 if conc else Sym("leaf", {"int"})
    v, w = values(I, kn, leaf)
    b = lambda d: I.py("build(d)", d=lift(d))
    s = b(KINDS[kn](I, conc))
    t = b(D("dict", entries=[("a", M(I, "Q", conc), True), ("c", D("list", form="exact", els=[M(I, "R", conc)]), False)]))
    u = b(D("list", form="head", els=[M(I, "U", conc)]))
    lst = ListObj([s, u, ...])
    dct = DictObj([["a", s], [I.py("optional('b')"), u], [..., ...]])
    nat = ListObj([1, DictObj([["a", ListObj([2])]])]) if kn.startswith(("list", "typed", "any")) else DictObj([["a", DictObj([["b", ListObj([2])]])]])
    p = I.py("PathHolder()['root'][0]")
    return {"s": s, "t": t, "u": u, "v": v, "w": w, "L": lst, "K": dct, "N": nat, "p": p}


def snapshot(I, W):
    probes = ListObj([W["v"], W["w"]])
    out = []
    for n in ("s", "t", "u"):
        out.append((n, I.py("behaviour(s, probes)", s=W[n], probes=probes)))
    for n in ("v", "w", "L", "K", "N", "p"):
        out.append((n, I.py("outcome(x)", x=W[n])))
    return out


NAMES = {"s": "the schema", "t": "another schema", "u": "another schema", "v": "the value", "w": "the value", "L": "the list passed in",
         "K": "the dict passed in", "N": "the native container passed in", "p": "the path passed in"}


def compare(I, ctx, before, after, text):
    for (n, a), (_, b) in zip(before, after):
        ctx.check(I.truth(I.py("unchanged(a, b)", a=a, b=b)), f"{text}: {NAMES[n]} is not what it was", lambda: f"{n}: {show(a)} / {show(b)}")


def run(I, op, W):
    I.rng[:] = [("seed",), 0]
    r = I.attempt(OPS[op], **W)
    return r[1]


def seen(I, r):
    return I.py("outcome(x)", x=r)


def mutate(I, r, how):
    """Change every list and dict of a returned value in place."""
    done = False
    if isinstance(r, ListObj):
        for x in list(r.items):
            done |= mutate(I, x, how)
        I.attempt("r.append(99)" if how == 0 else "r.clear()", r=r)
        return True
    if isinstance(r, DictObj):
        for _, x in list(r.entries):
            done |= mutate(I, x, how)
        I.attempt("r.update({'zz': 99})" if how == 0 else "r.clear()", r=r)
        return True
    if isinstance(r, tuple):
        for x in r:
            done |= mutate(I, x, how)
    return done


def pure(kn, op):
    def fn(I, ctx):
        W = world(I, kn, False)
        ctx.inputs["schema"] = W["s"]
        before = snapshot(I, W)
        r = run(I, op, W)
        o = seen(I, r)
        compare(I, ctx, before, snapshot(I, W), f"after {OPS[op]}")
        again = run(I, op, W)
        if repeatable(kn, op):
            ctx.check(I.truth(I.py("unchanged(a, b)", a=o, b=seen(I, again))), f"{OPS[op]} repeated gives another result",
                      lambda: f"{show(o)} / {show(seen(I, again))}")
    return fn


IMPURE = ("uuid4", "datetime", "date")
DRAWS = ("fake(", "~s")


def repeatable(kn, op):
    return not (kn in IMPURE and any(d in OPS[op] for d in DRAWS))


def pair(I, W, before, kn, first, r, o, ops, on):
    """Run ops on s (or on what the first operation returned); report what changed, or None."""
    for op in ops:
        for who in on:
            W2 = dict(W, s=who)
            run(I, op, W2)
    out = []
    for (n, a), (_, b) in zip(before, snapshot(I, W)):
        if not I.truth(I.py("unchanged(a, b)", a=a, b=b)):
            out.append((f"{NAMES[n]} is not what it was", f"{show(a)} / {show(b)}"))
    now = seen(I, r)
    if not I.truth(I.py("unchanged(a, b)", a=o, b=now)):
        out.append(("what the first returned changed", f"{show(o)} / {show(now)}"))
    if repeatable(kn, first):
        now = seen(I, run(I, first, W))
        if not I.truth(I.py("unchanged(a, b)", a=o, b=now)):
            out.append(("the first repeated gives another result", f"{show(o)} / {show(now)}"))
    return out


def history(kn, op):
    """The operation, then every operation on the same schema and on what it returned; then everything is compared."""
    def fn(I, ctx):
        def start():
            W = world(I, kn, True)
            before = snapshot(I, W)
            r = run(I, op, W)
            on = [W["s"]] + ([r] if I.isinstance(r, I.scen.ns["Schema"]) and r is not W["s"] else [])
            return W, before, r, seen(I, r), on
        order = choose(I, [1, -1], "order of the operations")
        W, before, r, o, on = start()
        ctx.inputs.update(schema=W["s"], first=OPS[op])
        found = pair(I, W, before, kn, op, r, o, [x for x in OPS if x not in ("generate", "invert")][::order], on)
        if not found:
            ctx.check(True, "nothing changed by later operations")
            return
        for op2 in OPS:                                 # which of them
            W, before, r, o, on = start()
            one = pair(I, W, before, kn, op, r, o, [op2], on)
            if one:
                ctx.inputs["second"] = OPS[op2]
                for what, detail in one:
                    ctx.check(False, f"{OPS[op]}, then {OPS[op2]}: {what}", lambda: detail)
                return
        for what, detail in found:
            ctx.check(False, f"{OPS[op]}, then every operation: {what}", lambda: detail)
    return fn


def handed_out(kn, op):
    """Changing, in place, the containers an operation returned changes nothing else."""
    def fn(I, ctx):
        W = world(I, kn, True)
        before = snapshot(I, W)
        r = run(I, op, W)
        how = choose(I, [0, 1], "extended or cleared")
        ctx.inputs.update(schema=W["s"], first=OPS[op])
        if I.isinstance(r, I.scen.ns["ValidationResult"]):
            r = I.py("r.get_errors()", r=r)
        if shares(r, {id(W[n]) for n in ("v", "w", "L", "K", "N")}) or not mutate(I, r, how):
            return
        text = f"{OPS[op]}, then its result {('extended', 'cleared')[how]}"
        compare(I, ctx, before, snapshot(I, W), text)
        if not repeatable(kn, op):
            return
        again = seen(I, run(I, op, W))
        fresh = seen(I, run(I, op, world(I, kn, True)))
        ctx.check(I.truth(I.py("unchanged(a, b)", a=again, b=fresh)), f"{text}: the first repeated gives another result",
                  lambda: f"{show(again)} / {show(fresh)}")
    return fn


def shares(r, mine):
    if id(r) in mine:
        return True
    if isinstance(r, ListObj):
        return any(shares(x, mine) for x in r.items)
    if isinstance(r, DictObj):
        return any(shares(x, mine) for _, x in r.entries)
    return isinstance(r, tuple) and any(shares(x, mine) for x in r)


# ------------------------------------------------------------------ aliasing
BUILD = {
    "list elements": ("schema.list(c)", "els"), "list head": ("schema.list(c)", "head"), "list contains": ("schema.list(c)", "cont"),
    "list elements with len": ("schema.list.len(2)(c) if False else schema.list(c).len(2)", "els"),
    "empty list": ("schema.list(c)", "empty"), "dict keys": ("schema.dict(c)", "keys"), "relaxed dict keys": ("schema.dict(c)", "rel"),
    "empty dict": ("schema.dict(c)", "nokeys"), "sum": ("schema.dict({'z': schema.none}) + schema.dict(c)", "keys"),
    "rolled out keys": ("schema.dict(rollout(c))", "keys"), "nested rolled out keys": ("schema.dict({'q': schema.dict(rollout(c))})", "keys"),
    "required keys": ("make_required(schema.dict({optional('a'): A, optional('b'): A}), c)", "names"),
    "union": ("schema.any(*c)", "els"),
    "native list": ("from_native(c)", "nlist"), "native dict": ("from_native(c)", "ndict"), "native empty": ("from_native(c)", "empty"),
    "any % list": ("schema.any % c", "nlist"), "any % dict": ("schema.any % c", "ndict"), "list % list": ("schema.list % c", "nlist"),
    "dict % dict": ("schema.dict % c", "ndict"), "typed % list": ("schema.list(schema.any) % c", "nlist"),
    "elements % list": ("schema.list([schema.any, ...]) % c", "nlist"), "tail % list": ("schema.list([..., schema.any]) % c", "nlist"),
    "contains % list": ("schema.list([..., schema.any, ...]) % c", "nlist"), "exact % list": ("schema.list([schema.any, schema.any]) % c", "nlist"),
    "keys % dict": ("schema.dict({'a': schema.any, 'b': schema.any}) % c", "ndict"),
    "relaxed % dict": ("schema.dict({'a': schema.any, ...: ...}) % c", "ndict"),
    "free members % dict": ("schema.dict({'a': schema.dict, 'b': schema.list}) % c", "ndict"),
    "union % list": ("schema.any(schema.int, schema.list) % c", "nlist"), "union % dict": ("schema.any(schema.none, schema.dict) % c", "ndict"),
    "alias % dict": ("schema.alias('x', schema.dict) % c", "ndict"), "substitute function": ("substitute(schema.dict({...: ...}), c)", "ndict"),
    "list % empty": ("schema.list % c", "empty"), "dict % empty": ("schema.dict % c", "nokeys"),
}


def containers(I, kind, A, B):
    """The container to pass, and every container inside it."""
    o = I.py("optional('o')")
    if kind == "els":
        return ListObj([A, B])
    if kind == "head":
        return ListObj([A, B, ...])
    if kind == "cont":
        return ListObj([..., A, B, ...])
    if kind == "empty":
        return ListObj([])
    if kind == "nokeys":
        return DictObj([])
    if kind == "keys":
        return DictObj([["a", A], [o, B]])
    if kind == "rel":
        return DictObj([["a", A], [o, B], [..., ...]])
    if kind == "names":
        return ListObj(["a"])
    if kind == "nlist":
        return ListObj([ListObj([1, DictObj([["k", 2]])]), DictObj([["k", ListObj([3])]])])
    return DictObj([["a", DictObj([["k", ListObj([3])]])], ["b", ListObj([1, DictObj([["k", 2]])])]])


def inside(c):
    out = [c] if isinstance(c, (ListObj, DictObj)) else []
    for x in c.items if isinstance(c, ListObj) else [v for _, v in c.entries] if isinstance(c, DictObj) else []:
        out += inside(x)
    return out


LIST_MUT = ["c.append(A)", "c.clear()", "c.insert(0, 7)", "c.__setitem__(0, A)", "c.pop()", "c.reverse()"]
DICT_MUT = ["c.update({'new': A})", "c.clear()", "c.update({'a': 7, 'k': 7})", "c.pop('a', None)", "c.pop('k', None)", "c.update({...: ...})"]


def aliasing(text, kind):
    def fn(I, ctx):
        A, B = I.py("build(d)", d=lift(mem(I, "A"))), I.py("build(d)", d=lift(mem(I, "B")))
        c = containers(I, kind, A, B)
        r = I.attempt(text, c=c, A=A)
        if r[0] == "exc":
            return ctx.note("raised: " + I.exc_text(r[1]))
        s = r[1]
        probes = ListObj([I.py("fake(s)", s=s)])
        before = I.py("behaviour(s, probes)", s=s, probes=probes)
        all_ = inside(c)
        at = all_[choose(I, list(range(len(all_))), "container")]
        mut = choose(I, LIST_MUT if isinstance(at, ListObj) else DICT_MUT, "mutation")
        ctx.inputs.update(built=text, mutation=mut)
        if I.attempt(mut, c=at, A=A)[0] == "exc":
            return
        after = I.py("behaviour(s, probes)", s=s, probes=probes)
        ctx.check(I.truth(I.py("unchanged(a, b)", a=before, b=after)), "mutating a container after it was passed changes the schema",
                  lambda: f"{text}; {mut}: {show(before)} / {show(after)}")
    return fn


def rolled(I, ctx):
    leaf = cell("x")
    c = DictObj([["a.b", leaf], ["a.c", DictObj([["d.e", 1]])], ["f", 2], [I.py("optional('g.h')"), 3]])
    o = I.py("outcome(x)", x=c)
    r = I.py("rollout(c)", c=c)
    ctx.check(I.truth(I.py("unchanged(a, b)", a=o, b=I.py("outcome(x)", x=c))), "rollout changes its argument", lambda: show(c))
    o = I.py("outcome(x)", x=r)
    at = choose(I, inside(c), "container")
    I.attempt("c.update({'zz': 1})", c=at)
    ctx.check(I.truth(I.py("unchanged(a, b)", a=o, b=I.py("outcome(x)", x=r))), "the result of rollout shares its argument's containers",
              lambda: show(r))


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kn in KINDS:
        for op in OPS:
            out.append(("pure", f"{op} on {kn}", pure(kn, op), {"set": {"SHAPE_MAX": 2}, "time": 10 if not deep else 100}))
        for op in OPS if deep else FIRST:
            out.append(("history", f"{op} then all on {kn}", history(kn, op), {"time": 60}))
            out.append(("handed-out", f"{op} on {kn}", handed_out(kn, op), {}))
    for n, (text, kind) in BUILD.items():
        out.append(("aliasing", n, aliasing(text, kind), {}))
    out.append(("aliasing", "rollout", rolled, {}))
    return out
