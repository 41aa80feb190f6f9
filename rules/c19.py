"""C19: the v1-to-v2 migration rewrites imports and nothing else."""
import ast
import warnings

from absint import astmodel, fold
from .lib import *   # noqa

RULES = {
    "targets": "every entry of the mapping names a module of this package that loads and a name it has; the counterpart keeps the v1 name",
    "names": "every mapped name, imported alone, under an alias, among unmapped names and in parentheses, becomes an import of its counterpart binding the same local name",
    "forms": "every form of import between statements of every kind, joined in every way: the mapped names are replaced, the other statements stay as they are, in order",
    "several": "two imports of every form, on one line or on several; many imports, names and lines, and long lines",
    "edges": "an import as the first or last statement of the module, with every way a text may begin and end",
    "rest": "modules without an import of a mapped name at top level come back as nothing to do or unchanged",
}
EXPLANATION = """
The mapping is evaluated from its source and every target is resolved by interpreting the modules of the package.  The
rewriter is interpreted on program texts with holes: an unknown simple statement, unknown names and aliases, the unknown
inside of docstrings, strings and comments; their lengths (and the lengths of their encodings) are unknown numbers, so
columns are symbolic sums.  ast.parse is modelled by the host parser over the text with fresh identifiers in the holes.  The
text that comes out is parsed in the same way, and its statements are matched with those of the input: an import of mapped
names against the imports of their counterparts under the same local names, everything else against its own syntax tree.
"""
ASSUMPTIONS = ["an unknown statement is any simple statement on one line without a comment; statements with line ends, comments, ; and # inside, form feeds and other characters are definite samples",
               "a name of the v1 packages has one counterpart of the same name in v2 (true of the whole table today)"]

MODULE = "d42.migration.migrate_v1_to_v2"


def hole(name, code, **meta):
    return Sym(name, {"str"}, atom=True, meta=dict(code=code, oneline=True, **meta))


class Parts:
    """The unknown pieces of one scenario."""
    def __init__(self, I):
        self.made = {}
        self.I = I

    def __getattr__(self, n):
        if n not in self.made:
            k = n.rstrip("0123456789")
            if k == "S":
                v = hole(f"statement{n[1:]}", "stmt", solid=True, sepfree=("#", ";", "\\", "\n", "\r"))
            elif k == "T":
                v = hole(f"text{n[1:]}", "text", solid=True, sepfree=("#", ";", "\\", "\n", "\r", "'", '"'))
            elif k == "C":
                v = hole(f"comment{n[1:]}", "comment", solid=True, sepfree=("\\", "\n", "\r", "'", '"'))
            else:
                v = hole({"N": "name", "A": "alias", "M": "module"}[k] + n[1:], "name", plain=True)
            self.I.st.le(1, fold.length_of(self.I.st, v))
            self.made[n] = v
        return self.made[n]


def text(I, P, spec):
    """'a {S1} b' with {S1} a hole."""
    out, at = [], 0
    import re
    for m in re.finditer(r"\{([A-Z]\d*)\}", spec):
        out += [spec[at:m.start()], getattr(P, m.group(1))]
        at = m.end()
    out.append(spec[at:])
    return I.c(mk_cat(out))


FORMS = {
    "one": "from district42 import schema", "alias": "from district42 import schema as {A1}", "own name as alias": "from district42 import schema as schema", "two": "from district42 import schema, optional",
    "several targets": "from district42 import schema, Props, optional", "mixed": "from district42 import {N1}, schema, {N2} as {A1}, Props as {A2}",
    "parentheses": "from district42 import (\n    schema,\n    {N1},\n)", "parentheses on a line": "from district42 import (schema, Props,)", "comments inside": "from district42 import (schema,  # {C1}\n    Props as {A1},  # noqa; é\n    # {C2}\n)",
    "tight parentheses": "from district42 import(schema)", "spaces": "from   district42\timport   schema ,  Props  as\t{A1}", "backslash": "from district42 import schema, \\\n    Props", "backslashes": "from \\\n  district42 \\\n import \\\n schema",
    "star": "from district42 import *", "dotted": "from district42.types import AnySchema, {N1}", "dotted parentheses": "from district42.errors import (\n  DeclarationError)", "valera": "from valera import validate as {A1}, Validator",
    "revolt": "from revolt import substitute; from revolt.errors import SubstitutionError", "unmapped": "from district42 import {N1}", "unmapped parentheses": "from district42 import ({N1},\n  {N2} as {A1})",
    "foreign": "from {M1} import schema", "foreign dotted": "from {M1}.district42 import schema, Props as {A1}", "foreign definite": "from os.path import join as {A1}, sep", "relative": "from .district42 import schema", "relative package": "from . import schema as {A1}", "relative up": "from ...district42.types import AnySchema",
    "one name bound again": "from district42 import schema as {A1}, Props as {A1}, optional as {A1}", "unmapped bound again": "from district42 import {N1} as {A1}, schema as {A1}", "bound again by an unmapped": "from district42 import schema as {A1}, {N1} as {A1}, Props",
    "name bound over": "from district42 import schema as Props, Props as schema, optional", "other letters": "from district42 import schema as схема, Props as é", "same name twice": "from district42 import schema, schema as {A1}",
    "future": "from __future__ import annotations",
}
SIMPLE = {
    "statement": "{S1}", "assignment": "{A8} = {A9}", "text": "{A8} = '{T1}'", "docstring": '"""{T1}"""', "two-line docstring": "'''{T1}\n{T2}'''", "letters": "é = 'ключ — ü'; ü = é", "feeds": "x = 'a\x0cb\x0bc\x1cd\x1de\x1ef'",
    "line separators": "x = 'a\u2028b\u2029c\x85d'", "multi-line feeds": "x = '''\x0c\n\u2028\n\x85\r\n'''", "hash in text": "x = '# ; from district42 import schema'", "semicolon in text": "x = ';'; y = \"#\"", "parenthesised": "x = ({A8},\n\n  {A9})",
    "backslash": "x = 1 + \\\n    {A8}", "import": "import district42, {M1} as {A8}", "import in text": "'''\nfrom district42 import schema\n'''", "pass": "pass", "lambda": "f = lambda: (yield)", "astral": "'\U0001f600'",
    "escapes": "x = '\\n\\\n  from district42 import schema'", "tabs": "x\t=\t1", "delete": "del {A8}", "bytes": "b'\\xff'", "f-string": "f'{x!r:>{w}}'", "annotation": "x: 'district42' = schema",
}
COMPOUND = {
    "if": "if {A8}:\n    from district42 import schema\n    {S1}\nelse:\n    from district42 import Props", "try": "try:\n    from district42 import schema\nexcept ImportError:\n    schema = None", "def": "def f(x):\n    '''{T1}\n    from district42 import schema'''\n    from district42 import optional\n    return optional",
    "class": "@d\nclass K({A8}):\n\tfrom district42 import schema\n\tx = schema", "one line if": "if x: from district42 import schema", "one line if with more": "if x: {S1}; from district42 import schema; y = 1", "with": "with a as b, \\\n     c as d:\n  {S1}", "async": "async def f():\n    from district42 import *  # {C1}" .replace("import *", "import schema"),
    "for": "for i in x:\n    pass\nelse: from district42 import schema", "comment": "# {C1}", "comment import": "# from district42 import schema", "blank": "", "letters comment": "# é ; \x0c \u2028 x", "spaces": "   ", "match": "match x:\n    case 1: from district42 import schema",
}
JOINS = ["\n", "; ", ";", "  # {C3}\n", " ; \\\n  ", "\n\n\n", "\r\n", "; \\\n", " \\\n;", "\r", ";\n", "\n\x0c", "  # é # ;\n", "\n# from district42 import schema\n", ";\\\r\n", "\t\n", "\x0c;\x0c", "  # a\x0cb\x85c\u2028d\n", "\n{A8}\n"]
LINES = [j for j in JOINS if "\n" in j and ";" not in j.split("#")[0] and "\\" not in j or j == "\r"]
STARTS = ["", "\n", "# {C3}\n", "#!/usr/bin/env python\n# -*- coding: utf-8 -*-\n", "\x0c", "\r\n", "\\\n", "'''{T1}'''\n", "'''{T1}\n{T2}''' ;", "\n\n# é\u2028\n", "'é' ; ", "pass; "]
ENDS = ["\n", "", ";", "\n\n", "  # {C3}", ";\n", "\r\n", "\n# {C3}", " \t\n", "  # é\n", " \\\n", "\r", "\x0c\n", "; {S2}", "\n{S2}", "\n\x0c\n", ";  # {C3}\n", "\n'''{T1}\n'''"]


def mapping_of(I):
    d = I.py("mapping")
    out = {}
    for m, names in d.entries:
        out[m] = {}
        for n, t in names.entries:
            out[m][n] = tuple(I.c(x) for x in I.iterate(t))
    return out


def statements(tree, mapping):
    """Chunks: ('keep', dump) or ('imports', mapped?, [(module, name, local)])"""
    out = []
    for n in tree.body:
        if isinstance(n, ast.ImportFrom) and n.level == 0:
            names = [(n.module, a.name, a.asname or a.name) for a in n.names]
            out.append(("imports", [mapping.get(m, {}).get(x, (m, x)) + (l,) for m, x, l in names], any(x in mapping.get(m, {}) for m, x, _ in names)))
        else:
            out.append(("keep", ast.dump(n)))
    return out


def flat(tree):
    for n in tree.body:
        if isinstance(n, ast.ImportFrom) and n.level == 0:
            for a in n.names:
                yield ("name", n.module, a.name, a.asname or a.name)
        else:
            yield ("keep", ast.dump(n))


def host_parse(t):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(t)


def last(names):
    return {l: (m, n) for m, n, l in names}


def mismatch(want, got):
    i = 0
    got = list(got)
    for w in want:
        if w[0] == "keep":
            if i >= len(got) or got[i] != w:
                return f"expected the statement {w[1]}, found {got[i][1:] if i < len(got) else 'the end'}"
            i += 1
            continue
        names = w[1]
        part = [g[1:] for g in got[i:i + len(names)] if g[0] == "name"]
        if len(part) != len(names) or sorted(part) != sorted(names):
            return f"expected imports of {names}, found {got[i:i + len(names)]}"
        if last(part) != last(names):
            return f"expected the bindings {last(names)}, found {last(part)}"
        if not w[2] and part != names:
            return f"an import of other names was reordered: {part}"
        i += len(names)
    return None if i == len(got) else f"more statements than before: {got[i:]}"


def setup(I):
    I.exec_text(f"from {MODULE} import rewrite_imports, mapping")
    return mapping_of(I)


def rewrite(I, ctx, spec, mapping, P=None):
    """False when the text is no module."""
    P = P or Parts(I)
    src = text(I, P, spec)
    t, _ = astmodel.to_host(I, src)
    try:
        before = host_parse(t)
    except (SyntaxError, ValueError):
        return False
    ctx.inputs["source"] = spec
    want = statements(before, mapping)
    r = I.attempt("rewrite_imports(s, mapping)", s=src)
    if r[0] == "exc":
        ctx.check(False, f"raised {I.exc_name(r[1])}", lambda: f"{spec!r}: {I.exc_text(r[1])}", construct(r[2]))
        return True
    out = I.c(r[1])
    if out is None:
        ctx.check(not any(w[0] == "imports" and w[2] for w in want), "reports nothing to do although a mapped name is imported", lambda: repr(spec))
        return True
    if not I.is_str(out):
        ctx.check(False, "gives neither a text nor nothing", lambda: show(out))
        return True
    t2, _ = astmodel.to_host(I, out)
    try:
        after = host_parse(t2)
    except (SyntaxError, ValueError) as e:
        ctx.check(False, "the result is no valid Python", lambda: f"{spec!r} -> {show(out)}: {e}")
        return True
    bad = mismatch(want, flat(after))
    ctx.check(bad is None, "the result has other statements or imports", lambda: f"{spec!r} -> {show(out)}: {bad}")
    return True


def need(ctx, n, what):
    ctx.check(n > 0, f"{what}: no source was valid")


def targets(I, ctx):
    mapping = setup(I)
    everywhere = {}
    for m in sorted(all_modules(I)):
        try:
            mod = I.import_module(m)
        except PyExc:
            continue
        for k, v in mod.ns.items():
            everywhere.setdefault(k, {}).setdefault(id(v) if isinstance(v, Heap) else repr(v), []).append(m)
    for m, names in mapping.items():
        for n, t in names.items():
            ctx.inputs.update(module=m, name=n, target=t)
            ok = isinstance(t, tuple) and len(t) == 2 and all(isinstance(x, str) for x in t)
            ctx.check(ok, "an entry is no pair of names", lambda: f"{m}.{n} -> {t}")
            if not ok:
                continue
            r = I.attempt(lambda: I.module_attr(I.import_module(t[0]), t[1], True))
            ctx.check(r[0] == "ok", f"the target of {m}.{n} can not be imported", lambda: f"from {t[0]} import {t[1]}: {I.exc_text(r[1])}", construct(r[2]) if r[0] == "exc" else None)
            ctx.check(t[1] == n or n not in everywhere, f"{m}.{n} becomes something else", lambda: f"{t[0]}.{t[1]} although {everywhere.get(n)} exists")
            ctx.check(t[0].split(".")[0] == "d42", f"{m}.{n} is mapped out of the package", lambda: t[0])


def all_modules(I):
    import os
    root = os.path.join(I.repo, "d42")
    for d, _, files in os.walk(root):
        for f in files:
            if f.endswith(".py") and f != "__main__.py":
                rel = os.path.relpath(os.path.join(d, f), I.repo)[:-3].replace(os.sep, ".")
                yield rel[:-9] if rel.endswith(".__init__") else rel


def names(module):
    def fn(I, ctx):
        mapping = setup(I)
        ns = list(mapping.get(module, {}))
        if not ns:
            return ctx.check(True, "not mapped")
        for i, n in enumerate(ns):
            o = ns[(i + 1) % len(ns)]
            for spec in [f"from {module} import {n}\n", f"from {module} import {n} as {{A1}}\n", f"{{S1}}; from {module} import {{N1}}, {n}, {o} as {{A1}}, {{N2}} as {{A2}}; {{S2}}\n", f"from {module} import (\n    {n},\n    {o},\n)\n{{S1}}\n",
                         f"from {module} import {n} as {o}, {o} as {n}\n", f"from {module}.{{N1}} import {n}\n", f"from .{module} import {n}\n"]:
                rewrite(I, ctx, spec, mapping)
        rewrite(I, ctx, f"from {module} import {', '.join(ns)}", mapping)
        rewrite(I, ctx, f"from {module} import ({', '.join(f'{n} as {{A{i}}}' for i, n in enumerate(reversed(ns)))})  # {{C1}}\n", mapping)
    return fn


def forms(form, other, deep):
    f = FORMS[form]
    simple = other in SIMPLE
    o = SIMPLE[other] if simple else COMPOUND[other]

    def fn(I, ctx):
        mapping = setup(I)
        n = 0
        js = JOINS if simple else LINES
        for i, j in enumerate(js):
            for k in (range(len(JOINS)) if deep else (i + 5 * (len(form) % 3),)):
                after = JOINS[(k + 3) % len(JOINS)]
                end = ENDS[(i + k) % len(ENDS)]
                n += rewrite(I, ctx, o + j + f + after + "{S3}" + end, mapping)
                n += rewrite(I, ctx, "{S3}" + (JOINS if simple else LINES)[(k + 3) % len(js)] + f + (j if simple else "\n") + o + end, mapping)
                n += rewrite(I, ctx, o + j + f + end, mapping)
                n += rewrite(I, ctx, f + (after if simple else "\n") + o + j + "{S3}", mapping)
        need(ctx, n, "forms")
    return fn


def several(a, b, deep):
    def fn(I, ctx):
        mapping = setup(I)
        n = 0
        g = FORMS[b].replace("1}", "3}").replace("2}", "4}")
        for i, j in enumerate(JOINS):
            n += rewrite(I, ctx, FORMS[a] + j + g + ENDS[i % len(ENDS)], mapping)
            k = JOINS[(i * 7 + 2) % len(JOINS)]
            n += rewrite(I, ctx, FORMS[a] + j + "{S1}" + k + g + ENDS[(i + 3) % len(ENDS)], mapping)
            if (i + len(a) + len(b)) % 3 and not deep:
                continue
            n += rewrite(I, ctx, "'é'" + k + FORMS[a] + j + g + JOINS[(i + 4) % len(JOINS)] + "{S1}" + ENDS[(i + 3) % len(ENDS)], mapping)
            if deep:
                for c in FORMS:
                    n += rewrite(I, ctx, FORMS[a] + j + g + k + FORMS[c].replace("1}", "5}").replace("2}", "6}") + "\n", mapping)
        need(ctx, n, "several")
    return fn


def edges(form):
    def fn(I, ctx):
        mapping = setup(I)
        n = 0
        for s in STARTS:
            for e in ENDS:
                n += rewrite(I, ctx, s + FORMS[form] + e, mapping)
        need(ctx, n, "edges")
    return fn


def rest(kind):
    def fn(I, ctx):
        mapping = setup(I)
        for s in ["", "\n", "# {C1}", "{S1}", "{S1}\n", "import district42\n", "from .district42 import schema", "x = 'from district42 import schema'", "'''{T1}\n'''"] + list(SIMPLE.values()) + list(COMPOUND.values()):
            for e in ENDS:
                rewrite(I, ctx, s + e, mapping)
    return fn


def long(what, n):
    """Many lines, many imports, many names: more than any number of digits, any buffer or any limit on passes."""
    def fn(I, ctx):
        mapping = setup(I)
        names = list(mapping["district42"])
        forms = [f for f in FORMS if f != "future"]
        one = lambda i: f"from district42 import {names[i % len(names)]} as a{i}"
        rest = lambda i: [f"x{i} = {i}", f"'é{i}'", "# from district42 import schema", "", f"if x{i}:\n    from district42 import schema",
                          f"y{i} = '''\n{i}\n'''", "{S1}"][i % 7]
        form = lambda i: FORMS[forms[i % len(forms)]].replace("1}", "3}")
        done = 0
        for nl, end in (("\n", "\n"), ("\r\n", ""), ("\n", "")):
            go = lambda s: rewrite(I, ctx, s.replace("\n", nl) + end, mapping)
            if what == "lines before":
                before = "\n".join(rest(i) for i in range(n))
                for f in ("one", "mixed", "parentheses", "dotted", "valera", "spaces"):
                    done += go(before + "\n" + FORMS[f] + "\n{S2}")
            elif what == "imports":
                done += go("\n".join(one(i) for i in range(n)))
                done += go("\n".join(one(i) + "\n" + rest(i) for i in range(n)))
                done += go("\n".join(rest(i) + "\n" + form(i) for i in range(n)))
            elif what == "imports on a line":
                done += go("; ".join(one(i) for i in range(n)))
                done += go("; ".join(one(i) + f"; 'é{i}'; x = {i}" for i in range(n)))
                done += go(" ;".join(f"{'x' * (i * 7 % 90 + 1)} = 'é'; " + one(i) for i in range(n)) + "\n" + one(0))
            elif what == "names":
                ns = [f"{names[i % len(names)]} as b{i}" if i % 3 else f"other{i}" for i in range(n)]
                done += go(f"from district42 import {', '.join(ns)}\n{{S1}}")
                inner = ",\n    ".join(ns)
                done += go(f"{{S1}}; from district42 import ({inner},\n)\n{{S2}}")
                inner = ", \\\n".join(ns)
                done += go(f"from district42 import \\\n {inner}\n{one(1)}")
            else:
                done += go(f"x = '{'é' * n}'; from district42 import schema; y = '{'z' * n}'")
                done += go(f"{'x' * n} = 1\nfrom district42 import schema as {'y' * n}, Props\nz = 1")
                blank = "\n" * n
                done += go(f"'''{blank}'''; from district42 import schema{blank}{{S1}}")
        need(ctx, done, "long")
    return fn


def scenarios(tier):
    deep = tier == "thorough"
    out = [("targets", "mapping", targets, {})]
    for m in ["district42", "district42.errors", "district42.representor", "district42.types", "district42.utils", "blahblah", "valera", "valera.errors", "revolt", "revolt.errors"]:
        out.append(("names", m, names(m), {"weight": 3}))
    opt = {"time": 120 if not deep else 600}
    for f in FORMS:
        for o in list(SIMPLE) + list(COMPOUND):
            out.append(("forms", f"{f} beside {o}" + (" (block)" if o in COMPOUND and o in SIMPLE else ""), forms(f, o, deep), dict(opt)))
        for g in FORMS:
            out.append(("several", f"{f} and {g}", several(f, g, deep), dict(opt)))
        out.append(("edges", f, edges(f), dict(opt)))
    out.append(("rest", "no mapped import", rest(0), dict(opt)))
    for n in (11, 40, 120) + ((300, 1100) if deep else ()):
        for what in ("lines before", "imports", "imports on a line", "names", "long lines"):
            if n > 300 and what in ("imports", "imports on a line", "names"):
                continue
            out.append(("several", f"long: {what}, {n}", long(what, n), dict(opt)))
    return out
