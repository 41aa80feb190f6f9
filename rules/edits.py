"""Descriptions that differ in one place."""


def sub(d):
    """(how to put a part back, part) for the direct parts of a description."""
    for k in ("type", "inner"):
        if k in d:
            yield (lambda x, k=k: {**d, k: x}), d[k]
    for k in ("els", "types"):
        for i, e in enumerate(d.get(k, ())):
            yield (lambda x, k=k, i=i: {**d, k: d[k][:i] + [x] + d[k][i + 1:]}), e
    for i, (key, e, o) in enumerate(d.get("entries", ())):
        yield (lambda x, i=i, key=key, o=o: {**d, "entries": d["entries"][:i] + [(key, x, o)] + d["entries"][i + 1:]}), e


def here(d):
    """The description changed at its root."""
    for k in ("value", "min", "max", "len", "min_len", "max_len", "precision", "alphabet", "substr"):
        if k in d:
            x = d[k]
            yield f"no {k}", {a: b for a, b in d.items() if a != k}
            if not isinstance(x, bool) and isinstance(x, (int, float)):
                yield f"{k} + 1", {**d, k: x + 1}
            elif isinstance(x, str):
                yield f"{k} longer", {**d, k: x + "b"}
            elif isinstance(x, bool):
                yield f"{k} negated", {**d, k: not x}
    if d["t"] == "int" and "min" not in d and "value" not in d:
        yield "int min", {**d, "min": 2}
    if d["t"] == "str" and "value" not in d and "min_len" not in d and "len" not in d:
        yield "str min_len", {**d, "min_len": 1}
    for k in ("els", "types"):
        if k in d:
            xs = d[k]
            for i in sorted({0, len(xs) // 2, len(xs) - 1} if xs else ()):
                if len(xs) > 1:
                    yield f"without {k} {i}", {**d, k: xs[:i] + xs[i + 1:]}
                yield f"{k} {i} twice", {**d, k: xs[:i] + [xs[i]] + xs[i:]}
            if len(xs) > 1:
                yield f"{k} reversed", {**d, k: xs[::-1]}
    if d["t"] == "list" and d.get("form") in ("exact", "head", "tail", "contains"):
        for f in ("exact", "head", "tail", "contains"):
            if f != d["form"] and not any(k in d for k in ("len", "min_len", "max_len")):
                yield f"form {f}", {**d, "form": f}
    if "entries" in d:
        es = d["entries"]
        for i in sorted({0, len(es) // 2, len(es) - 1} if es else ()):
            k, e, o = es[i]
            yield f"without key {k}", {**d, "entries": es[:i] + es[i + 1:]}
            yield f"key {k} of the other optionality", {**d, "entries": es[:i] + [(k, e, not o)] + es[i + 1:]}
            yield f"key {k} renamed", {**d, "entries": es[:i] + [(f"{k}'", e, o)] + es[i + 1:]}
            yield f"key {k} with another schema", {**d, "entries": es[:i] + [(k, {"t": "none"}, o)] + es[i + 1:]}
        yield "the other relaxedness", {**d, "relaxed": None if d.get("relaxed") else "last"}
        yield "free dict", {"t": "dict"}
    yield "anything", {"t": "any"}
    yield "none", {"t": "none"}


def edits(d):
    """Every description that differs from d in one place."""
    yield from here(d)
    parts = list(sub(d))
    n = len(parts)
    for i, (put, e) in enumerate(parts):
        if n <= 4 or i in (0, n // 2, n - 1):
            for w, x in edits(e):
                yield f"{w} in {i}", put(x)
