"""Helpers shared by the property rules: descriptions, arbitrary values, path bookkeeping."""
from absint.values import *   # noqa
from absint.core import PyExc
from absint.state import Infeasible, Undecided

ANY = ALL_TAGS
CELL = frozenset({"none", "int", "str", "object"})


def lift(x):
    """Host description -> abstract container."""
    if isinstance(x, dict):
        return DictObj([[k, lift(v)] for k, v in x.items()])
    if isinstance(x, list):
        return ListObj([lift(v) for v in x])
    if isinstance(x, tuple):
        return tuple(lift(v) for v in x)
    return x


def D(t, **kw):
    return dict(t=t, **kw)


def sym(name, *tags, **kw):
    ts = frozenset(tags[0]) if len(tags) == 1 and not isinstance(tags[0], str) else frozenset(tags)
    if len(ts) == 1 and next(iter(ts)) in CONC_OF_TAG:
        return CONC_OF_TAG[next(iter(ts))]
    return Sym(name, ts, **kw)


def anyval(name="v", tags=ANY):
    return Sym(name, tags)


def cell(name):
    return Sym(name, CELL)


def key(name):
    return Sym(name, {"str"}, atom=True)


def mem(I, name):
    return D("member", m=I.member(name))


def choose_list(I, name, lo, hi, mk=cell):
    n = lo + I.st.choose(hi - lo + 1, f"length of {name}")
    return ListObj([mk(f"{name}[{i}]") for i in range(n)])


def choose_dict(I, name, keys, extras=(), mk=cell):
    """A dict over any subset of `keys`, then `extras` (also optional)."""
    ent = []
    for k in list(keys) + list(extras):
        if I.st.choose(2, f"{show(k)} in {name}") == 0:
            ent.append([k, mk(f"{name}[{show(k)}]")])
    if len(ent) > 1 and I.st.choose(2, f"order of {name}") == 1:
        ent.reverse()
    return DictObj(ent)


def choose(I, opts, text):
    return opts[I.st.choose(len(opts), text)]


def construct(site):
    return site


# keys of every spelling and kind
ODD_KEYS = [None, 0, 1, -1, "", " ", "a", "A", "k ", " k", "K", "kk", "_k", "__class__", "keys", "value", "k.k", "0", "None", "é", "e\u0301", "\n", "...",
            "'", '"', "\\", "{}", "{0}", "%s", True, 1.5, 0.1, float("inf"), b"", b"k", (), ("k",), (1, 2), (None,), 2 ** 70, "x" * 99]
# plain data that holds nothing much
NOTHING = [None, False, 0, 0.0, -0.0, "", b"", [], {}, [None], [[]], [{}], {"": None}, {None: None}, {"k": []}, {"k": {}}]
