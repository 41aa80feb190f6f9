"""Value numbering: folding of terms whose arguments became known, numeric axioms, string predicate rules."""
import math
import datetime as _dt

from .values import *   # noqa
from .state import Undecided, Infeasible, lin_of, lin_add, lin_norm, lin_scale, ZERO


def length_of(st, v):
    """Abstract length of a string/bytes value."""
    v = st.canon(v)
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, Cat):
        r = lin_of(0)
        for p in v.pieces:
            n = length_of(st, p)
            r = lin_add(r, st.to_lin(n))
        return lin_norm(r)
    if isinstance(v, Opaque):
        if v.char:
            return 1
        t = Term("len", (v,), {"int"})
        st.num_node(t)
        return st.canon(t)
    raise Undecided(f"len of {show(v)}")


NUM_OPS = {
    "mul": lambda a, b: a * b, "add": lambda a, b: a + b, "sub": lambda a, b: a - b,
    "div": lambda a, b: a / b, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
    "pow": lambda a, b: a ** b, "neg": lambda a: -a, "round": lambda *a: round(*a), "int": lambda a: int(a),
    "float": lambda a: float(a), "abs": lambda a: abs(a), "chr": lambda a: chr(a), "ord": lambda a: ord(a),
    "trunc": math.trunc, "floor": math.floor, "ceil": math.ceil,
}


def simplify(st, t):
    op, a = t.op, t.args
    if op == "len":
        if isinstance(a[0], (str, bytes)):
            return len(a[0])
        if isinstance(a[0], Cat):
            return length_of(st, a[0])
        if isinstance(a[0], Opaque) and a[0].char:
            return 1
        return t
    if op in NUM_OPS and all(isinstance(x, (int, float, str)) and not isinstance(x, type) for x in a):
        try:
            return NUM_OPS[op](*a)
        except Exception:
            return t
    if op == "chr" and isinstance(a[0], Term) and a[0].op == "ord":
        return a[0].args[0]
    if op == "ord" and isinstance(a[0], Term) and a[0].op == "chr":
        return a[0].args[0]
    if op in ("repr", "str", "brepr") and is_conc(a[0]) and not isinstance(a[0], (tuple, type)):
        try:
            return str(a[0]) if op == "str" else repr(a[0])
        except Exception:
            return t
    if op == "lower" and isinstance(a[0], str):
        return a[0].lower()
    return t


def num_axioms(st, v):
    if v.op == "len":
        st.zone.add(ZERO, v, 0, False)
    elif v.op == "ord":
        st.zone.add(ZERO, v, 0, False)
        st.zone.add(v, ZERO, 0x10ffff, False)
    elif v.op == "abs":
        st.zone.add(ZERO, v, 0, False)


def _mono(st, a, b):
    """orders of f(a) vs f(b) for a weakly monotone f, from the order of a and b"""
    try:
        o = st.order(a, b, decide=False)
    except (Undecided, Infeasible):
        return None
    if o == -1:
        return {-1, 0}
    if o == 1:
        return {0, 1}
    if o == 0:
        return {0}
    if isinstance(o, tuple):
        if o == (-1, 0):
            return {-1, 0}
        if o == (0, 1):
            return {0, 1}
    return None


def monotone_order(st, a, b):
    if not (isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and len(a.args) == len(b.args)):
        return None
    if a.op in ("round", "int", "float", "trunc", "floor", "ceil") and \
            all(keyof(x) == keyof(y) for x, y in zip(a.args[1:], b.args[1:])):
        return _mono(st, a.args[0], b.args[0])
    if a.op in ("mul", "div") and keyof(a.args[1]) == keyof(b.args[1]):
        k = a.args[1]
        if st.order(k, 0, decide=False) == 1:
            return _mono(st, a.args[0], b.args[0])
    return None


# ------------------------------------------------------------------ single characters
def chardom(st, c):
    """(allowed set or None, excluded set) known for an unknown character."""
    allowed, excluded = None, set()
    if isinstance(c, Sym) and isinstance(c.meta, tuple) and c.meta[0] == "in":
        allowed = set(c.meta[1])
    kc = keyof(c)
    for (v, name, ar) in list(st.facts.values()):
        if name == "charin":
            if isinstance(ar[1], str) and keyof(ar[0]) == kc:
                if v:
                    allowed = set(ar[1]) if allowed is None else allowed & set(ar[1])
                else:
                    excluded |= set(ar[1])
        elif name == "eq" and not v:
            if isinstance(ar[0], str) and keyof(ar[1]) == kc:
                excluded.add(ar[0])
            elif isinstance(ar[1], str) and keyof(ar[0]) == kc:
                excluded.add(ar[1])
    if allowed is not None:
        allowed = allowed - excluded
    return allowed, excluded


def isch(v):
    return isinstance(v, Opaque) and v.char


def narrow(st, c):
    """After learning something about a character: empty or singleton domains."""
    c = st.canon(c)
    if not isch(c):
        return
    allowed, _ = chardom(st, c)
    if allowed is not None:
        if not allowed:
            raise Infeasible
        if len(allowed) == 1:
            st.unify(c, next(iter(allowed)))


def charlist(v):
    """The characters of a string whose length is known exactly, or None."""
    if isinstance(v, str):
        return list(v)
    if isch(v):
        return [v]
    if isinstance(v, Cat) and v.kind == "str":
        out = []
        for p in v.pieces:
            if isinstance(p, str):
                out += list(p)
            elif isch(p):
                out.append(p)
            else:
                return None
        return out
    return None


# ------------------------------------------------------------------ predicate rules
def r_eq(st, args):
    a, b = args
    if a is b or keyof(a) == keyof(b):
        return True
    if isinstance(a, Sym) and isinstance(b, Sym) and a.atom and b.atom:
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Opaque) and not isinstance(y, Opaque):
            t = st.tags_of(x)
            g = {EQ_GROUP[k] for k in t}
            if isinstance(y, (str, Cat)) and "str" not in g:
                return False
            if isinstance(x, Sym) and x.atom and isinstance(y, str):
                return False
            if isinstance(y, str) and x.char and len(y) != 1:
                return False
            if isinstance(y, str) and x.char:
                allowed, excluded = chardom(st, x)
                if y in excluded or allowed is not None and y not in allowed:
                    return False
                if allowed == {y}:
                    return True
            elif isinstance(x, Opaque) and x.char and isinstance(y, Opaque) and y.char and x is a:
                dx, dy = chardom(st, x)[0], chardom(st, y)[0]
                if dx is not None and dy is not None and not dx & dy:
                    return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term) and x.op == "dateadd" and keyof(x.args[0]) == keyof(y):
            k = x.args[1]
            if isinstance(k, int):
                return k == 0
            if isinstance(k, _dt.timedelta):
                return not k
            if isinstance(k, (Opaque, Lin)):
                o = st.order(k, 0, decide=False)
                if o in (-1, 1):
                    return False
                if o == 0:
                    return True
    if isinstance(a, (str, Cat, Opaque)) and isinstance(b, (str, Cat, Opaque)):
        if (isinstance(a, (str, Cat)) or st.tags_of(a) <= STR_TAGS) and \
                (isinstance(b, (str, Cat)) or st.tags_of(b) <= STR_TAGS):
            o = st.order(length_of(st, a), length_of(st, b), decide=False)
            if o in (-1, 1):
                return False
            # predicates that separate the two
            for (v, name, ar) in list(st.facts.values()):
                if name in ("contains", "search", "fullmatch", "match") and len(ar) == 2:
                    if ar[1] is a or keyof(ar[1]) == keyof(a):
                        k = st.known(name, ar[0], b) if not isinstance(b, Opaque) or True else None
                        if k is not None and k != v:
                            return False
    return None


def r_same(st, args):
    """Identity of two unknowns: identical values have one tag and are equal."""
    a, b = args
    ta, tb = ([st.tags_of(x) if isinstance(x, Opaque) else None for x in args])
    if ta is not None and tb is not None:
        if not (ta & tb):
            return False
        if "nan" not in ta & tb:
            if ta | tb <= {"int", "bool", "float", "intsub", "floatsub"}:
                if st.order(a, b, decide=False) in (-1, 1):
                    return False
            elif st.known("eq", a, b) is False or st.known("eq", b, a) is False:
                return False
    return None


def a_same(st, args, val):
    if val and all(isinstance(x, Opaque) for x in args):
        common = st.tags_of(args[0]) & st.tags_of(args[1])
        for x in args:
            st.restrict(x, common)
        st.unify(*args)


def a_eq(st, args, val):
    if val:
        a, b = args
        st.unify(a, b)
        narrow(st, a)
    else:
        for x, y in (args, args[::-1]):
            if isch(x) and isinstance(y, str):
                narrow(st, x)


def r_contains(st, args):
    sub, s = args
    if isinstance(sub, (str, bytes)) and len(sub) == 0:
        return True
    if sub is s or keyof(sub) == keyof(s):
        return True
    if isinstance(sub, (str, bytes)) and type(sub) is type(s):
        return sub in s
    if isinstance(s, (str, bytes)) and len(s) == 0:
        o = st.order(length_of(st, sub), 0, decide=False)
        if o == 1:
            return False
        if o == 0:
            return True
    if isinstance(s, Cat):
        ks = keyof(sub)
        for i, p in enumerate(s.pieces):
            if keyof(p) == ks:
                return True
            if isinstance(p, (str, bytes)) and isinstance(sub, (str, bytes)) and sub in p:
                return True
            if isinstance(p, Opaque) and not p.char and st.facts.get(("contains", ks, keyof(p)), (None,))[0]:
                return True
        if isinstance(sub, Cat):
            n = len(sub.pieces)
            for i in range(len(s.pieces) - n + 1):
                def fits(j, x, y):
                    if keyof(x) == keyof(y):
                        return True
                    if isinstance(x, str) and isinstance(y, str):
                        return j == 0 and y.endswith(x) or j == n - 1 and y.startswith(x)
                    return False
                if all(fits(j, x, y) for j, (x, y) in enumerate(zip(sub.pieces, s.pieces[i:i + n]))):
                    return True
    o = st.order(length_of(st, sub), length_of(st, s), decide=False)
    if o == 1:
        return False
    if o == 0 and isinstance(sub, (Cat, str)) and isinstance(s, (Cat, str)):
        pass
    return None


def a_contains(st, args, val):
    sub, s = args
    if val:
        st.le(length_of(st, sub), length_of(st, s))
    else:
        st.le(1, length_of(st, sub))


def r_charin(st, args):
    c, s = args
    if isinstance(s, str):
        if isinstance(c, str):
            return c in s
        if s == "":
            return False
        if isch(c):
            allowed, excluded = chardom(st, c)
            if allowed is not None and allowed <= set(s):
                return True
            if set(s) <= excluded or allowed is not None and not allowed & set(s):
                return False
    if isinstance(s, Cat):
        if any(keyof(p) == keyof(c) for p in s.pieces):
            return True
    if isinstance(s, Opaque) and s.char and keyof(s) == keyof(c):
        return True
    return None


def a_charin(st, args, val):
    c, s = args
    if val:
        st.le(1, length_of(st, s))
    if isinstance(s, str):
        narrow(st, c)


def r_validre(st, args):
    if isinstance(args[0], str):
        import re
        try:
            re.compile(args[0])
            return True
        except Exception:
            return False
    return None


def r_search(st, args):
    p, s = args
    if isinstance(p, str) and isinstance(s, str):
        import re
        return re.search(p, s) is not None
    if st.facts.get(("fullmatch", keyof(p), keyof(s)), (None,))[0]:
        return True
    if st.facts.get(("match", keyof(p), keyof(s)), (None,))[0]:
        return True
    return None


def r_match(st, args):
    p, s = args
    if isinstance(p, str) and isinstance(s, str):
        import re
        return re.match(p, s) is not None
    if st.facts.get(("fullmatch", keyof(p), keyof(s)), (None,))[0]:
        return True
    if st.facts.get(("search", keyof(p), keyof(s)), (None,))[0] is False:
        return False
    return None


def r_fullmatch(st, args):
    p, s = args
    if isinstance(p, str) and isinstance(s, str):
        import re
        return re.fullmatch(p, s) is not None
    if st.facts.get(("search", keyof(p), keyof(s)), (None,))[0] is False:
        return False
    if st.facts.get(("match", keyof(p), keyof(s)), (None,))[0] is False:
        return False
    return None


def r_truth(st, args):
    return None


def a_truth(st, args, val):
    v = args[0]
    if st.tags_of(v) == frozenset({"bool"}):
        st.unify(v, val)


def r_close(st, args):
    """isclose with default tolerance; reflexive for finite numbers."""
    a, b = args
    if keyof(a) == keyof(b):
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return math.isclose(a, b)
    return None


def install_rules(st):
    st.rules.update(eq=r_eq, contains=r_contains, charin=r_charin, validre=r_validre, search=r_search, same=r_same,
                    match=r_match, fullmatch=r_fullmatch, close=r_close)
    st.after.update(eq=a_eq, same=a_same, contains=a_contains, charin=a_charin, truth=a_truth)
