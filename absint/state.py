"""Path state: facts about unknown values (tags, orderings, predicates, equalities) and the partition oracle."""
from fractions import Fraction
import math

from .values import *   # noqa


class Infeasible(Exception):
    """The current partition is empty (facts contradict each other)."""


class Undecided(Exception):
    """The abstract domain cannot represent an operation; the partition gives no verdict."""


ZERO = "0"


def _num(c):
    if isinstance(c, float):
        return Fraction(c)
    return c


class Zone:
    """Difference bounds x - y <= c (or < c) between numeric unknowns."""

    def __init__(self):
        self.d = {}
        self.nodes = [ZERO]
        self.isint = {ZERO: True}

    def ensure(self, n, isint):
        if n not in self.isint:
            self.nodes.append(n)
            self.isint[n] = isint
        return n

    def get(self, i, j):
        if i is j or i == j:
            return (0, False)
        return self.d.get((i, j))

    @staticmethod
    def tighter(a, b):
        if b is None:
            return True
        if a[0] != b[0]:
            return a[0] < b[0]
        return a[1] and not b[1]

    def add(self, i, j, c, strict):
        c = _num(c)
        if self.isint[i] and self.isint[j]:
            if strict:
                c = (math.ceil(c) - 1)
            else:
                c = math.floor(c)
            strict = False
        if i == j:
            if c < 0 or (c == 0 and strict):
                raise Infeasible
            return
        if not self.tighter((c, strict), self.d.get((i, j))):
            return
        back = self.get(j, i)
        if back is not None:
            s = back[0] + c
            if s < 0 or (s == 0 and (back[1] or strict)):
                raise Infeasible
        for p in self.nodes:
            pi = self.get(p, i)
            if pi is None:
                continue
            for q in self.nodes:
                if p == q:
                    continue
                jq = self.get(j, q)
                if jq is None:
                    continue
                n = (pi[0] + c + jq[0], pi[1] or strict or jq[1])
                if self.isint[p] and self.isint[q]:
                    if n[1]:
                        n = (math.ceil(n[0]) - 1, False)
                    else:
                        n = (math.floor(n[0]), False)
                if self.tighter(n, self.d.get((p, q))):
                    self.d[(p, q)] = n
                    b = self.get(q, p)
                    if b is not None:
                        s = b[0] + n[0]
                        if s < 0 or (s == 0 and (b[1] or n[1])):
                            raise Infeasible

    def entails(self, i, j, c, strict):
        """True / False / None for i - j <= c (< c if strict)."""
        c = _num(c)
        b = self.get(i, j)
        if b is not None:
            if b[0] < c or (b[0] == c and (b[1] or not strict)):
                return True
        b = self.get(j, i)     # j - i <= b  ->  i - j >= -b
        if b is not None:
            lo = -b[0]
            if strict:
                if lo >= c:
                    return False
            else:
                if lo > c or (lo == c and b[1]):
                    return False
        return None

    def interval(self, n):
        hi = self.get(n, ZERO)
        lo = self.get(ZERO, n)
        return (None if lo is None else -lo[0], None if hi is None else hi[0])


class Choices:
    """Depth-first enumeration of partition choices by replay."""

    def __init__(self):
        self.prefix = []      # list of [chosen, n]
        self.pos = 0

    def choose(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            c, m = self.prefix[self.pos]
            if m != n:
                raise RuntimeError("non-deterministic replay")
        else:
            c = 0
            self.prefix.append([0, n])
        self.pos += 1
        return c

    def advance(self):
        del self.prefix[self.pos:]
        while self.prefix and self.prefix[-1][0] + 1 >= self.prefix[-1][1]:
            self.prefix.pop()
        if not self.prefix:
            return False
        self.prefix[-1][0] += 1
        self.pos = 0
        return True


SYMMETRIC = frozenset({"eq", "same", "close"})


def symmetric(name, args):
    """Arguments of a symmetric predicate in one fixed order."""
    if name not in SYMMETRIC:
        return args
    a, b = args[:2]
    ka, kb = (getattr(a, "uid", -1), repr(keyof(a))), (getattr(b, "uid", -1), repr(keyof(b)))
    return args if ka <= kb else (b, a) + args[2:]


class State:
    def __init__(self, choices):
        self.choices = choices
        self.facts = {}        # key -> (bool, name, args)
        self.rep = {}
        self.tags = {}
        self.zone = Zone()
        self.imprecise = []
        self.trace = []        # (site, text)
        self.rules = {}        # predicate name -> fn(state, args) -> bool|None
        self.after = {}        # predicate name -> fn(state, args, val)
        self.site = lambda: "?"
        self.watch_eq = []
        self.seen_num = set()

    # ------------------------------------------------------------ canonical representatives
    def canon(self, v):
        if type(v) is Sym and v not in self.rep:
            return v
        if isinstance(v, CONC) and not isinstance(v, tuple):
            return v
        if isinstance(v, Opaque):
            n = 0
            while isinstance(v, Opaque) and v in self.rep:
                v = self.rep[v]
                n += 1
                if n > 50:
                    raise Undecided("cyclic representative")
            if isinstance(v, Term):
                args = tuple(self.canon(a) for a in v.args)
                if any(a is not b for a, b in zip(args, v.args)):
                    w = Term(v.op, args, v.tags, v.approx, v.char)
                    w2 = self.simplify(w)
                    if w2 in self.rep if isinstance(w2, Opaque) else False:
                        return self.canon(w2)
                    return w2
            elif not isinstance(v, Opaque):
                return self.canon(v)
            return v
        if isinstance(v, tuple):
            if not self.rep:
                return v
            return tuple(self.canon(a) for a in v)
        if isinstance(v, Cat):
            if any(isinstance(p, Opaque) and self.canon(p) is not p for p in v.pieces):
                return mk_cat([self.canon(p) for p in v.pieces], v.kind)
            return v
        if isinstance(v, Lin):
            if any(self.canon(o) is not o for o, _ in v.terms):
                r = lin_of(v.const)
                for o, c in v.terms:
                    r = lin_add(r, self.to_lin(self.canon(o)), c)
                return lin_norm(r)
            return v
        return v

    def simplify(self, t):
        """Fold a term whose arguments became concrete."""
        from . import fold
        return fold.simplify(self, t)

    def to_lin(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, int):
            return lin_of(int(v))
        if isinstance(v, Opaque):
            return Lin(0, ((v, 1),))
        raise Undecided(f"not linear: {show(v)}")

    # ------------------------------------------------------------ tags
    def tags_of(self, v):
        v = self.canon(v)
        if isinstance(v, Opaque):
            return self.tags.get(v, v.tags)
        return None

    def restrict(self, v, tags):
        cur = self.tags_of(v)
        new = cur & tags
        if not new:
            raise Infeasible
        if new != cur:
            v = self.canon(v)
            self.tags[v] = new
            if len(new) == 1:
                t = next(iter(new))
                if t in CONC_OF_TAG:
                    self.rep[v] = CONC_OF_TAG[t]
                    self.recanon()

    def split(self, v, tags, text=""):
        """Decide whether the tag of v is in `tags`; may partition."""
        cur = self.tags_of(v)
        if cur <= tags:
            return True
        if not (cur & tags):
            return False
        c = self.choices.choose(2)
        self.log(f"{show(v)} is {text or '/'.join(sorted(cur & tags))}", c == 0)
        self.restrict(v, cur & tags if c == 0 else cur - tags)
        return c == 0

    def choose(self, n, text=""):
        c = self.choices.choose(n)
        if n > 1:
            self.log(f"{text}: option {c + 1}/{n}", True)
        return c

    def log(self, text, val):
        self.trace.append((self.site(), f"{text} = {val}"))

    def note_imprecise(self, why):
        self.imprecise.append((self.site(), why))

    # ------------------------------------------------------------ predicates
    def decide(self, name, *args, text=None):
        args = symmetric(name, tuple(self.canon(a) for a in args))
        key = (name,) + tuple(keyof(a) for a in args)
        if key in self.facts:
            return self.facts[key][0]
        r = self.rules.get(name)
        if r is not None:
            v = r(self, args)
            if v is not None:
                return v
        c = self.choices.choose(2) == 0
        self.log(text or f"{name}({', '.join(map(show, args))})", c)
        self.assume(name, c, *args)
        return c

    def known(self, name, *args):
        args = symmetric(name, tuple(self.canon(a) for a in args))
        key = (name,) + tuple(keyof(a) for a in args)
        if key in self.facts:
            return self.facts[key][0]
        r = self.rules.get(name)
        if r is not None:
            return r(self, args)
        return None

    def assume(self, name, val, *args):
        args = symmetric(name, tuple(self.canon(a) for a in args))
        key = (name,) + tuple(keyof(a) for a in args)
        old = self.facts.get(key)
        if old is not None:
            if old[0] != val:
                raise Infeasible
            return
        r = self.rules.get(name)
        if r is not None:
            v = r(self, args)
            if v is not None and v != val:
                raise Infeasible
        self.facts[key] = (val, name, args)
        a = self.after.get(name)
        if a is not None:
            a(self, args, val)

    # ------------------------------------------------------------ equality of unknowns
    def unify(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a is b or (not isinstance(a, Opaque) and not isinstance(b, Opaque) and a == b):
            return
        if not isinstance(a, Opaque) or (isinstance(b, Opaque) and isinstance(a, Sym) and isinstance(b, Term)):
            a, b = b, a
        if isinstance(a, Sym) and a.atom and isinstance(b, Sym) and not b.atom:
            a, b = b, a
        if not isinstance(a, Opaque):
            raise Infeasible
        ta = self.tags_of(a)
        if isinstance(b, Opaque):
            tb = self.tags_of(b)
            common = ta & tb
            if common:
                self.tags[b] = common
            elif not ({EQ_GROUP[t] for t in ta} & {EQ_GROUP[t] for t in tb}):
                raise Infeasible
            if a in self.zone.isint or b in self.zone.isint:
                self.num_node(a)
                self.num_node(b)
                self.zone.add(a, b, 0, False)
                self.zone.add(b, a, 0, False)
        elif isinstance(b, (int, float)) and a in self.zone.isint and b == b and abs(b) != float("inf"):
            self.zone.add(a, ZERO, b, False)
            self.zone.add(ZERO, a, -b, False)
        if occurs(a, b):
            if occurs(b, a) or not isinstance(b, Opaque):
                return
            if isinstance(b, Opaque) and not isinstance(a, Term):
                return      # x = f(x): kept as an order fact only
            a, b = b, a
        self.rep[a] = b
        self.recanon()

    def num_node(self, v):
        t = self.tags_of(v)
        isint = bool(t) and t <= INT_TAGS
        self.zone.ensure(v, isint)
        if v not in self.seen_num:
            self.seen_num.add(v)
            if t == frozenset({"bool"}):
                self.zone.add(v, ZERO, 1, False)
                self.zone.add(ZERO, v, 0, False)
            if isinstance(v, Term):
                from . import fold
                fold.num_axioms(self, v)
        return v

    def recanon(self):
        while True:
            old = self.facts
            self.facts = {}
            n = len(self.rep)
            for key, (val, name, args) in old.items():
                args2 = symmetric(name, tuple(self.canon(a) for a in args))
                k2 = (name,) + tuple(keyof(a) for a in args2)
                if k2 in self.facts:
                    if self.facts[k2][0] != val:
                        raise Infeasible
                    continue
                if k2 != key:
                    r = self.rules.get(name)
                    if r is not None:
                        v = r(self, args2)
                        if v is not None and v != val:
                            raise Infeasible
                self.facts[k2] = (val, name, args2)
            # zone nodes whose representative changed
            for nd in list(self.zone.nodes):
                if isinstance(nd, Opaque):
                    c = self.canon(nd)
                    if c is nd or c == nd:
                        continue
                    if isinstance(c, Opaque):
                        self.num_node(c)
                        self.zone.add(nd, c, 0, False)
                        self.zone.add(c, nd, 0, False)
                    elif isinstance(c, (int, float)) and c == c and abs(c) != float("inf"):
                        self.zone.add(nd, ZERO, c, False)
                        self.zone.add(ZERO, nd, -c, False)
                    elif isinstance(c, Lin):
                        pn = self._diff(nd, c)
                        if pn is not None:
                            i, j, k = pn
                            self.zone.add(i, j, -k, False)
                            self.zone.add(j, i, k, False)
            if len(self.rep) == n:
                break

    # ------------------------------------------------------------ numeric comparison
    def _diff(self, a, b):
        """a - b as (pos, neg, const) or None."""
        def one(v):
            if isinstance(v, Lin):
                return dict(v.terms), v.const
            if isinstance(v, Opaque):
                return {v: 1}, 0
            return {}, v
        ta, ca = one(a)
        tb, cb = one(b)
        t = dict(ta)
        for o, c in tb.items():
            t[o] = t.get(o, 0) - c
        t = {o: c for o, c in t.items() if c}
        pos = [o for o, c in t.items() if c == 1]
        neg = [o for o, c in t.items() if c == -1]
        if len(pos) + len(neg) != len(t) or len(pos) > 1 or len(neg) > 1:
            return t, None, _num(ca) - _num(cb)
        i = self.num_node(pos[0]) if pos else ZERO
        j = self.num_node(neg[0]) if neg else ZERO
        return i, j, _num(ca) - _num(cb)

    def order(self, a, b, decide=True):
        """-1, 0, 1 for a<b, a==b, a>b (partitions if needed); None if unordered (NaN)."""
        a, b = self.canon(a), self.canon(b)
        for x in (a, b):
            if isinstance(x, float) and x != x:
                return None
        if not isinstance(a, (Opaque, Lin)) and not isinstance(b, (Opaque, Lin)):
            return (a > b) - (a < b)
        if isinstance(b, float) and abs(b) == float("inf"):
            return -1 if b > 0 else 1
        if isinstance(a, float) and abs(a) == float("inf"):
            return 1 if a > 0 else -1
        i, j, k = self._diff(a, b)
        if j is None:
            t = i
            lo = hi = k
            for o, c in t.items():
                self.num_node(o)
                l, h = self.zone.interval(o)
                if c < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + c * l
                hi = None if hi is None or h is None else hi + c * h
            if lo is not None and lo > 0:
                return 1
            if hi is not None and hi < 0:
                return -1
            if lo == 0 == hi:
                return 0
            L = lin_norm(Lin(int(k), tuple(sorted(t.items(), key=lambda p: (repr(p[0]), p[0].uid)))))
            s = self.known("sign", L)
            opts = [-1, 0, 1]
            if lo is not None and lo >= 0:
                opts.remove(-1)
            if hi is not None and hi <= 0:
                opts.remove(1)
            for o in list(opts):
                f = self.facts.get(("sign", L))
            key = ("signv", L)
            if key in self.facts:
                return self.facts[key][0]
            neg = lin_norm(lin_scale(L, -1))
            nk = ("signv", neg)
            if nk in self.facts:
                return -self.facts[nk][0]
            if not decide:
                return "?"
            c = opts[self.choices.choose(len(opts))]
            self.log(f"sign({show(L)})", c)
            self.facts[key] = (c, "signv", (L,))
            self.note_imprecise(f"non-difference comparison {show(L)}")
            return c
        if i == j:
            return (k > 0) - (k < 0)
        # a - b = i - j + k
        opts = []
        if self.zone.entails(i, j, -k, True) is not False:
            opts.append(-1)
        eqp = self.zone.entails(i, j, -k, False) is not False and self.zone.entails(j, i, k, False) is not False
        if eqp and k == 0 and i != ZERO and j != ZERO:
            kk = self.facts.get(("neq", i, j)) or self.facts.get(("neq", j, i))
            if kk is not None:
                eqp = False
        if eqp:
            opts.append(0)
        if self.zone.entails(j, i, k, True) is not False:
            opts.append(1)
        if len(opts) > 1:
            from . import fold
            m = fold.monotone_order(self, a, b)
            if m is not None:
                opts = [o for o in opts if o in m] or opts
        if not opts:
            raise Infeasible
        if len(opts) > 1 and not decide:
            return "?" if len(opts) == 3 else tuple(opts)
        c = opts[self.choices.choose(len(opts))]
        if len(opts) > 1:
            self.log(f"{show(a)} {'<' if c < 0 else '>' if c > 0 else '=='} {show(b)}", True)
            if any(isinstance(o, Term) and o.approx for o in (i, j)):
                self.note_imprecise(f"comparison over rounded arithmetic: {show(a)} vs {show(b)}")
        self.assume_order(a, b, i, j, k, c)
        return c

    def assume_order(self, a, b, i, j, k, c):
        if c < 0:
            self.zone.add(i, j, -k, True)
        elif c > 0:
            self.zone.add(j, i, k, True)
        else:
            self.zone.add(i, j, -k, False)
            self.zone.add(j, i, k, False)
            if k == 0 and i != ZERO and j != ZERO and i != j:
                ti, tj = self.tags_of(i), self.tags_of(j)
                if ti & tj:
                    self.unify(i, j)
            elif j == ZERO and isinstance(i, Opaque):
                self._pin(i, -k)
            elif i == ZERO and isinstance(j, Opaque):
                self._pin(j, k)

    def _pin(self, o, val):
        t = self.tags_of(o)
        if t is None:
            c = self.canon(o)
            if isinstance(c, (int, float)) and c != val:
                raise Infeasible
            return
        if isinstance(val, Fraction) and val.denominator == 1:
            val = int(val)
        if t == frozenset({"bool"}):
            self.unify(o, bool(val))
        elif t <= INT_TAGS:
            if isinstance(val, int):
                if val in (0, 1) and "bool" in t:
                    return
                self.unify(o, val)
            else:
                raise Infeasible
        elif t <= FLOAT_TAGS:
            self.unify(o, float(val))

    def le(self, a, b):
        """Assume a <= b (axioms)."""
        a, b = self.canon(a), self.canon(b)
        i, j, k = self._diff(a, b)
        if j is None:
            return
        self.zone.add(i, j, -k, False)

    def lt(self, a, b):
        a, b = self.canon(a), self.canon(b)
        i, j, k = self._diff(a, b)
        if j is None:
            return
        self.zone.add(i, j, -k, True)


def occurs(a, b):
    """Does the unknown a occur strictly inside b?"""
    if isinstance(b, Term):
        return any(keyof(x) == keyof(a) or occurs(a, x) for x in b.args)
    if isinstance(b, tuple):
        return any(keyof(x) == keyof(a) or occurs(a, x) for x in b)
    if isinstance(b, Lin):
        return any(x == a or occurs(a, x) for x, _ in b.terms)
    if isinstance(b, Cat):
        return any(keyof(x) == keyof(a) or occurs(a, x) for x in b.pieces)
    return False


def lin_of(c):
    return Lin(c, ())


def lin_add(a, b, mul=1):
    t = dict(a.terms)
    for o, c in b.terms:
        t[o] = t.get(o, 0) + mul * c
    items = tuple(sorted(((o, c) for o, c in t.items() if c), key=lambda p: (repr(p[0]), p[0].uid)))
    return Lin(a.const + mul * b.const, items)


def lin_scale(a, k):
    return Lin(a.const * k, tuple((o, c * k) for o, c in a.terms if k))


def lin_norm(a):
    if not a.terms:
        return a.const
    if a.const == 0 and len(a.terms) == 1 and a.terms[0][1] == 1:
        return a.terms[0][0]
    return a
