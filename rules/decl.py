"""Declaration steps: one refinement call each, with the arguments it expects."""
from .lib import *   # noqa

INT = ("int", "bool", "hugeint")
FLT = ("float", "inf", "ninf", "nan")


class Step:
    def __init__(self, label, expr, args, props, extra=None):
        self.label, self.expr, self.args, self.props, self.extra = label, expr, args, props, extra

    def make(self, I, tag, wrong=False):
        """Abstract arguments: of the expected kinds, or of any kind at all."""
        out = {}
        for n, tags in self.args.items():
            if callable(tags):
                out[n] = tags(I, f"{tag}.{n}", wrong)
            else:
                out[n] = Sym(f"{self.label}.{n}{tag}", ALL_TAGS if wrong else frozenset(tags))
        return out

    def apply(self, I, s, args):
        return I.attempt(self.expr, s=s, **args)

    def describe(self, d, args):
        for p, n in self.props.items():
            d[p] = args[n]


def list_arg(I, tag, wrong):
    """A list of members and markers, or a schema; with wrong, also elements and containers of other kinds."""
    opts = ["type", "list"] + (["any"] if wrong else [])
    k = choose(I, opts, "argument" + tag)
    if k == "type":
        return I.member("T" + tag)
    if k == "any":
        return Sym("argument" + tag, ALL_TAGS)
    n = choose(I, [0, 1, 2, 3], "elements" + tag)
    kinds = ["member", "..."] + (["cell"] if wrong else [])
    out = []
    for i in range(n):
        e = choose(I, kinds, f"element {i}{tag}")
        out.append(I.member(f"E{i}{tag}") if e == "member" else ... if e == "..." else
                   Sym(f"e{i}{tag}", ALL_TAGS - {"ellipsis"}))
    return ListObj(out)


def dict_arg(I, tag, wrong):
    if wrong and choose(I, ["dict", "any"], "argument" + tag) == "any":
        return Sym("argument" + tag, ALL_TAGS)
    n = choose(I, [0, 1, 2], "entries" + tag)
    ent = []
    for i in range(n):
        w = wrong and i == n - 1
        k = choose(I, ["key", "optional", "..."] + (["odd key"] if w else []), f"key {i}{tag}")
        kk = {"key": lambda: key(f"k{i}{tag}"), "optional": lambda: I.py("optional(k)", k=key(f"k{i}{tag}")),
              "...": lambda: ..., "odd key": lambda: choose(I, [None, 0, 1.5, (1, 2), b"", 10 ** 5000], f"odd key {i}{tag}")}[k]()
        v = choose(I, ["member", "..."] + (["cell"] if w else []), f"value {i}{tag}")
        vv = {"member": lambda: I.member(f"V{i}{tag}"), "...": lambda: ...,
              "cell": lambda: Sym(f"v{i}{tag}", ALL_TAGS - {"ellipsis"})}[v]()
        if any(keyof(e[0]) == keyof(kk) for e in ent):
            continue
        ent.append([kk, vv])
    return DictObj(ent)


def schema_arg(I, tag, wrong):
    if wrong and choose(I, [0, 1], "argument" + tag):
        return Sym("argument" + tag, ALL_TAGS)
    return I.member("A" + tag)


def two(label, expr, args, props):
    return Step(label, expr, args, props)


LENS = [Step("len", "s.len(a)", {"a": INT}, {"len": "a"}),
        Step("min_len", "s.len(a, ...)", {"a": INT}, {"min_len": "a"}),
        Step("max_len", "s.len(..., a)", {"a": INT}, {"max_len": "a"}),
        Step("min_max_len", "s.len(a, b)", {"a": INT, "b": INT}, {"min_len": "a", "max_len": "b"})]

STEPS = {
    "int": [Step("value", "s(a)", {"a": INT}, {"value": "a"}), Step("min", "s.min(a)", {"a": INT}, {"min": "a"}),
            Step("max", "s.max(a)", {"a": INT}, {"max": "a"})],
    "float": [Step("value", "s(a)", {"a": FLT}, {"value": "a"}), Step("min", "s.min(a)", {"a": FLT}, {"min": "a"}),
              Step("max", "s.max(a)", {"a": FLT}, {"max": "a"}),
              Step("precision", "s.precision(a)", {"a": INT}, {"precision": "a"})],
    "str": [Step("value", "s(a)", {"a": ("str",)}, {"value": "a"})] + LENS +
           [Step("alphabet", "s.alphabet(a)", {"a": ("str",)}, {"alphabet": "a"}),
            Step("contains", "s.contains(a)", {"a": ("str",)}, {"substr": "a"}),
            Step("regex", "s.regex(a)", {"a": ("str",)}, {"pattern": "a"})],
    "bool": [Step("value", "s(a)", {"a": ("bool",)}, {"value": "a"})],
    "bytes": [Step("value", "s(a)", {"a": ("bytes",)}, {"value": "a"})],
    "uuid4": [Step("value", "s(a)", {"a": ("uuid4", "uuidx")}, {"value": "a"})],
    "datetime": [Step("value", "s(a)", {"a": ("datetime",)}, {"value": "a"})],
    "date": [Step("value", "s(a)", {"a": ("date", "datetime")}, {"value": "a"})],
    "list": [Step("elements", "s(a)", {"a": list_arg}, {"els": "a"})] + LENS,
    "dict": [Step("keys", "s(a)", {"a": dict_arg}, {"keys": "a"})],
    "any": [Step("types", "s(a)", {"a": schema_arg}, {"types": "a"}),
            Step("types2", "s(a, b)", {"a": schema_arg, "b": schema_arg}, {"types": "a"})],
}


def slot(step):
    """Steps of one slot declare the same property."""
    return "len" if step.label in ("len", "min_len", "max_len", "min_max_len") else \
        "types" if step.label.startswith("types") else step.label
