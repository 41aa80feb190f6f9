"""Development aid (no check uses it): interpret the repository's own unit tests in the abstract interpreter.

Every test is a concrete program, so its assertions must hold on the single abstract path; a failing one means the
interpreter misrepresents Python or the library.
"""
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)

PYTEST = '''
class ExcInfo:
    def __init__(self):
        self.value = None
        self.type = None

class _Raises:
    def __init__(self, exc, match=None):
        self.exc = exc
        self.info = ExcInfo()
    def __enter__(self):
        return self.info
    def __exit__(self, t, v, tb):
        if t is None:
            raise AssertionError("did not raise")
        self.info.value = v
        self.info.type = t
        return issubclass(t, self.exc)

def raises(exc, **kw):
    return _Raises(exc, **kw)

class _Mark:
    def parametrize(self, names, values, **kw):
        def deco(f):
            if not hasattr(f, "params"):
                f.params = []
            f.params.append((names, values))
            return f
        return deco
    def skipif(self, *a, **k):
        return lambda f: f

mark = _Mark()
class P:
    def __init__(self, args):
        self.args = args
def param(*args, **kw):
    return P(args)
def fixture(*a, **k):
    if a:
        a[0].is_fixture = True
        return a[0]
    def deco(f):
        f.is_fixture = True
        return f
    return deco
'''
BABY = '''
class Step:
    def __enter__(self):
        pass
    def __exit__(self, *a):
        return False
    def __call__(self, name):
        return self
given = Step()
when = Step()
then = Step()
'''


MOCK = '''
DEFAULT = object()
class _Call:
    def __init__(self, name=None):
        object.__setattr__(self, "n", name)
    def __getattr__(self, name):
        return _CallMaker(name)
    def __call__(self, *args, **kw):
        return ("", args, kw)
class _CallMaker:
    def __init__(self, name):
        self.nm = name
    def __call__(self, *args, **kw):
        return (self.nm, args, kw)
call = _Call()
class _Sentinel:
    def __getattr__(self, name):
        r = _S()
        setattr(self, name, r)
        return r
class _S:
    pass
sentinel = _Sentinel()
class Mock:
    def __init__(self, spec=None, wraps=None, return_value=DEFAULT, side_effect=None, name="", parent=None, **kw):
        self._wraps = wraps
        self.mock_calls = []
        self.return_value = return_value
        self.side_effect = side_effect
        self._name = name
        self._parent = parent
        if spec is not None:
            self.__class__ = spec
        for k, v in kw.items():
            setattr(self, k, v)
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = Mock(wraps=getattr(self._wraps, name) if self._wraps is not None else None, name=name, parent=self)
        setattr(self, name, m)
        return m
    def __call__(self, *a, **k):
        self.mock_calls.append(("", a, k))
        if self._parent is not None:
            self._parent.mock_calls.append((self._name, a, k))
        if self.side_effect is not None:
            return self.side_effect(*a, **k)
        if self.return_value is not DEFAULT:
            return self.return_value
        if self._wraps is not None:
            return self._wraps(*a, **k)
        self.return_value = Mock()
        return self.return_value
'''


def main():
    from absint.world import Interp, explore, run_path, Ctx, Report
    from absint.state import Undecided, Infeasible, Choices
    from absint.core import PyExc
    from absint.values import ListObj, DictObj, Obj, FuncVal
    from absint import world
    I = Interp()
    I.load("pytest", "<pytest>", False, None, PYTEST)
    I.load("baby_steps", "<bs>", False, None, BABY)
    I.load("unittest.mock", "<mock>", False, None, MOCK)
    I.modules["_pytest.python_api"] = I.modules["pytest"]
    root = os.path.join(I.repo, "tests")
    only = sys.argv[1:]
    res = {}
    fails = []
    real_find = I.find_source

    def find(name):
        if name.split(".")[0] == "tests":
            base = os.path.join(I.repo, *name.split("."))
            for p, k in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
                if os.path.isfile(p):
                    return p, k
            if os.path.isdir(base):
                return os.devnull, True
            return None
        return real_find(name)
    I.find_source = find
    world.INTERPRETED["tests"] = None
    world.INTERPRETED["pytest"] = None
    world.INTERPRETED["baby_steps"] = None
    files = []
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.startswith("test_") and f.endswith(".py"):
                files.append(os.path.relpath(os.path.join(d, f), I.repo)[:-3].replace("/", "."))
    for name in sorted(files):
        if only and not any(o in name for o in only):
            continue
        I.watermark = 0
        I.st = world.State(Choices())
        world.fold.install_rules(I.st)
        I.st.site = I.site
        I.reset_env()
        try:
            m = I.import_module(name)
        except (PyExc, Undecided) as e:
            t = I.exc_text(e.value) if isinstance(e, PyExc) else str(e)
            res["module-skip"] = res.get("module-skip", 0) + 1
            fails.append((name, "import", t, getattr(e, "site", None)))
            continue
        I.seal()
        for fname, f in list(m.ns.items()):
            if not fname.startswith("test_") or not isinstance(f, FuncVal) or f.module is not m:
                continue
            cases = [{}]
            for names, values in f.attrs["params"].items if "params" in f.attrs else []:
                if isinstance(names, str):
                    names = [x.strip() for x in names.split(",")]
                else:
                    names = list(names.items) if isinstance(names, ListObj) else list(names)
                new = []
                for c in cases:
                    for v in list(I.iterate(values)):
                        if isinstance(v, Obj) and getattr(v.cls, "name", "") == "P":
                            v = v.attrs["args"] if len(names) > 1 else v.attrs["args"][0]
                        vs = [v] if len(names) == 1 else list(I.iterate(v))
                        new.append({**c, **dict(zip(names, vs))})
                cases = new
            for c in cases:
                def run(I, ctx):
                    cache = {}

                    def fix(n):
                        if n in c:
                            return c[n]
                        if n not in cache:
                            g = m.ns[n]
                            cache[n] = I.call(g, [], {a.arg: fix(a.arg) for a in
                                                      g.node.args.args + g.node.args.kwonlyargs})
                        return cache[n]
                    I.call(f, [], {a.arg: fix(a.arg) for a in f.node.args.args + f.node.args.kwonlyargs})
                args = c
                rep = Report("-", "-", "-")
                ctx = Ctx(I, rep)
                ch = Choices()
                k = "ok"
                d = None
                try:
                    run_path(I, ch, run, ctx)
                    if I.st.imprecise:
                        k = "imprecise"
                        d = str(I.st.imprecise[0])
                except PyExc as e:
                    k = "fail"
                    d = I.exc_text(e.value) + " at " + str(e.site)
                except Undecided as e:
                    k = "undecided"
                    d = str(e)
                except Infeasible:
                    k = "infeasible"
                except Exception as e:
                    k = "crash"
                    d = "".join(traceback.format_exception(e)[-3:])
                res[k] = res.get(k, 0) + 1
                if k != "ok":
                    fails.append((name + "::" + fname, k, d, args))
    for f in fails:
        print(*[str(x)[:600] for x in f], sep=" | ")
    print(res)


t = threading.Thread(target=main)
t.start()
t.join()
