"""Import hook: load the code under test from /repo's current source, instrumented."""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"


class _Catch:
    """loguru's logger.catch: decorator / context manager"""

    def __init__(self, exception=Exception, *, default=None, reraise=False, **kw):
        self.exc, self.default, self.reraise = exception, default, reraise

    def __call__(self, fn):
        if self.reraise:
            return fn
        import functools

        @functools.wraps(fn)
        def wrap(*a, **k):
            try:
                return fn(*a, **k)
            except self.exc:
                return self.default
        return wrap

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.exc) and not self.reraise


class StubLogger:
    def catch(self, *a, **k):
        if len(a) == 1 and not k and callable(a[0]) and not isinstance(a[0], type):
            return _Catch()(a[0])
        return _Catch(*a, **k)

    def add(self, *a, **k):
        return 1

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def noop(*a, **k):
            return None
        return noop


def stub_loguru():
    m = types.ModuleType("loguru")
    m.logger = StubLogger()
    sys.modules["loguru"] = m


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rewrite, rt
        import functools
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = rewrite.rewrite(src, self.path)
        d = module.__dict__
        d["__sx__"] = rt
        d.update(rt.BUILTINS)
        old = functools.lru_cache, functools.cache
        functools.lru_cache = rt.lru_cache
        functools.cache = rt.lru_cache
        try:
            exec(code, d)
        finally:
            functools.lru_cache, functools.cache = old
        INSTRUMENTED[module.__name__] = self.path


INSTRUMENTED = {}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.roots = {"ciscoconfparse": os.path.join(REPO, "ciscoconfparse"),
                      "hier_config": os.path.join(SITE, "hier_config"),
                      "props": os.path.join(HERE, "props")}

    def find_spec(self, name, path=None, target=None):
        parts = name.split(".")
        if name == "ipaddress":
            import sysconfig
            p = os.path.join(sysconfig.get_path("stdlib"), "ipaddress.py")
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, False))
        root = self.roots.get(parts[0])
        if root is None:
            return None
        base = os.path.join(root, *parts[1:])
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, True),
                                                          submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, False))
        return None


def setup_paths():
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.dont_write_bytecode = True


def install():
    """load everything instrumented"""
    setup_paths()
    if REPO in sys.path:
        sys.path.remove(REPO)
    stub_loguru()
    from . import vfs
    vfs.install()
    for k in [k for k in sys.modules if k == "ipaddress" or k.split(".")[0] in ("ciscoconfparse", "hier_config", "props")]:
        del sys.modules[k]
    sys.meta_path.insert(0, Finder())
    import warnings
    warnings.simplefilter("ignore")


def snapshot_state():
    """shallow copies of every mutable container reachable from instrumented modules / classes"""
    conts = {}

    def take(x):
        if type(x) in (dict, list, set) and id(x) not in conts:
            conts[id(x)] = (x, x.copy())
    for name in list(INSTRUMENTED):
        if name.startswith("props"):
            continue
        mod = sys.modules[name]
        attrs = []
        for k, v in list(vars(mod).items()):
            if k.startswith("__") or k in ("__sx__",):
                continue
            if isinstance(v, type) and getattr(v, "__module__", None) == name:
                cl = dict(vars(v))
                for k2, v2 in cl.items():
                    take(v2)
                attrs.append((v, {a: b for a, b in cl.items() if not a.startswith("__") and
                                  isinstance(b, (int, str, float, tuple, type(None), list, dict, set))}))
            take(v)
        g = {k: v for k, v in vars(mod).items() if not k.startswith("__") and
             isinstance(v, (int, str, float, tuple, type(None), list, dict, set))}
        ATTRS.append((vars(mod), g))
        CLS.extend(attrs)
    CONT.extend(conts.values())


CONT, ATTRS, CLS = [], [], []


def restore_state():
    from . import rt
    rt.reset_lru()
    for x, c in CONT:
        if type(x) is list:
            if len(x) != len(c) or any(p is not q for p, q in zip(x, c)):
                x[:] = c
        elif type(x) is dict:
            if len(x) != len(c) or any(p is not q or x[p] is not c[q] for p, q in zip(list(x), list(c))):
                x.clear()
                x.update(c)
        elif len(x) != len(c) or {id(p) for p in x} != {id(p) for p in c}:
            x.clear()
            x.update(c)
    for d, g in ATTRS:
        for k, v in g.items():
            if d.get(k) is not v:
                d[k] = v
    for cl, g in CLS:
        cur = vars(cl)
        for k, v in g.items():
            if cur.get(k) is not v:
                try:
                    setattr(cl, k, v)
                except (AttributeError, TypeError):
                    pass
