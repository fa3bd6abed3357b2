"""Harness context: symbolic mode (inside the engine) and concrete mode (replay)."""


class ReplayViolation(BaseException):
    def __init__(self, msg):
        self.msg = msg


class ReplaySkip(BaseException):
    """precondition does not hold for these inputs"""


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs, listed=()):
        self.inputs = inputs
        self.obs = []
        self._listed = set(listed)
        self.nchecks = 0

    def get(self, key, default):
        # an input the symbolic run had not reached yet: any value of its domain will do
        if key not in self.inputs:
            self.missing = True
            return default
        return self.inputs[key]

    missing = False

    def str(self, name, n, dom=None):
        return "".join(chr(self.get("%s.%d" % (name, i), ord(min(dom)) if dom else 32)) for i in range(n))

    def int(self, name, lo, hi):
        return self.get(name, lo)

    def bool(self, name):
        return self.get(name, False)

    def choose(self, name, n):
        return self.get("?" + name, 0)

    def assume(self, c):
        if not c:
            raise ReplaySkip()

    def check(self, c, msg):
        self.nchecks += 1
        if not c:
            raise ReplayViolation(msg)

    def cover(self, label):
        pass

    def observe(self, v):
        self.obs.append(canon(v))

    def listed(self, kf):
        return kf in self._listed

    # text files: a scratch directory here, in-memory files in the symbolic run
    _dir = None

    def path(self, name):
        if self._dir is None:
            import tempfile
            self._dir = tempfile.mkdtemp(prefix="sx_replay_")
        return self._dir + "/" + name

    def mkfile(self, name, text):
        p = self.path(name)
        with open(p, "w", newline="", encoding="utf-8") as f:
            f.write(text)
        return p

    def readfile(self, p):
        with open(p, newline="", encoding="utf-8") as f:
            return f.read()

    def cleanup(self):
        if self._dir is not None:
            import shutil
            shutil.rmtree(self._dir, ignore_errors=True)

    # connectives usable on symbolic and concrete booleans without forking
    def all(self, xs):
        return all(list(xs))

    def any(self, xs):
        return any(list(xs))

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b


def canon(v):
    if isinstance(v, (str, int, bool, float, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return [[canon(a), canon(b)] for a, b in v.items()]
    return repr(type(v).__name__)


class SymCtx:
    symbolic = True

    def __init__(self, eng, listed=()):
        from . import core, strs
        self.e = eng
        self.core = core
        self.strs = strs
        self.choices = {}
        self._listed = set(listed)

    def str(self, name, n, dom=None):
        from .core import PRINTABLE, mask_of
        if dom is None:
            m = PRINTABLE
        elif isinstance(dom, int):
            m = dom
        else:
            m = mask_of(dom)
        return self.strs.mkstr([self.strs.CharFn(self.e.char_var("%s.%d" % (name, i), m)) for i in range(n)])

    def int(self, name, lo, hi):
        return self.e.int_var(name, lo, hi)

    def bool(self, name):
        return self.e.bool_var(name)

    def choose(self, name, n):
        k = self.e.choose(n)
        assert "?" + name not in self.choices, name
        self.choices["?" + name] = k
        return k

    def assume(self, c):
        self.e.assume(self.core.lift_p(c))

    def check(self, c, msg):
        self.e.check(self.core.lift_p(c), msg)

    def cover(self, label):
        self.e.covers[label] = self.e.covers.get(label, 0) + 1

    def observe(self, v):
        self.e.observed.append(v)

    def listed(self, kf):
        return kf in self._listed

    def path(self, name):
        return "/sxvfs/" + name

    def mkfile(self, name, text):
        from . import vfs
        vfs.FILES["/sxvfs/" + name] = text
        return "/sxvfs/" + name

    def readfile(self, p):
        from . import vfs
        return vfs.FILES[p]

    def all(self, xs):
        return self.core.mkbool(self.core.p_and([self.core.lift_p(x) for x in xs]))

    def any(self, xs):
        return self.core.mkbool(self.core.p_or([self.core.lift_p(x) for x in xs]))

    def implies(self, a, b):
        return self.core.mkbool(self.core.p_or([self.core.p_not(self.core.lift_p(a)), self.core.lift_p(b)]))

    def ite(self, c, a, b):
        c = self.core.lift_p(c)
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, (bool, self.core.SymBool)) and isinstance(b, (bool, self.core.SymBool)):
            la, lb = self.core.lift_p(a), self.core.lift_p(b)
            return self.core.mkbool(self.core.p_or([self.core.p_and([c, la]), self.core.p_and([self.core.p_not(c), lb])]))
        import z3
        S = self.core.SymInt
        x = S._lift(None, a) if not isinstance(a, S) else a
        y = S._lift(None, b) if not isinstance(b, S) else b
        w = max(x.w, y.w)
        vs = x.vs | y.vs | frozenset(self.core.p_vars(c, set()))
        return self.core.mkint(z3.If(self.core.to_z3(c), self.core.ext(x.e, x.w, w), self.core.ext(y.e, y.w, w)),
                               min(x.lo, y.lo), max(x.hi, y.hi), vs, w)

    def eq(self, a, b):
        from .rt import s_eq
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all([self.eq(x, y) for x, y in zip(a, b)])
        return s_eq(a, b)


def model_value(v, m, eng):
    """value of an observed (possibly symbolic) thing under z3 model m, canonical form"""
    from .core import SymBool, SymInt, SymBytes, to_z3
    from .strs import SymStr, c_expr
    import z3
    t = type(v)
    if t is SymStr:
        return "".join(chr(m.eval(c_expr(c), model_completion=True).as_long()) for c in v.items)
    if t is SymInt:
        return m.eval(v.e, model_completion=True).as_signed_long()
    if t is SymBool:
        return z3.is_true(m.eval(to_z3(v.p), model_completion=True))
    if isinstance(v, (list, tuple)):
        return [model_value(x, m, eng) for x in v]
    if isinstance(v, dict):
        return [[model_value(a, m, eng), model_value(b, m, eng)] for a, b in v.items()]
    return canon(v)
