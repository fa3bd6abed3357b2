"""Symbolic-execution core: path engine, predicates, symbolic int / bool.

A *path* is one run of a harness.  Every data-dependent branch taken by the
code under test goes through Engine.decide(), which asks z3 which sides are
feasible; the engine re-runs the harness once per feasible decision vector.
"""
import os
from . import vfs
import time
import z3

NCH = 128
FULL = (1 << NCH) - 1


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (ord(c) if isinstance(c, str) else c)
    return m


def mask_fn(f):
    m = 0
    for i in range(NCH):
        if f(chr(i)):
            m |= 1 << i
    return m


PRINTABLE = mask_of([chr(i) for i in range(32, 127)])
M_SPACE = mask_fn(str.isspace)
M_DIGIT = mask_fn(str.isdigit)
M_ALPHA = mask_fn(str.isalpha)
M_ALNUM = mask_fn(str.isalnum)
M_UPPER = mask_fn(str.isupper)
M_LOWER = mask_fn(str.islower)
M_CASED = M_UPPER | M_LOWER
M_WORD = M_ALNUM | mask_of("_")


class Control(BaseException):
    """Engine control flow; instrumented code never swallows it."""


class PathInfeasible(Control):
    pass


class GiveUp(Control):
    """This path cannot be continued symbolically (reported as incomplete)."""


class Violation(Control):
    def __init__(self, msg):
        self.msg = msg


# --------------------------------------------------------------- predicates
class P:
    __slots__ = ()


class M(P):
    """char var in mask"""
    __slots__ = ("v", "m")

    def __init__(self, v, m):
        self.v = v
        self.m = m


class And(P):
    __slots__ = ("ps",)

    def __init__(self, ps):
        self.ps = ps


class Or(P):
    __slots__ = ("ps",)

    def __init__(self, ps):
        self.ps = ps


class Z(P):
    __slots__ = ("e", "vs")

    def __init__(self, e, vs):
        self.e = e
        self.vs = vs


def p_and(ps):
    out = []
    for p in ps:
        if p is True:
            continue
        if p is False:
            return False
        if type(p) is And:
            out.extend(p.ps)
        else:
            out.append(p)
    ms = {}
    res = []
    for p in out:
        if type(p) is M:
            if p.v in ms:
                ms[p.v] &= p.m
            else:
                ms[p.v] = p.m
            if ms[p.v] == 0:
                return False
        else:
            res.append(p)
    for v, m in ms.items():
        res.append(M(v, m))
    if not res:
        return True
    if len(res) == 1:
        return res[0]
    return And(tuple(res))


def p_or(ps):
    out = []
    for p in ps:
        if p is False:
            continue
        if p is True:
            return True
        if type(p) is Or:
            out.extend(p.ps)
        else:
            out.append(p)
    ms = {}
    res = []
    for p in out:
        if type(p) is M:
            ms[p.v] = ms.get(p.v, 0) | p.m
            if ms[p.v] == FULL:
                return True
        else:
            res.append(p)
    for v, m in ms.items():
        res.append(M(v, m))
    if not res:
        return False
    if len(res) == 1:
        return res[0]
    return Or(tuple(res))


def p_not(p):
    t = type(p)
    if t is bool:
        return not p
    if t is M:
        m = FULL & ~p.m
        return M(p.v, m) if m else False
    if t is And:
        return p_or([p_not(q) for q in p.ps])
    if t is Or:
        return p_and([p_not(q) for q in p.ps])
    return Z(z3.Not(p.e), p.vs)


_mask_cache = {}


def mask_expr(v, m):
    """z3 expression: char var v in mask m"""
    k = (v.name, m)
    r = _mask_cache.get(k)
    if r is not None:
        return r
    pos = _ranges(m)
    neg = _ranges(FULL & ~m)
    if len(neg) < len(pos):
        r = z3.Not(_rng_expr(v.e, neg)) if neg else z3.BoolVal(True)
    else:
        r = _rng_expr(v.e, pos)
    if len(_mask_cache) > 50000:
        _mask_cache.clear()
    _mask_cache[k] = r
    return r


def _ranges(m):
    out = []
    i = 0
    while i < NCH:
        if m >> i & 1:
            j = i
            while j + 1 < NCH and m >> (j + 1) & 1:
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            i += 1
    return out


def _rng_expr(e, rs):
    parts = []
    for a, b in rs:
        if a == b:
            parts.append(e == a)
        else:
            parts.append(z3.And(z3.UGE(e, a), z3.ULE(e, b)))
    if not parts:
        return z3.BoolVal(False)
    return parts[0] if len(parts) == 1 else z3.Or(parts)


def to_z3(p):
    t = type(p)
    if t is bool:
        return z3.BoolVal(p)
    if t is M:
        return mask_expr(p.v, p.m)
    if t is And:
        return z3.And([to_z3(q) for q in p.ps])
    if t is Or:
        return z3.Or([to_z3(q) for q in p.ps])
    return p.e


def p_vars(p, acc):
    t = type(p)
    if t is M:
        acc.add(p.v)
    elif t is And or t is Or:
        for q in p.ps:
            p_vars(q, acc)
    elif t is Z:
        acc |= p.vs
    return acc


# --------------------------------------------------------------- variables
class CharVar:
    __slots__ = ("name", "e", "dom")

    def __init__(self, name, dom):
        self.name = name
        self.e = z3.BitVec(name, 8)
        self.dom = dom


class IntVar:
    __slots__ = ("name", "e", "lo", "hi", "w")

    def __init__(self, name, lo, hi):
        self.name = name
        self.lo, self.hi = lo, hi
        self.w = width(lo, hi)
        self.e = z3.BitVec(name, self.w)


class BoolVar:
    __slots__ = ("name", "e")

    def __init__(self, name):
        self.name = name
        self.e = z3.Bool(name)


# --------------------------------------------------------------- engine
class Stats:
    FIELDS = ("paths", "forks", "queries", "solver_s", "checks", "check_queries",
              "infeasible", "giveups", "unknown", "sampled", "certified", "certify_s")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])

    def asdict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


FORKSITES = {} if os.environ.get("SX_FORKSITES") else None


def note_fork():
    """development aid: which source lines split the input space"""
    import traceback
    fr = [f for f in traceback.extract_stack()[:-2]]
    k = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(fr[-7:]))
    FORKSITES[k] = FORKSITES.get(k, 0) + 1


class Engine:
    cur = None
    CONC_LIMIT = 512

    def __init__(self, query_timeout_ms=30000):
        self.stats = Stats()
        self.qt = query_timeout_ms
        self.hooks_reset = []
        self.giveup_reasons = {}
        self.covers = {}

    # -- path lifecycle
    def begin(self, prefix):
        Engine.cur = self
        self.prefix = prefix
        self.trail = []
        self.alts = []
        self.allowed = {}      # CharVar -> mask
        self.entangled = set()
        self.solver = z3.SolverFor("QF_BV") if os.environ.get('SX_BV') == '1' else z3.Solver()
        self.solver.set("timeout", self.qt)
        self.pending = []
        self.dirty = set()     # char vars whose narrowed mask isn't in the solver
        self.model = None
        self.vars = {}         # name -> var, in creation order
        self.derived = 0
        self.incomplete = False
        self.path_checks = 0
        self.known = {}        # id of a z3 condition already decided on this path -> (condition, truth)
        self.asserted = []
        self.observed = []
        self.active = True
        vfs.FILES.clear()
        for f in self.hooks_reset:
            f()

    # -- variables
    def char_var(self, name, dom=PRINTABLE):
        v = CharVar(name, dom)
        assert name not in self.vars, name
        self.vars[name] = v
        self.allowed[v] = dom
        self.dirty.add(v)
        if self.model is not None:
            self.model = None
        return v

    def int_var(self, name, lo, hi):
        v = IntVar(name, lo, hi)
        assert name not in self.vars, name
        self.vars[name] = v
        r = SymInt(v.e, lo, hi, frozenset([v]), v.w)
        full_lo, full_hi = -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1
        if lo > full_lo:
            self.pending.append(v.e >= lo)
        if hi < full_hi:
            self.pending.append(v.e <= hi)
        self.model = None
        return r

    def bool_var(self, name):
        v = BoolVar(name)
        assert name not in self.vars, name
        self.vars[name] = v
        return SymBool(Z(v.e, frozenset([v])))

    # -- simplification under masks
    def simp(self, p):
        t = type(p)
        if t is bool:
            return p
        if t is M:
            a = self.allowed[p.v]
            m = a & p.m
            if m == 0:
                return False
            if m == a:
                return True
            return M(p.v, m)
        if t is And:
            return p_and([self.simp(q) for q in p.ps])
        if t is Or:
            out = p_or([self.simp(q) for q in p.ps])
            if type(out) is M and out.m == self.allowed[out.v]:
                return True
            if type(out) is Or:
                for q in out.ps:
                    if type(q) is M and q.m == self.allowed[q.v]:
                        return True
            return out
        if z3.is_true(p.e):
            return True
        if z3.is_false(p.e):
            return False
        return p

    def flush(self):
        s = self.solver
        if self.pending:
            s.add(*self.pending)
            self.pending = []
        if self.dirty:
            for v in self.dirty:
                s.add(mask_expr(v, self.allowed[v]))
            self.dirty.clear()

    def _check(self, *extra):
        self.flush()
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.unknown:
                self.stats.unknown += 1
                self.giveup("solver-unknown")
            self.model = self.solver.model()
        return self.model

    def eval_p(self, p):
        """truth of p in the cached model, or None"""
        if self.model is None:
            return None
        return z3.is_true(self.model.eval(to_z3(p), model_completion=True))

    # -- assertion of facts
    def assume_p(self, p, keep_model=False):
        """Add p (feasibility already known or not needed)."""
        t = type(p)
        if t is bool:
            if not p:
                raise PathInfeasible()
            return
        if t is And:
            for q in p.ps:
                self.assume_p(self.simp(q), keep_model)
            return
        if t is M:
            a = self.allowed[p.v] & p.m
            if a == 0:
                raise PathInfeasible()
            if a != self.allowed[p.v]:
                self.allowed[p.v] = a
                self.dirty.add(p.v)
                if self.model is not None and not keep_model:
                    x = self.model.eval(p.v.e, model_completion=True).as_long()
                    if not (a >> x & 1):
                        self.model = None
            return
        if self.model is not None and not keep_model and not self.eval_p(p):
            self.model = None
        self.pending.append(to_z3(p))
        self.entangled |= {v for v in p_vars(p, set()) if type(v) is CharVar}

    def decide(self, p):
        p = self.simp(p)
        if p is True or p is False:
            return p
        if type(p) is Z:
            k = self.known.get(p.e.get_id())
            if k is not None:
                return k[1]
            r = self._decide(p)
            n = z3.Not(p.e)
            self.known[p.e.get_id()] = (p.e, r)
            self.known[n.get_id()] = (n, not r)
            return r
        return self._decide(p)

    def _decide(self, p):
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            self.assume_p(p if d else p_not(p))
            return d
        # single un-entangled char variable: both sides feasible by construction
        if type(p) is M and p.v not in self.entangled:
            self.stats.forks += 1
            if FORKSITES is not None:
                note_fork()
            self.alts.append(tuple(self.trail) + (False,))
            self.trail.append(True)
            self.assume_p(p)
            return True
        np_ = p_not(p)
        ev = self.eval_p(p)
        if ev is None:
            try:
                self.get_model()
            except PathInfeasible:
                raise
            ev = self.eval_p(p)
        other = np_ if ev else p
        r = self._check(to_z3(other))
        if r == z3.unknown:
            self.stats.unknown += 1
            self.incomplete = True
        if r == z3.unsat:
            self.trail.append(ev)
            self.assume_p(p if ev else np_, keep_model=True)
            return ev
        self.stats.forks += 1
        if FORKSITES is not None:
            note_fork()
        self.alts.append(tuple(self.trail) + (not ev,))
        self.trail.append(ev)
        self.assume_p(p if ev else np_, keep_model=True)
        return ev

    def assume(self, p):
        """harness precondition"""
        p = self.simp(p)
        if p is True:
            return
        if p is False:
            raise PathInfeasible()
        i = len(self.trail)
        if i < len(self.prefix):
            self.trail.append(True)
            self.assume_p(p)
            return
        if type(p) is M and p.v not in self.entangled:
            self.trail.append(True)
            self.assume_p(p)
            return
        r = self._check(to_z3(p))
        if r == z3.unsat:
            raise PathInfeasible()
        self.trail.append(True)
        self.assume_p(p)

    def choose(self, n):
        """n-way structural fork (case split on a bounded enum chosen by the harness)"""
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            return d
        for k in range(1, n):
            self.alts.append(tuple(self.trail) + (k,))
        self.trail.append(0)
        self.stats.forks += n - 1
        return 0

    def check(self, p, msg):
        """the property assertion: solver decides it for all values on this path"""
        self.stats.checks += 1
        self.path_checks += 1
        if type(p) is not bool:
            self.asserted.append(p)
        p = self.simp(p)
        if p is True:
            return
        if p is False:
            self.model = None
            self.get_model()
            raise Violation(msg)
        if len(self.trail) < len(self.prefix):
            # this exact query was discharged by the path this one forked from
            # (same constraints), so it is implied here
            return
        r = self._check(to_z3(p_not(p)))
        self.stats.check_queries += 1
        if r == z3.sat:
            self.model = self.solver.model()
            raise Violation(msg)
        if r == z3.unknown:
            self.stats.unknown += 1
            self.incomplete = True

    def certify(self):
        """end of a path: one z3 query over the whole path condition.  With data-dependent
        assertions: path condition and not(all assertions) must be unsat; otherwise the path
        condition must be sat (the constant assertions were reached by a real input)."""
        t = time.perf_counter()
        ps = [to_z3(p) for p in self.asserted]
        if ps:
            r = self._check(z3.Not(z3.And(*ps)))
            ok = r == z3.unsat
        else:
            r = self._check()
            ok = r == z3.sat
        self.stats.certify_s += time.perf_counter() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            self.incomplete = True
            return True
        self.stats.certified += 1
        return ok

    def giveup(self, why):
        self.giveup_reasons[why] = self.giveup_reasons.get(why, 0) + 1
        raise GiveUp(why)

    # -- concretisation by complete enumeration
    def concretise_int(self, s):
        n = 0
        while True:
            i = len(self.trail)
            if i < len(self.prefix):
                d = self.prefix[i]
                self.trail.append(d)
                v, yes = d[1], d[2]
                p = s.eqp(v)
                self.assume_p(self.simp(p if yes else p_not(p)))
                if yes:
                    return v
                n += 1
                continue
            m = self.get_model()
            v = m.eval(s.e, model_completion=True).as_signed_long()
            p = self.simp(s.eqp(v))
            if p is True:
                self.trail.append(("v", v, True))
                return v
            np_ = p_not(p)
            r = self._check(to_z3(np_))
            if r == z3.unsat:
                self.trail.append(("v", v, True))
                self.assume_p(p, keep_model=True)
                return v
            n += 1
            if n >= self.CONC_LIMIT:
                self.stats.sampled += 1
                self.incomplete = True
                self.giveup_reasons["concretise-limit"] = self.giveup_reasons.get("concretise-limit", 0) + 1
                self.trail.append(("v", v, True))
                self.assume_p(p, keep_model=True)
                return v
            self.stats.forks += 1
            if FORKSITES is not None:
                note_fork()
            self.alts.append(tuple(self.trail) + (("v", v, False),))
            self.trail.append(("v", v, True))
            self.assume_p(p, keep_model=True)
            return v

    # -- model extraction
    def inputs(self):
        m = self.get_model()
        out = {}
        for name, v in self.vars.items():
            if type(v) is CharVar:
                x = m.eval(v.e, model_completion=True).as_long()
                if not (self.allowed[v] >> x & 1):
                    # not mentioned in solver yet
                    x = (self.allowed[v] & -self.allowed[v]).bit_length() - 1
                out[name] = x
            elif type(v) is IntVar:
                out[name] = m.eval(v.e, model_completion=True).as_signed_long()
            else:
                out[name] = z3.is_true(m.eval(v.e, model_completion=True))
        return out


def eng():
    return Engine.cur


# --------------------------------------------------------------- SymBool
def lift_p(x):
    """anything bool-ish -> predicate (or concrete bool)"""
    if type(x) is SymBool:
        return x.p
    return bool(x)


def mkbool(p):
    if p is True or p is False:
        return p
    e = Engine.cur
    if e is not None and e.active:
        p = e.simp(p)
        if p is True or p is False:
            return p
    return SymBool(p)


class SymBool:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __bool__(self):
        return Engine.cur.decide(self.p)

    def toint(self):
        acc = frozenset(p_vars(self.p, set()))
        return SymInt(z3.If(to_z3(self.p), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 0, 1, acc, 8)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(p_or([p_and([self.p, o.p]), p_and([p_not(self.p), p_not(o.p)])]))
        if o is True or (type(o) is int and o == 1):
            return self
        if o is False or (type(o) is int and o == 0):
            return mkbool(p_not(self.p))
        if isinstance(o, (int, SymInt)):
            return self.toint() == o
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(p_and([self.p, lift_p(o)]))
        return self.toint() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(p_or([self.p, lift_p(o)]))
        return self.toint() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return s_not(self == o)
        return self.toint() ^ o
    __rxor__ = __xor__

    def __invert__(self):
        return ~self.toint()

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return repr(bool(self))
    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.toint(), name)


def _b_arith(name):
    def f(self, o):
        return getattr(self.toint(), name)(o)
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "rfloordiv", "mod", "rmod",
           "lshift", "rlshift", "rshift", "rrshift", "lt", "le", "gt", "ge"):
    setattr(SymBool, "__%s__" % _n, _b_arith("__%s__" % _n))


def s_not(x):
    if type(x) is SymBool:
        return mkbool(p_not(x.p))
    return not x


# --------------------------------------------------------------- SymInt
def width(lo, hi):
    n = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0) + 1
    return (n + 7) // 8 * 8


def ext(e, w, w2):
    if w == w2:
        return e
    if w < w2:
        return z3.SignExt(w2 - w, e)
    return z3.Extract(w2 - 1, 0, e)


def mkint(e, lo, hi, vs, w):
    if lo == hi:
        return lo
    w2 = width(lo, hi)
    if w2 < w:
        e = z3.Extract(w2 - 1, 0, e)
        w = w2
    return SymInt(e, lo, hi, vs, w)


class SymInt:
    """Exact integer: signed bit-vector wide enough for its interval [lo, hi]."""
    __slots__ = ("e", "lo", "hi", "vs", "w", "fn")

    def __init__(self, e, lo, hi, vs, w, fn=None):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.vs = vs
        self.w = w
        self.fn = fn           # (CharVar, table) when a function of one char

    @staticmethod
    def from_fn(v, table):
        """table: list of NCH ints (value for each code of v)"""
        al = Engine.cur.allowed[v]
        vals = [table[i] for i in range(NCH) if al >> i & 1]
        lo, hi = min(vals), max(vals)
        if lo == hi:
            return lo
        w = width(lo, hi)
        # piecewise constant-offset ranges
        segs = []
        i = 0
        while i < NCH:
            if al >> i & 1:
                j = i
                while j + 1 < NCH and al >> (j + 1) & 1 and table[j + 1] - table[i] == j + 1 - i:
                    j += 1
                segs.append((i, j, table[i] - i))
                i = j + 1
            else:
                i += 1
        w2 = max(w, 16)
        ve = z3.ZeroExt(w2 - 8, v.e)
        e = None
        for a, b, off in reversed(segs):
            val = ve + off
            if e is None:
                e = val
            else:
                e = z3.If(_rng_expr(v.e, [(a, b)]), val, e)
        e = ext(e, w2, w)
        return SymInt(e, lo, hi, frozenset([v]), w, (v, table))

    # helpers
    def _un(self, f):
        if self.fn is not None:
            v, t = self.fn
            al = Engine.cur.allowed[v]
            try:
                return SymInt.from_fn(v, [f(t[i]) if al >> i & 1 else 0 for i in range(NCH)])
            except (ZeroDivisionError, ValueError, OverflowError):
                return None
        return None

    def _cmpfn(self, f):
        v, t = self.fn
        al = Engine.cur.allowed[v]
        m = 0
        for i in range(NCH):
            if al >> i & 1 and f(t[i]):
                m |= 1 << i
        if m == 0:
            return False
        return M(v, m)

    def eqp(self, o):
        """predicate self == o"""
        if type(o) is SymBool:
            o = o.toint()
        if type(o) is SymInt:
            if self.hi < o.lo or o.hi < self.lo:
                return False
            if self.e is o.e or self.e.eq(o.e):
                return True
            w = max(self.w, o.w)
            return Z(ext(self.e, self.w, w) == ext(o.e, o.w, w), self.vs | o.vs)
        o = int(o)
        if o < self.lo or o > self.hi:
            return False
        if self.fn is not None:
            return self._cmpfn(lambda x: x == o)
        return Z(self.e == z3.BitVecVal(o, self.w), self.vs)

    def __eq__(self, o):
        if isinstance(o, (int, SymInt, SymBool)):
            return mkbool(self.eqp(o))
        if isinstance(o, float):
            return mkbool(self.eqp(int(o))) if o == int(o) else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def _cmp(self, o, op):
        if type(o) is SymBool:
            o = o.toint()
        if type(o) is SymInt:
            if op == "lt":
                if self.hi < o.lo:
                    return True
                if self.lo >= o.hi:
                    return False
            else:
                if self.hi <= o.lo:
                    return True
                if self.lo > o.hi:
                    return False
            w = max(self.w, o.w)
            a, b = ext(self.e, self.w, w), ext(o.e, o.w, w)
            return mkbool(Z(a < b if op == "lt" else a <= b, self.vs | o.vs))
        if isinstance(o, float):
            import math
            if op == "lt":
                o = math.ceil(o)
            else:
                o = math.floor(o)
        elif not isinstance(o, int):
            return NotImplemented
        if op == "lt":
            if self.hi < o:
                return True
            if self.lo >= o:
                return False
            if self.fn is not None:
                return mkbool(self._cmpfn(lambda x: x < o))
            return mkbool(Z(self.e < z3.BitVecVal(o, self.w), self.vs))
        if self.hi <= o:
            return True
        if self.lo > o:
            return False
        if self.fn is not None:
            return mkbool(self._cmpfn(lambda x: x <= o))
        return mkbool(Z(self.e <= z3.BitVecVal(o, self.w), self.vs))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        r = self._cmp(o, "le")
        return r if r is NotImplemented else s_not(r)

    def __ge__(self, o):
        r = self._cmp(o, "lt")
        return r if r is NotImplemented else s_not(r)

    def __hash__(self):
        return hash(Engine.cur.concretise_int(self))

    def __bool__(self):
        return Engine.cur.decide(p_not(self.eqp(0)))

    def __index__(self):
        return Engine.cur.concretise_int(self)

    def __int__(self):
        return Engine.cur.concretise_int(self)

    def __float__(self):
        return float(Engine.cur.concretise_int(self))

    # arithmetic
    def _lift(self, o):
        if type(o) is SymInt:
            return o
        if type(o) is SymBool:
            return o.toint()
        if isinstance(o, int):
            o = int(o)
            w = width(o, o)
            return SymInt(z3.BitVecVal(o, w), o, o, frozenset(), w)
        return None

    def _ar(self, o, f, lo, hi):
        w = max(width(lo, hi), self.w, o.w)
        return mkint(f(ext(self.e, self.w, w), ext(o.e, o.w, w)), lo, hi, self.vs | o.vs, w)

    def __add__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            r = self._un(lambda x: x + o)
            if r is not None:
                return r
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self._ar(o, lambda a, b: a + b, self.lo + o.lo, self.hi + o.hi)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            r = self._un(lambda x: x - o)
            if r is not None:
                return r
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self._ar(o, lambda a, b: a - b, self.lo - o.hi, self.hi - o.lo)

    def __rsub__(self, o):
        if isinstance(o, int):
            r = self._un(lambda x: o - x)
            if r is not None:
                return r
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return o.__sub__(self)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self < 0:
            r = -self
        else:
            r = self
        if isinstance(r, int):
            return r
        return mkint(r.e, max(r.lo, 0), r.hi, r.vs, r.w)

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 1:
                return self
            if o == 0:
                return 0
            r = self._un(lambda x: x * o)
            if r is not None:
                return r
            if o > 1 and o & (o - 1) == 0:
                return self << (o.bit_length() - 1)
        if not isinstance(o, (int, SymInt, SymBool)):
            if isinstance(o, (str, list, tuple, bytes)):
                return o * self.__index__()
            return NotImplemented
        o = self._lift(o)
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return self._ar(o, lambda a, b: a * b, min(c), max(c))
    __rmul__ = __mul__

    def _divmod(self, o, which):
        if o.lo <= 0 <= o.hi:
            if o.lo == o.hi == 0 or Engine.cur.decide(o.eqp(0)):
                raise ZeroDivisionError("integer division or modulo by zero")
        if self.lo >= 0 and o.lo >= 0:
            if which == "div":
                return self._ar(o, z3.UDiv, self.lo // max(o.hi, 1), self.hi // max(o.lo, 1))
            return self._ar(o, z3.URem, 0, min(self.hi, max(o.hi - 1, 0)))
        # floor semantics
        m = max(abs(self.lo), abs(self.hi), abs(o.lo), abs(o.hi))
        w = max(width(-m - 1, m + 1), self.w, o.w)
        a, b = ext(self.e, self.w, w), ext(o.e, o.w, w)
        q = a / b
        r = z3.SRem(a, b)
        adj = z3.And(r != 0, (r < 0) != (b < 0))
        vs = self.vs | o.vs
        if which == "div":
            return mkint(z3.If(adj, q - 1, q), -m - 1, m + 1, vs, w)
        return mkint(z3.If(adj, r + b, r), -m, m, vs, w)

    def __floordiv__(self, o):
        if isinstance(o, int) and o != 0:
            r = self._un(lambda x: x // o)
            if r is not None:
                return r
            if o > 0 and o & (o - 1) == 0:
                return self >> (o.bit_length() - 1)
        o = self._lift(o)
        return NotImplemented if o is None else self._divmod(o, "div")

    def __rfloordiv__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else o._divmod(self, "div")

    def __mod__(self, o):
        if isinstance(o, int) and o != 0:
            r = self._un(lambda x: x % o)
            if r is not None:
                return r
            if o > 0 and o & (o - 1) == 0:
                return self.lowbits(o.bit_length() - 1)
        o = self._lift(o)
        return NotImplemented if o is None else self._divmod(o, "mod")

    def __rmod__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else o._divmod(self, "mod")

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return int(self) / (int(o) if isinstance(o, (SymInt, SymBool)) else o)

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o, mod=None):
        if mod is None and isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(int(self), int(o), mod)

    def __rpow__(self, o, mod=None):
        if mod is None and o == 2 and self.lo >= 0:
            return 1 << self
        return pow(o, int(self), mod)

    def __lshift__(self, o):
        if isinstance(o, int):
            if o < 0:
                raise ValueError("negative shift count")
            if o == 0:
                return self
            return mkint(z3.Concat(self.e, z3.BitVecVal(0, o)), self.lo << o, self.hi << o, self.vs, self.w + o)
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return _shl(self, o)

    def __rlshift__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else _shl(o, self)

    def __rshift__(self, o):
        if isinstance(o, int):
            if o < 0:
                raise ValueError("negative shift count")
            if o >= self.w:
                o = self.w - 1
            if o == 0:
                return self
            return mkint(z3.Extract(self.w - 1, o, self.e), self.lo >> o, self.hi >> o, self.vs, self.w - o)
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return _shr(self, o)

    def __rrshift__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else _shr(o, self)

    def lowbits(self, k):
        """self modulo 2**k (two's complement makes this right for negative values as well)"""
        if k == 0:
            return 0
        if self.lo >= 0 and self.hi < 1 << k:
            return self
        e = self.e if k <= self.w else ext(self.e, self.w, k)
        return mkint(z3.ZeroExt(1, z3.Extract(k - 1, 0, e)), 0, (1 << k) - 1, self.vs, k + 1)

    def _bit(self, o, op):
        r = None
        if isinstance(o, int):
            oo = o
            r = self._un({"and": lambda x: x & oo, "or": lambda x: x | oo, "xor": lambda x: x ^ oo}[op])
            if r is not None:
                return r
            if op == "and" and o >= 0 and o & (o + 1) == 0:
                return self.lowbits(o.bit_length())
        o = self._lift(o)
        if o is None:
            return NotImplemented
        w = max(self.w, o.w)
        if op == "and":
            if self.lo >= 0 and o.lo >= 0:
                lo, hi = 0, min(self.hi, o.hi)
            elif self.lo >= 0:
                lo, hi = 0, self.hi
            elif o.lo >= 0:
                lo, hi = 0, o.hi
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            return self._ar(o, lambda a, b: a & b, lo, hi)
        if self.lo >= 0 and o.lo >= 0:
            lo, hi = 0, (1 << max(self.hi.bit_length(), o.hi.bit_length())) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._ar(o, (lambda a, b: a | b) if op == "or" else (lambda a, b: a ^ b), lo, hi)

    def __and__(self, o):
        return self._bit(o, "and")
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, "or")
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, "xor")
    __rxor__ = __xor__

    def __invert__(self):
        return -1 - self

    def bit_length(self):
        x = abs(self)
        if isinstance(x, int):
            return x.bit_length()
        n = x.hi.bit_length()
        e = z3.BitVecVal(0, 16)
        for k in range(n):
            e = z3.If(z3.Extract(k, k, x.e) == 1, z3.BitVecVal(k + 1, 16), e)
        return mkint(e, max(x.lo, 0).bit_length(), n, x.vs, 16)

    def bit_count(self):
        x = abs(self)
        if isinstance(x, int):
            return x.bit_count()
        n = x.hi.bit_length()
        e = z3.BitVecVal(0, 16)
        for k in range(n):
            e = e + z3.ZeroExt(15, z3.Extract(k, k, x.e))
        return mkint(e, 0, n, x.vs, 16)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed:
            return int(self).to_bytes(length, byteorder, signed=True)
        if self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self >= (1 << (8 * length)):
            raise OverflowError("int too big to convert")
        out = [(self >> (8 * k)) & 255 for k in range(length)]
        if byteorder == "big":
            out.reverse()
        return SymBytes(out)

    @property
    def real(self):
        return self

    numerator = real

    @property
    def imag(self):
        return 0

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __round__(self, n=None):
        return self

    __trunc__ = __floor__ = __ceil__ = lambda self: self

    # decimal rendering: returns SymStr; forks on the number of digits
    def decimal(self, zn=0):
        """decimal digits, zero-padded to width zn (forks on the sign and the digit count beyond zn)"""
        from .strs import mkstr, CharZ
        x = self
        neg = False
        if x < 0:
            neg = True
            x = -x
        if isinstance(x, int):
            return ("-" if neg else "") + str(x)
        n = max(1, zn - neg)
        while x.hi >= 10 ** n:
            if Engine.cur.decide(lift_p(x < 10 ** n)):
                break
            n += 1
        items = []
        for k in reversed(range(n)):
            d = x // (10 ** k)
            if x.hi >= 10 ** (k + 1):
                d = d % 10
            items.append(digit_item(d, False, (x, 10, k, n)))
        return mkstr(([45] if neg else []) + items)

    def radix(self, base, upper=False, zn=0):
        """hex/bin/oct digits of a non-negative value (forks on digit count)"""
        from .strs import mkstr
        sh = {2: 1, 8: 3, 16: 4}[base]
        x = self
        neg = False
        if x < 0:
            neg = True
            x = -x
        if isinstance(x, int):
            s = format(x, {2: "b", 8: "o", 16: "X" if upper else "x"}[base])
            return ("-" if neg else "") + s
        n = max(1, zn - neg)
        while x.hi >> (sh * n):
            if Engine.cur.decide(lift_p(x < (1 << (sh * n)))):
                break
            n += 1
        items = []
        for k in reversed(range(n)):
            d = (x >> (sh * k)) & (base - 1)
            items.append(digit_item(d, upper, (x, base, k, n)))
        return mkstr(([45] if neg else []) + items)

    def __str__(self):
        return str(Engine.cur.concretise_int(self))

    def __repr__(self):
        return str(self)

    def __format__(self, spec):
        return format(Engine.cur.concretise_int(self), spec)


def digit_item(d, upper=False, src=None):
    from .strs import CharZ
    ds = "0123456789ABCDEF" if upper else "0123456789abcdef"
    if isinstance(d, int):
        return ord(ds[d])
    e8 = ext(d.e, d.w, 8)
    if d.hi <= 9:
        ch = e8 + 48
    else:
        ch = z3.If(z3.ULE(e8, 9), e8 + 48, e8 + (55 if upper else 87))
    return CharZ(ch, d.vs, mask_of(ds[max(d.lo, 0):d.hi + 1]), src)


def _shl(a, n):
    if n.lo < 0:
        if Engine.cur.decide(lift_p(n < 0)):
            raise ValueError("negative shift count")
    nhi = n.hi
    if nhi > 4096:
        return int(a) << int(n)
    lo = min(a.lo << nhi, a.lo << max(n.lo, 0), a.lo)
    hi = max(a.hi << nhi, a.hi << max(n.lo, 0))
    w = max(width(lo, hi), a.w, n.w)
    return mkint(ext(a.e, a.w, w) << ext(n.e, n.w, w), lo, hi, a.vs | n.vs, w)


def _shr(a, n):
    if n.lo < 0:
        if Engine.cur.decide(lift_p(n < 0)):
            raise ValueError("negative shift count")
    nlo = max(n.lo, 0)
    if a.lo >= 0:
        lo, hi = a.lo >> min(n.hi, 4096), a.hi >> nlo
    else:
        lo, hi = min(a.lo >> nlo, a.lo >> min(n.hi, 4096)), max(a.hi >> nlo, a.hi >> min(n.hi, 4096))
    w = max(a.w, n.w)
    return mkint(ext(a.e, a.w, w) >> ext(n.e, n.w, w), lo, hi, a.vs | n.vs, w)


class SymBytes:
    """bytes-like sequence of ints / SymInts"""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.items[i])
        return self.items[i]

    def __add__(self, o):
        return SymBytes(self.items + list(o))

    def __radd__(self, o):
        return SymBytes(list(o) + self.items)

    def __eq__(self, o):
        o = list(o) if isinstance(o, (bytes, bytearray, SymBytes)) else None
        if o is None or len(o) != len(self.items):
            return False
        return mkbool(p_and([lift_p(a == b) for a, b in zip(self.items, o)]))

    def __hash__(self):
        return hash(bytes(int(x) for x in self.items))

    def hex(self):
        from .strs import mkstr
        out = []
        for b in self.items:
            out.append(digit_item((b >> 4) & 15))
            out.append(digit_item(b & 15))
        return mkstr(out)

    def decode(self, *a, **k):
        from .strs import mkstr, CharZ
        out = []
        for b in self.items:
            if isinstance(b, int):
                if b > 127:
                    return bytes(int(x) for x in self.items).decode(*a, **k)
                out.append(b)
            else:
                if b > 127:
                    return bytes(int(x) for x in self.items).decode(*a, **k)
                out.append(CharZ(ext(b.e, b.w, 8), b.vs))
        return mkstr(out)
