"""Runtime hooks called by the instrumented (AST-rewritten) code."""
import builtins
import re
import types
import functools
from collections import OrderedDict, defaultdict
from . import core, strs, fmt, rx
from .core import (Control, Engine, SymBool, SymInt, SymBytes, lift_p, mkbool, p_and, p_or, p_not, s_not)
from .strs import SymStr, mkstr, items_of, is_s
from .fmt import has_sym, s_str, s_repr, s_format

SYM = (SymStr, SymInt, SymBool, SymBytes)
SYMSET = frozenset(SYM)
Pattern = re.Pattern


# ------------------------------------------------------------ type proxies
class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or isinstance(x, cls._sym)

    def __subclasscheck__(cls, c):
        if isinstance(c, _Meta):
            c = c._real
        return issubclass(c, cls._real) or issubclass(c, cls._sym)

    def __call__(cls, *a, **k):
        return cls._new(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __ne__(cls, o):
        return not (o is cls or o is cls._real)

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        r = cls.__dict__.get("_real")
        if r is None or name in ("_real", "_sym"):
            raise AttributeError(name)
        if name in ("from_bytes",):
            return _from_bytes
        f = getattr(r, name)
        if r is str and callable(f) and not name.startswith("_"):
            if name == "maketrans":
                return f

            def unbound(s, *a, **k):
                return callm(s, name, *a, **k)
            return unbound
        return f

    def __repr__(cls):
        return repr(cls._real)


def _from_bytes(b, byteorder="big", *, signed=False):
    xs = list(b)
    if not any(type(x) in SYMSET for x in xs):
        return int.from_bytes(bytes(xs), byteorder, signed=signed)
    if byteorder == "little":
        xs.reverse()
    r = 0
    for x in xs:
        r = (r << 8) | x if not (isinstance(r, int) and r == 0) else x
    return r


def new_int(*a, **k):
    if a and type(a[0]) in SYMSET:
        x = a[0]
        base = a[1] if len(a) > 1 else k.get("base")
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return x.toint()
        if type(x) is SymStr:
            return strs.s_int(x, 10 if base is None else base)
    elif len(a) == 1 and not k:
        m = getattr(type(a[0]), "__int__", None)
        if m is not None and hasattr(m, "__code__"):
            return m(a[0])
        m2 = getattr(type(a[0]), "__index__", None)
        if m is None and m2 is not None and hasattr(m2, "__code__"):
            return m2(a[0])
    return int(*a, **k)


def new_str(*a, **k):
    if len(a) == 1 and not k:
        return s_str(a[0])
    if a and type(a[0]) is SymBytes:
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def new_bool(*a):
    return bool(*a)


def new_float(*a):
    if a and type(a[0]) is SymStr:
        return float(a[0].concrete())
    return float(*a)


def new_bytes(*a, **k):
    if a and isinstance(a[0], SymBytes):
        return a[0]
    if a and type(a[0]) is SymStr:
        return a[0].encode(*a[1:])
    if a and not isinstance(a[0], (int, str, bytes, bytearray)):
        xs = list(a[0])
        if any(type(x) in SYMSET for x in xs):
            return SymBytes(xs)
        return bytes(xs, **k)
    return bytes(*a, **k)


class P_int(metaclass=_Meta):
    _real, _sym, _new = int, (SymInt, SymBool), staticmethod(new_int)


class P_str(metaclass=_Meta):
    _real, _sym, _new = str, (SymStr,), staticmethod(new_str)


class P_bool(metaclass=_Meta):
    _real, _sym, _new = bool, (SymBool,), staticmethod(new_bool)


class P_float(metaclass=_Meta):
    _real, _sym, _new = float, (), staticmethod(new_float)


class P_bytes(metaclass=_Meta):
    _real, _sym, _new = bytes, (SymBytes,), staticmethod(new_bytes)


PROXY = {P_int: int, P_str: str, P_bool: bool, P_float: float, P_bytes: bytes}
REAL2PROXY = {int: P_int, str: P_str, bool: P_bool, float: P_float, bytes: P_bytes}


def unproxy(x):
    return x._real if isinstance(x, _Meta) else x


def s_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymStr:
            return str
        if t is SymInt:
            return int
        if t is SymBool:
            return bool
        if t is SymBytes:
            return bytes
        if t is rx.SymMatch:
            return re.Match
        if t is rx.SymPattern:
            return Pattern
        return t
    return type(*a)


def _untuple(t):
    if isinstance(t, tuple):
        out = []
        for x in t:
            r = _untuple(x)
            out.extend(r if isinstance(r, tuple) else (r,))
        return tuple(out)
    return REAL2PROXY.get(t, t) if isinstance(t, type) else t


def s_isinstance(x, t):
    tx = type(x)
    if tx in SYMSET:
        return isinstance(x, _untuple(t))
    if tx is rx.SymMatch or tx is rx.SymPattern:
        real = re.Match if tx is rx.SymMatch else Pattern
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance(y, type) and issubclass(real, y) for y in _untuple(ts))
    if tx is SortedRange:
        return isinstance([], t)
    return isinstance(x, t)


def s_issubclass(a, b):
    return issubclass(unproxy(a), b)


def is_(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        if type(a) is SymBool and isinstance(b, (bool, SymBool)):
            return a == b
        if type(b) is SymBool and isinstance(a, bool):
            return b == a
        return False
    if type(a) is SymInt and type(b) is int:
        return a == b
    return unproxy(a) is unproxy(b)


def is_not(a, b):
    return s_not(is_(a, b))


# ------------------------------------------------------------ hashing
class SymHash(int):
    """hash value: constant bucket, structural payload (collision-free model)"""
    def __new__(cls, payload):
        o = int.__new__(cls, 0x5EED)
        o.payload = payload
        return o

    def __eq__(self, o):
        if isinstance(o, SymHash):
            return s_eq(self.payload, o.payload)
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return 0x5EED

    # arithmetic on hash values: free (uninterpreted) functions of the operands
    def __reduce__(self):
        return (SymHash, (self.payload,))

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


def _hash_op(op, swap):
    def f(self, o):
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        return SymHash((op, o, self) if swap else (op, self, o))
    return f


for _op in ("add", "sub", "mul", "xor", "or", "and", "mod", "floordiv", "lshift", "rshift"):
    setattr(SymHash, "__%s__" % _op, _hash_op(_op, False))
    setattr(SymHash, "__r%s__" % _op, _hash_op(_op, True))
for _op in ("neg", "invert", "abs"):
    setattr(SymHash, "__%s__" % _op, lambda self, op=_op: SymHash((op, self)))


HASH_TOKENS = []


def hash_token(h):
    """decimal text of a hash value: distinct payloads get distinct, non-overlapping numbers"""
    for p, t in HASH_TOKENS:
        if s_eq(p, h.payload):
            return t
    t = str(1000000000000000000 + 7919 * (len(HASH_TOKENS) + 1))
    HASH_TOKENS.append((h.payload, t))
    return t


def s_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        ps = []
        for x, y in zip(a, b):
            p = lift_p(s_eq(x, y))
            if p is False:
                return False
            ps.append(p)
        return mkbool(p_and(ps))
    r = a == b
    return r


def s_hash(x):
    t = type(x)
    if t is tuple:
        return SymHash(tuple(s_hash(y) for y in x))
    if t is frozenset:
        return SymHash(frozenset(x))
    if t in SYMSET or t is str or t is int or t is bool or t is type(None):
        return SymHash(x)
    if isinstance(x, SymHash):
        return x
    m = t.__hash__
    if m is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if hasattr(m, "__code__"):
        return m(x)
    return hash(x)


# ------------------------------------------------------------ containers
def needs_scan(container, key):
    return has_sym(key) or any(has_sym(k) for k in container)


def find_key(container, key):
    """(found, existing_key) using == with forks"""
    for k in list(container):
        r = s_eq(k, key) if isinstance(k, tuple) and isinstance(key, tuple) else (k is key or k == key)
        if r:
            return True, k
    return False, None


def contains(c, x):
    t = type(c)
    if t is SymStr:
        return c.s_contains(x)
    if t is str:
        if type(x) is SymStr:
            return SymStr(items_of(c)).s_contains(x)
        return x in c
    if t is list or t is tuple:
        ps = []
        if type(x) is SymInt and len(c) > 64 and all(type(y) is int for y in c):
            return contains_ints(c, x)
        for y in c:
            if y is x:
                return True
            r = y == x
            if type(r) is SymBool:
                ps.append(r.p)
            elif r:
                return True
        return mkbool(p_or(ps)) if ps else False
    if t in (set, frozenset, dict) or isinstance(c, (dict, set, frozenset, DictViews)):
        if type(c) is type({}.values()):
            return contains(list(c), x)
        if needs_scan(c, x):
            if not isinstance(c, type({}.items())):
                ps = []
                for y in c:
                    r = s_eq(y, x) if isinstance(y, tuple) and isinstance(x, tuple) else (y is x or y == x)
                    if type(r) is SymBool:
                        ps.append(r.p)
                    elif r:
                        return True
                return mkbool(p_or(ps)) if ps else False
            return find_key(c, x)[0]
        return x in c
    if t is range and type(x) in (SymInt, SymBool):
        return contains_range(c, x)
    if t is SymRange or t is SortedRange:
        return c.has(x)
    if t is SymBytes:
        return contains(list(c), x)
    return x in c


DictViews = (type({}.keys()), type({}.items()), type({}.values()))


def contains_ints(c, x):
    """membership in a long collection of known integers, as intervals"""
    runs = []
    for y in sorted(c):
        if runs and y <= runs[-1][1] + 1:
            runs[-1][1] = y
        else:
            runs.append([y, y])
    ps = []
    for lo, hi in runs:
        r = s_and(lo <= x, x <= hi)
        if type(r) is SymBool:
            ps.append(r.p)
        elif r:
            return True
    return mkbool(p_or(ps)) if ps else False


def contains_range(r, x):
    if len(r) == 0:
        return False
    lo, hi = min(r[0], r[-1]), max(r[0], r[-1])
    ok = mkbool(p_and([lift_p(x >= lo), lift_p(x <= hi)]))
    if abs(r.step) != 1:
        ok = mkbool(p_and([lift_p(ok), lift_p((x - lo) % abs(r.step) == 0)]))
    return ok


def not_contains(c, x):
    return s_not(contains(c, x))


def getitem(o, k):
    t = type(o)
    if (t is list or t is tuple or t is str) and type(k) is SymInt:
        n = len(o)
        if n and t is not str and all(isinstance(y, (int, SymInt)) and not isinstance(y, bool) for y in o):
            if not (k < n and k >= -n):
                raise IndexError("list index out of range" if t is list else "tuple index out of range")
            import z3
            ys = [SymInt._lift(k, y) for y in o]
            lo, hi = min(y.lo for y in ys), max(y.hi for y in ys)
            w = max([core.width(lo, hi)] + [y.w for y in ys])
            vs = frozenset().union(k.vs, *[y.vs for y in ys])
            if k.fn is not None and all(y.lo == y.hi for y in ys):
                v, tb = k.fn
                al = Engine.cur.allowed[v]
                return SymInt.from_fn(v, [ys[tb[i]].lo if al >> i & 1 else 0 for i in range(core.NCH)])
            e = core.ext(ys[0].e, ys[0].w, w)
            for i in range(1, n):
                c = core.p_or([k.eqp(i), k.eqp(i - n)])
                e = z3.If(core.to_z3(c), core.ext(ys[i].e, ys[i].w, w), e)
            if k.lo < 0:
                e0 = core.ext(ys[0].e, ys[0].w, w)
                e = z3.If(core.to_z3(k.eqp(-n)), e0, e)
            return core.mkint(e, lo, hi, vs, w)
        return o[k]
    if isinstance(o, dict) and (t is dict or not hasattr(t.__getitem__, "__code__")):
        if needs_scan(o, k):
            f, kk = find_key(o, k)
            if f:
                return dict.__getitem__(o, kk)
            if hasattr(t, "__missing__"):
                return t.__missing__(o, k)
            raise KeyError(k)
        return o[k]
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and not hasattr(type(o).__setitem__, "__code__") and needs_scan(o, k):
        f, kk = find_key(o, k)
        if f:
            dict.__setitem__(o, kk, v)
        else:
            dict.__setitem__(o, DKey.wrap(k), v)
        return
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and not hasattr(type(o).__delitem__, "__code__") and needs_scan(o, k):
        f, kk = find_key(o, k)
        if not f:
            raise KeyError(k)
        raw_del(o, kk)
        return
    del o[k]


class DKey:
    @staticmethod
    def wrap(k):
        return k


def raw_del(o, kk):
    items = [(a, b) for a, b in o.items() if a is not kk]
    o.clear()
    for a, b in items:
        dict.__setitem__(o, a, b)


# symbolic strings / ints are inserted in native dicts and sets under an
# identity hash, all look-ups go through find_key()
def _id_hash(self):
    return id(self)


def install_hash():
    SymStr.__hash__ = _ctx_hash_str
    SymInt.__hash__ = _ctx_hash_int


def _ctx_hash_str(self):
    return 0x51AB


def _ctx_hash_int(self):
    return 0x51AC


def mkset(xs, typ=set):
    xs = list(xs)
    if not any(has_sym(x) for x in xs):
        return typ(xs)
    out = []
    for x in xs:
        if not any((y is x) or bool(s_eq(y, x)) for y in out):
            out.append(x)
    return SetList(out) if typ is set else frozenset(out)


class SetList(set):
    pass


COLL = {set, frozenset, SetList, dict, OrderedDict, defaultdict}


def s_set(*a):
    return mkset(a[0]) if a else set()


def s_frozenset(*a):
    return mkset(a[0], frozenset) if a else frozenset()


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        setitem(d, k, v)
    return d


def s_dict(*a, **k):
    if a and not isinstance(a[0], dict) and not hasattr(a[0], "keys"):
        d = mkdict(a[0])
        d.update(k)
        return d
    return dict(*a, **k)


DICT_M = {"get", "pop", "setdefault", "__getitem__", "__contains__", "update", "__setitem__", "__delitem__"}
SET_M = {"add", "remove", "discard", "union", "intersection", "difference", "symmetric_difference", "update",
         "issubset", "issuperset", "isdisjoint", "__contains__", "intersection_update", "difference_update"}
RE_FN = {"search", "match", "fullmatch", "findall", "finditer", "split", "sub", "subn"}
STR_OK = {"format", "format_map"}


def set_method(o, name, args):
    args = [list(a) if name not in ("add", "remove", "discard", "__contains__") else a for a in args]

    def inn(x, ys):
        if type(x) is SymStr and len(x) == 1 and not isinstance(ys, SymStr):
            ys = list(ys)
            if all(type(y) is str for y in ys):
                return strs.D(strs.c_pred(x.items[0], core.mask_of([y for y in ys if len(y) == 1 and ord(y) < core.NCH])))
        return any((y is x) or bool(s_eq(y, x)) for y in ys)
    if name == "add":
        if not inn(args[0], o):
            set.add(o, args[0])
        return None
    if name == "update":
        for a in args:
            for x in a:
                if not inn(x, o):
                    set.add(o, x)
        return None
    if name in ("remove", "discard"):
        ys = list(o)
        if type(args[0]) is SymInt:
            # only members within the bounds of the value can be equal to it
            ys = [y for y in ys if type(y) is not int or args[0].lo <= y <= args[0].hi]
        for y in ys:
            if y is args[0] or s_eq(y, args[0]):
                set.discard(o, y)
                return None
        if name == "remove":
            raise KeyError(args[0])
        return None
    if name == "__contains__":
        return contains(o, args[0])
    if name == "union":
        return mkset(list(o) + [x for a in args for x in a])
    if name == "intersection":
        return mkset([x for x in o if all(inn(x, a) for a in args)])
    if name == "difference":
        return mkset([x for x in o if not any(inn(x, a) for a in args)])
    if name == "symmetric_difference":
        return mkset([x for x in o if not inn(x, args[0])] + [x for x in args[0] if not inn(x, list(o))])
    if name == "issubset":
        return all(inn(x, args[0]) for x in o)
    if name == "issuperset":
        return all(inn(x, list(o)) for x in args[0])
    if name == "isdisjoint":
        return not any(inn(x, args[0]) for x in o)
    if name in ("intersection_update", "difference_update"):
        keep = set_method(o, name[:-7], args)
        o.clear()
        for x in keep:
            set.add(o, x)
        return None
    raise NotImplementedError(name)


def _pos_str(args, kw):
    for a in args:
        if type(a) in SYMSET:
            return True
    for a in kw.values():
        if type(a) in SYMSET:
            return True
    return False


def callm(_o, _name, *args, **kw):
    t = type(_o)
    if t is str:
        if _name in STR_OK:
            if any(has_sym(a) or hasattr(type(a), "__dict__") for a in args) or kw:
                if _name == "format":
                    return fmt.str_format(_o, args, kw)
            return getattr(_o, _name)(*args, **kw)
        if _name == "join":
            xs = list(args[0])
            if any(type(x) is SymStr for x in xs):
                return SymStr(items_of(_o)).join(xs)
            return _o.join(xs)
        if _name in ("isalpha", "isdigit", "lower", "upper", "strip", "lstrip", "rstrip", "title", "isspace") and not args:
            return getattr(_o, _name)()
        for a in args:
            if type(a) in SYMSET or (type(a) is tuple and has_sym(a)):
                return getattr(SymStr(items_of(_o)), _name)(*args, **kw)
        if _name in ("split", "rsplit", "replace", "splitlines", "encode", "zfill", "ljust", "rjust", "center") and kw and _pos_str((), kw):
            return getattr(SymStr(items_of(_o)), _name)(*args, **kw)
        return getattr(_o, _name)(*args, **kw)
    if t is Pattern:
        if _name in RE_FN and (_pos_str(args, kw)):
            return rx.p_call(_o, _name, args, kw)
        return getattr(_o, _name)(*args, **kw)
    if _o is re:
        return re_module(_name, args, kw)
    if t is rx.SymPattern:
        return getattr(_o, _name)(*args, **kw)
    if t is dict or (isinstance(_o, dict) and _name in DICT_M and not hasattr(getattr(t, _name), "__code__")):
        if _name in DICT_M:
            return dict_method(_o, _name, args, kw)
        return getattr(_o, _name)(*args, **kw)
    if (t is set or t is SetList or t is frozenset) and _name in SET_M:
        ch = [a for a in args]
        if any(has_sym(x) for x in _o) or any(has_sym(list(a) if not isinstance(a, (list, tuple, set, *SYM)) and hasattr(a, "__iter__") and not isinstance(a, str) and _name not in ("add", "remove", "discard") else a) for a in ch):
            return set_method(_o, _name, args)
        return getattr(_o, _name)(*args, **kw)
    if t is list:
        if _name == "count" and any(has_sym(x) for x in _o) | has_sym(args):
            return sum(1 for x in _o if x == args[0])
    return getattr(_o, _name)(*args, **kw)


def dict_method(o, name, args, kw):
    if name == "update":
        src = {}
        if args:
            src = args[0]
            pairs = list(src.items()) if hasattr(src, "keys") else list(src)
        else:
            pairs = []
        if any(has_sym(k) for k, _ in pairs) or any(has_sym(k) for k in o):
            for k, v in pairs:
                setitem(o, k, v)
            for k, v in kw.items():
                setitem(o, k, v)
            return None
        return o.update(*args, **kw)
    if not args:
        return getattr(o, name)(*args, **kw)
    k = args[0]
    if not needs_scan(o, k):
        return getattr(o, name)(*args, **kw)
    f, kk = find_key(o, k)
    if name == "get":
        return dict.__getitem__(o, kk) if f else (args[1] if len(args) > 1 else kw.get("default"))
    if name == "pop":
        if f:
            v = dict.__getitem__(o, kk)
            raw_del(o, kk)
            return v
        if len(args) > 1:
            return args[1]
        raise KeyError(k)
    if name == "setdefault":
        if f:
            return dict.__getitem__(o, kk)
        v = args[1] if len(args) > 1 else None
        dict.__setitem__(o, k, v)
        return v
    if name == "__contains__":
        return f
    if name == "__getitem__":
        if not f:
            raise KeyError(k)
        return dict.__getitem__(o, kk)
    return getattr(o, name)(*args, **kw)


def re_module(name, args, kw):
    if name in RE_FN:
        if _pos_str(args, kw) or (args and type(args[0]) is rx.SymPattern):
            a = list(args)
            k = dict(kw)
            pat = a.pop(0) if a else k.pop("pattern")
            if name in ("sub", "subn") and not any(
                    type(x) is SymStr for x in [pat] + a + list(k.values())):
                return getattr(re, name)(*args, **kw)
            return rx.r_call(name, pat, a, k)
        return getattr(re, name)(*args, **kw)
    if name == "compile":
        if args and type(args[0]) is SymStr or type(kw.get("pattern")) is SymStr:
            a = list(args)
            pat = a.pop(0) if a else kw["pattern"]
            fl = a[0] if a else kw.get("flags", 0)
            return rx.get_pattern(pat, int(fl))
        if args and type(args[0]) is rx.SymPattern:
            return args[0]
    if name == "escape":
        x = args[0] if args else kw["pattern"]
        if type(x) is SymStr:
            return rx.r_escape(x)
    return getattr(re, name)(*args, **kw)


BUILTIN_METHODS = (types.BuiltinMethodType, type(re.compile("").search))


def call(f, *args, **kw):
    t = type(f)
    if t in BUILTIN_METHODS:
        o = f.__self__
        if o is not None and type(o) in (str, Pattern, dict, set, list, SetList):
            return callm(o, f.__name__, *args, **kw)
        return f(*args, **kw)
    if f in NATIVE_MAP_SET:
        return NATIVE_MAP[f](*args, **kw)
    if t is types.FunctionType and f.__module__ == "re":
        return re_module(f.__name__, args, kw)
    return f(*args, **kw)


class _NMS:
    def __contains__(self, f):
        try:
            return f in NATIVE_MAP
        except TypeError:
            return False


NATIVE_MAP = {}
NATIVE_MAP_SET = _NMS()


# ------------------------------------------------------------ comparison
# native sets and dicts compare by hash, which symbolic members do not have
SETS = (set, frozenset)


def _symcoll(a, b):
    if isinstance(a, SETS):
        return isinstance(b, SETS) and (any(has_sym(x) for x in a) or any(has_sym(x) for x in b))
    return (type(a) in (dict, OrderedDict, defaultdict) and isinstance(b, dict)
            and (any(has_sym(x) for x in a) or any(has_sym(x) for x in b)))


def coll_eq(a, b):
    if isinstance(a, SETS):
        return len(a) == len(b) and set_method(a, "issubset", [b])
    if len(a) != len(b):
        return False
    for k, v in a.items():
        if not contains(b, k):
            return False
        w = getitem(b, k)
        if v is not w and not cmp_eq(v, w):
            return False
    return True


def cmp_eq(a, b):
    if type(a) in COLL and _symcoll(a, b):
        return coll_eq(a, b)
    return a == b


def cmp_ne(a, b):
    if type(a) in COLL and _symcoll(a, b):
        return not coll_eq(a, b)
    return a != b


def cmp_le(a, b):
    if type(a) in COLL and isinstance(a, SETS) and _symcoll(a, b):
        return set_method(a, "issubset", [b])
    return a <= b


def cmp_lt(a, b):
    if type(a) in COLL and isinstance(a, SETS) and _symcoll(a, b):
        return len(a) < len(b) and set_method(a, "issubset", [b])
    return a < b


def cmp_ge(a, b):
    if type(a) in COLL and isinstance(a, SETS) and _symcoll(a, b):
        return set_method(a, "issuperset", [b])
    return a >= b


def cmp_gt(a, b):
    if type(a) in COLL and isinstance(a, SETS) and _symcoll(a, b):
        return len(a) > len(b) and set_method(a, "issuperset", [b])
    return a > b


# ------------------------------------------------------------ operators
def binop(op, a, b):
    if op == "%":
        if type(a) is str:
            if has_sym(b) or not isinstance(b, (str, int, float, tuple)) or isinstance(b, tuple):
                return fmt.percent(a, b)
        return a % b
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (
            any(has_sym(x) for x in a) or any(has_sym(x) for x in b)):
        nm = {"|": "union", "&": "intersection", "-": "difference", "^": "symmetric_difference"}[op]
        return set_method(a, nm, [b])
    if op == "|":
        return a | b
    if op == "&":
        return a & b
    if op == "-":
        return a - b
    if op == "^":
        return a ^ b
    raise NotImplementedError(op)


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = s_repr(v)
            elif conv == 115:
                v = s_str(v)
            elif conv == 97:
                v = ascii(v)
            out.append(s_format(v, spec))
        else:
            out.append(p)
    for x in out:
        if type(x) is not str:
            return mkstr([c for y in out for c in items_of(y)])
    return "".join(out)


# ------------------------------------------------------------ builtin overrides
def s_ord(x):
    return strs.s_ord(x) if type(x) is SymStr else ord(x)


def s_chr(x):
    return strs.s_chr(x)


def s_map(f, *its):
    for xs in zip(*its):
        yield call(f, *xs)


def s_filter(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


def s_bin(x):
    if type(x) is SymInt:
        r = x.radix(2)
        return "0b" + r if not x < 0 else "-0b" + r[1:]
    return bin(x)


def s_hex(x):
    if type(x) is SymInt:
        r = x.radix(16)
        return "0x" + r if not x < 0 else "-0x" + r[1:]
    if hasattr(type(x), "__index__") and hasattr(type(x).__index__, "__code__"):
        return s_hex(type(x).__index__(x))
    return hex(x)


def s_oct(x):
    if type(x) is SymInt:
        r = x.radix(8)
        return "0o" + r if not x < 0 else "-0o" + r[1:]
    return oct(x)


def s_bin2(x):
    if hasattr(type(x), "__index__") and hasattr(type(x).__index__, "__code__"):
        return s_bin(type(x).__index__(x))
    return s_bin(x)


def s_len(x):
    return len(x)


def s_print(*a, **k):
    pass


def s_formatb(v, spec=""):
    return s_format(v, spec)


class SymRange:
    """range() with symbolic bounds and a positive step: decides at each step whether another number follows"""

    def __init__(self, lo, hi, step):
        self.start, self.stop, self.step = lo, hi, step

    def __iter__(self):
        v = self.start
        while v < self.stop:
            yield v
            v = v + self.step

    def __contains__(self, x):
        return bool(self.start <= x and x < self.stop and (self.step == 1 or (x - self.start) % self.step == 0))

    def __len__(self):
        return sum(1 for _ in iter(self))

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __getitem__(self, i):
        if self.step == 1 and i in (0, -1) and self.start < self.stop:
            return self.start if i == 0 else self.stop - 1
        return list(self)[i]

    def has(self, x):
        if self.step == 1 and isinstance(x, (int, SymInt)):
            return s_and(self.start <= x, x < self.stop)
        return x in self


class SortedRange(SymRange):
    """the list of the numbers of a range, sorted: kept as its bounds until it is iterated"""

    def __eq__(self, o):
        if type(o) is SortedRange and o.step == self.step == 1:
            if self.start < self.stop:
                return s_and(self.start == o.start, self.stop == o.stop)
            return not o.start < o.stop
        return list(self) == (list(o) if type(o) is SortedRange else o)

    def __ne__(self, o):
        return s_not(self == o)

    __hash__ = None


def s_and(a, b):
    if type(a) is SymBool and type(b) is SymBool:
        return mkbool(p_and([a.p, b.p]))
    return (a if b else False) if type(b) is not SymBool else (b if a else False)


def s_range(*a):
    if not any(type(x) is SymInt for x in a):
        return range(*a)
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a if len(a) == 3 else (*a, 1))
    if type(step) is not int or step < 1 or not all(isinstance(x, (int, SymInt)) for x in (lo, hi)):
        return range(*a)
    return SymRange(lo, hi, step)


def s_sorted(it, *, key=None, reverse=False):
    if key is not None:
        k0 = key

        def key(x):
            return call(k0, x)
    elif type(it) is SymRange and it.step == 1 and not reverse:
        return SortedRange(it.start, it.stop, 1)
    return sorted(it, key=key, reverse=reverse)


def s_any(it):
    for x in it:
        if x:
            return True
    return False


def s_all(it):
    for x in it:
        if not x:
            return False
    return True


def s_abs(x):
    return abs(x)


def s_divmod(a, b):
    return (a // b, a % b)


def s_pow(a, b, m=None):
    if m is None:
        return a ** b
    return pow(a, b, m)


BUILTINS = {
    "int": P_int, "str": P_str, "bool": P_bool, "float": P_float, "bytes": P_bytes,
    "type": s_type, "isinstance": s_isinstance, "issubclass": s_issubclass, "hash": s_hash,
    "ord": s_ord, "chr": s_chr, "repr": s_repr, "set": None, "frozenset": None, "dict": None,
    "map": s_map, "filter": s_filter, "bin": s_bin2, "hex": s_hex, "oct": s_oct,
    "print": s_print, "format": s_formatb, "sorted": s_sorted, "range": s_range, "any": s_any, "all": s_all,
    "divmod": s_divmod, "pow": s_pow,
}


class P_set(metaclass=_Meta):
    _real, _sym, _new = set, (), staticmethod(s_set)


class P_frozenset(metaclass=_Meta):
    _real, _sym, _new = frozenset, (), staticmethod(s_frozenset)


class P_dict(metaclass=_Meta):
    _real, _sym, _new = dict, (), staticmethod(s_dict)


class P_type(metaclass=_Meta):
    _real, _sym, _new = type, (), staticmethod(s_type)


BUILTINS["set"] = P_set
BUILTINS["frozenset"] = P_frozenset
BUILTINS["dict"] = P_dict
BUILTINS["type"] = P_type
REAL2PROXY.update({set: P_set, frozenset: P_frozenset, dict: P_dict, type: P_type})
NATIVE_MAP.update({int: new_int, str: new_str, bytes: new_bytes, set: s_set, frozenset: s_frozenset,
                   hash: s_hash, ord: s_ord, chr: s_chr, repr: s_repr, bin: s_bin2, hex: s_hex, oct: s_oct,
                   isinstance: s_isinstance, format: s_formatb, dict: s_dict, float: new_float})
install_hash()


# ------------------------------------------------------------ lru_cache model
_lru_tables = []


def lru_cache(maxsize=128, typed=False):
    def deco(fn):
        table = []
        _lru_tables.append(table)

        @functools.wraps(fn)
        def wrap(*a, **k):
            for (a2, k2, v) in table:
                if len(a) == len(a2) and k.keys() == k2.keys() and all(
                        type(x) is type(y) and (x is y or s_eq(x, y)) for x, y in zip(a, a2)) and all(
                        s_eq(k[x], k2[x]) for x in k):
                    return v
            v = fn(*a, **k)
            table.append((a, k, v))
            return v
        wrap.cache_clear = table.clear
        wrap.__wrapped__ = fn
        return wrap
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def reset_lru():
    HASH_TOKENS.clear()
    for t in _lru_tables:
        t.clear()


def contains_(x, c):
    return contains(c, x)


def not_contains_(x, c):
    return s_not(contains(c, x))


def setitem_(v, o, k):
    setitem(o, k, v)
