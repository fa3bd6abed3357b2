"""Symbolic strings: concrete length per path, symbolic characters."""
import z3
from . import core
from .core import (CharVar, Engine, M, Z, And, Or, SymBool, SymInt, SymBytes, mkbool, p_and, p_or, p_not,
                   lift_p, NCH, FULL, M_SPACE, M_DIGIT, M_ALPHA, M_ALNUM, M_UPPER, M_LOWER, M_CASED)

IDENT = tuple(range(NCH))
T_LOWER = tuple(ord(chr(i).lower()) for i in range(NCH))
T_UPPER = tuple(ord(chr(i).upper()) for i in range(NCH))
T_SWAP = tuple(ord(chr(i).swapcase()) for i in range(NCH))


class CharFn:
    """function (table) of one char variable"""
    __slots__ = ("v", "t")

    def __init__(self, v, t=IDENT):
        self.v = v
        self.t = t


class CharZ:
    """arbitrary 8-bit expression; may: mask of the codes it can take (over-approximation);
    src: (number, base, position, total) when it is one digit of a rendered number"""
    __slots__ = ("e", "vs", "may", "src")

    def __init__(self, e, vs, may=core.FULL, src=None):
        self.e = e
        self.vs = vs
        self.may = may
        self.src = src


def c_pred(c, mask):
    """predicate: char item in mask"""
    if type(c) is int:
        return bool(c < NCH and mask >> c & 1)
    if type(c) is CharFn:
        if c.t is IDENT:
            return M(c.v, mask)
        m = 0
        t = c.t
        for i in range(NCH):
            if mask >> t[i] & 1:
                m |= 1 << i
        return M(c.v, m) if m else False
    if not c.may & mask:
        return False
    if not c.may & ~mask:
        return True
    return Z(core._rng_expr(c.e, core._ranges(mask)), c.vs)


def c_may(c):
    """mask of the codes a char item can take"""
    if type(c) is int:
        return 1 << c if c < NCH else 0
    if type(c) is CharFn:
        al = Engine.cur.allowed[c.v]
        if c.t is IDENT:
            return al
        m = 0
        for i in range(NCH):
            if al >> i & 1:
                m |= 1 << c.t[i]
        return m
    return c.may


def c_expr(c):
    if type(c) is int:
        return z3.BitVecVal(c, 8)
    if type(c) is CharFn:
        if c.t is IDENT:
            return c.v.e
        r = SymInt.from_fn(c.v, c.t)
        if isinstance(r, int):
            return z3.BitVecVal(r, 8)
        return core.ext(r.e, r.w, 8)
    return c.e


def c_vars(c):
    if type(c) is int:
        return frozenset()
    if type(c) is CharFn:
        return frozenset([c.v])
    return c.vs


def c_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a == b
    if ta is int:
        return c_pred(b, 1 << a) if a < NCH else False
    if tb is int:
        return c_pred(a, 1 << b) if b < NCH else False
    if ta is CharFn and tb is CharFn and a.v is b.v:
        if a.t is b.t:
            return True
        m = 0
        for i in range(NCH):
            if a.t[i] == b.t[i]:
                m |= 1 << i
        return M(a.v, m) if m else False
    if ta is CharFn and tb is CharFn:
        al = Engine.cur.allowed
        ma = sum({1 << a.t[i] for i in range(NCH) if al[a.v] >> i & 1}) if a.t is not IDENT else al[a.v]
        mb = sum({1 << b.t[i] for i in range(NCH) if al[b.v] >> i & 1}) if b.t is not IDENT else al[b.v]
        if not ma & mb:
            return False
    elif not c_may(a) & c_may(b):
        return False
    return Z(c_expr(a) == c_expr(b), c_vars(a) | c_vars(b))


def c_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(a) is int:
        if a >= NCH:
            return False
        return c_pred(b, FULL & ~((1 << (a + 1)) - 1))
    if type(b) is int:
        if b >= NCH:
            return True
        return c_pred(a, (1 << b) - 1)
    if type(a) is CharFn and type(b) is CharFn and a.v is b.v and a.t is b.t:
        return False
    return Z(z3.ULT(c_expr(a), c_expr(b)), c_vars(a) | c_vars(b))


def c_map(c, t, f):
    if type(c) is int:
        return ord(f(chr(c))) if len(f(chr(c))) == 1 else c
    if type(c) is CharFn:
        return CharFn(c.v, t if c.t is IDENT else tuple(t[x] for x in c.t))
    # CharZ
    segs = None
    e = c.e
    up = core.mask_of([chr(i) for i in range(NCH) if t[i] == i + 32])
    dn = core.mask_of([chr(i) for i in range(NCH) if t[i] == i - 32])
    if up:
        e = z3.If(core._rng_expr(c.e, core._ranges(up)), c.e + 32, e)
    if dn:
        e = z3.If(core._rng_expr(c.e, core._ranges(dn)), c.e - 32, e)
    if not c.may & (up | dn):
        return c
    may = 0
    for i in range(NCH):
        if c.may >> i & 1:
            may |= 1 << (i + 32 if up >> i & 1 else i - 32 if dn >> i & 1 else i)
    return CharZ(e, c.vs, may)


def c_settle(c):
    """concretise char items whose value is already forced by the masks"""
    if type(c) is CharFn:
        a = Engine.cur.allowed[c.v]
        if a & (a - 1) == 0:
            return c.t[a.bit_length() - 1]
    elif type(c) is CharZ:
        if z3.is_bv_value(c.e):
            return c.e.as_long()
        if len(c.vs) == 0:
            e = z3.simplify(c.e)
            if z3.is_bv_value(e):
                return e.as_long()
    return c


def c_concrete(c):
    """fork until the char is a concrete code point (complete enumeration)"""
    if type(c) is int:
        return c
    if type(c) is CharFn:
        r = SymInt.from_fn(c.v, c.t)
    else:
        r = core.mkint(z3.ZeroExt(8, c.e), 0, 127, c.vs, 16)
    return r if isinstance(r, int) else Engine.cur.concretise_int(r)


def mkstr(items):
    items = [c if type(c) is int else c_settle(c) for c in items]
    for c in items:
        if type(c) is not int:
            return SymStr(tuple(items))
    return "".join(map(chr, items))


def items_of(s):
    if type(s) is SymStr:
        return s.items
    return tuple(map(ord, s))


def is_s(x):
    return isinstance(x, (str, SymStr))


def D(p):
    """decide predicate"""
    if p is True or p is False:
        return p
    return Engine.cur.decide(p)


def eq_items(a, b):
    if len(a) != len(b):
        return False
    ps = []
    for x, y in zip(a, b):
        p = c_eq(x, y)
        if p is False:
            return False
        if p is not True:
            ps.append(p)
    return p_and(ps)


def lt_items(a, b, orequal):
    n = min(len(a), len(b))
    # tail result
    if len(a) == len(b):
        res = orequal
    else:
        res = len(a) < len(b)
    for i in reversed(range(n)):
        l = c_lt(a[i], b[i])
        q = c_eq(a[i], b[i])
        res = p_or([l, p_and([q, res])])
    return res


class SymStr:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    # -- protocol
    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        for c in self.items:
            yield mkstr([c])

    def __reversed__(self):
        for c in reversed(self.items):
            yield mkstr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            def cv(x):
                return x.__index__() if x is not None else None
            return mkstr(self.items[slice(cv(i.start), cv(i.stop), cv(i.step))])
        return mkstr([self.items[i.__index__()]])

    def __eq__(self, o):
        if not is_s(o):
            return NotImplemented if not isinstance(o, (int, type(None), tuple, list, float)) else False
        return mkbool(eq_items(self.items, items_of(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return core.s_not(r)

    def _cmp(self, o, swap, oe):
        if not is_s(o):
            return NotImplemented
        a, b = self.items, items_of(o)
        if swap:
            a, b = b, a
        return mkbool(lt_items(a, b, oe))

    def __lt__(self, o):
        return self._cmp(o, False, False)

    def __le__(self, o):
        return self._cmp(o, False, True)

    def __gt__(self, o):
        return self._cmp(o, True, False)

    def __ge__(self, o):
        return self._cmp(o, True, True)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        return "".join(chr(c_concrete(c)) for c in self.items)

    def __add__(self, o):
        if not is_s(o):
            return NotImplemented
        return mkstr(self.items + items_of(o))

    def __radd__(self, o):
        if not is_s(o):
            return NotImplemented
        return mkstr(items_of(o) + self.items)

    def __mul__(self, n):
        if not isinstance(n, (int, SymInt, SymBool)):
            return NotImplemented
        return mkstr(self.items * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, o):
        from .fmt import percent
        return percent(self, o)

    def __contains__(self, sub):
        return bool(self.s_contains(sub))

    def s_contains(self, sub):
        if not is_s(sub):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(sub).__name__)
        a, b = self.items, items_of(sub)
        if not b:
            return True
        return mkbool(p_or([eq_items(a[i:i + len(b)], b) for i in range(len(a) - len(b) + 1)]))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(str, name)     # AttributeError if no such method

        def call(*a, **k):
            # generic fallback: complete enumeration of this string's values
            return getattr(self.concrete(), name)(*a, **k)
        return call

    # -- classification
    def _all(self, mask):
        return mkbool(p_and([c_pred(c, mask) for c in self.items]))

    def isdigit(self):
        return self._all(M_DIGIT)
    isdecimal = isnumeric = isdigit

    def isspace(self):
        return self._all(M_SPACE)

    def isalpha(self):
        return self._all(M_ALPHA)

    def isalnum(self):
        return self._all(M_ALNUM)

    def isascii(self):
        return True

    def isprintable(self):
        return self._all(core.PRINTABLE)

    def isupper(self):
        return mkbool(p_and([p_and([c_pred(c, FULL & ~M_LOWER) for c in self.items]),
                             p_or([c_pred(c, M_UPPER) for c in self.items])]))

    def islower(self):
        return mkbool(p_and([p_and([c_pred(c, FULL & ~M_UPPER) for c in self.items]),
                             p_or([c_pred(c, M_LOWER) for c in self.items])]))

    # -- case
    def lower(self):
        return mkstr([c_map(c, T_LOWER, str.lower) for c in self.items])
    casefold = lower

    def upper(self):
        return mkstr([c_map(c, T_UPPER, str.upper) for c in self.items])

    def swapcase(self):
        return mkstr([c_map(c, T_SWAP, str.swapcase) for c in self.items])

    def capitalize(self):
        return mkstr([c_map(c, T_UPPER, str.upper) if i == 0 else c_map(c, T_LOWER, str.lower)
                      for i, c in enumerate(self.items)])

    def title(self):
        out = []
        prev = False
        for c in self.items:
            out.append(c_map(c, T_LOWER, str.lower) if prev else c_map(c, T_UPPER, str.upper))
            prev = D(c_pred(c, M_CASED))
        return mkstr(out)

    # -- strip
    @staticmethod
    def _stripmask(chars):
        if chars is None:
            return lambda c: c_pred(c, M_SPACE)
        cs = items_of(chars)
        if all(type(x) is int for x in cs):
            m = core.mask_of([x for x in cs if x < NCH])
            return lambda c: c_pred(c, m)
        return lambda c: p_or([c_eq(c, x) for x in cs])

    def lstrip(self, chars=None):
        f = self._stripmask(chars)
        i = 0
        it = self.items
        while i < len(it) and D(f(it[i])):
            i += 1
        return mkstr(it[i:])

    def rstrip(self, chars=None):
        f = self._stripmask(chars)
        it = self.items
        j = len(it)
        while j > 0 and D(f(it[j - 1])):
            j -= 1
        return mkstr(it[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if not isinstance(r, SymStr) else r.rstrip(chars)

    # -- search
    def _match_at(self, b, i):
        return eq_items(self.items[i:i + len(b)], b)

    def _rng(self, start, end):
        n = len(self.items)
        s, e, _ = slice(None if start is None else start.__index__(),
                        None if end is None else end.__index__()).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        b = items_of(sub)
        n = len(self.items)
        if start is not None and start.__index__() > n:
            return -1
        s, e = self._rng(start, end)
        for i in range(s, e - len(b) + 1):
            if D(self._match_at(b, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        b = items_of(sub)
        s, e = self._rng(start, end)
        for i in reversed(range(s, e - len(b) + 1)):
            if D(self._match_at(b, i)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        b = items_of(sub)
        s, e = self._rng(start, end)
        if not b:
            return e - s + 1
        if len(b) == 1:
            tot = 0
            for i in range(s, e):
                p = mkbool(self._match_at(b, i))
                tot = tot + (p if isinstance(p, bool) else p.toint())
            return int(tot) if isinstance(tot, bool) else tot
        i, n = s, 0
        while i + len(b) <= e:
            if D(self._match_at(b, i)):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        x = self
        if start is not None or end is not None:
            x = self[slice(start, end)]
            if not isinstance(x, SymStr):
                x = SymStr(items_of(x))
        if isinstance(pre, tuple):
            return mkbool(p_or([lift_p(x.startswith(q)) for q in pre]))
        if not is_s(pre):
            raise TypeError("startswith first arg must be str or a tuple of str, not %s" % type(pre).__name__)
        b = items_of(pre)
        if len(b) > len(x.items):
            return False
        return mkbool(eq_items(x.items[:len(b)], b))

    def endswith(self, suf, start=None, end=None):
        x = self
        if start is not None or end is not None:
            x = self[slice(start, end)]
            if not isinstance(x, SymStr):
                x = SymStr(items_of(x))
        if isinstance(suf, tuple):
            return mkbool(p_or([lift_p(x.endswith(q)) for q in suf]))
        if not is_s(suf):
            raise TypeError("endswith first arg must be str or a tuple of str, not %s" % type(suf).__name__)
        b = items_of(suf)
        if len(b) > len(x.items):
            return False
        return mkbool(eq_items(x.items[len(x.items) - len(b):], b))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    # -- split / join / replace
    def split(self, sep=None, maxsplit=-1):
        it = self.items
        out = []
        maxsplit = maxsplit.__index__()
        if sep is None:
            i, n = 0, len(it)
            while True:
                while i < n and D(c_pred(it[i], M_SPACE)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    r = mkstr(it[i:])
                    out.append(r.rstrip())
                    break
                j = i
                while j < n and not D(c_pred(it[j], M_SPACE)):
                    j += 1
                out.append(mkstr(it[i:j]))
                i = j
            return out
        b = items_of(sep)
        if not b:
            raise ValueError("empty separator")
        i = st = 0
        while i + len(b) <= len(it):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if D(self._match_at(b, i)):
                out.append(mkstr(it[st:i]))
                i += len(b)
                st = i
            else:
                i += 1
        out.append(mkstr(it[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if maxsplit < 0:
            return self.split(sep)
        rev = SymStr(self.items[::-1])
        parts = rev.split(sep if sep is None else mkstr(items_of(sep)[::-1]), maxsplit)
        return [mkstr(items_of(p)[::-1]) for p in parts][::-1]

    def splitlines(self, keepends=False):
        brk = core.mask_of("\n\r\x0b\x0c\x1c\x1d\x1e")
        out = []
        it = self.items
        st = i = 0
        while i < len(it):
            if D(c_pred(it[i], brk)):
                j = i + 1
                if j < len(it) and D(c_eq(it[i], 13)) and D(c_eq(it[j], 10)):
                    j += 1
                out.append(mkstr(it[st:j] if keepends else it[st:i]))
                st = i = j
            else:
                i += 1
        if st < len(it):
            out.append(mkstr(it[st:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return mkstr(self.items[:i]), sep, mkstr(self.items[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return mkstr(self.items[:i]), sep, mkstr(self.items[i + len(sep):])

    def replace(self, old, new, count=-1):
        b, nw = items_of(old), items_of(new)
        it = self.items
        count = count.__index__()
        out = []
        if not b:
            n = 0
            for c in it:
                if count < 0 or n < count:
                    out.extend(nw)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(nw)
            return mkstr(out)
        i = n = 0
        while i < len(it):
            if i + len(b) <= len(it) and (count < 0 or n < count) and D(self._match_at(b, i)):
                out.extend(nw)
                i += len(b)
                n += 1
            else:
                out.append(it[i])
                i += 1
        return mkstr(out)

    def join(self, seq):
        out = []
        first = True
        for x in seq:
            if not is_s(x):
                raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
            if not first:
                out.extend(self.items)
            first = False
            out.extend(items_of(x))
        return mkstr(out)

    def translate(self, table):
        out = []
        for c in self.items:
            if type(c) is int:
                out.extend(items_of(chr(c).translate(table)))
                continue
            rep = {}
            for i in range(NCH):
                try:
                    r = table[i]
                except LookupError:
                    r = i
                rep[i] = "" if r is None else (chr(r) if isinstance(r, int) else r)
            if all(len(r) == 1 for r in rep.values()) and type(c) is CharFn:
                t = tuple(ord(rep[i]) for i in range(NCH))
                if max(t) < NCH:
                    out.append(c_map(c, t, lambda x: rep[ord(x)]))
                    continue
            out.extend(items_of(chr(c_concrete(c)).translate(table)))
        return mkstr(out)

    # -- padding
    def _pad(self, n, ch):
        return items_of(ch) * max(0, n)

    def ljust(self, w, ch=" "):
        return mkstr(self.items + self._pad(w.__index__() - len(self.items), ch))

    def rjust(self, w, ch=" "):
        return mkstr(self._pad(w.__index__() - len(self.items), ch) + self.items)

    def center(self, w, ch=" "):
        w = w.__index__()
        pad = w - len(self.items)
        if pad <= 0:
            return self
        left = pad // 2 + (pad & w & 1)
        return mkstr(items_of(ch) * left + self.items + items_of(ch) * (pad - left))

    def zfill(self, w):
        pad = w.__index__() - len(self.items)
        if pad <= 0:
            return self
        if D(c_pred(self.items[0], core.mask_of("+-"))):
            return mkstr((self.items[0],) + (48,) * pad + self.items[1:])
        return mkstr((48,) * pad + self.items)

    def format(self, *a, **k):
        from .fmt import str_format
        return str_format(self, a, k)

    def encode(self, enc="utf-8", errors="strict"):
        out = []
        for c in self.items:
            if type(c) is int:
                if c > 127:
                    return self.concrete().encode(enc, errors)
                out.append(c)
            else:
                out.append(char_int(c))
        return SymBytes(out)


def char_int(c):
    """ord()"""
    if type(c) is int:
        return c
    if type(c) is CharFn:
        return SymInt.from_fn(c.v, c.t)
    return core.mkint(z3.ZeroExt(8, c.e), 0, 127, c.vs, 16)


def s_ord(s):
    if len(s) != 1:
        raise TypeError("ord() expected a character, but string of length %d found" % len(s))
    return char_int(items_of(s)[0])


def s_chr(i):
    if isinstance(i, int):
        return chr(i)
    if i < 0:
        raise ValueError("chr() arg not in range(0x110000)")
    if i > 127:
        return chr(i.__index__())
    if type(i) is SymBool:
        i = i.toint()
    if i.fn is not None:
        v, t = i.fn
        al = Engine.cur.allowed[v]
        t2 = tuple(t[k] if al >> k & 1 else 0 for k in range(NCH))
        return mkstr([CharFn(v, t2)])
    return mkstr([CharZ(core.ext(i.e, i.w, 8), i.vs)])


def s_int(s, base=10):
    """int(str, base)"""
    it = list(s.items)
    if base == 10 and D(p_and([c_pred(c, M_DIGIT) for c in it])):
        return _digits(it, 10)
    # general: strip, sign, prefix, digits with underscores
    x = s.strip()
    it = list(items_of(x))

    def bad():
        raise ValueError("invalid literal for int() with base %s: %r" % (base, "<symbolic>"))
    neg = False
    if it and D(c_pred(it[0], core.mask_of("+-"))):
        neg = D(c_eq(it[0], 45))
        it = it[1:]
    if base in (0, 2, 8, 16) and len(it) >= 2 and c_may(it[1]) & core.mask_of({16: "xX", 8: "oO", 2: "bB"}.get(base, "xXbBoO")) and D(c_eq(it[0], 48)):
        pre = {"x": 16, "b": 2, "o": 8}
        for ch, b in pre.items():
            if base in (0, b) and D(c_pred(it[1], core.mask_of(ch + ch.upper()))):
                it = it[2:]
                base = b
                if it and D(c_eq(it[0], 95)):
                    it = it[1:]
                break
    if base == 0:
        if len(it) > 1 and D(c_eq(it[0], 48)):
            if not D(p_and([c_pred(c, core.mask_of("0_")) for c in it])):
                bad()
        base = 10
    if not it:
        bad()
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    dm = core.mask_of(digs + digs.upper())
    out = []
    prev_us = True
    for c in it:
        if D(c_pred(c, dm)):
            out.append(c)
            prev_us = False
        elif D(c_eq(c, 95)) and not prev_us:
            prev_us = True
        else:
            bad()
    if prev_us:
        bad()
    r = _digits(out, base)
    return -r if neg else r


def _digits(it, base):
    if not it:
        raise ValueError("invalid literal for int()")
    s0 = it[0].src if type(it[0]) is CharZ else None
    if s0 is not None and s0[1] == base and s0[2] == len(it) - 1 == s0[3] - 1 and all([
            type(c) is CharZ and c.src is not None and c.src[0] is s0[0] and c.src[1:] == (base, s0[3] - 1 - k, s0[3])
            for k, c in enumerate(it)]):
        return s0[0]
    if s0 is not None and s0[1] == base and all([
            type(c) is CharZ and c.src is not None and c.src[0] is s0[0] and c.src[1:] == (base, s0[2] - k, s0[3])
            for k, c in enumerate(it)]):
        low = s0[2] - len(it) + 1
        return s0[0] // base ** low % base ** len(it)
    val = {}
    for i in range(NCH):
        ch = chr(i).lower()
        val[i] = "0123456789abcdefghijklmnopqrstuvwxyz".find(ch) if ch.isalnum() else 0
    tot = 0
    for c in it:
        if type(c) is int:
            d = val[c]
        elif type(c) is CharFn:
            d = SymInt.from_fn(c.v, [max(val[c.t[i]], 0) for i in range(NCH)])
        else:
            ci = char_int(c)
            if base == 10:
                d = core.mkint((ci - 48).e, 0, 9, ci.vs, (ci - 48).w)
            else:
                e = z3.If(z3.ULE(c.e, 57), c.e - 48, z3.If(z3.ULE(c.e, 90), c.e - 55, c.e - 87))
                d = core.mkint(z3.ZeroExt(8, e), 0, base - 1, c.vs, 16)
        if isinstance(tot, int) and tot == 0:
            tot = d
        else:
            tot = tot * base + d
    return tot


import collections.abc as _abc
_abc.Sequence.register(SymStr)
import numbers as _numbers
_numbers.Integral.register(SymInt)
