"""str.format / f-string / % formatting over symbolic values."""
import string
from . import core
from .core import SymInt, SymBool, SymBytes, Engine
from .strs import s_chr, SymStr, mkstr, items_of, is_s


def has_sym(x, depth=0):
    t = type(x)
    if t in (SymStr, SymInt, SymBool, SymBytes):
        return True
    if depth < 4:
        if t in (tuple, list, set, frozenset):
            return any(has_sym(y, depth + 1) for y in x)
        if t is dict:
            return any(has_sym(k, depth + 1) or has_sym(v, depth + 1) for k, v in x.items())
        if isinstance(x, BaseException):
            return any(has_sym(y, depth + 1) for y in x.args)
    return False


def s_str(x):
    t = type(x)
    if t is SymStr or t is str:
        return x
    if t is SymInt:
        return x.decimal()
    if t is SymBool:
        return "True" if x else "False"
    if t in (list, tuple, dict, set, frozenset):
        return s_repr(x)
    if t.__name__ == "SymHash":
        from .rt import hash_token
        return hash_token(x)
    m = t.__str__
    if m is object.__str__:
        return s_repr(x)
    if isinstance(x, BaseException) and not hasattr(m, "__code__") and not isinstance(
            x, (KeyError, OSError, SyntaxError, UnicodeError, ImportError)):
        # (the builtin exception classes each carry their own wrapper of BaseException.__str__)
        a = x.args
        return "" if not a else (s_str(a[0]) if len(a) == 1 else s_repr(a))
    if hasattr(m, "__code__"):
        r = m(x)
        if not is_s(r):
            raise TypeError("__str__ returned non-string (type %s)" % type(r).__name__)
        return r
    return str(x)


def s_repr(x):
    t = type(x)
    if t is SymStr:
        # quote selection: forks only on quotes / backslashes
        it = x.items
        from .strs import c_pred, D
        from .core import p_and, mask_of, FULL
        plain = core.PRINTABLE & ~mask_of("'\"\\")
        if D(p_and([c_pred(c, plain) for c in it])):
            return mkstr((39,) + tuple(it) + (39,))
        return repr(x.concrete())
    if t is SymInt:
        return x.decimal()
    if t is SymBool:
        return "True" if x else "False"
    if t.__name__ == "SymHash":
        return s_str(x)
    if t is list:
        return mkjoin("[", x, "]")
    if t is tuple:
        return mkjoin("(", x, ",)" if len(x) == 1 else ")")
    if t in (set, frozenset) and has_sym(x):
        return mkjoin("{", x, "}")
    if t is dict and has_sym(x):
        out = list(items_of("{"))
        for i, (k, v) in enumerate(x.items()):
            if i:
                out += items_of(", ")
            out += items_of(s_repr(k)) + items_of(": ") + items_of(s_repr(v))
        return mkstr(out + list(items_of("}")))
    m = t.__repr__
    if hasattr(m, "__code__"):
        r = m(x)
        if not is_s(r):
            raise TypeError("__repr__ returned non-string (type %s)" % type(r).__name__)
        return r
    return repr(x)


def mkjoin(a, xs, b):
    out = list(items_of(a))
    for i, y in enumerate(xs):
        if i:
            out += items_of(", ")
        out += items_of(s_repr(y))
    return mkstr(out + list(items_of(b)))


def s_format(v, spec):
    if type(spec) is SymStr:
        spec = spec.concrete()
    t = type(v)
    if not spec:
        if t in (SymStr, str, SymInt, SymBool, list, tuple, dict):
            return s_str(v)
        m = t.__format__
        if m is object.__format__:
            return s_str(v)
        return _pyformat(v, spec)
    if t is SymBool:
        return format(bool(v), spec)
    if t is SymStr or (t is SymInt):
        return _spec(v, spec)
    if hasattr(t, "__format__") and t.__format__ is object.__format__:
        raise TypeError("unsupported format string passed to %s.__format__" % t.__name__)
    return _pyformat(v, spec)


def _pyformat(v, spec):
    m = type(v).__format__
    if hasattr(m, "__code__"):
        r = m(v, spec)
        if not is_s(r):
            raise TypeError("__format__ must return a str, not %s" % type(r).__name__)
        return r
    return format(v, spec)


def _spec(v, spec):
    fill, align, sign, alt, zero, width, typ = " ", None, "", False, False, 0, ""
    i = 0
    if len(spec) >= 2 and spec[1] in "<>^=":
        fill, align, i = spec[0], spec[1], 2
    elif spec[0] in "<>^=":
        align, i = spec[0], 1
    if i < len(spec) and spec[i] in "+- ":
        sign = spec[i]
        i += 1
    if i < len(spec) and spec[i] == "#":
        alt = True
        i += 1
    if i < len(spec) and spec[i] == "0":
        zero = True
        i += 1
    j = i
    while j < len(spec) and spec[j].isdigit():
        j += 1
    if j > i:
        width = int(spec[i:j])
    i = j
    rest = spec[i:]
    if type(v) is SymStr:
        if rest not in ("", "s") or sign or alt:
            return format(v.concrete(), spec)
        if zero and align is None:
            return format(v.concrete(), spec)
        body = v
        align = align or "<"
    else:
        if rest not in ("", "d", "x", "X", "b", "o") or sign in ("+", " "):
            return format(int(v), spec)
        # zero padding up to the width: the digit count below it need not be known
        zn = width if (align is None and zero) or (align in ("=", ">") and fill == "0" and v.lo >= 0) else 0
        if rest in ("", "d"):
            body = v.decimal(zn)
        else:
            if alt:
                return format(int(v), spec)
            body = v.radix({"x": 16, "X": 16, "b": 2, "o": 8}[rest], rest == "X", zn)
        if zero and align is None:
            fill, align = "0", "="
        align = align or ">"
    b = items_of(body)
    pad = width - len(b)
    if pad <= 0:
        return mkstr(b)
    f = items_of(fill)
    if align == "<":
        return mkstr(b + f * pad)
    if align == ">":
        return mkstr(f * pad + b)
    if align == "^":
        return mkstr(f * (pad // 2) + b + f * (pad - pad // 2))
    if b and b[0] == 45:
        return mkstr(b[:1] + f * pad + b[1:])
    return mkstr(f * pad + b)


def str_format(tmpl, args, kwargs):
    """tmpl.format(*args, **kwargs) with symbolic pieces in either"""
    subst = {}
    if type(tmpl) is SymStr:
        # braces in symbolic characters: decide they're not braces
        from .strs import c_pred, D
        from .core import p_and, mask_of, FULL
        its = []
        nb = FULL & ~mask_of("{}")
        for c in tmpl.items:
            if type(c) is int:
                its.append(chr(c))
            elif D(c_pred(c, nb)):
                k = chr(0xE000 + len(subst))
                subst[k] = c
                its.append(k)
            else:
                from .strs import c_concrete
                its.append(chr(c_concrete(c)))
        tmpl = "".join(its)
    out = []
    auto = [0]

    def lit(s):
        for ch in s:
            out.append(subst.get(ch, ord(ch)))

    def get(field):
        first, rest = string._string.formatter_field_name_split(field)
        if first == "":
            first = auto[0]
            auto[0] += 1
        o = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, k in rest:
            o = getattr(o, k) if is_attr else o[k]
        return o
    for l, field, spec, conv in string.Formatter().parse(tmpl):
        if l:
            lit(l)
        if field is None:
            continue
        o = get(field)
        if conv == "r":
            o = s_repr(o)
        elif conv == "s":
            o = s_str(o)
        elif conv == "a":
            o = ascii(o)
        if spec and "{" in spec:
            spec = str_format(spec, args, kwargs)
        out.extend(items_of(s_format(o, spec or "")))
    return mkstr(out)


def percent(tmpl, arg):
    if type(tmpl) is SymStr:
        tmpl = tmpl.concrete()
    import re
    out = []
    pos = 0
    n = 0
    args = arg if isinstance(arg, tuple) else (arg,)
    for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])", tmpl):
        out.extend(items_of(tmpl[pos:m.start()]))
        pos = m.end()
        key, flags, w, prec, typ = m.groups()
        if typ == "%":
            out.append(37)
            continue
        if key is not None:
            v = arg[key]
        else:
            if n >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[n]
            n += 1
        if not has_sym(v) and not hasattr(type(v).__str__, "__code__"):
            spec = m.group(0)
            if key is not None:
                spec = "%" + spec[spec.index(")") + 1:]
            out.extend(items_of(spec % (v,)))
            continue
        zn = int(w or 0) if "0" in flags and "-" not in flags else 0
        if typ == "s":
            b = s_str(v)
        elif typ == "r":
            b = s_repr(v)
        elif typ in "di":
            if not isinstance(v, (SymInt, SymBool, int)):
                raise TypeError("%d format: a real number is required, not " + type(v).__name__)
            b = (v + 0).decimal(zn) if type(v + 0) is SymInt else str(v + 0)
        elif typ in "xX":
            b = v.radix(16, typ == "X", zn)
        elif typ == "o":
            b = v.radix(8, False, zn)
        elif typ == "c" and isinstance(v, (SymInt, SymBool)):
            b = s_chr(v + 0)
        else:
            b = ("%" + flags + (w or "") + (("." + prec) if prec else "") + typ) % (
                int(v) if isinstance(v, (SymInt, SymBool)) else v.concrete())
        bi = items_of(b)
        if prec and typ in "sr":
            bi = bi[:int(prec)]
        pad = int(w or 0) - len(bi)
        if pad > 0:
            if "-" in flags:
                bi = bi + (32,) * pad
            elif "0" in flags and typ in "dixXo":
                bi = (bi[:1] + (48,) * pad + bi[1:]) if bi and bi[0] == 45 else (48,) * pad + bi
            else:
                bi = (32,) * pad + bi
        out.extend(bi)
    if not isinstance(arg, dict) and n < len(args):
        raise TypeError("not all arguments converted during string formatting")
    out.extend(items_of(tmpl[pos:]))
    return mkstr(out)
