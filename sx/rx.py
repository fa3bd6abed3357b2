"""Symbolic regular-expression matching over SymStr.

The pattern is parsed by CPython's own sre parser; this module enumerates the
backtracking alternatives in priority order, each with the condition on the
subject's characters under which it succeeds.
"""
import re
import re._parser as sre_parse
import re._constants as C
from . import core
from .core import (Engine, M, mkbool, p_and, p_or, p_not, FULL, NCH, M_SPACE, M_DIGIT, M_WORD)
from .strs import SymStr, mkstr, items_of, is_s, c_pred, c_eq, D, c_concrete

MAXALT = 20000
_mask_cache = {}
CAT = {
    C.CATEGORY_DIGIT: M_DIGIT, C.CATEGORY_NOT_DIGIT: FULL & ~M_DIGIT,
    C.CATEGORY_SPACE: M_SPACE, C.CATEGORY_NOT_SPACE: FULL & ~M_SPACE,
    C.CATEGORY_WORD: M_WORD, C.CATEGORY_NOT_WORD: FULL & ~M_WORD,
}
PUA = 0xE000


def fold(m):
    r = m
    for i in range(NCH):
        if m >> i & 1:
            c = chr(i)
            r |= 1 << ord(c.lower()) if ord(c.lower()) < NCH else 0
            r |= 1 << ord(c.upper()) if ord(c.upper()) < NCH else 0
    return r


def in_mask(items, flags):
    m = 0
    neg = False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            if av < NCH:
                m |= 1 << av
        elif op is C.RANGE:
            for i in range(av[0], min(av[1], NCH - 1) + 1):
                m |= 1 << i
        elif op is C.CATEGORY:
            m |= CAT[av]
        else:
            raise NotImplementedError(op)
    if flags & re.I:
        m = fold(m)
    return FULL & ~m if neg else m


class Cond:
    """conjunction: masks per char var + extra predicates; immutable"""
    __slots__ = ("ms", "ex")

    def __init__(self, ms, ex):
        self.ms = ms
        self.ex = ex

    def add(self, p):
        if p is True:
            return self
        if p is False:
            return None
        if type(p) is M:
            cur = self.ms.get(p.v)
            if cur is None:
                cur = Engine.cur.allowed[p.v]
            n = cur & p.m
            if n == 0:
                return None
            if n == cur:
                return self
            d = dict(self.ms)
            d[p.v] = n
            return Cond(d, self.ex)
        if type(p) is core.And:
            r = self
            for q in p.ps:
                r = r.add(q)
                if r is None:
                    return None
            return r
        q = Engine.cur.simp(p)
        if q is True or q is False or type(q) is M:
            return self.add(q)
        return Cond(self.ms, self.ex + (q,))

    def pred(self):
        return p_and([M(v, m) for v, m in self.ms.items()] + list(self.ex))


EMPTY = Cond({}, ())


class SymPattern:
    """pattern with (possibly symbolic literal characters) over symbolic text"""

    def __init__(self, pattern, flags=0, subst=None):
        self.pattern = pattern
        self.flags_arg = flags
        self.subst = subst or {}
        self.tree = sre_parse.parse(pattern, flags)
        self.state = self.tree.state
        self.flags = self.tree.state.flags
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)

    # -- core matcher: generator of (cond, pos, groups)
    def m(self, s, seq, i, pos, cond, groups, flags, k):
        """match seq[i:] at pos then continue with k(pos, cond, groups)"""
        n = len(seq)
        while i < n:
            op, av = seq[i]
            if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                if pos >= len(s):
                    return
                cond = cond.add(self.one(s[pos], op, av, flags))
                if cond is None:
                    return
                pos += 1
                i += 1
                continue
            if op is C.AT:
                c = self.at(s, av, pos, cond, flags)
                if c is None:
                    return
                cond = c
                i += 1
                continue
            if op is C.SUBPATTERN:
                gid, addf, delf, p = av
                f2 = (flags | addf) & ~delf
                start = pos
                nxt = i + 1

                def k2(pos2, cond2, groups2, gid=gid, start=start, nxt=nxt):
                    if gid is not None:
                        groups2 = dict(groups2)
                        groups2[gid] = (start, pos2)
                        groups2["last"] = gid
                    return self.m(s, seq, nxt, pos2, cond2, groups2, flags, k)
                yield from self.m(s, p, 0, pos, cond, groups, f2, k2)
                return
            if op is C.BRANCH:
                nxt = i + 1

                def k3(pos2, cond2, groups2, nxt=nxt):
                    return self.m(s, seq, nxt, pos2, cond2, groups2, flags, k)
                for alt in av[1]:
                    yield from self.m(s, alt, 0, pos, cond, groups, flags, k3)
                return
            if op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, p = av
                nxt = i + 1

                def k4(pos2, cond2, groups2, nxt=nxt):
                    return self.m(s, seq, nxt, pos2, cond2, groups2, flags, k)
                yield from self.rep(s, p, lo, hi, op is C.MAX_REPEAT, 0, pos, cond, groups, flags, k4, -1)
                return
            if op in (C.ASSERT, C.ASSERT_NOT):
                direction, p = av
                if direction < 0:
                    wlo, whi = p.getwidth()
                    conds = []
                    if pos - wlo >= 0:
                        def kend(p2, c2, g2):
                            if p2 == pos:
                                yield (c2, p2, g2)
                        for c2, _, g2 in self.m(s, p, 0, pos - wlo, EMPTY, {}, flags, kend):
                            conds.append((c2, g2))
                else:
                    def kany(p2, c2, g2):
                        yield (c2, p2, g2)
                    conds = [(c2, g2) for c2, _, g2 in self.m(s, p, 0, pos, EMPTY, {}, flags, kany)]
                if any(g for _, g in conds):
                    Engine.cur.giveup("regex: capture in lookaround")
                pr = p_or([c.pred() for c, _ in conds])
                cond = cond.add(Engine.cur.simp(pr if op is C.ASSERT else p_not(pr)))
                if cond is None:
                    return
                i += 1
                continue
            if op is C.GROUPREF:
                g = groups.get(av)
                if g is None:
                    return
                sub = s[g[0]:g[1]]
                if pos + len(sub) > len(s):
                    return
                for a, b in zip(sub, s[pos:pos + len(sub)]):
                    cond = cond.add(c_eq(a, b))
                    if cond is None:
                        return
                pos += len(sub)
                i += 1
                continue
            if op is C.GROUPREF_EXISTS:
                gid, yes, no = av
                nxt = i + 1

                def k5(pos2, cond2, groups2, nxt=nxt):
                    return self.m(s, seq, nxt, pos2, cond2, groups2, flags, k)
                if groups.get(gid) is not None:
                    yield from self.m(s, yes, 0, pos, cond, groups, flags, k5)
                elif no is not None:
                    yield from self.m(s, no, 0, pos, cond, groups, flags, k5)
                else:
                    yield from k5(pos, cond, groups)
                return
            Engine.cur.giveup("regex op %s" % (op,))
        yield from k(pos, cond, groups)

    def rep(self, s, p, lo, hi, greedy, cnt, pos, cond, groups, flags, k, lastpos):
        # single-char fast path keeps recursion shallow
        if len(p) == 1 and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            op, av = p[0]
            conds = [cond]
            q = pos
            c = cond
            while (hi is C.MAXREPEAT or len(conds) - 1 < hi) and q < len(s):
                c = c.add(self.one(s[q], op, av, flags))
                if c is None:
                    break
                conds.append(c)
                q += 1
            rng = range(len(conds) - 1, lo - 1, -1) if greedy else range(lo, len(conds))
            for j in rng:
                yield from k(pos + j, conds[j], groups)
            return

        def more():
            if hi is not C.MAXREPEAT and cnt >= hi:
                return
            if cnt >= lo and pos == lastpos:
                return

            def kk(pos2, cond2, groups2):
                if cnt >= lo and pos2 == pos:
                    return iter(())
                return self.rep(s, p, lo, hi, greedy, cnt + 1, pos2, cond2, groups2, flags, k, pos)
            yield from self.m(s, p, 0, pos, cond, groups, flags, kk)
        if cnt < lo:
            yield from more()
        elif greedy:
            yield from more()
            yield from k(pos, cond, groups)
        else:
            yield from k(pos, cond, groups)
            yield from more()

    def one(self, c, op, av, flags):
        if op is C.LITERAL or op is C.NOT_LITERAL:
            if av >= PUA and chr(av) in self.subst:
                o = self.subst[chr(av)]
                if flags & re.I:
                    from .strs import c_map, T_LOWER
                    p = c_eq(c_map(c, T_LOWER, str.lower), c_map(o, T_LOWER, str.lower))
                else:
                    p = c_eq(c, o)
            elif av >= NCH:
                p = type(c) is int and c == av
            else:
                m = 1 << av
                if flags & re.I:
                    m = fold(m)
                p = c_pred(c, m)
            return p if op is C.LITERAL else p_not(p)
        if op is C.ANY:
            if flags & re.S:
                return True
            if type(c) is int:
                return c != 10
            return c_pred(c, FULL & ~(1 << 10))
        key = (id(av), flags & re.I)
        hit = _mask_cache.get(key)
        if hit is None or hit[0] is not av:
            for o2, a2 in av:
                if o2 is C.LITERAL and a2 >= PUA:
                    # class containing symbolic literal
                    return self._in_slow(c, av, flags)
            hit = (av, in_mask(av, flags))
            _mask_cache[key] = hit
        if type(c) is int and c >= NCH:
            return bool(re.match("[^x]", "y")) and _conc_in(c, av)
        return c_pred(c, hit[1])

    def _in_slow(self, c, av, flags):
        neg = any(o is C.NEGATE for o, _ in av)
        rest = [(o, a) for o, a in av if o is not C.NEGATE and not (o is C.LITERAL and a >= PUA)]
        ps = [c_pred(c, in_mask(rest, flags))]
        ps += [c_eq(c, self.subst[chr(a)]) for o, a in av if o is C.LITERAL and a >= PUA and chr(a) in self.subst]
        p = p_or(ps)
        return p_not(p) if neg else p

    def at(self, s, av, pos, cond, flags):
        n = len(s)
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if pos == 0:
                return cond
            if av is C.AT_BEGINNING and flags & re.M:
                return cond.add(c_pred(s[pos - 1], 1 << 10))
            return None
        if av in (C.AT_END, C.AT_END_STRING):
            if pos == n:
                return cond
            if av is C.AT_END_STRING:
                return None
            if flags & re.M or pos == n - 1:
                return cond.add(c_pred(s[pos], 1 << 10))
            return None
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = c_pred(s[pos - 1], M_WORD) if pos > 0 else False
            b = c_pred(s[pos], M_WORD) if pos < n else False
            ne = p_or([p_and([a, p_not(b)]), p_and([p_not(a), b])])
            if av is C.AT_NON_BOUNDARY:
                ne = p_not(ne)
            return cond.add(Engine.cur.simp(ne))
        Engine.cur.giveup("regex at %s" % (av,))

    def alts(self, s, start, mode, end=None):
        """priority-ordered [(pred, start, end, groups)]"""
        s = s if end is None else s[:end]
        out = []
        idx = {}
        starts = range(start, len(s) + 1) if mode == "search" else [start]

        def kend(pos, cond, groups):
            if mode == "fullmatch" and pos != len(s):
                return
            yield (cond, pos, groups)
        n = 0
        for st in starts:
            for cond, pos, groups in self.m(s, self.tree, 0, st, EMPTY, {}, self.flags, kend):
                n += 1
                if n > MAXALT:
                    Engine.cur.giveup("regex alternatives")
                pr = cond.pred()
                key = (st, pos, tuple(sorted(((str(g), v) for g, v in groups.items()), key=lambda t: t[0])))
                if out and out[-1][0] == key:
                    out[-1][1].append(pr)
                else:
                    out.append((key, [pr], st, pos, groups))
                if pr is True:
                    return [(p_or(p), a, b, g) for _, p, a, b, g in out]
        return [(p_or(p), a, b, g) for _, p, a, b, g in out]

    def run(self, string, start, mode, end=None):
        s = items_of(string)
        alts = self.alts(s, min(start, len(s)), mode, end)
        if not alts:
            return None
        if not D(p_or([a[0] for a in alts])):
            return None
        return SymMatch(self, string, alts, start)

    def search(self, string, pos=0, endpos=None):
        return self.run(string, pos, "search", endpos)

    def match(self, string, pos=0, endpos=None):
        return self.run(string, pos, "match", endpos)

    def fullmatch(self, string, pos=0, endpos=None):
        return self.run(string, pos, "fullmatch", endpos)

    def finditer(self, string, pos=0, endpos=None):
        n = len(string)
        must = False
        while pos <= n:
            if must:
                m = self._nonempty_at(string, pos)
                if m is None:
                    pos += 1
                    must = False
                    continue
            else:
                m = self.run(string, pos, "search", endpos)
                if m is None:
                    return
            yield m
            st, pos = m.span()
            must = st == pos

    def _nonempty_at(self, string, pos):
        s = items_of(string)
        alts = [a for a in self.alts_all(s, pos) if a[2] > a[1]]
        if not alts or not D(p_or([a[0] for a in alts])):
            return None
        return SymMatch(self, string, alts, pos)

    def alts_all(self, s, pos):
        out = []

        def kend(p, cond, groups):
            if p > pos:
                yield (cond, p, groups)
        for cond, p, groups in self.m(s, self.tree, 0, pos, EMPTY, {}, self.flags, kend):
            out.append((cond.pred(), pos, p, groups))
        return out

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else "")
            else:
                out.append(tuple(g if g is not None else "" for g in m.groups()))
        return out

    def subn(self, repl, string, count=0):
        it = items_of(string)
        out = []
        pos = n = 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            st, en = m.span()
            out.extend(it[pos:st])
            if callable(repl):
                r = repl(m)
            else:
                r = m.expand(repl)
            out.extend(items_of(r))
            pos = en
            n += 1
        out.extend(it[pos:])
        return mkstr(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        it = items_of(string)
        out = []
        pos = n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            st, en = m.span()
            out.append(mkstr(it[pos:st]))
            out.extend(m.groups())
            pos = en
            n += 1
        out.append(mkstr(it[pos:]))
        return out


def _conc_in(c, av):
    neg = False
    hit = False
    ch = chr(c)
    for op, a in av:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            hit = hit or a == c
        elif op is C.RANGE:
            hit = hit or a[0] <= c <= a[1]
        elif op is C.CATEGORY:
            hit = hit or {C.CATEGORY_DIGIT: ch.isdigit(), C.CATEGORY_NOT_DIGIT: not ch.isdigit(),
                          C.CATEGORY_SPACE: ch.isspace(), C.CATEGORY_NOT_SPACE: not ch.isspace(),
                          C.CATEGORY_WORD: ch.isalnum() or ch == "_",
                          C.CATEGORY_NOT_WORD: not (ch.isalnum() or ch == "_")}[a]
    return hit != neg


class SymMatch:
    def __init__(self, pat, string, alts, pos):
        self.re = pat
        self.string = string
        self._alts = alts
        self._sel = None
        self.pos = pos
        self.endpos = len(string)

    def _pick(self):
        if self._sel is None:
            for a in self._alts[:-1]:
                if D(a[0]):
                    self._sel = a
                    break
            else:
                self._sel = self._alts[-1]
        return self._sel

    def __bool__(self):
        return True

    def _gid(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        g = g.__index__()
        if g < 0 or g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        g = self._gid(g)
        a = self._pick()
        if g == 0:
            return (a[1], a[2])
        return a[3].get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        st, en = self.span(g)
        if st < 0:
            return default
        return mkstr(items_of(self.string)[st:en])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(g, default) for k, g in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return self._pick()[3].get("last")

    @property
    def lastgroup(self):
        li = self.lastindex
        for k, g in self.re.groupindex.items():
            if g == li:
                return k
        return None

    @property
    def regs(self):
        return tuple(self.span(g) for g in range(self.re.groups + 1))

    def expand(self, template):
        if type(template) is SymStr:
            from .core import p_and as _pa
            if D(_pa([c_pred(c, FULL & ~(1 << 92)) for c in template.items])):
                return template
            template = template.concrete()
        if "\\" not in template:
            return template
        groupless = re.compile(self.re.pattern, self.re.flags_arg)
        parts = sre_parse.parse_template(template, groupless)
        out = []
        if isinstance(parts, tuple):       # 3.11: (groups, literals)
            groups, literals = parts
            literals = list(literals)
            for i, g in groups:
                literals[i] = self._get(g, "")
            for x in literals:
                out.extend(items_of(x))
        else:                              # 3.12: [lit, g, lit, g, ...]
            for i, x in enumerate(parts):
                if isinstance(x, int):
                    out.extend(items_of(self._get(x, "")))
                else:
                    out.extend(items_of(x))
        return mkstr(out)


_pat_cache = {}
SPECIAL = core.mask_of(".^$*+?{}[]\\|()#- \t\n\r\x0b\x0c")


def get_pattern(pattern, flags=0):
    """-> SymPattern; pattern may be str, re.Pattern, SymStr or SymPattern"""
    if type(pattern) is SymPattern:
        return pattern
    if isinstance(pattern, re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags & ~re.U
    if type(pattern) is SymStr:
        out = []
        subst = {}
        meta = core.mask_of(".^$*+?{}[]\\|()")
        for c in pattern.items:
            if type(c) is int:
                out.append(chr(c))
            elif D(c_pred(c, FULL & ~(meta | core.mask_of("-,") | (core.mask_of("# ") if flags & re.X else 0) | core.M_ALNUM & 0))):
                k = chr(PUA + len(subst))
                subst[k] = c
                out.append(k)
            else:
                out.append(chr(c_concrete(c)))
        s = "".join(out)
        if _sym_after_escape(s):
            # an escape sequence would swallow a symbolic character
            return get_pattern(pattern.concrete(), flags)
        return SymPattern(s, flags, subst)
    key = (pattern, int(flags))
    r = _pat_cache.get(key)
    if r is None:
        r = _pat_cache[key] = SymPattern(pattern, flags)
    return r


def _sym_after_escape(s):
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if i + 1 < len(s) and ord(s[i + 1]) >= PUA:
                return True
            i += 2
        else:
            if s[i] == "{":
                j = s.find("}", i)
                if j > 0 and any(ord(x) >= PUA for x in s[i:j]):
                    return True
            if s[i] == "(" and s[i + 1:i + 2] == "?":
                j = s.find(">", i)
                if j > 0 and any(ord(x) >= PUA for x in s[i:j]):
                    return True
            i += 1
    return False


def _sym(*xs):
    return any(type(x) in (SymStr, SymPattern) for x in xs)


def r_call(name, pat, args, kw):
    """module-level re.<name>(pat, ...)"""
    names = {"search": ["string", "flags"], "match": ["string", "flags"], "fullmatch": ["string", "flags"],
             "findall": ["string", "flags"], "finditer": ["string", "flags"],
             "split": ["string", "maxsplit", "flags"], "sub": ["repl", "string", "count", "flags"],
             "subn": ["repl", "string", "count", "flags"]}[name]
    d = dict(zip(names, args))
    d.update(kw)
    flags = int(d.pop("flags", 0))
    p = get_pattern(pat, flags)
    if not is_s(d["string"]):
        raise TypeError("expected string or bytes-like object, got %r" % type(d["string"]).__name__)
    return getattr(p, name)(**d)


def r_escape(s):
    out = []
    for c in items_of(s):
        if D(c_pred(c, core.mask_of([chr(i) for i in range(NCH) if len(re.escape(chr(i))) > 1]))):
            out.append(92)
        out.append(c)
    return mkstr(out)


def p_call(pat, name, args, kw):
    """method of a compiled re.Pattern with symbolic subject"""
    return getattr(get_pattern(pat), name)(*args, **kw)
