from ciscoconfparse.ccp_util import CiscoRange, CiscoIOSInterface
from ciscoconfparse.errors import DuplicateMember, InvalidMember, MismatchedType
from props.common import *

META = {
    "bounds": {
        "quick": "interface ranges of every name shape in the form a-b and of 2 to 5 shapes each in the other forms (1 to 3 slashed numbers, with or without subinterface, channel and class, with and without dashes in the prefix and class) in the forms a, a-b, 'a-b,c', 'a-b,c-d', "
                 "'a-b,WHOLE c' and 'a,WHOLE c-d,e' where the whole later name has another symbolic slot; iterated numbers of 1 (2 for two shapes of the form a-b) symbolic digits, at most 3 numbers (4 in the form a-b, 2 in the last form) per range; one append or removal; sums and differences",
        "thorough": "every shape in every form, 2 symbolic digits, ranges of up to 5 numbers",
    },
    "outside": "names of several prefixes in one range, later whole names of another shape than the first, malformed ranges, descending ranges, iteration of any but the last number, CiscoIOSXRInterface",
    "assumptions": [],
    "must_cover": ["port", "subinterface", "channel", "class", "bare", "whole", "overlap", "removed", "absent", "appended", "duplicate", "shared"],
}
PREFIX = ("Eth", "Port-channel", "Serial ")
CLASS = ("multipoint", "point-to-point")

FORMS = {"bare": (0, 4, 11, 13, 20), "barerange": (1, 8, 17), "whole": (1, 5, 19, 22), "mixed": (4, 19)}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k in range(24):
        out.append({"name": "range%d" % k, "k": k, "f": "range", "digits": 2 if big or k in (1, 20) else 1, "span": 4 if big else 3})
        out.append({"name": "member%d" % k, "k": k, "f": "member", "digits": 2 if big else 1, "span": 2})
        for f in ("bare", "barerange", "whole", "mixed"):
            if f in ("whole", "mixed") and k % 3 == 0 or not (big or k in FORMS[f]):
                continue
            out.append({"name": "%s%d" % (f, k), "k": k, "f": f, "digits": 2 if big and f != "mixed" else 1, "span": (4 if big else 2) if f != "mixed" else 2 if big else 1})
    for k in (0, 4, 7, 14, 11) if not big else range(24):
        for f in ("append", "remove", "pair"):
            out.append({"name": "%s%d" % (f, k), "k": k, "f": f, "digits": 1, "span": 1 if not big else 3})
    return out


def shape_of(k):
    """(text before the iterated number as a function of the first number, iterated component, class)"""
    n, sub, chan, cls = k % 3, k // 3 % 2, k // 6 % 2, k // 12 % 2
    attr = "channel" if chan else "subinterface" if sub else "port"
    prefix = PREFIX[k % 5 % 3]

    def base(first, blank=False):
        p = prefix if blank else prefix.strip()
        nums = [first, "2", "7"][:n + 1]
        if attr == "port":
            nums = nums[:n]
            return p + "".join([x + "/" for x in nums])
        t = p + "/".join(nums)
        if sub and chan:
            return t + ".3:"
        return t + ("." if sub else ":")
    return base, attr, " " + CLASS[k % 2] if cls else ""


def number(cx, tag, case):
    return cx.str(tag, case["digits"], DIGITS)


def segment(cx, tag, case, rng):
    """(text, lo, hi)"""
    a = number(cx, "a" + tag, case)
    lo = int(a)
    if not rng:
        return a, lo, lo
    b = number(cx, "b" + tag, case)
    hi = int(b)
    cx.assume(cx.all([lo <= hi, hi <= lo + case["span"]]))
    return a + "-" + b, lo, hi


def inside(cx, parts, s, w):
    return cx.any([cx.all([s == t, lo <= w, w <= hi]) for t, lo, hi in parts])


def verify(cx, r, base, attr, cls, member, slots, msg):
    """r's members are the interfaces named base(slot)+number+cls for which member(slot, number)"""
    L = list(r)
    keys = []
    for o in L:
        cx.check(type(o) is CiscoIOSInterface, msg + ": members are interfaces")
        w = getattr(o, attr)
        # the slot is the first number only if something precedes the iterated number
        if len(slots) > 1:
            s = o.slot if o.slot is not None else o.port
        else:
            s = int(slots[0])
        keys.append((s, w))
        cx.check(cx.any([cx.all([s == int(t), str(o) == base(t) + str(w) + cls]) for t in slots]), msg + ": each member has the name of the first with another number")
    for i in range(len(L) - 1):
        (s, v), (t, w) = keys[i], keys[i + 1]
        cx.check(cx.any([s < t, cx.all([s == t, v < w])]), msg + ": members are in ascending order, once each")
    w = cx.int("w " + msg, 0, 2000)
    for t in slots:
        cx.check(cx.eq(member(int(t), w), cx.any([cx.all([s == int(t), v == w]) for s, v in keys])), msg + ": exactly the interfaces denoted are members")
    return L


def views(cx, r, L, single, cls):
    n = len(L)
    names = [str(o) for o in L]
    cx.check(len(r) == n and all([r[i] == L[i] for i in range(n)]), "length and indexing agree with iteration")
    for M in (r.as_list(), r.as_list(result_type=None), r.as_list(result_type=CiscoIOSInterface)):
        cx.check(len(M) == n and all([M[i] == L[i] and type(M[i]) is CiscoIOSInterface for i in range(n)]), "as_list gives the interfaces in order")
    cx.check(r.as_list(result_type=str) == names, "as_list(str) gives their names")
    s = r.as_set(result_type=str)
    cx.check(len(s) == n and all([x in s for x in names]), "as_set(str) gives their names")
    c = r.as_compressed_str()
    q = CiscoRange(c)
    M = list(q)
    cx.check(len(M) == n and [str(o) for o in M] == names and q == r and hash(q) == hash(r), "the compressed text denotes an equal range")
    if n == 1:
        cx.check(c == names[0], "the compressed text of one interface is its name")
    elif single and n > 2:
        cut = len(cls)
        bare = [x[:len(x) - cut] for x in names]
        cx.check(cx.eq(c.startswith(bare[0] + "-"), True) if single == "run" else c.startswith(bare[0]), "the compressed text starts with the first interface")
        cx.check("Eth" not in c[3:] and len(c) <= len(",".join(names)), "the compressed text names the interface once")


def harness(cx, case):
    f = case["f"]
    base, attr, cls = shape_of(case["k"])
    cx.cover(attr)
    if cls:
        cx.cover("class")
    rt = (str, None, CiscoIOSInterface)[case["k"] % 3]
    slots = ["4"]
    text, lo, hi = segment(cx, "0", case, f in ("range", "member", "bare", "barerange", "whole", "append", "remove", "pair"))
    text = base("4", True) + text
    parts = [(4, lo, hi)]
    if f in ("bare", "barerange"):
        cx.cover("bare")
        t, lo2, hi2 = segment(cx, "1", case, f == "barerange")
        text = text + "," + t
        parts.append((4, lo2, hi2))
        if lo2 <= hi and lo <= hi2:
            cx.cover("overlap")
    if f in ("whole", "mixed"):
        cx.cover("whole")
        sl = ("4", "12", "5")[cx.choose("slot", 3 if f == "whole" else 2)]
        slots = ["4"] if sl == "4" else ["4", sl]
        t, lo2, hi2 = segment(cx, "1", case, f == "mixed")
        text = text + "," + base(sl, case["k"] % 2 == 0) + t
        parts.append((int(sl), lo2, hi2))
        if f == "mixed":
            t, lo3, hi3 = segment(cx, "2", case, False)
            text = text + "," + t
            parts.append((int(sl), lo3, hi3))
    r = CiscoRange(text + cls, result_type=rt)
    L = verify(cx, r, base, attr, cls, lambda s, w: inside(cx, parts, s, w), slots, "text")
    if f in ("range", "bare", "barerange", "whole", "mixed"):
        views(cx, r, L, "run" if f == "range" else "once" if len(slots) == 1 else None, cls)
        return
    if f == "member":
        v = number(cx, "v", case)
        o = CiscoIOSInterface(base("4") + v + cls)
        cx.check(cx.eq(o in r, inside(cx, parts, 4, int(v))), "membership of an interface")
        o = CiscoIOSInterface(base("5") + v + cls)
        cx.check(attr == "port" and case["k"] % 3 == 0 or not o in r, "an interface of another slot is no member")
        return
    names = [str(o) for o in L]
    if f == "pair":
        t, lo2, hi2 = segment(cx, "1", case, True)
        s = CiscoRange(base("4") + t + cls, result_type=rt)
        N = [str(o) for o in s]
        both = verify(cx, r + s, base, attr, cls, lambda x, w: cx.any([inside(cx, parts, x, w), inside(cx, [(4, lo2, hi2)], x, w)]), slots, "sum")
        D = verify(cx, r - s, base, attr, cls, lambda x, w: cx.all([inside(cx, parts, x, w), cx.eq(inside(cx, [(4, lo2, hi2)], x, w), False)]), slots, "difference")
        if len(D) < len(L):
            cx.cover("shared")
        cx.check([str(o) for o in r] == names and [str(o) for o in s] == N, "sums and differences leave the operands alone")
        cx.check((r == s) == (names == N), "ranges are equal exactly when their members are")
        return
    v = number(cx, "v", case)
    o = CiscoIOSInterface(base("4") + v + cls)
    has = inside(cx, parts, 4, int(v))
    ignore = cx.bool("ignore")
    if f == "append":
        try:
            r.append(o, ignore_errors=ignore)
            ok = True
        except DuplicateMember:
            ok = False
        if has:
            cx.cover("duplicate")
            cx.check(ok == ignore and [str(x) for x in r] == names, "appending a member raises DuplicateMember unless errors are ignored, and changes nothing")
        else:
            cx.cover("appended")
            cx.check(ok, "any other interface can be appended")
            verify(cx, r, base, attr, cls, lambda s, w: cx.any([inside(cx, parts, s, w), w == int(v)]), slots, "append")
        return
    try:
        r.remove(o, ignore_errors=ignore)
        ok = True
    except (InvalidMember, MismatchedType):
        ok = False
    if has:
        cx.cover("removed")
        cx.check(ok, "a member can be removed")
        verify(cx, r, base, attr, cls, lambda s, w: cx.all([inside(cx, parts, s, w), w != int(v)]), slots, "remove")
    else:
        cx.cover("absent")
        cx.check(ok == ignore and [str(x) for x in r] == names, "removing anything else raises unless errors are ignored, and changes nothing")
