from ciscoconfparse.ccp_util import CiscoRange
from ciscoconfparse.errors import DuplicateMember, InvalidMember, MismatchedType
from props.common import *

META = {
    "bounds": {
        "quick": "range texts of 1 part (3 symbolic digits, leading zeros included, ranges of up to 6 numbers), 2 parts (2 digits unless both are ranges, up to 3 numbers) and 3 parts (1 digit, up to 3 numbers), blanks around numbers and dashes; "
                 "one append, removal, replacement or deletion with any number; sums and differences of two ranges of up to 2 parts",
        "thorough": "4 parts, 4 symbolic digits, ranges of up to 8 numbers, two successive edits",
    },
    "outside": "malformed range text (other than empty parts), descending ranges, floats, negative numbers, longer ranges",
    "assumptions": [],
    "must_cover": ["single", "range", "overlap", "gap", "dash", "duplicate", "absent", "removed", "appended", "shared"],
}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4) if big else (1, 2, 3):
        for k in range(1 << n):
            out.append({"name": "text%d.%d" % (n, k), "f": "text", "n": n, "k": k, "digits": (4, 2, 2, 1)[n - 1] if big else (3, 2 if k < 3 else 1, 1)[n - 1], "span": (8, 5, 2, 2)[n - 1] if big else (5, 2, 2 if k in (1, 2, 4) else 1)[n - 1]})
    for k in range(4):
        out.append({"name": "blank%d" % k, "f": "blank", "n": 2, "k": k, "digits": 1, "span": 1})
    for k in range(4):
        for op in ("append", "remove", "set", "del"):
            out.append({"name": "%s%d" % (op, k), "f": op, "n": 2, "k": k, "digits": 1 + big, "span": 2 if k < 3 or big else 1})
    for k in range(16 if big else 8):
        out.append({"name": "pair%d" % k, "f": "pair", "n": 2, "k": k, "digits": 1, "span": 2 if big or k & 3 < 3 else 1})
    out.append({"name": "empty", "f": "empty"})
    return out


def build(cx, n, k, digits, span, tag="", blanks=False):
    """(text, parts) where a part is (first, last) number"""
    texts, parts = [], []
    for i in range(n):
        a = cx.str("a%s%d" % (tag, i), digits, DIGITS)
        if k >> i & 1:
            b = cx.str("b%s%d" % (tag, i), digits, DIGITS)
            lo, hi = int(a), int(b)
            cx.assume(cx.all([lo <= hi, hi <= lo + span]))
            sep = ("-", " - ", "- ")[cx.choose("sep%d" % i, 3)] if blanks else "-"
            texts.append(a + sep + b)
            parts.append((lo, hi))
        else:
            texts.append((" " + a + "  ") if blanks and cx.choose("bl%d" % i, 2) else a)
            parts.append((int(a), int(a)))
    return ",".join(texts), parts


def within(cx, parts, v):
    return cx.any([cx.all([lo <= v, v <= hi]) for lo, hi in parts])


def verify(cx, r, member, msg):
    """the members of r are exactly the v for which member(v)"""
    L = list(r)
    for i in range(len(L) - 1):
        cx.check(L[i] < L[i + 1], msg + ": members are in ascending order, once each")
    w = cx.int("w " + msg, 0, 20000)
    cx.check(cx.eq(member(w), cx.any([x == w for x in L])), msg + ": exactly the numbers denoted are members")
    return L


def canon(cx, L):
    """reference compressed text of the ascending list L"""
    runs = []
    for v in L:
        if runs and v == runs[-1][-1] + 1:
            runs[-1].append(v)
        else:
            runs.append([v])
    out = []
    for run in runs:
        if len(run) > 2:
            cx.cover("dash")
            out.append(str(run[0]) + "-" + str(run[-1]))
        else:
            out = out + [str(v) for v in run]
    if len(runs) > 1:
        cx.cover("gap")
    return ",".join(out)


def views(cx, r, L):
    n = len(L)
    cx.check(len(r) == n and [r[i] for i in range(n)] == L, "length and indexing agree with iteration")
    cx.check(r.as_list() == L and r.as_list(result_type=int) == L, "as_list gives the members in order")
    cx.check(r.as_list(result_type=str) == [str(v) for v in L], "as_list(str) gives their texts")
    for s in (r.as_set(), r.as_set(result_type=int)):
        cx.check(len(s) == n and all([v in s for v in L]), "as_set gives the members")
    c = r.as_compressed_str()
    cx.check(c == canon(cx, L), "the compressed text writes three or more successive numbers as a range, the others singly")
    q = CiscoRange(c, result_type=int)
    cx.check(list(q) == L and q == r, "the compressed text denotes the same range")
    cx.check(hash(q) == hash(r), "equal ranges have equal hashes")
    cx.check(list(r) == L, "views do not change the range")


def harness(cx, case):
    f = case["f"]
    if f == "empty":
        r = CiscoRange("", result_type=int) if cx.bool("text") else CiscoRange(result_type=int)
        cx.check(list(r) == [] and len(r) == 0 and r.as_list() == [] and r.as_set() == set() and r.as_compressed_str() == "", "the empty range has no members")
        v = cx.int("v", 0, 5000)
        cx.check((v in r) is False, "nothing is in the empty range")
        try:
            r.remove(v)
            cx.check(False, "removing from an empty range raises")
        except (InvalidMember, MismatchedType):
            pass
        r.append(v)
        cx.check(list(r) == [v] and len(CiscoRange(result_type=int)) == 0, "append adds the number to this range alone")
        return
    text, parts = build(cx, case["n"], case["k"] & 3 if f == "pair" else case["k"], case["digits"], case["span"], blanks=f == "blank")
    r = CiscoRange(text, result_type=int)
    L = verify(cx, r, lambda w: within(cx, parts, w), "text")
    for lo, hi in parts:
        cx.cover("single" if case["k"] == 0 else "range")
    if len(parts) > 1 and parts[0][0] <= parts[1][1] and parts[1][0] <= parts[0][1]:
        cx.cover("overlap")
    if f in ("text", "blank"):
        views(cx, r, L)
        v = cx.int("v", 0, 20000)
        cx.check(cx.eq(v in r, within(cx, parts, v)), "membership")
        d = CiscoRange(text, result_type=int, reverse=True).as_list()
        cx.check(d == L[::-1], "a reversed range lists its members in descending order")
        return
    if f == "append":
        v = cx.int("v", 0, 120)
        ignore = cx.bool("ignore")
        try:
            r.append(v, ignore_errors=ignore)
            ok = True
        except DuplicateMember:
            ok = False
        if within(cx, parts, v):
            cx.cover("duplicate")
            cx.check(ok == ignore, "appending a member raises DuplicateMember unless errors are ignored")
            cx.check(list(r) == L, "and leaves the range as it was")
        else:
            cx.cover("appended")
            cx.check(ok, "any other number can be appended")
            M = verify(cx, r, lambda w: cx.any([within(cx, parts, w), w == v]), "append")
            cx.check(r.as_list() == M, "the list view follows")
        return
    if f == "remove":
        v = cx.int("v", 0, 120)
        ignore = cx.bool("ignore")
        try:
            r.remove(v, ignore_errors=ignore)
            ok = True
        except (InvalidMember, MismatchedType):
            ok = False
        if within(cx, parts, v):
            cx.cover("removed")
            cx.check(ok, "a member can be removed")
            M = verify(cx, r, lambda w: cx.all([within(cx, parts, w), w != v]), "remove")
            cx.check(r.as_list() == M, "the list view follows")
        else:
            cx.cover("absent")
            cx.check(ok == ignore, "removing anything else raises unless errors are ignored")
            cx.check(list(r) == L, "and leaves the range as it was")
        return
    if f in ("set", "del"):
        i = cx.choose("i", 7)
        v = cx.int("v", 0, 120)
        try:
            if f == "set":
                r[i] = v
            else:
                del r[i]
            ok = True
        except IndexError:
            ok = False
        cx.check(ok == (i < len(L)), "an index is refused exactly when it is beyond the members")
        M = list(r)
        if not ok:
            cx.check(M == L, "a refused index changes nothing")
        elif f == "set":
            cx.check(M == L[:i] + [v] + L[i + 1:], "assignment replaces the member at the index")
        else:
            cx.check(M == L[:i] + L[i + 1:], "deletion removes the member at the index")
        return
    text2, parts2 = build(cx, 1 + (case["k"] >> 3), case["k"] >> 2 & 1, 1, 2, tag="x")
    s = CiscoRange(text2, result_type=int)
    N = list(s)
    both = r + s
    M = verify(cx, both, lambda w: cx.any([within(cx, parts, w), within(cx, parts2, w)]), "sum")
    views(cx, both, M)
    cx.check(list(r) == L and list(s) == N, "a sum leaves its operands alone")
    diff = r - s
    D = verify(cx, diff, lambda w: cx.all([within(cx, parts, w), cx.eq(within(cx, parts2, w), False)]), "difference")
    if len(D) < len(L):
        cx.cover("shared")
    cx.check(list(r) == L and list(s) == N, "a difference leaves its operands alone")
    cx.check((both == r) == (M == L) and (r == s) == (L == N), "ranges are equal exactly when their members are")
