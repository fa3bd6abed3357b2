from ciscoconfparse.ccp_util import CiscoIOSInterface
from props.common import *

LET = "aEg-"
META = {
    "bounds": {
        "quick": "names of every shape (1 to 3 slashed numbers, with or without subinterface, channel and interface class, with or without a blank after the prefix), numbers of 1 to 3 symbolic "
                 "digits (at most two symbolic numbers per name, each position), one number of 5 digits in eight of the shapes, prefixes of 3 symbolic characters (letters and '-'); for every shape each component set to any symbolic value; "
                 "pairs of names of any two shapes differing in any one or two one-digit components, in the prefix or class",
        "thorough": "all numbers symbolic, one number of 5 or 10 digits, prefixes of 4 characters, three symbolic digits",
    },
    "outside": "names with more than three slashed numbers (the class models slot/card/port only), malformed names, separators other than '/', CiscoIOSXRInterface (its source says it is a broken placeholder)",
    "assumptions": [],
    "must_cover": ["slot", "card", "subinterface", "channel", "class", "equal", "before", "after"],
}
PARTS = ("slot", "card", "port", "subinterface", "channel")
SHAPES = [s for s in range(3 * 2 * 2 * 2)]


def shape_of(k):
    """(which parts exist, interface class exists)"""
    n = k % 3
    parts = {0: ["port"], 1: ["slot", "port"], 2: ["slot", "card", "port"]}[n]
    if k // 3 % 2:
        parts = parts + ["subinterface"]
    if k // 6 % 2:
        parts = parts + ["channel"]
    return parts, k // 12 % 2 == 1


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k in SHAPES:
        out.append({"name": "parse%d" % k, "f": "parse", "k": k, "digits": [1, 2] if not big else [1, 2, 3], "sym": 2 if not big else 5})
        out.append({"name": "set%d" % k, "f": "set", "k": k})
        if big or k % 3 == k // 3 % 3:
            out.append({"name": "long%d" % k, "f": "parse", "k": k, "digits": [5, 10] if big else [5], "sym": 1})
    for n in (1, 3, 4) if big else (1, 3):
        out.append({"name": "prefix%d" % n, "f": "prefix", "n": n})
    out.append({"name": "noprefix", "f": "prefix", "n": 0})
    for k in SHAPES:
        out.append({"name": "pair%d" % k, "f": "pair", "k": k, "others": SHAPES if big else [j for j in SHAPES if bin(j ^ k).count("1") <= 1 or j % 3 != k % 3 and j // 3 == k // 3]})
    return out


def write(vals, cls, sep=""):
    """text of the numbers and interface class"""
    t = "/".join([vals[p] for p in ("slot", "card", "port") if p in vals])
    if "subinterface" in vals:
        t = t + "." + vals["subinterface"]
    if "channel" in vals:
        t = t + ":" + vals["channel"]
    return t + (" " + cls if cls is not None else "")


def verify(cx, o, prefix, vals, cls):
    nums = {p: (int(vals[p]) if p in vals else None) for p in PARTS}
    cx.check(o.prefix == prefix, "the prefix is the text before the numbers, without blanks")
    for p in PARTS:
        v = getattr(o, p)
        if nums[p] is None:
            cx.check(v is None, "absent components are None")
        else:
            cx.cover(p)
            cx.check(v is not None and v == nums[p], "every component is the number written")
    cx.check(o.interface_class == cls, "the interface class is the word after the numbers")
    if cls is not None:
        cx.cover("class")
    d = {p: str(nums[p]) for p in PARTS if nums[p] is not None}
    num = "/".join([d[p] for p in ("slot", "card", "port") if p in d])
    rest = write(d, cls)
    cx.check(o.number == num, "number is the slashed part")
    cx.check(o.number_list == [nums["slot"], nums["card"], nums["port"]], "number_list is slot, card, port")
    cx.check(o.slot_card_port_subinterface_channel == rest, "the number part of the name")
    text = str(o)
    cx.check(text == prefix + rest and o.name == text and o.render_as_string() == text, "the name is rendered from its components")
    cx.check(o.sort_list == [nums[p] for p in PARTS] + [cls], "sort_list holds the components in order")
    dd = o.as_dict()
    cx.check(dd["prefix"] == prefix and all([dd[p] == nums[p] for p in PARTS]) and dd["interface_class"] == cls, "as_dict holds the components")
    return text


def same(a, b):
    return a.prefix == b.prefix and all([getattr(a, p) == getattr(b, p) for p in PARTS]) and a.interface_class == b.interface_class


def harness(cx, case):
    f = case["f"]
    if f == "prefix":
        first = cx.str("p0", 1, LET.replace("-", "")) if case["n"] else ""
        prefix = first + (cx.str("p", case["n"] - 1, LET) if case["n"] > 1 else "")
        blank = (" ", "  ", "")[cx.choose("blank", 3)] if case["n"] else ""
        k = cx.choose("shape", 24)
        parts, has = shape_of(k)
        vals = {p: str(7 + len(p)) for p in parts}
        cls = "point-to-point" if has else None
        for o in (CiscoIOSInterface(prefix + blank + write(vals, cls)), CiscoIOSInterface(interface_name=" " + prefix + write(vals, cls) + " ")):
            verify(cx, o, prefix, vals, cls)
        return
    parts, has = shape_of(case["k"])
    if f == "parse":
        a, b = 0, 0
        sym = parts
        if case["sym"] < len(parts):
            at = cx.choose("at", len(parts))
            sym = [parts[at], parts[at - 1]][:case["sym"]]
        n = case["digits"][cx.choose("n", len(case["digits"]))]
        vals = {p: (cx.str(p[:2], n, DIGITS) if p in sym else "4") for p in parts}
        cls = ("multipoint", "l2transport", "point-to-point")[cx.choose("cls", 2) * 2] if has else None
        blank = (" ", "")[cx.choose("blank", 2)]
        o = CiscoIOSInterface("Serial" + blank + write(vals, cls))
        text = verify(cx, o, "Serial", vals, cls)
        for q in (CiscoIOSInterface(text), CiscoIOSInterface(interface_dict=o.as_dict()), CiscoIOSInterface(o), o.from_dict(o.as_dict())):
            cx.check(same(o, q) and q == o and not (q != o) and str(q) == text, "the rendered name, the dict and the object give an equal interface")
        return
    if f == "set":
        vals = {p: str(3 + i) for i, p in enumerate(parts)}
        cls = "multipoint" if has else None
        o = CiscoIOSInterface("Serial" + write(vals, cls))
        p = (parts + ["prefix", "class"])[cx.choose("part", len(parts) + 2)]
        if p == "prefix":
            v = cx.str("p", 2, "aZ")
            o.prefix = v
            verify(cx, o, v, vals, cls)
        elif p == "class":
            cls = ("multipoint", "point-to-point", None)[cx.choose("v", 3)]
            o.interface_class = cls
            verify(cx, o, "Serial", vals, cls)
        else:
            v = cx.int("v", 0, 5000)
            setattr(o, p, v)
            vals[p] = str(v)
            verify(cx, o, "Serial", vals, cls)
        return
    vals = {p: "4" for p in parts}
    j = case["others"][cx.choose("other", len(case["others"]))]
    parts2, has2 = shape_of(j)
    vals2 = {p: "4" for p in parts2}
    p = parts[cx.choose("p", len(parts))]
    q = parts2[cx.choose("q", len(parts2))]
    vals[p] = cx.str("a", 1, DIGITS)
    vals2[q] = cx.str("b", 1, DIGITS)
    pre = ("Serial", "ATM")[cx.choose("prefix", 2)]
    cls = "multipoint" if has else None
    cls2 = ("multipoint", "point-to-point")[cx.choose("cls", 2)] if has2 else None
    a = CiscoIOSInterface("Serial" + write(vals, cls))
    b = CiscoIOSInterface(pre + write(vals2, cls2))
    na = [(int(vals[x]) if x in vals else -1) for x in PARTS]
    nb = [(int(vals2[x]) if x in vals2 else -1) for x in PARTS]
    eq = cx.all([na[i] == nb[i] for i in range(5)] + [cls == cls2, pre == "Serial"])
    r = a == b
    cx.check(cx.eq(r, eq), "two interfaces are equal exactly when prefix and every component are equal")
    cx.check(cx.eq(b == a, eq) and cx.eq(a != b, cx.eq(eq, False)), "equality is symmetric and != its opposite")
    if r:
        cx.cover("equal")
        cx.check(hash(a) == hash(b), "equal interfaces have equal hashes")
    lt = cx.any([cx.all([na[i] == nb[i] for i in range(n)] + [na[n] < nb[n]]) for n in range(5)])
    samenum = cx.all([na[i] == nb[i] for i in range(5)])
    if cls != cls2 and samenum:
        # the interface class decides last: none before any
        lt = cls is None or (cls2 is not None and cls < cls2)
    l, g = a < b, a > b
    cx.check(cx.eq(l, lt), "interfaces are ordered by their numbers in order, a missing number first")
    cx.check(cx.eq(b > a, l) and cx.eq(b < a, g), "the order is the same from both sides")
    cx.check(not (l and g), "the order is strict")
    if l:
        cx.cover("before")
    if g:
        cx.cover("after")
