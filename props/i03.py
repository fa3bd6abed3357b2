from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj
from props.common import *

META = {
    "bounds": {
        "quick": "every pair of IPv4 addresses that agree except in one octet (each position, all 256x256 values) with any two prefix lengths, also with a second differing octet; "
                 "every pair of IPv6 addresses that agree except in one 16-bit group (four positions) with any prefix length in three ranges; every address equal to itself built twice; "
                 "IPv4 against IPv6, empty objects, and other types",
        "thorough": "IPv4 with two symbolic octets and IPv6 with two symbolic groups, on both sides",
    },
    "outside": "ordering between IPv4 and IPv6",
    "assumptions": ["objects are built from text, whose parsing is I01 and I02", "hash values are compared as the tokens of the hashed values"],
    "must_cover": ["equal", "before", "after", "contains", "not contained"],
}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for op in ("eq", "order", "contain"):
        for p in range(4):
            # any two lengths; the lengths that cut the symbolic octet
            if big or p in (1, 3):
                out.append({"name": "%s-v4-%d-any" % (op, p), "op": op, "ver": 4, "a": [p], "b": [p], "rng": [100, 255], "len": [0, 32]})
            out.append({"name": "%s-v4-%d-cut" % (op, p), "op": op, "ver": 4, "a": [p], "b": [p], "rng": [0 if big else 100, 255], "len": [8 * p, 8 * p + 8]})
        out.append({"name": "%s-v4-13" % op, "op": op, "ver": 4, "a": [1], "b": [3], "rng": [100, 255], "len": [12, 20]})
        for p in range(8) if big else (3, 7):
            lens = sorted({0, 128} | set(range(16 * p, 16 * p + 17) if big else [16 * p + 4, 16 * p + 15, 16 * p + 16]))
            out.append({"name": "%s-v6-%d" % (op, p), "op": op, "ver": 6, "a": [p], "b": [p], "rng": [0x1000, 0xffff], "lens": lens})
        out.append({"name": "%s-v6-5" % op, "op": op, "ver": 6, "a": [5], "b": [5], "rng": [0, 0xffff], "lens": [64, 96]})
        if big:
            for p, q in ((0, 1), (1, 2), (2, 3), (0, 3)):
                out.append({"name": "%s-v4-%d%d" % (op, p, q), "op": op, "ver": 4, "a": [p, q], "b": [p, q], "rng": [0, 255], "len": [0, 32]})
    out.append({"name": "cross", "op": "cross"})
    out.append({"name": "empty", "op": "empty"})
    return out


BASE = {4: [10, 20, 200, 7], 6: [0x2001, 0xdb8, 0, 0x12, 0, 0, 0, 0x1a]}


def address(cx, name, case, which):
    """(object, address value, prefix length)"""
    ver = case["ver"]
    parts = list(BASE[ver])
    bits = 8 if ver == 4 else 16
    for p in case[which]:
        parts[p] = cx.int("%s%d" % (name, p), *case["rng"])
    v = 0
    for x in parts:
        v = v * 2 ** bits + x
    n = cx.int(name + "n", *case["len"]) if "len" in case else case["lens"][cx.choose(name + "n", len(case["lens"]))]
    if ver == 4:
        return IPv4Obj("%d.%d.%d.%d/%d" % (parts[0], parts[1], parts[2], parts[3], n)), v, n
    return IPv6Obj("%s/%d" % (":".join(["%04x" % x for x in parts]), n)), v, n


def harness(cx, case):
    f = case["op"]
    if f == "empty":
        k = cx.choose("k", 5)
        v = cx.int("v", 100, 255)
        o4, o6 = IPv4Obj(), IPv6Obj()
        other = [IPv4Obj("10.0.0.%d" % v), IPv6Obj("::%x" % v), "x", None, 17][k]
        cx.check(o4 == IPv4Obj() and o6 == IPv6Obj() and not (o4 != IPv4Obj()) and not (o6 != IPv6Obj()), "empty address objects are equal")
        cx.check(hash(o4) == hash(IPv4Obj()) and hash(o6) == hash(IPv6Obj()), "equal objects have equal hashes")
        cx.check(not (o4 == other) and o4 != other and not (o6 == other) and o6 != other, "an empty address object differs from anything else")
        full = (IPv4Obj("10.0.0.%d" % v), IPv6Obj("::%x" % v))[cx.choose("full", 2)]
        if k > 1:
            cx.check(not (full == other) and full != other, "an address differs from an object of another type")
        cx.check(not (full == o4) and not (full == o6) and full != o4 and full != o6, "an address differs from an empty address object")
        return
    if f == "cross":
        v = cx.int("v", 0, 255)
        n = cx.choose("n", 33)
        a, b = IPv4Obj("0.0.0.%d/%d" % (v, n)), IPv6Obj("::%x/%d" % (v, n))
        cx.check(not (a == b) and not (b == a) and a != b and b != a, "an IPv4 address is never equal to an IPv6 address")
        return
    bits = 32 if case["ver"] == 4 else 128
    a, va, na = address(cx, "a", case, "a")
    b, vb, nb = address(cx, "b", case, "b")
    ha, hb = bits - na, bits - nb
    neta, netb = va >> ha << ha, vb >> hb << hb
    same = cx.all([va == vb, na == nb])
    if f == "eq":
        eq = a == b
        cx.check(cx.eq(eq, same), "two addresses are equal exactly when address and prefix length are equal")
        cx.check(cx.eq(b == a, same), "equality is symmetric")
        cx.check(cx.eq(a != b, cx.eq(same, False)), "unequal is the opposite of equal")
        if eq:
            cx.cover("equal")
            cx.check(hash(a) == hash(b), "equal addresses have equal hashes")
    elif f == "order":
        before = cx.any([neta < netb, cx.all([neta == netb, na < nb]), cx.all([neta == netb, na == nb, va < vb])])
        lt = a < b
        cx.check(cx.eq(lt, before), "addresses are ordered by network, then prefix length, then address")
        gt = a > b
        cx.check(cx.eq(gt, cx.all([cx.eq(before, False), cx.eq(same, False)])), "exactly one of before, equal, after holds")
        cx.check(cx.eq(b > a, lt), "the order is the same from both sides")
        if lt:
            cx.cover("before")
        if gt:
            cx.cover("after")
    else:
        inside = cx.all([na <= nb, vb >> ha == va >> ha])
        c = b in a
        cx.check(cx.eq(c, inside), "a network contains another exactly when all addresses of the other are in it")
        cx.cover("contains" if c else "not contained")
