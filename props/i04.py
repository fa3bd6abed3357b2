from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj, collapse_addresses
from props.common import *

META = {
    "bounds": {
        "quick": "lists of 1 to 3 networks (with host bits set; 3 only at the ends of the IPv4 length range and the start of the IPv6 one, with two lengths and no host bits), IPv4 and IPv6, prefix lengths from three or four successive values anywhere (0-3, 15-17, 29-32; 0-2, 63-65, 126-128), "
                 "addresses with 3 to 5 symbolic bits at those lengths and symbolic host bits",
        "thorough": "4 networks, wider length windows, one more symbolic bit",
    },
    "outside": "more networks, lists mixing versions (refused by ipaddress), networks whose lengths differ by more than the window",
    "assumptions": [],
    "must_cover": ["merged", "contained", "kept", "equal"],
}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for v, wins in ((4, ((0, 3), (15, 17), (29, 32))), (6, ((0, 2), (63, 65), (126, 128)))):
        for lo, hi in wins:
            for n in (1, 2, 3, 4) if big else (1, 2, 3):
                if n == 3 and not big and lo in (15, 63, 126):
                    continue
                out.append({"name": "v%d.%d.%d" % (v, lo, n), "v": v, "lo": max(lo, hi - 1) if n == 3 and not big else lo, "hi": hi, "n": n})
    for v in (4, 6):
        out.append({"name": "stdlib%d" % v, "v": v, "lo": 30, "hi": 32, "n": 2, "std": 1})
    return out


def harness(cx, case):
    v, lo, hi, n = case["v"], case["lo"], case["hi"], case["n"]
    W = 32 if v == 4 else 128
    cls = IPv4Obj if v == 4 else IPv6Obj
    # bits that vary: from two above the shortest length to the longest, plus one host bit
    top = max(0, lo - 2)
    free = min(W, hi + (n < 3))
    const = (0xC0A85A3C if v == 4 else 0x20010DB85A3C00FFFE00C3A5965A3C96)
    keep = ((1 << top) - 1) << (W - top) if top else 0
    nets, objs = [], []
    for i in range(n):
        bits = cx.int("bits%d" % i, 0, (1 << (free - top)) - 1)
        val = (const & keep) + bits * (1 << (W - free))
        plen = lo + cx.choose("len%d" % i, hi - lo + 1)
        o = cls(val)
        o.prefixlen = plen
        size = 1 << (W - plen)
        # network address: the address without its host bits
        host = bits % (1 << (free - plen)) if free > plen else 0
        first = val - host * (1 << (W - free))
        nets.append((first, size))
        objs.append(o.network if case.get("std") and i == 0 else o)
    before = [str(o) for o in objs] if n == 1 else None
    out = list(collapse_addresses(objs))
    got = [(int(x.network_address), 1 << (W - x.prefixlen)) for x in out]
    cx.check(before is None or [str(o) for o in objs] == before, "the objects given are unchanged")
    cx.check(all([x.version == v for x in out]), "the results are networks of the same version")
    w = cx.int("w", 0, (1 << (free - top)) - 1)
    addr = (const & keep) + w * (1 << (W - free))
    cx.check(cx.eq(cx.any([cx.all([a <= addr, addr < a + s]) for a, s in nets]), cx.any([cx.all([a <= addr, addr < a + s]) for a, s in got])), "the results cover exactly the addresses of the networks given")
    base = const & keep
    for a, s in got:
        cx.check(cx.all([base <= a, a + s <= base + (1 << (W - top))]), "the results do not reach beyond the networks given")
    for i in range(len(got) - 1):
        (a, s), (b, t) = got[i], got[i + 1]
        cx.check(a + s <= b, "the results are disjoint and in ascending order")
        if s == t and a + s == b:
            cx.check(b % (2 * s) == 0 if s < (1 << (W - 1)) else False, "no two results could be merged into one network")
    if len(got) < n:
        if n == 2:
            (a, s), (b, t) = nets
            if s == t and a == b:
                cx.cover("equal")
            elif s == t:
                cx.cover("merged")
            else:
                cx.cover("contained")
    elif n > 1:
        cx.cover("kept")
