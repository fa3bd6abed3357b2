from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj
from ciscoconfparse.errors import RequirementFailure
from props.common import *

META = {
    "bounds": {
        "quick": "IPv4 addresses with the last two octets symbolic (one at a time) and the edges of the address space, integers from -600 to 600 and around the size of the address space; "
                 "IPv6 with a symbolic 16-bit group likewise; every prefix length for the setters; offsets from -3 to past the size of the network",
        "thorough": "symbolic integers over 65536 values, more positions",
    },
    "outside": "network_offset of an address beyond the usable hosts (documented as an error); non-integer operands",
    "assumptions": ["objects are built from text or number, whose parsing is I01 and I02"],
    "must_cover": ["in range", "out of range", "offset refused"],
}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for ver in (4, 6):
        for base in range(4):
            out.append({"name": "add%d-%d" % (ver, base), "f": "add", "ver": ver, "base": base, "rng": 65536 if big else 600})
            out.append({"name": "sub%d-%d" % (ver, base), "f": "sub", "ver": ver, "base": base, "rng": 65536 if big else 600})
        for k in range(3):
            out.append({"name": "set%d-%d" % (ver, k), "f": "set", "ver": ver, "attr": ("prefixlen", "masklen", "masklength")[k]})
        if ver == 4:      # (IPv6Obj.prefixlength is read-only)
            out.append({"name": "set4-3", "f": "set", "ver": ver, "attr": "prefixlength"})
        for n in (0, 1, 2, 4, 8, 12) if big else (0, 1, 2, 8):
            out.append({"name": "off%d-%d" % (ver, n), "f": "off", "ver": ver, "host": n})
    return out


BITS = {4: 32, 6: 128}
CLS = {4: IPv4Obj, 6: IPv6Obj}


def harness(cx, case):
    f, ver = case["f"], case["ver"]
    bits, cls = BITS[ver], CLS[ver]
    top = (1 << bits) - 1
    if f in ("add", "sub"):
        # bases: inside, at the bottom, at the top, the whole space away
        d = cx.int("d", 0, 255)
        v = [(10 << (bits - 8)) + 40000, 0, top - 255, 256][case["base"]] + d
        k = cx.int("k", -case["rng"], case["rng"])
        if case["base"] == 3:
            k = k + (1 << bits) if f == "add" else k - (1 << bits)
        a = cls(v)
        n = (24, 8, 31, 0)[cx.choose("n", 4)]
        a.prefixlen = n
        want = v + k if f == "add" else v - k
        try:
            b = a + k if f == "add" else a - k
        except RequirementFailure:
            b = None
        ok = cx.all([want >= 0, want <= top])
        cx.check(cx.eq(ok, b is not None), "arithmetic fails exactly when the result is no address")
        cx.check(a.as_decimal == v and a.prefixlen == n, "arithmetic leaves the operand alone")
        if b is None:
            cx.cover("out of range")
            return
        cx.cover("in range")
        cx.check(type(b) is cls and b.as_decimal == want, "adding moves the address by the number")
        cx.check(b.prefixlen == n and b.as_decimal_network == want >> (bits - n) << (bits - n), "the prefix length stays")
        return
    if f == "set":
        d = cx.int("d", 0, 255)
        v = (10 << (bits - 8)) + (d << (bits - 16)) + (d << 8) + 77
        a = cls(v)
        n = cx.choose("n", bits + 1) if ver == 4 else (0, 1, 7, 8, 9, 16, 20, 33, 48, 63, 64, 96, 113, 120, 127, 128)[cx.choose("n", 16)]
        setattr(a, case["attr"], n)
        cx.cover("in range")
        cx.check(a.as_decimal == v, "setting the prefix length keeps the address")
        cx.check(a.prefixlen == n and a.masklen == n and a.prefixlength == n and a.masklength == n, "every name of the prefix length sees the new one")
        h = bits - n
        cx.check(a.as_decimal_network == v >> h << h, "the network follows the prefix length")
        cx.check(a == cls("%s/%d" % (a.ip, n)), "the object equals one written with that length")
        return
    h = case["host"]
    g = cx.int("g", 0, (1 << h) - 1)
    net = (10 << (bits - 8)) + (5 << 12)
    a = cls(net + g)
    a.prefixlen = bits - h
    size = 1 << h
    hosts = size - 2 if h >= 2 else size
    if g <= hosts:
        cx.check(a.network_offset == g, "the offset is the distance from the network address")
    k = cx.int("k", -3, size + 2)
    try:
        a.network_offset = k
        done = True
    except ValueError:
        done = False
    ok = cx.all([k >= 0, k < size])
    cx.check(cx.eq(ok, done), "an offset is refused exactly when it lies outside the network")
    if done:
        cx.cover("in range")
        cx.check(a.as_decimal == net + k and a.prefixlen == bits - h and a.as_decimal_network == net, "setting the offset moves the address within its network")
    else:
        cx.cover("offset refused")
        cx.check(a.as_decimal == net + g, "a refused offset leaves the address alone")
