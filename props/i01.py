from ciscoconfparse.ccp_util import IPv4Obj, ip_factory
from props.common import *

META = {
    "bounds": {
        "quick": "dotted quads whose octets have 1 to 4 symbolic digits (five length combinations), with no mask, a prefix length of 1 to 3 symbolic digits, or a dotted mask with "
                 "one octet of 1 or 3 symbolic digits at each position, separated by '/', blanks or both; 3 arbitrary characters after a partial address; any 32-bit "
                 "integer; all accessors for an address with two symbolic octets and every prefix length",
        "thorough": "longer symbolic parts: three symbolic octets, masks with two symbolic octets, 4 arbitrary characters",
    },
    "outside": "non-ASCII digits, other combinations of octet lengths",
    "assumptions": ["the standard library's ipaddress module is executed symbolically too, not modelled"],
    "must_cover": ["accepted", "rejected"],
}


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k, lens in enumerate([[3, 1, 1, 1], [1, 3, 1, 1], [1, 1, 2, 2], [1, 1, 1, 4], [2, 1, 1, 3]] + ([[3, 3, 1, 1], [3, 2, 2, 1]] if big else [])):
        out.append({"name": "plain%d" % k, "f": "p", "lens": lens})
    for n in (1, 2, 3):
        out.append({"name": "len%d" % n, "f": "len", "lens": [1, 0, 0, 2], "m": n, "dom": DIGITS})
    for p in range(4):
        for n in (1, 3):
            for sep in ("/", " ") if n == 3 else ("  ",):
                out.append({"name": "mask%d-%d%s" % (p, n, sep), "f": "mask", "at": p, "n": n, "sep": sep})
    if big:
        for p in range(3):
            out.append({"name": "mask2-%d" % p, "f": "mask2", "at": p})
    out.append({"name": "junk", "f": "junk", "n": 4 if big else 3, "pre": "1.2.3"})
    out.append({"name": "junk-mask", "f": "junk", "n": 3, "pre": "1.2.3.4"})
    out.append({"name": "junk-front", "f": "junk", "n": 2, "pre": "", "post": ".2.3.4/24"})
    out.append({"name": "int", "f": "int"})
    for p in range(4):
        out.append({"name": "access%d" % p, "f": "access", "at": [p]})
    if big:
        for p in range(3):
            out.append({"name": "access%d%d" % (p, p + 1), "f": "access", "at": [p, p + 1]})
    return out


def octet(s):
    """value of a decimal octet or None"""
    if len(s) == 0 or len(s) > 3:
        return None
    if not all([c in DIGITS for c in s]):
        return None
    if len(s) > 1 and s[0] == "0":
        return None
    v = int(s)
    if v > 255:
        return None
    return v


def quad(s):
    parts = s.split(".")
    if len(parts) != 4:
        return None
    v = 0
    for p in parts:
        o = octet(p)
        if o is None:
            return None
        v = v * 256 + o
    return v


def mask_len(v):
    """prefix length of a netmask or a host mask (wildcard), None for anything else"""
    for n in range(33):
        if v == 2 ** 32 - 2 ** (32 - n):
            return n
    for n in range(1, 32):
        if v == 2 ** (32 - n) - 1:
            return n
    return None


def reference(text):
    """(address, prefix length) or None"""
    text = text.strip()
    if "/" in text:
        a, b = text.split("/")[0], "/".join(text.split("/")[1:])
        if b != "" and all([c in DIGITS for c in b]):
            v = quad(a)
            if v is None or int(b) > 32:
                return None
            return (v, int(b))
    elif " " in text:
        a, b = text.split()[0], " ".join(text.split()[1:])
    else:
        v = quad(text)
        return None if v is None else (v, 32)
    v, m = quad(a), quad(b)
    if v is None or m is None:
        return None
    n = mask_len(m)
    return None if n is None else (v, n)


def verify(cx, o, v, n):
    size = 2 ** (32 - n)
    net = v - v % size
    cx.check(o.as_decimal == v, "the address value is the one written")
    cx.check(o.prefixlen == n and o.masklen == n and o.prefixlength == n and o.masklength == n, "the prefix length is the one written")
    cx.check(o.as_decimal_network == net, "the network is the address without its host bits")
    cx.check(o.as_decimal_broadcast == net + size - 1, "the broadcast address is the last of the network")


def dotted(v):
    return ".".join([str(v // 2 ** k % 256) for k in (24, 16, 8, 0)])


def harness(cx, case):
    f = case["f"]
    if f == "int":
        v = cx.int("v", 0, 2 ** 32 - 1)
        cx.cover("accepted")
        verify(cx, IPv4Obj(v), v, 32)
        return
    if f == "access":
        oc = [10, 37, 130, 255]
        for p in case["at"]:
            oc[p] = cx.int("o%d" % p, 0, 255)
        n = cx.choose("n", 33)
        cx.cover("accepted")
        v = oc[0] * 2 ** 24 + oc[1] * 2 ** 16 + oc[2] * 256 + oc[3]
        o = IPv4Obj("%d.%d.%d.%d/%d" % (oc[0], oc[1], oc[2], oc[3], n))
        size = 2 ** (32 - n)
        net = v - v % size
        cx.observe([o.as_decimal, o.prefixlen])
        verify(cx, o, v, n)
        cx.check(int(o) == v and o.as_int == v and int(o.ip) == v and int(o.ipv4) == v, "all forms of the address agree")
        cx.check(int(o.netmask) == 2 ** 32 - size, "the netmask has the prefix length")
        cx.check(int(o.hostmask) == size - 1 and int(o.inverse_netmask) == size - 1, "the host mask is the inverse of the netmask")
        cx.check(int(o.network.network_address) == net and o.network.prefixlen == n, "network has the address and length")
        cx.check(int(o.broadcast) == net + size - 1, "broadcast")
        cx.check(o.numhosts == (size - 2 if n <= 30 else size), "numhosts counts the usable addresses")
        cx.check(cx.eq(o.as_cidr_addr, dotted(v) + "/" + str(n)), "as_cidr_addr")
        cx.check(cx.eq(o.as_cidr_net, dotted(net) + "/" + str(n)), "as_cidr_net")
        cx.check(cx.eq(o.as_zeropadded, ".".join([("00" + str(x))[-3:] for x in oc])), "as_zeropadded")
        cx.check([int(x, 2) for x in o.as_binary_tuple] == oc and all([len(x) == 8 for x in o.as_binary_tuple]), "as_binary_tuple")
        cx.check([int(x, 16) for x in o.as_hex_tuple] == oc and all([len(x) == 2 for x in o.as_hex_tuple]), "as_hex_tuple")
        cx.check(int(o.as_hex, 16) == v, "as_hex")
        q = IPv4Obj(o)
        cx.check(q.as_decimal == v and q.prefixlen == n, "a copy has the same address and prefix length")
        q = IPv4Obj(o.as_cidr_addr)
        cx.check(q.as_decimal == v and q.prefixlen == n, "the text form parses to the same address")
        return
    if f == "p":
        text = ".".join([cx.str("o%d" % i, n, DIGITS) for i, n in enumerate(case["lens"])])
    elif f == "len":
        text = ".".join([cx.str("o%d" % i, n, DIGITS) if n else "20" for i, n in enumerate(case["lens"])]) + "/" + cx.str("m", case["m"], DIGITS)
    elif f == "mask":
        at = case["at"]
        m = ["255"] * at + [cx.str("m", case["n"], DIGITS)] + [("0", "255")[cx.choose("rest", 2)]] * (3 - at)
        if cx.choose("host", 2):
            m = ["0"] * at + m[at:]
        text = "10.1.2." + cx.str("o", 1, DIGITS) + case["sep"] + ".".join(m)
    elif f == "mask2":
        at = case["at"]
        m = ["255"] * at + [cx.str("m", 3, DIGITS), cx.str("k", 3, DIGITS)] + ["0"] * (2 - at)
        text = "10.1.2.3 " + ".".join(m)
    else:
        text = case["pre"] + cx.str("j", case["n"], PRINT) + case.get("post", "")
    ref = reference(text)
    try:
        o = IPv4Obj(text)
    except ValueError:
        o = None
    cx.check((o is None) == (ref is None), "exactly the valid addresses are accepted, everything else is refused with a ValueError")
    if o is not None and ref is not None:
        cx.cover("accepted")
        verify(cx, o, ref[0], ref[1])
    else:
        cx.cover("rejected")
