from ciscoconfparse.ccp_util import IPv6Obj, ip_factory
from props.common import *
from props.i01 import quad

HEX = "0123456789abcdefABCDEF"
META = {
    "bounds": {
        "quick": "every text of 4 characters from '0', 'f', ':', '/', '.', blank and a non-hex letter, alone and inside two longer texts; eight groups with one symbolic group of 0 to 5 hex digits "
                 "(either case) at each of four positions; every number of groups before and after '::' up to 9 in all; embedded IPv4 forms with one octet of 1 to 3 symbolic digits; "
                 "the longest spellings with one symbolic group, with and without embedded IPv4; prefix lengths of 1 to 4 symbolic digits after '/', blank or blanks; accessors with one symbolic 16-bit group at three positions and seven prefix lengths; integers",
        "thorough": "5 free characters; every position of the symbolic group; accessors for every position and 19 prefix lengths",
    },
    "outside": "non-ASCII digits, texts longer than 49 characters, scope identifiers (%eth0)",
    "assumptions": ["the standard library's ipaddress module is executed symbolically too, not modelled"],
    "must_cover": ["accepted", "rejected"],
}


def tasks(tier):
    big = tier == "thorough"
    out = []
    n = 5 if big else 4
    for k, (pre, post) in enumerate([("", ""), ("1:2:", ":8"), ("1:2:3:4:5:6", "")]):
        out.append({"name": "free%d" % k, "f": "free", "n": n if k < 1 else n - 1, "pre": pre, "post": post})
    for p in range(8) if big else (0, 3, 6, 7):
        for m in range(6):
            out.append({"name": "group%d-%d" % (p, m), "f": "group", "at": p, "n": m})
    for a in range(9):
        out.append({"name": "dc%d" % a, "f": "dc", "left": a})
    for m in (1, 2, 3, 4):
        for sep in ("/", " ", "  "):
            out.append({"name": "len%d%s" % (m, sep), "f": "len", "n": m, "sep": sep})
    for k in range(5):
        out.append({"name": "v4-%d" % k, "f": "v4", "k": k})
    for k in range(5):
        out.append({"name": "long%d" % k, "f": "long", "k": k})
    for p in range(8) if big else (0, 4, 7):
        out.append({"name": "access%d" % p, "f": "access", "at": p,
                    "lens": sorted({0, 1, 127, 128} | set(range(16 * p, 16 * p + 17, 1 if big else 8)))})
    for p in range(8) if big else (0, 3, 7):
        out.append({"name": "int%d" % p, "f": "int", "at": p})
    out.append({"name": "factory", "f": "factory"})
    return out


def group(s):
    if not 1 <= len(s) <= 4 or not all([c in HEX for c in s]):
        return None
    return int(s, 16)


def groups(s):
    """list of group values of a colon separated text, or None"""
    if s == "":
        return []
    out = []
    for g in s.split(":"):
        v = group(g)
        if v is None:
            return None
        out.append(v)
    return out


def addr6(s):
    if "." in s:
        if ":" not in s:
            return None
        head, tail = s[:s.rindex(":") + 1], s[s.rindex(":") + 1:]
        v = quad(tail)
        if v is None:
            return None
        s = head + "%x:%x" % (v // 65536, v % 65536)
    if ":::" in s:
        return None
    if "::" in s:
        i = s.index("::")
        a, b = groups(s[:i]), groups(s[i + 2:])
        if a is None or b is None or len(a) + len(b) > 7 or "::" in s[i + 2:]:
            return None
        gs = a + [0] * (8 - len(a) - len(b)) + b
    else:
        gs = groups(s)
        if gs is None or len(gs) != 8:
            return None
    v = 0
    for g in gs:
        v = v * 65536 + g
    return v


def reference(text):
    toks = text.strip().split()
    if len(toks) == 2:
        text = toks[0] + "/" + toks[1]
    elif len(toks) == 1:
        text = toks[0]
    else:
        return None
    n = 128
    if "/" in text:
        a, m = text[:text.index("/")], text[text.index("/") + 1:]
        if m == "" or not all([c in DIGITS for c in m]):
            return None
        n = int(m)
        if n > 128:
            return None
        text = a
    v = addr6(text)
    return None if v is None else (v, n)


def verify(cx, o, v, n):
    size = 1 << (128 - n)
    net = v >> (128 - n) << (128 - n)
    cx.check(o.as_decimal == v, "the address value is the one written")
    cx.check(o.prefixlen == n and o.masklen == n and o.prefixlength == n and o.masklength == n, "the prefix length is the one written")
    cx.check(o.as_decimal_network == net, "the network is the address without its host bits")
    cx.check(o.as_decimal_network_maxint == net + size - 1, "the last address of the network")


def harness(cx, case):
    f = case["f"]
    if f == "int":
        g = cx.int("g", 0, 65535)
        v = (g << (16 * (7 - case["at"]))) + (0x2001 << 80)
        cx.cover("accepted")
        verify(cx, IPv6Obj(v), v, 128)
        return
    if f == "access":
        gs = [0x2001, 0xdb8, 0, 0, 0xa, 0, 0, 0x1f]
        gs[case["at"]] = cx.int("g", 0x10, 65535)
        n = case["lens"][cx.choose("n", len(case["lens"]))]
        v = 0
        for g in gs:
            v = (v << 16) + g
        text = ":".join(["%x" % g for g in gs])
        o = IPv6Obj("%s/%d" % (text, n))
        cx.cover("accepted")
        size = 1 << (128 - n)
        net = v >> (128 - n) << (128 - n)
        verify(cx, o, v, n)
        cx.check(int(o) == v and int(o.ip) == v and int(o.ipv6) == v, "all forms of the address agree")
        cx.check(int(o.netmask) == (1 << 128) - size and int(o.hostmask) == size - 1 and int(o.inverse_netmask) == size - 1, "netmask and host mask have the prefix length")
        cx.check(int(o.network.network_address) == net and o.network.prefixlen == n, "network has the address and length")
        cx.check(o.numhosts == (size - 2 if n <= 126 else size), "numhosts counts the usable addresses")
        cx.check([int(x, 16) for x in o.as_hex_tuple] == gs and all([len(x) == 4 for x in o.as_hex_tuple]), "as_hex_tuple")
        cx.check([int(x, 2) for x in o.as_binary_tuple] == gs and all([len(x) == 16 for x in o.as_binary_tuple]), "as_binary_tuple")
        q = IPv6Obj(o)
        cx.check(q.as_decimal == v and q.prefixlen == n, "a copy has the same address and prefix length")
        q = IPv6Obj(o.as_cidr_addr)
        cx.check(q.as_decimal == v and q.prefixlen == n, "the text form parses to the same address")
        return
    if f == "factory":
        g = cx.int("g", 0, 255)
        stdlib = bool(cx.choose("stdlib", 2))
        k = cx.choose("k", 8)
        text = ["10.1.2.%d", "10.1.2.%d/24", "10.1.2.%d/33", "10.1.%d", "2001:db8::%x", "2001:db8::%x/64", "2001:db8::%x/129", "2001:db8:%x"][k] % g
        mode = ("auto_detect", "ipv4", "ipv6")[cx.choose("mode", 3)]
        try:
            o = ip_factory(text, stdlib=stdlib, mode=mode)
        except ValueError:
            o = None
        good = k in (0, 1) and mode != "ipv6" or k in (4, 5) and mode != "ipv4"
        cx.check((o is not None) == good, "ip_factory accepts the valid addresses of the requested version")
        if not good or o is None:
            cx.cover("rejected")
            return
        cx.cover("accepted")
        v = (10 << 24) + (1 << 16) + (2 << 8) + g if k < 4 else (0x20010db8 << 96) + g
        n = {0: 32, 1: 24, 4: 128, 5: 64}[k]
        h = (32 if k < 4 else 128) - n
        if not stdlib:
            cx.check(type(o).__name__ == ("IPv4Obj" if k < 4 else "IPv6Obj") and o.as_decimal == v and o.prefixlen == n, "the object has the address and prefix length")
        elif k in (0, 4):
            cx.check(o.version == (4 if k < 4 else 6) and int(o) == v, "the stdlib address")
        else:
            cx.check(o.version == (4 if k < 4 else 6) and int(o.network_address) == v >> h << h and o.prefixlen == n, "the stdlib network")
        return
    if f == "free":
        text = case["pre"] + cx.str("t", case["n"], "0f:/. g") + case["post"]
    elif f == "group":
        gs = ["1", "2", "3", "4", "5", "6", "7", "8"]
        gs[case["at"]] = cx.str("g", case["n"], HEX)
        text = ":".join(gs)
    elif f == "dc":
        b = cx.choose("right", 10 - case["left"])
        gs = [cx.str("g", 1, HEX)] + ["b"] * 9
        text = ":".join(gs[:case["left"]]) + "::" + ":".join(gs[case["left"]:case["left"] + b])
    elif f == "len":
        text = "2001:db8::5" + case["sep"] + cx.str("m", case["n"], DIGITS)
    elif f == "long":
        m = cx.str("m", 1 + 2 * cx.choose("mn", 2), DIGITS)
        g = cx.str("g", 4, "7fA")
        text = ["2001:0db8:%s:0000:0000:0000:0000:0001/%s", "  2001:0db8:%s:0000:0000:0000:0000:0001 %s ", "ffff:ffff:ffff:%s:ffff:ffff:255.255.255.255/%s",
                "::%s:255.255.255.255/%s", "%s::ab:1.2.3.4/%s"][case["k"]] % (g, m)
    else:
        q = "10.%s.2.1" % cx.str("q", 1 + cx.choose("qn", 3), DIGITS)
        text = ["::ffff:", "::", "1:2:3:4:5:6:", "1:2:3:4:5:6:7:", "64:ff9b::5:"][case["k"]] + q
    ref = reference(text)
    try:
        o = IPv6Obj(text)
    except (ValueError, NotImplementedError):
        o = None
    cx.check((o is None) == (ref is None), "exactly the valid addresses are accepted, everything else is refused")
    if o is not None and ref is not None:
        cx.cover("accepted")
        verify(cx, o, ref[0], ref[1])
    else:
        cx.cover("rejected")
