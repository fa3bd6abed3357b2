from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ccp_util import IPv4Obj
from props.common import *

META = {
    "bounds": {
        "quick": "one interface with every mixture of up to 3 lines out of: static address, secondary address, dhcp, negotiated, 'no ip address', a description and a second "
                 "interface after it; addresses with one symbolic octet of 1-2 digits, 5 masks; description text of 2 symbolic characters after an address-like prefix; "
                 "IPv6: every pair of the same kinds with a symbolic hexadecimal digit; subnets with a symbolic octet and 4 prefix lengths",
        "thorough": "4 address lines, octets of 3 digits",
    },
    "outside": "several primary addresses on one interface, invalid addresses, general prefixes, 'ip unnumbered'",
    "assumptions": ["address commands are valid"],
    "must_cover": ["secondary first", "dhcp", "ipv6"],
}

KIND4 = ["primary", "secondary", "dhcp", "negotiated", "none", "description", "mtu"]
MASK4 = [("255.255.255.0", 24), ("255.255.255.252", 30), ("255.255.255.255", 32), ("255.0.0.0", 8), ("255.255.254.0", 23)]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for k in range(len(KIND4)):
        out.append({"name": "v4-" + KIND4[k], "mode": "v4", "first": k, "n": 4 if big else 3, "L": 3 if big else 2, "factory": True})
    for pre in (0, 8, 24, 30):
        out.append({"name": "subnet%d" % pre, "mode": "subnet", "pre": pre, "L": 3 if big else 2})
    out.append({"name": "subnets", "mode": "subnets", "L": 2 if big else 1})
    out.append({"name": "v6", "mode": "v6", "n": 3 if big else 2})
    return out


def octet_of(cx, name, n):
    t = cx.str(name, n, DIGITS)
    if n > 1:
        cx.assume(t[0] != "0")
    if n > 2:
        cx.assume(int(t) < 256)
    return t


def harness(cx, case):
    mode = case["mode"]
    if mode == "v4":
        n = case["n"]
        lines = ["hostname r", "interface Gi1/1"]
        prim = None
        secs = []
        dyn = ""
        static = ""
        for i in range(n):
            k = case["first"] if i == 0 else cx.choose("k%d" % i, len(KIND4))
            kind = KIND4[k]
            if kind == "primary":
                if prim is not None or dyn != "":
                    cx.assume(False)
                a = octet_of(cx, "a%d" % i, case["L"])
                m, ml = MASK4[(i + 2 * k) % 5] if i else MASK4[cx.choose("m%d" % i, 5)]
                prim = ("10.1." + a + ".9", m, ml, (10 * 256 + 1) * 65536 + int(a) * 256 + 9)
                lines.append(" ip address " + prim[0] + " " + m)
            elif kind == "secondary":
                a = octet_of(cx, "s%d" % i, 1)
                m, ml = MASK4[i % 5]
                secs.append(("172.16.%d" % i + "." + a, ml))
                if prim is None:
                    cx.cover("secondary first")
                lines.append(" ip address 172.16.%d" % i + "." + a + " " + m + " secondary")
            elif kind == "dhcp" or kind == "negotiated":
                if prim is not None or dyn != "":
                    cx.assume(False)
                dyn = kind
                cx.cover("dhcp")
                lines.append(" ip address " + kind)
            elif kind == "none":
                if prim is not None or dyn != "" or secs:
                    cx.assume(False)
                dyn = "none"
                lines.append(" no ip address")
            elif kind == "description":
                lines.append(" description ip address 1.2.3.4 255.0.0.0" + cx.str("d%d" % i, 2, PRINT))
            else:
                lines.append(" mtu 1500")
        if secs and dyn != "":
            cx.assume(False)
        lines.append("interface Gi1/2")
        lines.append(" ip address 192.168.1.1 255.255.0.0")
        lines.append(" ip address 192.169.1.1 255.255.0.0 secondary")
        p = CiscoConfParse(lines, syntax="ios", factory=True)
        o = list(p.objs)[1]
        cx.check(o.classname == "IOSIntfLine", "an interface is an IOSIntfLine")
        want = prim if prim is not None else ("", "", 0, 0)
        cx.check(o.ipv4_addr == want[0], "ipv4_addr is the static primary address or ''")
        cx.check(o.ip_addr == want[0], "ip_addr")
        cx.check(o.ipv4_netmask == want[1], "ipv4_netmask belongs to the primary address")
        cx.check(o.ipv4_masklength == want[2], "ipv4_masklength belongs to the primary address")
        cx.check(o.has_no_ipv4 == (prim is None), "has_no_ipv4: there is no static address")
        for obj in (o.ipv4_addr_object, o.ip, o.ipv4):
            if prim is None:
                cx.check(obj.empty is True, "without a static address the object is empty")
            else:
                cx.check(obj.as_decimal == want[3], "the address object is the primary address")
                cx.check(obj.prefixlen == want[2], "the address object has the primary mask")
        for obj in (o.ip_network_object, o.ipv4_network_object):
            if prim is None:
                cx.check(obj.empty is True, "without a static address the subnet object is empty")
            else:
                size = 2 ** (32 - want[2])
                cx.check(obj.as_decimal_network == want[3] // size * size, "the subnet object is the subnet of the primary address")
                cx.check(obj.prefixlen == want[2], "subnet object mask length")
        cx.check(o.has_ip_secondary == (len(secs) > 0), "has_ip_secondary")
        cx.check(o.ip_secondary_addresses == set([a for a, ml in secs]), "ip_secondary_addresses are the secondary addresses of this interface")
        cx.check(o.ip_secondary_networks == set([a + "/%d" % ml for a, ml in secs]), "ip_secondary_networks")
    elif mode == "subnet" or mode == "subnets":
        a = octet_of(cx, "a", case["L"])
        m, ml = MASK4[cx.choose("m", 5)]
        addr = (10 * 256 + 1) * 65536 + int(a) * 256 + 9
        lines = ["interface Gi1/1", " ip address 172.16.1.1 255.255.0.0 secondary", " ip address 10.1." + a + ".9 " + m]
        p = CiscoConfParse(lines, syntax="ios", factory=True)
        o = list(p.objs)[0]
        size = 2 ** (32 - ml)
        lo = addr // size * size
        hi = lo + size - 1
        nets = []
        want = []
        if mode == "subnet":
            prefixes = [(octet_of(cx, "b", case["L"]), case["pre"])]
        else:
            prefixes = []
            for i in range(cx.choose("n", 3)):
                prefixes.append((octet_of(cx, "b%d" % i, 1), [22, 28][i]))
        for b, pre in prefixes:
            net = IPv4Obj("10.1." + b + ".0/%d" % pre)
            s2 = 2 ** (32 - pre)
            nlo = ((10 * 256 + 1) * 65536 + int(b) * 256) // s2 * s2
            nhi = nlo + s2 - 1
            nets.append(net)
            w = nlo <= lo and hi <= nhi
            want.append(w)
            cx.check(o.in_ipv4_subnet(net) == w, "in_ipv4_subnet: the interface's subnet lies within the given one")
        if mode == "subnets":
            cx.check(o.in_ipv4_subnets(nets) == any(want), "in_ipv4_subnets: within at least one of them")
            nets.reverse()
            cx.check(o.in_ipv4_subnets(nets) == any(want), "in_ipv4_subnets: in any order")
            cx.check(o.in_ipv4_subnets([IPv4Obj()] + nets) == any(want), "in_ipv4_subnets: an empty subnet contains nothing, wherever it is listed")
            cx.check(o.in_ipv4_subnets(nets + [IPv4Obj()]) == any(want), "in_ipv4_subnets: an empty subnet contains nothing")
            cx.check(o.in_ipv4_subnet(IPv4Obj()) == False, "in_ipv4_subnet: an empty subnet contains nothing")
            q = CiscoConfParse(["interface Gi1/1", " no ip address"], syntax="ios", factory=True)
            cx.check(list(q.objs)[0].in_ipv4_subnet(IPv4Obj("0.0.0.0/0")) == False, "in_ipv4_subnet without an address")
    elif mode == "v6":
        cx.cover("ipv6")
        lines = ["interface Gi1/1"]
        first = None
        firstlen = None
        dyn = False
        for i in range(case["n"]):
            k = cx.choose("k%d" % i, 7)
            x = cx.str("x%d" % i, 1, "0123456789abcdefABCDEF")
            cx.assume(x != "0")
            if k in (0, 1, 2):
                if k == 0:
                    a, ml, t = "2001:db8::" + x, 64, ""
                elif k == 1:
                    a, ml, t = "2001:DB8:" + x + "::", 48, " eui-64"
                else:
                    a, ml, t = "fe80::" + x, None, " link-local"
                if dyn:
                    cx.assume(False)
                if first is None:
                    first = a
                if firstlen is None and ml is not None:
                    firstlen = (i, k, x, ml)
                lines.append(" ipv6 address " + a + ("/%d" % ml if ml is not None else "") + t)
            elif k in (3, 4):
                if first is not None or dyn:
                    cx.assume(False)
                dyn = True
                lines.append(" ipv6 address " + ["dhcp", "autoconfig"][k - 3])
            elif k == 5:
                lines.append(" description ipv6 address 2001:db8::5/64" + x)
            else:
                lines.append(" ipv6 enable")
        lines.append("interface Gi1/2")
        lines.append(" ipv6 address 2001:db8:ffff::1/127")
        p = CiscoConfParse(lines, syntax="ios", factory=True)
        o = list(p.objs)[0]
        cx.check(o.ipv6_addr == (first if first is not None else ""), "ipv6_addr is the first IPv6 address, without its prefix length")
        ob = o.ipv6_addr_object
        if firstlen is None:
            cx.check(ob.empty is True, "without a static IPv6 prefix the object is empty")
            cx.check(o.ipv6_masklength == 0, "ipv6_masklength without an address")
        else:
            i, k, x, ml = firstlen
            v = int(x, 16)
            want = 0x20010db8 * 2 ** 96 + (v if k == 0 else v * 2 ** 80)
            cx.check(ob.as_decimal == want, "ipv6_addr_object is the first address with a prefix length")
            cx.check(ob.prefixlen == ml, "ipv6_addr_object prefix length")
            cx.check(o.ipv6_masklength == ml, "ipv6_masklength")
