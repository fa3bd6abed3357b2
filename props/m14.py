from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "NX-OS 'ip route' / 'ipv6 route' with every combination of the optional parts in the documented order, 2 symbolic characters in interface, VRF and route name and 1-3 symbolic digits in the distance, "
                 "4 in the tag and 2 in the track number, one symbolic digit in next hop and prefix; 5 prefix lengths; the printed form",
        "thorough": "the same with 3 symbolic characters",
    },
    "outside": "options in another order than the documented one, routes inside 'vrf context', route_name of IPv6 routes and vrf / unicast (not implemented), interface names with blanks or of one character",
    "assumptions": ["the line is a valid route command"],
    "must_cover": ["ipv6 vrf", "track", "no address"],
}
P4 = [("10.0.0.0", 8), ("10.0.128.0", 17), ("10.0.0.0", 32), ("0.0.0.0", 0), ("10.0.0.0", 24)]
P6 = [("::", 0), ("2001:DB8::", 32), ("2001:db8:1:2:3:4:5:6", 128), ("FE80::1", 64)]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for nh in ("addr", "intf", "intf addr"):
        out.append({"name": "v4 " + nh, "af": 4, "nh": nh, "vrf": False, "L": 3 if big else 2})
        for vrf in (False, True):
            out.append({"name": "v6 %s%s" % (nh, " vrf" if vrf else ""), "af": 6, "nh": nh, "vrf": vrf, "L": 3 if big else 2})
    out.append({"name": "v4 prefixes", "af": 40, "L": 2 if big else 1})
    out.append({"name": "v6 prefixes", "af": 60, "L": 2 if big else 1})
    return out


def number(cx, name, n):
    t = cx.str(name, n, DIGITS)
    cx.assume(t[0] != "0")
    return t


def dotted(n):
    v = (2 ** 32 - 1) // 2 ** (32 - n) * 2 ** (32 - n)
    return "%d.%d.%d.%d" % (v // 16777216, v // 65536 % 256, v // 256 % 256, v % 256)


def harness(cx, case):
    af = case["af"]
    L = case["L"]
    if af == 40:
        pre, ml = P4[cx.choose("m", len(P4))]
        a = number(cx, "a", L)
        q = pre[0:-1] + a if ml == 32 else pre
        p = CiscoConfParse(["ip route %s/%d 1.2.3.%s" % (q, ml, a)], syntax="nxos", factory=True)
        o = p.objs[0]
        cx.check(o.network == q, "network")
        cx.check(o.netmask == dotted(ml), "netmask")
        cx.check(int(o.masklen) == ml, "prefix length")
        cx.check(o.network_object.prefixlen == ml, "network_object prefix length")
        full = (0 if ml == 0 else 10 * 2 ** 24) + (128 * 256 if ml == 17 else 0) + (int(a) if ml == 32 else 0)
        cx.check(o.network_object.as_decimal == full, "network_object address")
        cx.check(o.nexthop_str == "1.2.3." + a, "next hop")
        cx.check(repr(o) == "<NXOSRouteLine # 0 '" + str(o.network_object) + "' info: '1.2.3." + a + " AD: 1'>", "repr() of a route")
        return
    if af == 60:
        pre, ml = P6[cx.choose("p", len(P6))]
        a = cx.str("a", L, "0123456789abcdefABCDEF")
        p = CiscoConfParse(["ipv6 route %s/%d 2001:db8::%s" % (pre, ml, a)], syntax="nxos", factory=True)
        o = p.objs[0]
        cx.check(o.network == pre, "ipv6 network")
        cx.check(o.masklen == ml, "ipv6 prefix length")
        cx.check(o.network_object.prefixlen == ml, "ipv6 network_object prefix length")
        cx.check(o.next_hop_addr == "2001:db8::" + a, "ipv6 next hop")
        cx.check(o.nexthop_str == "2001:db8::" + a, "ipv6 next hop text")
        cx.check(repr(o) == "<NXOSRouteLine # 0 '" + str(o.network_object) + "' info: '2001:db8::" + a + " AD: 1'>", "repr() of a route")
        return
    nh = case["nh"].split()
    t = "ip route 10.0.0.0/8" if af == 4 else "ipv6 route " + ("vrf " + cx.str("vrf", L, WORD) + " " if case["vrf"] else "") + "2001:DB8::/32"
    intf = addr = ""
    if nh[0] == "intf":
        intf = "Vl" + cx.str("i", L, WORD)
        t += " " + intf
    if nh[-1] == "addr":
        x = cx.str("x", 1, DIGITS)
        addr = ("1.2.3." + x) if af == 4 else ("2002::" + x)
        t += " " + addr
    else:
        cx.cover("no address")
    ad = name = tag = ""
    track = None
    if af == 4:
        if cx.bool("tr?"):
            track = number(cx, "tr", L)
            t += " track " + track
            cx.cover("track")
        if cx.bool("nm?"):
            name = cx.str("nm", L, WORD)
            t += " name " + name
        if cx.bool("tg?"):
            tag = number(cx, "tg", L + 2)
            t += " tag " + tag
        if cx.bool("ad?"):
            ad = number(cx, "ad", 1 + cx.choose("adlen", 3))
            t += " " + ad
    else:
        if case["vrf"]:
            cx.cover("ipv6 vrf")
        if cx.bool("nv?"):
            t += " nexthop-vrf " + cx.str("nv", L, WORD)
        if cx.bool("ad?"):
            ad = number(cx, "ad", 1 + cx.choose("adlen", 3))
            t += " " + ad
        t += ["", " unicast", " multicast"][cx.choose("um", 3)]
        if cx.bool("tg?"):
            tag = number(cx, "tg", L + 2)
            t += " tag " + tag
    p = CiscoConfParse([t, "ip route 10.9.9.0/24 Null0 track 77 name zz tag 77 77"], syntax="nxos", factory=True)
    o = p.objs[0]
    cx.observe(t)
    cx.check(o.text == t, "text")
    cx.check(o.classname == "NXOSRouteLine", "a route command is an NXOSRouteLine")
    cx.check(o.address_family == ("ip" if af == 4 else "ipv6"), "address family")
    cx.check(o.network == ("10.0.0.0" if af == 4 else "2001:DB8::"), "network")
    cx.check(int(o.masklen) == (8 if af == 4 else 32), "prefix length")
    cx.check(o.next_hop_interface == intf, "next hop interface")
    cx.check(o.next_hop_addr == addr, "next hop address")
    hop = intf + " " + addr if intf and addr else intf or addr
    cx.check(o.nexthop_str == hop, "next hop text: interface and address")
    cx.check(o.admin_distance == (ad if ad else "1"), "administrative distance, 1 by default")
    if af == 4:
        cx.check(o.route_name == name, "route name")
    cx.check((o.tracking_object_name or "") == (track or ""), "track")
    cx.check(o.tag == tag, "tag")
    cx.check(o.routeinfo == hop + " AD: " + (ad or "1") + (" Track: " + track if track else ""), "routeinfo")
