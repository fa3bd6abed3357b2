from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "every combination of the optional parts of 'ip route' / 'ipv6 route' in the documented order, with 2 symbolic characters (1 in the prefix tasks) in vrf, interface, route name, distance, tag and track number "
                 "and one symbolic digit in next hop and prefix; 4 IPv4 masks, 4 IPv6 prefixes",
        "thorough": "the same with 3 symbolic characters",
    },
    "outside": "options in another order than the documented one, host names as next hops, IPv6 addresses with embedded IPv4 notation, interface names with blanks in IPv4 routes",
    "assumptions": ["the line is a valid route command"],
    "must_cover": ["ipv4 dhcp", "ipv6 vrf"],
}

TAGCH = "abZ-_7"


def tasks(tier):
    big = tier == "thorough"
    out = []
    for nh in ("addr", "intf", "intf addr", "dhcp", "intf dhcp"):
        for vrf in (False, True):
            out.append({"name": "v4 %s%s" % (nh, " vrf" if vrf else ""), "af": 4, "nh": nh, "vrf": vrf, "L": 3 if big else 2})
    for nh in ("addr", "intf", "intf addr", "intf intf", "intf intf addr"):
        for vrf in (False, True):
            out.append({"name": "v6 %s%s" % (nh, " vrf" if vrf else ""), "af": 6, "nh": nh, "vrf": vrf, "L": 3 if big else 2})
    out.append({"name": "v4 prefixes", "af": 40, "L": 2 if big else 1})
    out.append({"name": "v6 prefixes", "af": 60, "L": 2 if big else 1})
    return out


MASKS = [("255.0.0.0", 8), ("255.255.128.0", 17), ("255.255.255.255", 32), ("0.0.0.0", 0)]
P6 = [("::", 0), ("2001:DB8::", 32), ("2001:db8:1:2:3:4:5:6", 128), ("FE80::1", 64)]


def word(cx, name, n):
    return cx.str(name, n, WORD)


def number(cx, name, n):
    t = cx.str(name, n, DIGITS)
    cx.assume(t[0] != "0")
    return t


def harness(cx, case):
    af = case["af"]
    L = case["L"]
    if af == 40:
        mask, ml = MASKS[cx.choose("m", len(MASKS))]
        a = cx.str("a", L, DIGITS)
        if len(a) == 2:
            cx.assume(a[0] != "0")
        p = CiscoConfParse(["ip route 10.%s.0.0 %s 1.2.3.%s" % (a, mask, a)], syntax="ios", factory=True)
        o = p.objs[0]
        cx.check(o.network == "10." + a + ".0.0", "network")
        cx.check(o.netmask == mask, "netmask")
        cx.check(o.masklen == ml, "mask length")
        cx.check(o.network_object.prefixlength == ml, "network_object prefix length")
        full = 10 * 2 ** 24 + int(a) * 2 ** 16
        cx.check(o.network_object.as_decimal == full, "network_object address")
        cx.check(o.nexthop_str == "1.2.3." + a, "next hop")
        return
    if af == 60:
        pre, ml = P6[cx.choose("p", len(P6))]
        a = cx.str("a", L, "0123456789abcdefABCDEF")
        p = CiscoConfParse(["ipv6 route %s/%d 2001:db8::%s" % (pre, ml, a)], syntax="ios", factory=True)
        o = p.objs[0]
        cx.check(o.network == pre, "ipv6 network")
        cx.check(o.masklen == ml, "ipv6 mask length")
        cx.check(o.network_object.prefixlen == ml, "ipv6 network_object prefix length")
        cx.check(o.next_hop_addr == "2001:db8::" + a, "ipv6 next hop")
        cx.check(o.nexthop_str == "2001:db8::" + a, "ipv6 next hop text")
        return
    nh = case["nh"]
    vrf = ""
    t = "ip route" if af == 4 else "ipv6 route"
    if case["vrf"]:
        vrf = word(cx, "vrf", L)
        t += " vrf " + vrf
    t += " 10.0.0.0 255.0.0.0" if af == 4 else " 2001:DB8::/32"
    intf = addr = ""
    dhcp = glob = False
    words = nh.split()
    if words[0] == "intf":
        intf = "Gi" + word(cx, "i", L)
        if words[1:2] == ["intf"]:
            intf += " 1/" + word(cx, "i2", L)
    if words[-1] == "addr":
        x = cx.str("x", 1, DIGITS)
        addr = ("1.2.3." + x) if af == 4 else ("2002::" + x)
    if words[-1] == "dhcp":
        dhcp = True
        cx.cover("ipv4 dhcp")
    if intf:
        t += " " + intf
    if addr:
        t += " " + addr
    if dhcp:
        t += " dhcp"
    nhvrf = ad = name = track = tag = ""
    perm = mcast = False
    if af == 4:
        if case["vrf"] and cx.bool("g"):
            glob = True
            t += " global"
        if cx.bool("ad?"):
            ad = number(cx, "ad", L)
            t += " " + ad
        if cx.bool("mc?"):
            mcast = True
            t += " multicast"
        if cx.bool("nm?"):
            name = word(cx, "nm", L)
            t += " name " + name
        k = cx.choose("pt", 3)
        if k == 1:
            perm = True
            t += " permanent"
        elif k == 2:
            track = number(cx, "tr", L)
            t += " track " + track
        if cx.bool("tg?"):
            tag = number(cx, "tg", L)
            t += " tag " + tag
    else:
        if case["vrf"]:
            cx.cover("ipv6 vrf")
        if cx.bool("nv?"):
            nhvrf = word(cx, "nv", L)
            t += " nexthop-vrf " + nhvrf
        if cx.bool("ad?"):
            ad = number(cx, "ad", L)
            t += " " + ad
        k = cx.choose("um", 3)
        if k == 1:
            t += " unicast"
        elif k == 2:
            mcast = True
            t += " multicast"
        if cx.bool("tg?"):
            tag = number(cx, "tg", L)
            t += " tag " + tag
        if cx.bool("tr?"):
            track = number(cx, "tr", L)
            t += " track " + track
        if cx.bool("nm?"):
            name = word(cx, "nm", L)
            t += " name " + name
    p = CiscoConfParse([t], syntax="ios", factory=True)
    o = p.objs[0]
    cx.observe(t)
    cx.check(o.text == t, "text")
    cx.check(o.classname == "IOSRouteLine", "a route command is an IOSRouteLine")
    cx.check(o.vrf == vrf, "vrf")
    cx.check(o.network == ("10.0.0.0" if af == 4 else "2001:DB8::"), "network")
    cx.check(o.masklen == (8 if af == 4 else 32), "mask length")
    cx.check(o.next_hop_interface == intf, "next hop interface")
    cx.check(o.next_hop_addr == addr, "next hop address")
    if af == 4:
        cx.check(o.nexthop_str == (intf + " " + addr if intf and addr else intf or addr), "next hop text")
        cx.check(o.global_next_hop == (glob or not case["vrf"]), "global next hop")
        cx.check(o.permanent == perm, "permanent")
    else:
        cx.check(o.nexthop_vrf == nhvrf, "next hop vrf")
    cx.check(o.admin_distance == (int(ad) if ad else 1), "administrative distance")
    cx.check(o.multicast == mcast, "multicast")
    cx.check(o.route_name == name, "route name")
    cx.check(o.tracking_object_name == track, "track")
    cx.check(o.tag == tag, "tag")
