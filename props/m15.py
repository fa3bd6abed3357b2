from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ccp_util import IPv4Obj
from ciscoconfparse.errors import DynamicAddressException
from props.common import *

META = {
    "bounds": {
        "quick": "IOS-XR interface names of 14 kinds or of 2 symbolic letters / hyphens with 1-4 slashed numbers, optional subinterface of 1 or 4 digits and optional 'l2transport', one number of 2 symbolic "
                 "digits; one interface with a line of each of 15 option kinds and a second line out of: another value, the 'no' form, a description quoting it, a similar command, or another option, in both "
                 "orders, followed by a second interface; words of 1 and 3, numbers of 1 and 4 symbolic characters; addresses with a symbolic octet of 2 digits and 6 masks, with and without a secondary "
                 "address before or after; subnets of 4 lengths with a symbolic octet",
        "thorough": "all pairs of options, octets of 3 digits",
    },
    "outside": "name and port (the class behind them calls itself a placeholder), switchport, HSRP, PIM and helper-address accessors (no IOS-XR commands of that form), 'interface preconfigure', channel (':') parts",
    "assumptions": ["commands are spelled out and indented by one blank", "addresses are valid"],
    "must_cover": ["subinterface", "l2transport", "no form", "description", "secondary first", "second value"],
}

KINDS = ["GigabitEthernet", "TenGigE", "HundredGigE", "FastEthernet", "MgmtEth", "Loopback", "loopback", "Bundle-Ether", "Bundle-POS", "tunnel-te", "Null", "BVI", "POS", "Serial"]
LET = ALNUM[0:52] + "-"
OPT = [
    ("description", "description ", "t", ""),
    ("bandwidth", "bandwidth ", "n", ""),
    ("delay", "delay ", "n", ""),
    ("encap", "encapsulation ", "w", ""),
    ("encapq", "encapsulation dot1q ", "n", ""),
    ("speed", "speed ", "n", ""),
    ("duplex", "duplex ", "w", ""),
    ("cdelay", "carrier-delay 2", "", ""),
    ("cdelayms", "carrier-delay msec 250", "", ""),
    ("mtu", "mtu ", "n", ""),
    ("mplsmtu", "mpls mtu ", "n", ""),
    ("ipmtu", "ipv4 mtu ", "n", ""),
    ("shutdown", "shutdown", "", ""),
    ("vrf", "vrf ", "w", ""),
    ("aclin", "ipv4 access-group ", "w", " ingress"),
    ("aclout", "ipv4 access-group ", "w", " egress"),
]
NAMES = [o[0] for o in OPT]
NEAR = ["description-x q", "bandwidth receive 5", "delay tokens 7", "encapsulation-x", "speed auto", "mtu-x 7", "vrf-x RED", "ipv4 mtu-x 5", "ipv6 mtu 5", "ipv6 access-group zz ingress", "mpls mtu-x 5",
        "carrier-delay up 3", "no shutdown", "bundle vrf 5", "ipv4 access-group-x zz egress", "load-interval 30"]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4):
        for sub in (0, 1, 4):
            out.append({"name": "kinds-%d-%d" % (n, sub), "mode": "kind", "n": n, "sub": sub, "sym": 0})
    out.append({"name": "letters", "mode": "kind", "n": 4, "sub": 1, "sym": 2})
    out.append({"name": "abbv", "mode": "abbv"})
    for k in range(len(OPT)):
        out.append({"name": "opt-" + NAMES[k], "mode": "pair", "first": k, "all": big})
    out.append({"name": "v4", "mode": "v4", "L": 3 if big else 2})
    for pre in (0, 8, 24, 30):
        out.append({"name": "subnet%d" % pre, "mode": "subnet", "pre": pre, "L": 3 if big else 2})
    out.append({"name": "subnets", "mode": "subnets", "L": 2 if big else 1})
    return out


def octet_of(cx, name, n):
    t = cx.str(name, n, DIGITS)
    if n > 1:
        cx.assume(t[0] != "0")
    if n > 2:
        cx.assume(int(t) < 256)
    return t


def dotted(n):
    v = (2 ** 32 - 1) // 2 ** (32 - n) * 2 ** (32 - n)
    return "%d.%d.%d.%d" % (v // 16777216, v // 65536 % 256, v // 256 % 256, v % 256)


LEN4 = [24, 30, 32, 8, 23, 31]


def kinds(cx, case):
    kind = cx.str("kind", case["sym"], LET) if case["sym"] else KINDS[cx.choose("kind", len(KINDS))]
    n = case["n"]
    two = cx.choose("two", n)
    nums = [cx.str("n%d" % i, 2 if i == two else 1, DIGITS) for i in range(n)]
    for i in range(n):
        if i == two:
            cx.assume(nums[i][0] != "0")
    number = nums[0]
    for d in nums[1:]:
        number += "/" + d
    full = number
    if case["sub"]:
        sub = cx.str("sub", case["sub"], DIGITS)
        cx.assume(sub[0] != "0")
        full += "." + sub
        cx.cover("subinterface")
    tail = ["", " l2transport"][cx.choose("tail", 2)]
    if tail != "":
        cx.cover("l2transport")
    p = CiscoConfParse(["hostname x", "interface " + kind + full + tail, " mtu 1500", "interface Loopback0"], syntax="iosxr", factory=True)
    o = list(p.objs)[1]
    cx.check(o.classname == "IOSXRIntfLine", "an interface is an IOSXRIntfLine")
    cx.check(list(p.objs)[2].classname == "IOSXRCfgLine" and list(p.objs)[0].classname == "IOSXRCfgLine", "other lines are IOSXRCfgLine")
    cx.check(o.is_intf == True, "is_intf")
    cx.check(list(p.objs)[0].is_intf == False and list(p.objs)[2].is_intf == False, "other lines are no interfaces")
    cx.check(o.port_type == kind, "port_type is the kind")
    cx.check(o.interface_number == number, "interface_number is the number without subinterface")
    cx.check(o.subinterface_number == full, "subinterface_number is the number with subinterface")
    cx.check(list(o.ordinal_list) == [int(d) for d in nums], "ordinal_list is the numbers")
    cx.check(o.is_subintf == (case["sub"] > 0), "is_subintf")
    low = kind.lower()
    if not case["sym"]:
        cx.check(o.is_ethernet_intf == low.endswith("ethernet"), "is_ethernet_intf")
    cx.check(o.is_loopback_intf == (low == "loopback"), "is_loopback_intf")
    cx.check(o.build_reset_string() == "default interface " + kind + full + tail, "build_reset_string")


def abbv(cx):
    kind = KINDS[cx.choose("kind", 4) * 3]
    num = cx.str("num", 1, DIGITS) + "/0/0/1"
    if cx.bool("sub"):
        num += ".20"
    p = CiscoConfParse(["interface " + kind + num], syntax="iosxr", factory=True)
    o = list(p.objs)[0]
    cut = cx.int("cut", 0, len(kind))
    a = kind.lower()[0:cut]
    n2 = cx.str("n2", 1, DIGITS) + "/0/0/1" + (".20" if cx.bool("sub2") else "")
    gap = ["", " ", "  "][cx.choose("gap", 3)]
    if cx.bool("upper"):
        a = a.upper()
    cx.check(o.is_abbreviated_as(a + gap + n2) == (cut > 0 and n2 == num and gap != "  "), "abbreviations are a prefix of the kind, optionally a blank, and the whole number")


def value(cx, name, typ, n):
    if typ == "n":
        t = cx.str(name, n, DIGITS)
        cx.assume(t[0] != "0")
        return t
    if typ == "w":
        return cx.str(name, n, ALNUM)
    if typ == "t":
        if n == 1:
            return cx.str(name, 1, ALNUM)
        return cx.str(name, 1, ALNUM) + [" ", "", "  "][cx.choose(name + "gap", 3)] + cx.str(name + "2", 2, ALNUM)
    return ""


def expect(cx, o, opts, eth):
    def num(kind):
        for a, v in opts:
            if a == kind:
                return int(v)
        return 0

    def word(kind):
        for a, v in opts:
            if a == kind:
                return v
        return ""

    def has(kind):
        return any(a == kind for a, v in opts)
    enc = ""
    for a, v in opts:
        if enc == "" and a == "encap":
            enc = v
        elif enc == "" and a == "encapq":
            enc = "dot1q"
    cx.check(o.description == word("description"), "description")
    cx.check(o.manual_bandwidth == num("bandwidth"), "manual_bandwidth")
    cx.check(o.manual_delay == num("delay"), "manual_delay")
    cx.check(o.manual_encapsulation == enc, "manual_encapsulation")
    cx.check(o.has_manual_speed == has("speed"), "has_manual_speed")
    cx.check(o.manual_speed == num("speed"), "manual_speed")
    cx.check(o.has_manual_duplex == has("duplex"), "has_manual_duplex")
    cx.check(o.manual_duplex == word("duplex"), "manual_duplex")
    cx.check(o.has_autonegotiation == (eth and not has("speed") and not has("duplex")), "has_autonegotiation: an Ethernet interface without a manual speed or duplex")
    want = 2.0 if has("cdelay") else 0.25 if has("cdelayms") else 0.0
    cx.check(o.manual_carrierdelay == want, "manual_carrierdelay, in seconds")
    cx.check(o.has_manual_carrierdelay == (want != 0.0), "has_manual_carrierdelay")
    cx.check(o.manual_mtu == num("mtu"), "manual_mtu")
    cx.check(o.has_manual_mtu == has("mtu"), "has_manual_mtu")
    cx.check(o.manual_mpls_mtu == num("mplsmtu"), "manual_mpls_mtu")
    cx.check(o.has_manual_mpls_mtu == has("mplsmtu"), "has_manual_mpls_mtu")
    cx.check(o.manual_ip_mtu == num("ipmtu"), "manual_ip_mtu")
    cx.check(o.has_manual_ip_mtu == has("ipmtu"), "has_manual_ip_mtu")
    cx.check(o.is_shutdown == has("shutdown"), "is_shutdown")
    cx.check(o.vrf == word("vrf"), "vrf")
    cx.check(o.has_vrf == has("vrf"), "has_vrf")
    cx.check(o.ipv4_accessgroup_in == word("aclin"), "ipv4_accessgroup_in")
    cx.check(o.ipv4_accessgroup_out == word("aclout"), "ipv4_accessgroup_out")
    cx.check(o.ip_accessgroup_in == word("aclin"), "ip_accessgroup_in")
    cx.check(o.ip_accessgroup_out == word("aclout"), "ip_accessgroup_out")
    cx.check(o.has_ipv4_accessgroup_in == has("aclin") and o.has_ip_accessgroup_in == has("aclin"), "has_ip_accessgroup_in")
    cx.check(o.has_ipv4_accessgroup_out == has("aclout") and o.has_ip_accessgroup_out == has("aclout"), "has_ip_accessgroup_out")


def options(cx, case):
    k = case["first"]
    kind, pre, typ, post = OPT[k]
    long = cx.bool("long")
    a = value(cx, "a", typ, (4 if typ == "n" else 3) if long else 1)
    first = pre + a + post
    mine = [(kind, a)]
    other = []
    s = cx.choose("s", 5 if case["all"] else 6)
    if s == 0:
        v = value(cx, "b", typ, 3)
        second = pre + v + post
        other = [(kind, v)]
        cx.cover("second value")
    elif s == 1:
        second = "no " + first
        cx.cover("no form")
    elif s == 2:
        second = "description " + first
        other = [("description", first)]
        cx.cover("description")
    elif s == 3:
        second = NEAR[cx.choose("near", len(NEAR))]
    else:
        j = cx.choose("j", len(OPT)) if case["all"] else (k + s * s * 2 + 1) % len(OPT)
        v = value(cx, "b", OPT[j][2], 2)
        second = OPT[j][1] + v + OPT[j][3]
        other = [(NAMES[j], v)]
    eth = cx.bool("eth")
    lines = ["interface GigabitEthernet0/0/0/1" if eth else "interface Bundle-POS1"]
    if cx.bool("swap"):
        lines += [" " + second, " " + first]
        opts = other + mine
    else:
        lines += [" " + first, " " + second]
        opts = mine + other
    lines += ["interface GigabitEthernet0/0/0/2", " mtu 77", " ipv4 mtu 77", " mpls mtu 77", " shutdown", " speed 77", " duplex zz", " vrf zz", " description zz", " bandwidth 77", " delay 77", " encapsulation zz",
              " carrier-delay 9", " ipv4 access-group zz ingress", " ipv4 access-group zz egress"]
    p = CiscoConfParse(lines, syntax="iosxr", factory=True)
    expect(cx, list(p.objs)[0], opts, eth)


def addresses(cx, case):
    a = octet_of(cx, "a", case["L"])
    ml = LEN4[cx.choose("m", 6)]
    addr = "10.1." + a + ".9"
    n = (10 * 256 + 1) * 65536 + int(a) * 256 + 9
    sec = " ipv4 address 172.16.0." + cx.str("s", 1, DIGITS) + " 255.255.0.0 secondary"
    prim = " ipv4 address " + addr + " " + dotted(ml)
    k = cx.choose("k", 8)
    body = [[prim], [prim, sec], [sec, prim], [" mtu 1500"], [sec], [" no ipv4 address"], [" description ipv4 address 1.2.3.4 255.0.0.0"], [" ipv4 address dhcp"]][k]
    if k == 2:
        cx.cover("secondary first")
    p = CiscoConfParse(["hostname x", "interface GigabitEthernet0/0/0/1"] + body + ["interface Loopback0", " ipv4 address 9.9.9.9 255.255.255.255"], syntax="iosxr", factory=True)
    o = list(p.objs)[1]
    head = "<IOSXRIntfLine # 1 'interface GigabitEthernet0/0/0/1' info: '"
    if k == 7:
        raised = 0
        try:
            o.ipv4_addr
        except DynamicAddressException:
            raised += 1
        try:
            o.ipv4_addr_object
        except DynamicAddressException:
            raised += 1
        cx.check(raised == 2, "the address of a DHCP interface is not in the configuration: DynamicAddressException")
        cx.check(repr(o) == head + "IPv4 dhcp'>", "repr() of a DHCP interface")
        return
    have = k < 3
    cx.check(o.ipv4_addr == (addr if have else ""), "ipv4_addr is the primary address or ''")
    cx.check(o.ip_addr == (addr if have else ""), "ip_addr")
    cx.check(o.ipv4_netmask == (dotted(ml) if have else ""), "ipv4_netmask belongs to the primary address")
    cx.check(o.ipv4_masklength == (ml if have else 0), "ipv4_masklength belongs to the primary address")
    cx.check(o.has_no_ipv4 == (not have), "has_no_ipv4: there is no address")
    cx.check(repr(o) == head + (addr + "/%d" % ml if have else "No IPv4") + "'>", "repr() of an interface gives its number, its name and its address")
    for obj in (o.ipv4_addr_object, o.ip, o.ipv4):
        if not have:
            cx.check(obj == IPv4Obj("0.0.0.1/32"), "without an address the object is the documented default")
        else:
            cx.check(obj.as_decimal == n, "the address object is the primary address")
            cx.check(obj.prefixlen == ml, "the address object has the primary prefix length")
    size = 2 ** (32 - ml)
    for obj in (o.ip_network_object, o.ipv4_network_object):
        if not have:
            cx.check(obj == IPv4Obj("0.0.0.1/32"), "without an address the subnet object is the documented default")
        else:
            cx.check(obj.as_decimal_network == n // size * size, "the subnet object is the subnet of the primary address")
            cx.check(obj.prefixlen == ml, "subnet object prefix length")


def subnets(cx, case):
    a = octet_of(cx, "a", case["L"])
    ml = LEN4[cx.choose("m", 6)]
    addr = (10 * 256 + 1) * 65536 + int(a) * 256 + 9
    p = CiscoConfParse(["interface GigabitEthernet0/0/0/1", " ipv4 address 172.16.1.1 255.255.0.0 secondary", " ipv4 address 10.1." + a + ".9 " + dotted(ml)], syntax="iosxr", factory=True)
    o = list(p.objs)[0]
    size = 2 ** (32 - ml)
    lo = addr // size * size
    hi = lo + size - 1
    nets = []
    want = []
    if case["mode"] == "subnet":
        prefixes = [(octet_of(cx, "b", case["L"]), case["pre"])]
    else:
        prefixes = []
        for i in range(cx.choose("n", 3)):
            prefixes.append((octet_of(cx, "b%d" % i, 1), [22, 28][i]))
    for b, pre in prefixes:
        net = IPv4Obj("10.1." + b + ".0/%d" % pre)
        s2 = 2 ** (32 - pre)
        nlo = ((10 * 256 + 1) * 65536 + int(b) * 256) // s2 * s2
        w = nlo <= lo and hi <= nlo + s2 - 1
        nets.append(net)
        want.append(w)
        cx.check(o.in_ipv4_subnet(net) == w, "in_ipv4_subnet: the interface's subnet lies within the given one")
    if case["mode"] == "subnets":
        cx.check(o.in_ipv4_subnets(nets) == any(want), "in_ipv4_subnets: within at least one of them")
        nets.reverse()
        cx.check(o.in_ipv4_subnets(nets) == any(want), "in_ipv4_subnets: in any order")


def harness(cx, case):
    mode = case["mode"]
    if mode == "kind":
        kinds(cx, case)
    elif mode == "abbv":
        abbv(cx)
    elif mode == "pair":
        options(cx, case)
    elif mode == "v4":
        addresses(cx, case)
    else:
        subnets(cx, case)
