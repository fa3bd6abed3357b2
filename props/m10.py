from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ccp_util import IPv4Obj
from props.common import *

META = {
    "bounds": {
        "quick": "an ASA interface with every ordered pair out of 10 address lines (static with and without standby, dhcp, 'no', description and near misses; IPv6 with and without standby, link-local, dhcp, "
                 "autoconfig, 'no') followed by a second interface, with symbolic octets of 1-2 digits, 5 masks, symbolic hexadecimal digits and description text; subnets with a symbolic octet and 4 prefix "
                 "lengths; names of 14 kinds, 1-3 numbers, optional subinterface; every option of 14 kinds with a second line out of 20",
        "thorough": "octets of 3 digits, numbers of 2 digits, three address lines",
    },
    "outside": "interface names with a blank before the number, several addresses of one family, invalid addresses, build_reset_string (not implemented)",
    "assumptions": ["child lines are indented by one blank and their fields separated by single blanks"],
    "must_cover": ["standby", "dhcp", "no address", "ipv6 standby", "subinterface", "no form", "description", "switchport"],
}
MASK4 = [("255.255.255.0", 24), ("255.255.255.252", 30), ("255.255.255.255", 32), ("255.0.0.0", 8), ("255.255.254.0", 23)]
KIND4 = ["static", "standby", "dhcp", "none", "description", "mtu", "near"]
KIND6 = ["static", "standby", "linklocal", "dhcp", "autoconfig", "none", "description", "enable"]
KINDS = ["Ethernet", "FastEthernet", "GigabitEthernet", "TenGigabitEthernet", "Management", "Loopback", "loopback", "Vlan", "Tunnel", "Virtual-Template", "Port-channel", "Port-Channel", "Redundant", "BVI"]
OPT = [("description", "description ", "w", ""), ("delay", "delay ", "n", ""), ("speed", "speed ", "n", ""), ("duplex", "duplex ", "w", ""), ("shutdown", "shutdown", "", ""),
       ("sparse", "ip pim sparse-mode", "", ""), ("sw", "switchport", "", ""), ("access", "switchport mode access", "", ""), ("trunk", "switchport mode trunk", "", ""),
       ("encap", "switchport trunk encapsulation ", "w", ""), ("avlan", "switchport access vlan ", "n", ""), ("nameif", "nameif ", "w", ""), ("security", "security-level ", "n", ""), ("tvlan", "switchport trunk allowed vlan ", "n", "")]
NAMES = [o[0] for o in OPT]
NEAR = ["description-x 5", "no delay 7", "speed auto", "speed nonegotiate", "no shutdown", "ip pim dr-priority 5", "pim", "switchport mode dynamic", "switchport mode accessx", "switchport trunk native vlan 7", "no switchport", "switchport protected"]


def tasks(tier):
    big = tier == "thorough"
    L = 3 if big else 2
    out = [{"name": "v4-" + k, "mode": "v4", "first": k, "L": L} for k in KIND4]
    out += [{"name": "v6-" + k, "mode": "v6", "first": k} for k in KIND6]
    for pre in (0, 8, 24, 30):
        out.append({"name": "subnet%d" % pre, "mode": "subnet", "pre": pre, "L": L})
    out.append({"name": "subnets", "mode": "subnets", "L": 1})
    for n in (1, 2, 3):
        for sub in (False, True):
            out.append({"name": "names-%d%s" % (n, "-sub" if sub else ""), "mode": "names", "n": n, "sub": sub, "L": 2 if big else 1})
    out += [{"name": "opt-" + k, "mode": "opt", "first": i, "all": big} for i, k in enumerate(NAMES)]
    return out


def octet_of(cx, name, n):
    t = cx.str(name, n, DIGITS)
    if n > 1:
        cx.assume(t[0] != "0")
    if n > 2:
        cx.assume(int(t) < 256)
    return t


def number(cx, name, n):
    t = cx.str(name, n, DIGITS)
    cx.assume(t[0] != "0")
    return t


SECOND = ["interface Ethernet0/7", " ip address 192.168.1.1 255.255.0.0 standby 192.168.1.2", " ipv6 address fd00::77/77 standby fd00::78", " description zz", " delay 77", " speed 77", " duplex zz", " shutdown",
          " ip pim sparse-mode", " switchport", " switchport mode access", " switchport mode trunk", " switchport trunk encapsulation zz", " switchport access vlan 77"]


def parse(lines):
    return list(CiscoConfParse(lines, syntax="asa", factory=True).objs)


def harness(cx, case):
    mode = case["mode"]
    if mode == "v4":
        lines = ["hostname fw", "interface Ethernet0/0"]
        addr, sby = None, ""
        for i in range(2):
            kind = case["first"] if i == 0 else KIND4[cx.choose("k", len(KIND4))]
            if kind in ("static", "standby", "dhcp", "none") and len(lines) > 2 and case["first"] in ("static", "standby", "dhcp", "none"):
                cx.assume(False)
            if kind == "static" or kind == "standby":
                a = octet_of(cx, "a", case["L"])
                m, ml = MASK4[cx.choose("m", 5)]
                addr = ("10.1." + a + ".9", m, ml, (10 * 256 + 1) * 65536 + int(a) * 256 + 9)
                t = " ip address " + addr[0] + " " + m
                if kind == "standby":
                    cx.cover("standby")
                    s = octet_of(cx, "s", 1)
                    sby = "10.1." + s + ".10"
                    t += " standby " + sby
                lines.append(t)
            elif kind == "dhcp":
                cx.cover("dhcp")
                lines.append(" ip address dhcp setroute")
            elif kind == "none":
                lines.append(" no ip address")
            elif kind == "description":
                lines.append(" description ip address 1.2.3.4 255.0.0.0 standby 1.2.3.5" + cx.str("d%d" % i, 1, PRINT))
            elif kind == "mtu":
                lines.append(" nameif ip")
            else:
                lines.append(" ip addressx 1.2.3.4 255.0.0.0 standby 1.2.3.5")
        o = parse(lines + SECOND)[1]
        cx.check(o.classname == "ASAIntfLine", "an interface is an ASAIntfLine")
        want = addr if addr is not None else ("", "", 0, 0)
        if addr is None:
            cx.cover("no address")
        cx.check(o.ipv4_addr == want[0], "ipv4_addr")
        cx.check(o.ip_addr == want[0], "ip_addr")
        cx.check(o.ipv4_netmask == want[1], "ipv4_netmask")
        cx.check(o.ipv4_masklength == want[2], "ipv4_masklength, 0 without address")
        cx.check(o.ipv4_standby_addr == sby, "ipv4_standby_addr")
        cx.check(o.has_no_ipv4 == (addr is None), "has_no_ipv4")
        for obj in (o.ipv4_addr_object, o.ip, o.ipv4):
            cx.check(obj.empty == (addr is None), "the address object is empty without address")
            if addr is not None:
                cx.check(obj.as_decimal == want[3], "the address object is the interface's address")
                cx.check(obj.prefixlen == want[2], "the address object has the interface's mask")
        obj = o.ipv4_standby_addr_object
        cx.check(obj.empty == (sby == ""), "the standby object is empty without standby address")
        if sby != "":
            cx.check(obj.as_decimal == (10 * 256 + 1) * 65536 + int(s) * 256 + 10, "the standby object is the standby address")
            cx.check(obj.prefixlen == want[2], "the standby object has the interface's mask")
        for obj in (o.ip_network_object, o.ipv4_network_object):
            if addr is None:
                cx.check(obj.empty is True, "the subnet object is empty without address")
            else:
                size = 2 ** (32 - want[2])
                cx.check(int(obj.network_address) == want[3] // size * size, "the subnet object is the interface's subnet")
                cx.check(obj.prefixlen == want[2], "mask length of the subnet object")
        return
    if mode == "v6":
        lines = ["interface Ethernet0/0"]
        addr, sby = None, ""
        for i in range(2):
            kind = case["first"] if i == 0 else KIND6[cx.choose("k", len(KIND6))]
            h = cx.str("h%d" % i, 1, "0123456789abcdef")
            if kind == "static" or kind == "standby":
                if addr is not None:
                    cx.assume(False)
                cx.assume(h != "0")
                ml = [64, 128, 0, 9][cx.choose("ml", 4)]
                addr = ("2001:db8::" + h, ml)
                t = " ipv6 address " + addr[0] + "/%d" % ml
                if kind == "standby":
                    cx.cover("ipv6 standby")
                    g = cx.str("g", 1, "0123456789abcdef")
                    sby = "2001:db8::1" + g
                    t += " standby " + sby
                lines.append(t)
            else:
                lines.append({"linklocal": " ipv6 address fe80::" + h + " link-local", "dhcp": " ipv6 address dhcp default", "autoconfig": " ipv6 address autoconfig",
                              "none": " no ipv6 address 2001:db8::" + h + "/64", "description": " description ipv6 address 2001:db8::" + h + "/64 standby x", "enable": " ipv6 enable"}[kind])
        o = parse(lines + SECOND)[0]
        obj = o.ipv6_addr_object
        cx.check(obj.empty == (addr is None), "the IPv6 object is empty without address")
        cx.check(o.ipv6_addr == (addr[0] if addr is not None else ""), "ipv6_addr")
        cx.check(o.ipv6_masklength == (addr[1] if addr is not None else 0), "ipv6_masklength")
        cx.check(o.ipv6_standby_addr == sby, "ipv6_standby_addr")
        if addr is not None:
            cx.check(str(obj.ip) == addr[0], "address of the IPv6 object")
            cx.check(obj.prefixlen == addr[1], "prefix length of the IPv6 object")
        return
    if mode == "subnet" or mode == "subnets":
        a = octet_of(cx, "a", case["L"])
        m, ml = MASK4[cx.choose("m", 5)]
        addr = (10 * 256 + 1) * 65536 + int(a) * 256 + 9
        o = parse(["interface Ethernet0/0", " ip address 10.1." + a + ".9 " + m] + SECOND)[0]
        size = 2 ** (32 - ml)
        lo = addr // size * size
        hi = lo + size - 1
        nets, want = [], []
        if mode == "subnet":
            prefixes = [(octet_of(cx, "b", case["L"]), case["pre"])]
        else:
            prefixes = []
            for i in range(cx.choose("n", 3)):
                prefixes.append((octet_of(cx, "b%d" % i, 1), [22, 28][i]))
        for b, pre in prefixes:
            net = IPv4Obj("10.1." + b + ".0/%d" % pre)
            s2 = 2 ** (32 - pre)
            nlo = ((10 * 256 + 1) * 65536 + int(b) * 256) // s2 * s2
            w = nlo <= lo and hi <= nlo + s2 - 1
            nets.append(net)
            want.append(w)
            cx.check(o.in_ipv4_subnet(net) == w, "in_ipv4_subnet: the interface's subnet lies within the given one")
        if mode == "subnets":
            cx.check(bool(o.in_ipv4_subnets(nets)) == any(want), "in_ipv4_subnets: within at least one of them")
            q = parse(["interface Ethernet0/0", " no ip address"] + SECOND)[0]
            cx.check(not q.in_ipv4_subnet(IPv4Obj("0.0.0.0/0")), "in_ipv4_subnet without an address")
            cx.check(not q.in_ipv4_subnets(nets), "in_ipv4_subnets without an address")
        return
    if mode == "names":
        kind = KINDS[cx.choose("kind", len(KINDS))]
        nums = [cx.str("n%d" % i, case["L"], DIGITS) for i in range(case["n"])]
        num = "/".join(nums)
        sub = ""
        if case["sub"]:
            cx.cover("subinterface")
            sub = "." + cx.str("s", 2, DIGITS)
        sp = [" ", "  "][cx.choose("sp", 2)]
        o = parse(["interface" + sp + kind + num + sub, " shutdown"])[0]
        cx.check(o.classname == "ASAIntfLine", "an interface is an ASAIntfLine")
        cx.check(o.is_intf is True, "is_intf")
        cx.check(o.name == kind + num + sub, "name")
        cx.check(o.port_type == kind, "port_type")
        cx.check(o.ordinal_list == [int(x) for x in nums], "ordinal_list: the numbers without subinterface")
        cx.check(o.port == int(nums[-1]), "port: the last number")
        cx.check(o.is_subintf == case["sub"], "is_subintf")
        cx.check(o.is_loopback_intf == (kind.lower() == "loopback"), "is_loopback_intf")
        cx.check(o.is_ethernet_intf == ("thernet" in kind), "is_ethernet_intf")
        cx.check(o.has_autonegotiation == ("thernet" in kind), "has_autonegotiation: an Ethernet interface without manual speed and duplex")
        if kind != "loopback":
            cx.check(o.is_virtual_intf == (kind in ("Loopback", "Tunnel", "Virtual-Template", "Port-channel", "Port-Channel")), "is_virtual_intf")
        return
    k = case["first"]
    kind, pre, typ, post = OPT[k]

    def value(name, t, n):
        return number(cx, name, n) if t == "n" else cx.str(name, n, ALNUM) if t == "w" else ""
    # IOS refuses one-letter duplex values, so they are not written
    a = value("a", typ, 2 if kind == "duplex" else 1)
    first = pre + a
    mine = [(kind, a)]
    other = []
    s = cx.choose("s", 16 if case["all"] else 8)
    if s == 0:
        b = value("b", typ, 2)
        second = pre + b
        other = [(kind, b)]
    elif s == 1:
        cx.cover("no form")
        second = "no " + first
    elif s == 2:
        cx.cover("description")
        second = "description " + first
        other = [("description", first)]
    elif s == 3 or s >= 8:
        second = NEAR[(k * 5 + s) % len(NEAR)]
        if second.startswith("switchport"):
            other = [("otherswitch", "")]
    else:
        j = (k + 1 + (s - 4) * 3) % len(OPT)
        b = value("b", OPT[j][2], 2)
        second = OPT[j][1] + b
        other = [(NAMES[j], b)]
    opts = other + mine if cx.bool("swap") else mine + other
    lines = ["interface Ethernet0/0", " " + (second if opts[0:1] != mine[0:1] else first), " " + (first if opts[0:1] != mine[0:1] else second)]
    if not other:
        opts = mine
    ip = cx.bool("ip")
    if ip:
        lines.append(" ip address 10.1.1.1 255.255.255.0")
    o = parse(lines + SECOND)[0]

    def get(kind, default):
        for x, v in opts:
            if x == kind:
                return v if default == "" else int(v)
        return default

    def has(*kinds):
        return any(x in kinds for x, v in opts)
    sw = has("sw", "access", "trunk", "encap", "avlan", "tvlan", "otherswitch")
    if sw:
        cx.cover("switchport")
    cx.check(o.description == get("description", ""), "description")
    cx.check(o.manual_delay == get("delay", 0), "manual_delay")
    cx.check(o.has_manual_speed == has("speed"), "has_manual_speed")
    cx.check(o.has_manual_duplex == has("duplex"), "has_manual_duplex")
    cx.check(o.has_autonegotiation == (not has("speed", "duplex")), "has_autonegotiation")
    cx.check(o.is_shutdown == has("shutdown"), "is_shutdown")
    cx.check(o.has_ip_pim_sparse_mode == (ip and has("sparse")), "has_ip_pim_sparse_mode needs an address")
    cx.check(o.is_switchport == sw, "is_switchport")
    cx.check(o.has_manual_switch_access == has("access"), "has_manual_switch_access")
    cx.check(o.has_manual_switch_trunk == has("trunk"), "has_manual_switch_trunk")
    cx.check(o.has_manual_switch_trunk_encap == has("encap"), "has_manual_switch_trunk_encap")
    cx.check(o.access_vlan == get("avlan", 0), "access_vlan, 0 without one")
