from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "NX-OS interface lines with 11 kinds or a kind of 1-2 symbolic letters, 1-3 slashed numbers of 1-2 symbolic digits, optional subinterface and trailing word, with and without a blank before the "
                 "number; abbreviations with a symbolic cut; one interface with a line of each of 40 option kinds plus a second line out of: the same option with another value, its 'no' form, a description "
                 "that ends in the same text, a line that only starts like it, and six other options, in both orders, with and without an address, followed by a second interface with other values; numbers of "
                 "1-2 symbolic digits, words of 2 symbolic characters; every accessor is read on every path",
        "thorough": "all 40 x 40 pairs of options, numbers of 2-3 symbolic digits",
    },
    "outside": "channel (':') parts, interface kinds containing digits, numbers with leading zeros, values out of range, hold queues (not implemented), upper-case commands, 'shut' abbreviations",
    "assumptions": ["commands are spelled out and indented by blanks"],
    "must_cover": ["subinterface", "trailing word", "ethernet", "no form", "description", "no address", "second value", "MAC group on a switchport"],
}

KINDS = ["Ethernet", "loopback", "Loopback", "Vlan", "Tunnel", "port-channel", "Port-Channel", "mgmt", "nve", "fc", "FastEthernet"]
LET = ALNUM[0:52] + "-"

# kind, text before the value, type of the value, text after the value
OPT = [
    ("description", "description ", "ww", ""),
    ("speed", "speed ", "n", ""),
    ("duplex", "duplex ", "w", ""),
    ("beacon", "beacon", "", ""),
    ("bandwidth", "bandwidth ", "n", ""),
    ("delay", "delay ", "n", ""),
    ("encap", "encapsulation ", "w", ""),
    ("mpls", "mpls ip forwarding", "", ""),
    ("cdelay", "carrier-delay 2", "", ""),
    ("cdelayms", "carrier-delay msec 250", "", ""),
    ("clock", "clock rate ", "n", ""),
    ("mtu", "mtu ", "n", ""),
    ("mplsmtu", "mpls mtu ", "n", ""),
    ("ipmtu", "ip mtu ", "n", ""),
    ("shutdown", "shutdown", "", ""),
    ("vrf", "vrf member ", "w", ""),
    ("nounreach", "no ip unreachables", "", ""),
    ("noredir", "no ip redirects", "", ""),
    ("noproxy", "no ip proxy-arp", "", ""),
    ("dense", "ip pim dense-mode", "", ""),
    ("sparse", "ip pim sparse-mode", "", ""),
    ("sparsedense", "ip pim sparse-dense-mode", "", ""),
    ("arp", "arp timeout ", "n", ""),
    ("helper", "ip dhcp relay address 10.0.0.", "d", ""),
    ("nocdp", "no cdp enable", "", ""),
    ("xconnect", "xconnect 10.9.9.9 ", "n", " encapsulation mpls"),
    ("macin", "mac access-group ", "w", " in"),
    ("macout", "mac access-group ", "w", " out"),
    ("aclin", "ip access-group ", "w", " in"),
    ("aclout", "ip access-group ", "w", " out"),
    ("switchport", "switchport", "", ""),
    ("cdp", "cdp enable", "", ""),
    ("channel", "channel-group ", "n", " mode active"),
    ("vpc", "vpc ", "n", ""),
    ("peerlink", "vpc peer-link", "", ""),
    ("fex", "fex associate ", "n", ""),
    ("stplink", "spanning-tree link-type ", "ww", ""),
    ("stpport", "spanning-tree port type ", "ww", ""),
    ("fexfabric", "switchport mode fex-fabric", "", ""),
    ("noswitch", "no switchport", "", ""),
]
NAMES = [o[0] for o in OPT]
# lines which only start like an option
NEAR = ["description-x q", "bandwidth inherit 5", "delay-x 7", "ip tcp adjust-mss 5", "mpls label protocol ldp", "speed auto", "mtu-ignore 7", "ip mtu-x 5", "vrf memberx RED", "no shutdown",
        "ip unreachables", "ip redirects", "ip proxy-arp", "ip pim dr-priority 5", "arp timeout-x 5", "ip dhcp relay information 5", "ip access-group-x 5 in", "xconnect vfi blue", "carrier-delay up 3",
        "no ip dhcp relay address 10.0.0.5", "no ip mtu 5", "cdp log mismatch duplex", "encapsulation-x", "vpc orphan-port suspend", "fex-x 5", "spanning-tree port-priority 5", "channel-groups 5", "beacon off"]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for n in (1, 2, 3):
        for sub in (False, True):
            out.append({"name": "kinds-%d%s" % (n, "-sub" if sub else ""), "mode": "kind", "n": n, "sub": sub, "L": 2 if big else 1, "sym": 0})
    for sym in ((1, 2, 3) if big else (1, 2)):
        out.append({"name": "letters-%d" % sym, "mode": "kind", "n": 2, "sub": True, "L": 1, "sym": sym})
    out.append({"name": "abbv", "mode": "abbv", "L": 2 if big else 1})
    for k in range(len(OPT)):
        out.append({"name": "opt-" + NAMES[k], "mode": "pair", "first": k, "all": big})
    out.append({"name": "near", "mode": "near"})
    out.append({"name": "other-interfaces", "mode": "others"})
    return out


def value(cx, name, typ, n):
    if typ == "n":
        t = cx.str(name, n, DIGITS)
        cx.assume(t[0] != "0")
        return t
    if typ == "d":
        return cx.str(name, 1, DIGITS)
    if typ == "w":
        return cx.str(name, 2, ALNUM)
    if typ == "ww":
        # one or two words
        return cx.str(name, 2, ALNUM) + ("" if n == 1 else " " + cx.str(name + "_", 2, ALNUM))
    return ""


def expect(cx, o, opts, addr, eth):
    """opts: the (kind, value) pairs of the interface, in order"""
    def num(kind, default=0):
        for a, v in opts:
            if a == kind:
                return int(v)
        return default

    def word(*kinds):
        for a, v in opts:
            if a in kinds:
                return v
        return ""

    def has(kind):
        return any(a == kind for a, v in opts)
    sw = has("switchport") or has("fexfabric")
    cx.check(o.description == word("description"), "description")
    cx.check(o.manual_bandwidth == num("bandwidth"), "manual_bandwidth")
    cx.check(o.manual_delay == num("delay"), "manual_delay")
    cx.check(o.manual_beacon == has("beacon"), "manual_beacon")
    cx.check(o.manual_encapsulation == word("encap"), "manual_encapsulation")
    cx.check(o.has_mpls == has("mpls"), "has_mpls")
    cx.check(o.has_manual_speed == has("speed"), "has_manual_speed")
    cx.check(o.manual_speed == num("speed"), "manual_speed")
    cx.check(o.has_manual_duplex == has("duplex"), "has_manual_duplex")
    cx.check(o.manual_duplex == word("duplex"), "manual_duplex")
    cx.check(o.has_autonegotiation == (eth and not has("speed") and not has("duplex")), "has_autonegotiation: an Ethernet interface without a manual speed or duplex")
    want = 2.0 if has("cdelay") else 0.25 if has("cdelayms") else 0.0
    cx.check(o.manual_carrierdelay == want, "manual_carrierdelay, in seconds")
    cx.check(o.has_manual_carrierdelay == (want != 0.0), "has_manual_carrierdelay")
    cx.check(o.manual_clock_rate == num("clock"), "manual_clock_rate")
    cx.check(o.has_manual_clock_rate == has("clock"), "has_manual_clock_rate")
    cx.check(o.manual_mtu == num("mtu"), "manual_mtu")
    cx.check(o.has_manual_mtu == has("mtu"), "has_manual_mtu")
    cx.check(o.manual_mpls_mtu == num("mplsmtu"), "manual_mpls_mtu")
    cx.check(o.has_manual_mpls_mtu == has("mplsmtu"), "has_manual_mpls_mtu")
    cx.check(o.manual_ip_mtu == num("ipmtu"), "manual_ip_mtu")
    cx.check(o.has_manual_ip_mtu == has("ipmtu"), "has_manual_ip_mtu")
    cx.check(o.is_shutdown == has("shutdown"), "is_shutdown")
    cx.check(o.vrf == word("vrf"), "vrf")
    cx.check(o.has_vrf == has("vrf"), "has_vrf")
    cx.check(o.has_no_icmp_unreachables == (addr and has("nounreach")), "has_no_icmp_unreachables")
    cx.check(o.has_no_icmp_redirects == (addr and has("noredir")), "has_no_icmp_redirects")
    cx.check(o.has_no_ip_proxyarp == (addr and has("noproxy")), "has_no_ip_proxyarp")
    cx.check(o.has_ip_pim_dense_mode == (addr and has("dense")), "has_ip_pim_dense_mode")
    cx.check(o.has_ip_pim_sparse_mode == (addr and has("sparse")), "has_ip_pim_sparse_mode")
    cx.check(o.has_ip_pim_sparsedense_mode == (addr and has("sparsedense")), "has_ip_pim_sparsedense_mode")
    cx.check(o.manual_arp_timeout == (num("arp") if addr else -1), "manual_arp_timeout: -1 without an address")
    helpers = ["10.0.0." + v for a, v in opts if a == "helper"]
    got = o.ip_helper_addresses
    cx.check(len(got) == len(helpers), "one dictionary per DHCP relay address")
    for g, w in zip(got, helpers):
        cx.check(sorted(g.keys()) == ["addr", "global", "vrf"], "addr, vrf and global are given")
        cx.check(g["addr"] == w, "relay address")
        cx.check(g["vrf"] == word("vrf"), "VRF of the relay address: the VRF of the interface")
        cx.check(g["global"] is False, "no relay address is global")
    cx.check(o.has_ip_helper_addresses == (len(helpers) > 0), "has_ip_helper_addresses")
    cx.check(o.has_manual_disable_cdp == has("nocdp"), "has_manual_disable_cdp")
    cx.check(o.xconnect_vc == num("xconnect"), "xconnect_vc")
    cx.check(o.has_xconnect == has("xconnect"), "has_xconnect")
    cx.check(o.mac_accessgroup_in == word("macin"), "mac_accessgroup_in")
    cx.check(o.mac_accessgroup_out == word("macout"), "mac_accessgroup_out")
    cx.check(o.has_mac_accessgroup_in == (has("macin") and sw), "has_mac_accessgroup_in: switchports only")
    cx.check(o.has_mac_accessgroup_out == (has("macout") and sw), "has_mac_accessgroup_out: switchports only")
    cx.check(o.ipv4_accessgroup_in == word("aclin"), "ipv4_accessgroup_in")
    cx.check(o.ipv4_accessgroup_out == word("aclout"), "ipv4_accessgroup_out")
    cx.check(o.ip_accessgroup_in == word("aclin"), "ip_accessgroup_in")
    cx.check(o.ip_accessgroup_out == word("aclout"), "ip_accessgroup_out")
    for acc in (o.has_ip_accessgroup_in, o.has_ipv4_accessgroup_in):
        cx.check(acc == has("aclin"), "has_ip_accessgroup_in")
    for acc in (o.has_ip_accessgroup_out, o.has_ipv4_accessgroup_out):
        cx.check(acc == has("aclout"), "has_ip_accessgroup_out")
    cx.check(o.is_switchport == sw, "is_switchport")
    cx.check(o.has_manual_switch_fex_fabric == has("fexfabric"), "has_manual_switch_fex_fabric")
    cx.check(o.intf_in_portchannel == has("channel"), "intf_in_portchannel")
    cx.check(o.portchannel_number == num("channel", -1), "portchannel_number")
    cx.check(o.vpc == num("vpc"), "vpc")
    cx.check(o.is_vpc_peerlink == has("peerlink"), "is_vpc_peerlink")
    cx.check(o.fex_associate_chassis_id == num("fex"), "fex_associate_chassis_id")
    cx.check(o.manual_stp_link_type == word("stplink"), "manual_stp_link_type")
    cx.check(o.manual_stp_port_type == word("stpport"), "manual_stp_port_type")


def kinds(cx, case):
    if case["sym"]:
        kind = cx.str("kind", case["sym"], LET)
        cx.assume(kind[0] != "-")
    else:
        kind = KINDS[cx.choose("kind", len(KINDS))]
    n = case["n"]
    L = case["L"]
    nums = []
    for i in range(n):
        nums.append(value(cx, "n%d" % i, "n", L + 1 if i == n - 1 else L))
    number = nums[0]
    for d in nums[1:]:
        number += "/" + d
    sub = ""
    if case["sub"]:
        sub = ["", "409"][cx.choose("sublen", 2)] + value(cx, "sub", "n", L)
        cx.cover("subinterface")
    full = number + ("." + sub if case["sub"] else "")
    blank = ["", " "][cx.choose("blank", 2)]
    tail = ["", " point-to-point", " multipoint"][cx.choose("tail", 3)]
    if tail != "":
        cx.cover("trailing word")
    p = CiscoConfParse(["feature x", "interface " + kind + blank + full + tail, "  ip address 1.1.1.1/24"], syntax="nxos", factory=True)
    o = list(p.objs)[1]
    cx.check(o.classname == "NXOSIntfLine", "an interface is an NXOSIntfLine")
    cx.check(o.is_intf == True, "is_intf")
    cx.check(list(p.objs)[0].is_intf == False and list(p.objs)[2].is_intf == False, "other lines are no interfaces")
    if not case["sym"]:
        cx.check(o.name == kind + full, "name is the kind and the number")
        cx.check(o.port == int(nums[-1]), "port is the last number")
    cx.check(o.port_type == kind, "port_type is the kind")
    cx.check(o.interface_number == number, "interface_number is the number without subinterface")
    cx.check(o.subinterface_number == full, "subinterface_number is the number with subinterface")
    cx.check(o.is_subintf == case["sub"], "is_subintf")
    low = kind.lower()
    if not case["sym"]:
        eth = low.endswith("ethernet") or low == "mgmt"
        if eth:
            cx.cover("ethernet")
        cx.check(o.is_ethernet_intf == eth, "is_ethernet_intf")
        cx.check(o.is_portchannel_intf == (low == "port-channel"), "is_portchannel_intf")
    cx.check(o.is_loopback_intf == (low == "loopback"), "is_loopback_intf")
    cx.check(o.is_virtual_intf == (low in ("loopback", "vlan", "tunnel", "port-channel")), "is_virtual_intf")
    cx.check(list(o.ordinal_list) == [int(d) for d in nums], "ordinal_list is the tuple of the numbers, without subinterface")
    cx.check(o.build_reset_string() == "default interface " + kind + blank + full + tail, "build_reset_string")


def harness(cx, case):
    mode = case["mode"]
    if mode == "kind":
        kinds(cx, case)
        return
    if mode == "abbv":
        kind = ["Ethernet", "port-channel", "Vlan"][cx.choose("kind", 3)]
        num = cx.str("num", case["L"], DIGITS) + "/1"
        if cx.bool("sub"):
            num += ".2"
        p = CiscoConfParse(["interface " + kind + num], syntax="nxos", factory=True)
        o = list(p.objs)[0]
        cut = cx.int("cut", 0, len(kind))
        a = kind.lower()[0:cut]
        n2 = cx.str("n2", case["L"], DIGITS) + "/1" + (".2" if cx.bool("sub2") else "")
        gap = ["", " ", "  "][cx.choose("gap", 3)]
        if cx.bool("upper"):
            a = a.upper()
        want = cut > 0 and n2 == num and gap != "  "
        cx.check(o.is_abbreviated_as(a + gap + n2) == want, "abbreviations are a prefix of the kind, optionally a blank, and the whole number")
        cx.check(o.is_abbreviated_as("x" + a + gap + n2) == False, "an abbreviation is a prefix of the kind")
        return
    after = ["interface Ethernet1/2", " ip address 10.8.8.8/8", " mac access-group zz in", " ip access-group zz out", " mtu 77", " ip mtu 77", " shutdown", " speed 77", " vpc 77", " vpc peer-link",
             " ip dhcp relay address 10.8.8.9", " switchport", " vrf member zz", " mpls ip forwarding", " description zz", " no ip redirects", " arp timeout 77", " channel-group 77", " fex associate 77"]
    if mode == "pair":
        k = case["first"]
        kind, pre, typ, post = OPT[k]
        a = value(cx, "a", typ, 1)
        first = pre + a + post
        mine = [(kind, a)]
        s = cx.choose("s", 5 if case["all"] else 10)
        other = []
        if s == 0:
            v = value(cx, "b", typ, 2)
            second = pre + v + post
            other = [(kind, v)]
            cx.cover("second value")
        elif s == 1:
            second = first[3:] if first.startswith("no ") else "no " + first
            if kind == "nocdp":
                other = [("cdp", "")]
            elif kind == "noswitch":
                other = [("switchport", "")]
            elif kind == "cdp":
                other = [("nocdp", "")]
            cx.cover("no form")
        elif s == 2:
            second = "description " + first
            other = [("description", first)]
            cx.cover("description")
        elif s == 3:
            second = NEAR[(k * 2 + 1) % len(NEAR)]
        else:
            j = cx.choose("j", len(OPT)) if case["all"] else (k + (s - 3) * (s - 3) * 5 + 1) % len(OPT)
            v = value(cx, "b", OPT[j][2], 2)
            second = OPT[j][1] + v + OPT[j][3]
            other = [(NAMES[j], v)]
        if s == 4:
            j = NAMES.index({"macin": "macout", "macout": "macin", "helper": "vrf", "vrf": "helper", "vpc": "peerlink", "peerlink": "vpc"}.get(kind, kind))
            if NAMES[j] != kind:
                v = value(cx, "w", OPT[j][2], 2)
                second = OPT[j][1] + v + OPT[j][3]
                other = [(NAMES[j], v)]
        addr = cx.bool("addr")
        lines = ["interface Ethernet1/1"]
        ind = ["  ", " "][k % 2]
        if cx.bool("swap"):
            lines += [ind + second, ind + first]
            opts = other + mine
        else:
            lines += [ind + first, ind + second]
            opts = mine + other
        if kind in ("macin", "macout") and cx.bool("sw"):
            lines.append(ind + "switchport")
            opts.append(("switchport", ""))
            cx.cover("MAC group on a switchport")
        if addr:
            lines.insert(2 if kind > "m" else 1, ind + "ip address 10.1.1.1/24")
        else:
            cx.cover("no address")
        p = CiscoConfParse(lines + after, syntax="nxos", factory=True)
        expect(cx, list(p.objs)[0], opts, addr, True)
        return
    if mode == "near":
        k = cx.choose("k", len(NEAR))
        w = cx.str("w", 1, PRINT)
        cx.assume(w not in "0123456789")
        t = NEAR[k]
        if t != "no shutdown":
            t = t + w
        p = CiscoConfParse(["interface Ethernet1/1", " ip address 10.1.1.1/24", " " + t] + after, syntax="nxos", factory=True)
        expect(cx, list(p.objs)[0], [], True, True)
        return
    names = [("Ethernet101/1/1", True), ("loopback1", False), ("mgmt0", True), ("port-channel7", False), ("nve1", False), ("Vlan10", False), ("Tunnel1", False)]
    name, eth = names[cx.choose("n", len(names))]
    b = value(cx, "b", "n", 2)
    opts = [("bandwidth", b)]
    lines = ["interface " + name, " bandwidth " + b]
    d = cx.choose("d", 3)
    if d == 1:
        w = value(cx, "w", "w", 2)
        lines.append(" duplex " + w)
        opts.append(("duplex", w))
    elif d == 2:
        s = value(cx, "s", "n", 2)
        lines.append(" speed " + s)
        opts.append(("speed", s))
    p = CiscoConfParse(lines + after, syntax="nxos", factory=True)
    expect(cx, list(p.objs)[0], opts, False, eth)
