from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "one interface with a line of each of 36 option kinds plus a second line out of: the same option with another value, its 'no' form, a description that ends in the same text, a line that "
                 "only starts like it, and six other options, in both orders, with or without an IP address, followed by a second interface with other values; numbers of 1-2 symbolic digits, "
                 "words of 2 symbolic characters; every accessor is read on every path",
        "thorough": "all 36 x 36 pairs of options",
    },
    "outside": "ranges of the values, lines nested below interface lines, carrier delays other than 2 seconds / 250 msec, upper-case commands",
    "assumptions": ["commands are spelled out and indented by one blank"],
    "must_cover": ["no form", "description", "no address", "second value", "MAC group on a switchport"],
}

# kind, text before the value, type of the value, text after the value
OPT = [
    ("description", "description ", "w", ""),
    ("bandwidth", "bandwidth ", "n", ""),
    ("delay", "delay ", "n", ""),
    ("hqout", "hold-queue ", "n", " out"),
    ("hqin", "hold-queue ", "n", " in"),
    ("encap", "encapsulation ", "w", ""),
    ("mpls", "mpls ip", "", ""),
    ("speed", "speed ", "n", ""),
    ("duplex", "duplex ", "w", ""),
    ("cdelay", "carrier-delay 2", "", ""),
    ("cdelayms", "carrier-delay msec 250", "", ""),
    ("clock", "clock rate ", "n", ""),
    ("mtu", "mtu ", "n", ""),
    ("mplsmtu", "mpls mtu ", "n", ""),
    ("ipmtu", "ip mtu ", "n", ""),
    ("shutdown", "shutdown", "", ""),
    ("vrf", "vrf forwarding ", "w", ""),
    ("ipvrf", "ip vrf forwarding ", "w", ""),
    ("nounreach", "no ip unreachables", "", ""),
    ("noredir", "no ip redirects", "", ""),
    ("noproxy", "no ip proxy-arp", "", ""),
    ("dense", "ip pim dense-mode", "", ""),
    ("sparse", "ip pim sparse-mode", "", ""),
    ("sparsedense", "ip pim sparse-dense-mode", "", ""),
    ("arp", "arp timeout ", "n", ""),
    ("helper", "ip helper-address 10.0.0.", "d", ""),
    ("ghelper", "ip helper-address global 10.0.1.", "d", ""),
    ("vhelper", "ip helper-address vrf RED 10.0.2.", "d", ""),
    ("nocdp", "no cdp enable", "", ""),
    ("xconnect", "xconnect 10.9.9.9 ", "n", " encapsulation mpls"),
    ("macin", "mac access-group ", "w", " in"),
    ("macout", "mac access-group ", "w", " out"),
    ("aclin", "ip access-group ", "w", " in"),
    ("aclout", "ip access-group ", "w", " out"),
    ("switchport", "switchport", "", ""),
    ("cdp", "cdp enable", "", ""),
]
NAMES = [o[0] for o in OPT]
# lines which only start like an option
NEAR = ["description-x q", "bandwidth receive 5", "delay tokens 7", "hold-queue 5 outer", "ip tcp adjust-mss 5", "mpls label protocol ldp", "speed auto", "mtu-ignore 7", "ip mtu-x 5",
        "ip vrf receive RED", "no shutdown", "ip unreachables", "ip redirects", "ip proxy-arp", "ip pim dr-priority 5", "arp timeout-x 5", "ip helper-pool 10.0.0.5",
        "ip access-group-x 5 in", "xconnect vfi blue", "carrier-delay up 3", "service-policy input helper-address", "no ip helper-address 10.0.0.5", "no ip mtu 5", "cdp log mismatch duplex", "encapsulation-x"]


def tasks(tier):
    out = []
    for k in range(len(OPT)):
        out.append({"name": "opt-" + NAMES[k], "mode": "pair", "first": k, "all": tier == "thorough"})
    out.append({"name": "near", "mode": "near"})
    out.append({"name": "other-interfaces", "mode": "kinds"})
    return out


def value(cx, name, typ, n):
    if typ == "n":
        t = cx.str(name, n, DIGITS)
        cx.assume(t[0] != "0")
        return t
    if typ == "d":
        return cx.str(name, 1, DIGITS)
    if typ == "w":
        return cx.str(name, 2, ALNUM)
    return ""


def expect(cx, o, opts, addr, eth):
    """opts: the (kind, value) pairs of the interface, in order"""
    def num(kind):
        for a, v in opts:
            if a == kind:
                return int(v)
        return 0

    def word(*kinds):
        for a, v in opts:
            if a in kinds:
                return v
        return ""

    def has(kind):
        return any(a == kind for a, v in opts)
    cx.check(o.description == word("description"), "description")
    cx.check(o.manual_bandwidth == num("bandwidth"), "manual_bandwidth")
    cx.check(o.manual_delay == num("delay"), "manual_delay")
    cx.check(o.manual_holdqueue_out == num("hqout"), "manual_holdqueue_out")
    cx.check(o.manual_holdqueue_in == num("hqin"), "manual_holdqueue_in")
    cx.check(o.manual_encapsulation == word("encap"), "manual_encapsulation")
    cx.check(o.has_mpls == has("mpls"), "has_mpls")
    cx.check(o.has_manual_speed == has("speed"), "has_manual_speed")
    cx.check(o.manual_speed == num("speed"), "manual_speed")
    cx.check(o.has_manual_duplex == has("duplex"), "has_manual_duplex")
    cx.check(o.manual_duplex == word("duplex"), "manual_duplex")
    cx.check(o.has_autonegotiation == (eth and not has("speed") and not has("duplex")), "has_autonegotiation: an Ethernet interface without a manual speed or duplex")
    want = 2.0 if has("cdelay") else 0.25 if has("cdelayms") else 0.0
    cx.check(o.manual_carrierdelay == want, "manual_carrierdelay, in seconds")
    cx.check(o.has_manual_carrierdelay == (want != 0.0), "has_manual_carrierdelay")
    cx.check(o.manual_clock_rate == num("clock"), "manual_clock_rate")
    cx.check(o.has_manual_clock_rate == has("clock"), "has_manual_clock_rate")
    cx.check(o.manual_mtu == num("mtu"), "manual_mtu")
    cx.check(o.has_manual_mtu == has("mtu"), "has_manual_mtu")
    cx.check(o.manual_mpls_mtu == num("mplsmtu"), "manual_mpls_mtu")
    cx.check(o.has_manual_mpls_mtu == has("mplsmtu"), "has_manual_mpls_mtu")
    cx.check(o.manual_ip_mtu == num("ipmtu"), "manual_ip_mtu")
    cx.check(o.has_manual_ip_mtu == has("ipmtu"), "has_manual_ip_mtu")
    cx.check(o.is_shutdown == has("shutdown"), "is_shutdown")
    cx.check(o.vrf == word("vrf", "ipvrf"), "vrf")
    cx.check(o.has_vrf == (has("vrf") or has("ipvrf")), "has_vrf")
    cx.check(o.has_no_icmp_unreachables == (addr and has("nounreach")), "has_no_icmp_unreachables")
    cx.check(o.has_no_icmp_redirects == (addr and has("noredir")), "has_no_icmp_redirects")
    cx.check(o.has_no_ip_proxyarp == (addr and has("noproxy")), "has_no_ip_proxyarp")
    cx.check(o.has_ip_pim_dense_mode == (addr and has("dense")), "has_ip_pim_dense_mode")
    cx.check(o.has_ip_pim_sparse_mode == (addr and has("sparse")), "has_ip_pim_sparse_mode")
    cx.check(o.has_ip_pim_sparsedense_mode == (addr and has("sparsedense")), "has_ip_pim_sparsedense_mode")
    cx.check(o.manual_arp_timeout == (num("arp") if addr else -1), "manual_arp_timeout: -1 without an address")
    helpers = []
    for a, v in opts:
        if a == "helper":
            helpers.append({"addr": "10.0.0." + v, "vrf": "", "global": False})
        elif a == "ghelper":
            helpers.append({"addr": "10.0.1." + v, "vrf": "", "global": True})
        elif a == "vhelper":
            helpers.append({"addr": "10.0.2." + v, "vrf": "RED", "global": False})
    got = o.ip_helper_addresses
    cx.check(len(got) == len(helpers), "one dictionary per helper-address command")
    for g, w in zip(got, helpers):
        cx.check(sorted(g.keys()) == ["addr", "global", "vrf"], "addr, vrf and global are given")
        cx.check(g["addr"] == w["addr"], "helper address")
        cx.check(g["vrf"] == w["vrf"], "VRF of the helper address")
        cx.check(g["global"] == w["global"], "whether the helper address is global")
    cx.check(o.has_ip_helper_addresses == (len(helpers) > 0), "has_ip_helper_addresses")
    cx.check(o.has_manual_disable_cdp == has("nocdp"), "has_manual_disable_cdp")
    cx.check(o.xconnect_vc == num("xconnect"), "xconnect_vc")
    cx.check(o.has_xconnect == has("xconnect"), "has_xconnect")
    cx.check(o.mac_accessgroup_in == word("macin"), "mac_accessgroup_in")
    cx.check(o.mac_accessgroup_out == word("macout"), "mac_accessgroup_out")
    cx.check(o.has_mac_accessgroup_in == (has("macin") and has("switchport")), "has_mac_accessgroup_in: switchports only")
    cx.check(o.has_mac_accessgroup_out == (has("macout") and has("switchport")), "has_mac_accessgroup_out: switchports only")
    cx.check(o.ipv4_accessgroup_in == word("aclin"), "ipv4_accessgroup_in")
    cx.check(o.ipv4_accessgroup_out == word("aclout"), "ipv4_accessgroup_out")
    cx.check(o.ip_accessgroup_in == word("aclin"), "ip_accessgroup_in")
    cx.check(o.ip_accessgroup_out == word("aclout"), "ip_accessgroup_out")
    for acc in (o.has_ip_accessgroup_in, o.has_ipv4_accessgroup_in):
        cx.check(acc == has("aclin"), "has_ip_accessgroup_in")
    for acc in (o.has_ip_accessgroup_out, o.has_ipv4_accessgroup_out):
        cx.check(acc == has("aclout"), "has_ip_accessgroup_out")
    cx.check(o.is_switchport == has("switchport"), "is_switchport")


def harness(cx, case):
    mode = case["mode"]
    after = ["interface Gi1/2", " ip address 10.8.8.8 255.0.0.0", " mac access-group zz in", " ip access-group zz out", " mtu 77", " ip mtu 77", " shutdown", " speed 77",
             " ip helper-address 10.8.8.9", " switchport", " vrf forwarding zz", " mpls ip", " description zz", " no ip redirects", " arp timeout 77"]
    if mode == "pair":
        k = case["first"]
        kind, pre, typ, post = OPT[k]
        a = value(cx, "a", typ, 1)
        first = pre + a + post
        mine = [(kind, a)]
        s = cx.choose("s", 5 if case["all"] else 10)
        other = []
        if s == 0:
            v = value(cx, "b", typ, 2)
            second = pre + v + post
            other = [(kind, v)]
            cx.cover("second value")
        elif s == 1:
            second = first[3:] if first.startswith("no ") else "no " + first
            if kind == "nocdp":
                other = [("cdp", "")]
            elif kind == "cdp":
                other = [("nocdp", "")]
            cx.cover("no form")
        elif s == 2:
            second = "description " + first
            other = [("description", first)]
            cx.cover("description")
        elif s == 3:
            second = NEAR[(k * 2 + 1) % len(NEAR)]
        else:
            j = cx.choose("j", len(OPT)) if case["all"] else (k + (s - 3) * (s - 3) * 5 + 1) % len(OPT)
            v = value(cx, "b", OPT[j][2], 2)
            second = OPT[j][1] + v + OPT[j][3]
            other = [(NAMES[j], v)]
        if kind in ("macin", "macout") and s == 4:
            j = NAMES.index("macout" if kind == "macin" else "macin")
            second = OPT[j][1] + v + OPT[j][3]
            other = [(NAMES[j], v)]
        addr = cx.bool("addr")
        lines = ["interface GigabitEthernet1/1"]
        if cx.bool("swap"):
            lines += [" " + second, " " + first]
            opts = other + mine
        else:
            lines += [" " + first, " " + second]
            opts = mine + other
        if kind in ("macin", "macout") and cx.bool("sw"):
            lines.append(" switchport")
            opts.append(("switchport", ""))
            cx.cover("MAC group on a switchport")
        if addr:
            lines.insert(2 if kind > "m" else 1, " ip address 10.1.1.1 255.255.255.0")
        else:
            cx.cover("no address")
        p = CiscoConfParse(lines + after, syntax="ios", factory=True)
        expect(cx, list(p.objs)[0], opts, addr, True)
        return
    if mode == "near":
        k = cx.choose("k", len(NEAR))
        w = cx.str("w", 1, PRINT)
        cx.assume(w not in "0123456789")
        t = NEAR[k]
        if t != "no shutdown":
            t = t + w
        lines = ["interface GigabitEthernet1/1", " ip address 10.1.1.1 255.255.255.0", " " + t]
        p = CiscoConfParse(lines + after, syntax="ios", factory=True)
        expect(cx, list(p.objs)[0], [], True, True)
        return
    names = [("Serial0/1", False), ("Loopback1", False), ("Ethernet0", True), ("FastEthernet0/1", True), ("GigabitEthernet1/0/1", True), ("TenGigabitEthernet1/1", True), ("Vlan10", False), ("Tunnel1", False)]
    name, eth = names[cx.choose("n", len(names))]
    b = value(cx, "b", "n", 2)
    opts = [("bandwidth", b)]
    lines = ["interface " + name, " bandwidth " + b]
    d = cx.choose("d", 3)
    if d == 1:
        w = value(cx, "w", "w", 2)
        lines.append(" duplex " + w)
        opts.append(("duplex", w))
    elif d == 2:
        s = value(cx, "s", "n", 2)
        lines.append(" speed " + s)
        opts.append(("speed", s))
    p = CiscoConfParse(lines + after, syntax="ios", factory=True)
    expect(cx, list(p.objs)[0], opts, False, eth)
