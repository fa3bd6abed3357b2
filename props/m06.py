from ciscoconfparse import CiscoConfParse
from ciscoconfparse.models_cisco import HSRPInterfaceGroup, TrackingInterface
from props.common import *

META = {
    "bounds": {
        "quick": "one addressed interface with up to 3 lines: a virtual address of group G or none, and every ordered pair of 17 'standby' kinds of group 1x or 2x with a symbolic digit x or of group 2, plus "
                 "descriptions and 'no' forms that mention HSRP, followed by a second interface with its own group; priorities, delays, decrements of 1-2 symbolic digits, one symbolic digit in a timer, "
                 "key-chain names of 2 symbolic characters; equality and hash of groups and of tracked interfaces with symbolic group, name and decrement",
        "thorough": "triples of kinds",
    },
    "outside": "standby commands without a group number, secondary virtual addresses, object tracking ('track 5 decrement 10'), a second line of the same kind in one group, the interface-level timers in "
               "milliseconds, tracked names with a blank before a lone number",
    "assumptions": ["commands are spelled out and in lower case"],
    "must_cover": ["two groups", "ipv6 only", "msec", "track", "no form"],
}

KIND = ["ip", "ipv6", "priority", "preempt", "delay", "reload", "timers", "msec", "mixed", "track", "trackdec", "md5", "version", "bia", "name", "description", "no"]


def tasks(tier):
    out = []
    for k in range(len(KIND)):
        out.append({"name": "hsrp-" + KIND[k], "mode": "hsrp", "first": k, "n": 3 if tier == "thorough" else 2})
    out.append({"name": "groups-equal", "mode": "geq"})
    out.append({"name": "tracks-equal", "mode": "teq"})
    out.append({"name": "interface-only", "mode": "intf"})
    out.append({"name": "print", "mode": "print"})
    return out


def number(cx, name, n):
    t = cx.str(name, n, DIGITS)
    cx.assume(t[0] != "0")
    return t


def first(rows, kind, group):
    """the value of the first row of a kind, in a group or in any group"""
    kinds = kind if isinstance(kind, tuple) else (kind,)
    for k, g, v in rows:
        if k in kinds and (group is None or g == group):
            return v
    return None


def check_group(cx, h, rows, g, intf):
    cx.check(h.group == int(g), "group number")
    cx.check(h.hsrp_group == int(g), "hsrp_group")
    cx.check(h.interface_name == intf, "interface_name")
    a = first(rows, "ip", g)
    cx.check(h.ipv4 == ("" if a is None else a), "ipv4 is the virtual address of this group")
    cx.check(h.ip == ("" if a is None else a), "ip")
    b = first(rows, "ipv6", g)
    cx.check(h.ipv6 == ("" if b is None else b), "ipv6")
    cx.check(h.has_ipv6 == (b is not None), "has_ipv6")
    if a is None:
        cx.cover("ipv6 only")
    v = first(rows, "priority", g)
    cx.check(h.priority == (100 if v is None else int(v)), "priority, 100 by default")
    cx.check(h.preempt == (first(rows, ("preempt", "delay", "reload"), g) is not None), "preempt")
    v = first(rows, "delay", g)
    cx.check(h.preempt_delay == (0 if v is None else int(v)), "preempt_delay: the minimum delay, 0 by default")
    v = first(rows, ("timers", "msec", "mixed"), g)
    cx.check(h.hello_timer == (3 if v is None else v[0]), "hello_timer, in seconds")
    cx.check(h.hold_timer == (10 if v is None else v[1]), "hold_timer, in seconds")
    cx.check(h.version == (1 if first(rows, "version", None) is None else 2), "version")
    cx.check(h.use_bia == (first(rows, "bia", None) is not None), "use_bia: only the command")
    v = first(rows, "md5", g)
    cx.check(h.authentication_md5_keychain == ("" if v is None else v), "authentication_md5_keychain of this group")
    cx.check(h.has_authentication_md5 == (v is not None), "has_authentication_md5")
    want = [(v, 10) if k == "track" else v for k, gg, v in rows if k in ("track", "trackdec") and gg == g]
    got = h.interface_tracking
    cx.check(h.has_hsrp_track == (len(want) > 0), "has_hsrp_track of a group")
    cx.check(len(got) == len(want), "one TrackingInterface per tracked interface of this group")
    for t, (name, dec) in zip(got, want):
        cx.check(t.interface == name, "tracked interface")
        cx.check(t.name == name, "name of the tracked interface")
        cx.check(t.decrement == dec, "decrement, 10 by default")
        cx.check(t.tracking_interface_group == int(g), "group of the tracked interface")


def harness(cx, case):
    mode = case["mode"]
    if mode == "geq":
        a = number(cx, "a", 2)
        b = number(cx, "b", 2)
        x = cx.str("x", 1, DIGITS)
        y = cx.str("y", 1, DIGITS)
        p = CiscoConfParse(["interface Gi1/" + x, " standby " + a + " ip 10.0.0.1", "interface Gi1/" + y, " standby " + b + " ip 10.0.0.2"], syntax="ios", factory=True)
        objs = list(p.objs)
        g = objs[0].hsrp_interfaces
        h = objs[2].hsrp_interfaces
        cx.check(len(g) == 1 and len(h) == 1, "one group each")
        same = a == b and x == y
        cx.check((g[0] == h[0]) == same, "groups are equal when the number and the interface are")
        if same:
            cx.check(hash(g[0]) == hash(h[0]), "equal groups have equal hashes")
        cx.check((g[0] == a) is False, "a group is no string")
        cx.cover("two groups")
        return
    if mode == "teq":
        a = number(cx, "a", 1)
        b = number(cx, "b", 1)
        x = cx.str("x", 1, DIGITS)
        y = cx.str("y", 1, DIGITS)
        d = number(cx, "d", 1)
        e = number(cx, "e", 1)
        t = TrackingInterface(group=int(a), interface="Gi1/" + x, decrement=int(d))
        u = TrackingInterface(group=int(b), interface="Gi1/" + y, decrement=int(e))
        same = a == b and x == y and d == e
        cx.check((t == u) == same, "tracked interfaces are equal when the group, the name and the decrement are")
        if same:
            cx.check(hash(t) == hash(u), "equal tracked interfaces have equal hashes")
        cx.check((t == "Gi1/" + x) is False, "a tracked interface is no string")
        return
    cx_addr = " ip address 10.0.0.1 255.255.255.0"
    after = ["interface Gi1/2", " ip address 10.7.0.1 255.255.255.0", " standby 3 ip 10.7.0.254", " standby 3 priority 33", " standby 3 preempt delay minimum 33", " standby 3 timers 33 99", " standby use-bia",
             " standby version 2", " standby 3 track Gi1/9 33", " standby 3 authentication md5 key-chain zz", " standby 3 ipv6 fe80::9"]
    if mode == "print":
        x = cx.str("x", 2, ALNUM)
        lines = ["interface Gi1/" + x, " standby 5 " + ["ip 10.0.0.9", "ipv6 fe80::5", "ip"][cx.choose("k", 3)], " standby 5 track Vlan" + x]
        if cx.bool("addr"):
            lines.append(cx_addr)
        p = CiscoConfParse(lines + after, syntax="ios", factory=True)
        h = list(p.objs)[0].hsrp_interfaces[0]
        cx.check("'Gi1/" + x + "'" in repr(h), "repr() of a group names its interface")
        cx.check("'Vlan" + x + "'" in repr(h.interface_tracking[0]), "repr() of a tracked interface names it")
        return
    if mode == "intf":
        # interface-level accessors without any group, without an address
        addr = cx.bool("addr")
        t = ["description standby 5 ip 10.0.0.9", "no standby 5 ip 10.0.0.9", "no standby use-bia", "description standby use-bia", "no standby 5 preempt", "ip standby 5", "standby 5 priority 50"][cx.choose("k", 7)]
        t = t + cx.str("w", 1, " a")
        cx.cover("no form")
        p = CiscoConfParse(["interface Gi1/1"] + ([cx_addr] if addr else []) + [" " + t] + after, syntax="ios", factory=True)
        o = list(p.objs)[0]
        cx.check(o.hsrp_interfaces == [], "no group")
        cx.check(o.has_ip_hsrp is False, "has_ip_hsrp")
        cx.check(o.hsrp_ip_addr == "", "hsrp_ip_addr")
        cx.check(o.hsrp_group == -1, "hsrp_group")
        cx.check(o.hsrp_priority == 0, "hsrp_priority without HSRP")
        cx.check(o.has_hsrp_usebia is False, "has_hsrp_usebia")
        cx.check(o.has_hsrp_preempt is False, "has_hsrp_preempt")
        cx.check(o.has_hsrp_track is False, "has_hsrp_track")
        return
    G = "12"[case["first"] % 2] + cx.str("G", 1, DIGITS)  # 1x sorts before 2 as text, 2x begins like 2
    rows = []
    lines = ["interface Gi1/1", cx_addr]
    seen = []
    base = cx.bool("base")
    if base:
        rows.append(("ip", G, "10.0.0.254"))
        lines.append(" standby " + G + " ip 10.0.0.254")
        seen.append(("ip", G))
    for i in range(case["n"]):
        k = case["first"] if i == 0 else cx.choose("k%d" % i, len(KIND))
        kind = KIND[k]
        n = "%d" % i
        if kind in ("version", "bia", "description", "no"):
            g = ""
        elif cx.bool("g" + n):
            g = G
        else:
            g = "2"
            cx.cover("two groups")
        family = "preempt" if kind in ("delay", "reload") else "timers" if kind in ("msec", "mixed") else kind
        if kind not in ("track", "trackdec", "description", "no") and any(f == family and x == g for f, x in seen):
            cx.assume(False)
        seen.append((family, g))
        s = "standby " + g + " "
        v = ""
        if kind == "ip":
            v = "10.0.0." + number(cx, "v" + n, 1)
            t = s + "ip " + v
        elif kind == "ipv6":
            v = "fe80::" + number(cx, "v" + n, 1)
            t = s + "ipv6 " + v
        elif kind == "priority":
            v = number(cx, "v" + n, 2)
            t = s + "priority " + v
        elif kind == "preempt":
            t = s + "preempt"
        elif kind == "delay":
            v = number(cx, "v" + n, 2)
            t = s + "preempt delay minimum " + v + ["", " reload 90"][i % 2]
        elif kind == "reload":
            t = s + "preempt delay reload " + number(cx, "v" + n, 2)
        elif kind == "timers":
            a = number(cx, "v" + n, 1) if i == 0 else "4"
            b = number(cx, "h" + n, 1) if i == 1 else "15"
            v = (int(a), int(b))
            t = s + "timers " + a + " " + b
        elif kind == "msec":
            v = (0.25, 0.75)
            t = s + "timers msec 250 msec 750"
            cx.cover("msec")
        elif kind == "mixed":
            b = number(cx, "h" + n, 1)
            v = (0.25, int(b))
            t = s + "timers msec 250 " + b
        elif kind == "track":
            v = "Serial0/" + number(cx, "v" + n, 1)
            t = s + "track " + v
            cx.cover("track")
        elif kind == "trackdec":
            d = number(cx, "v" + n, 2)
            v = (["GigabitEthernet0/7", "GigabitEthernet 0/7", "Vlan10"][i], int(d))
            t = s + "track " + v[0] + " " + d
        elif kind == "md5":
            v = cx.str("v" + n, 2, ALNUM)
            t = s + "authentication md5 key-chain " + v
        elif kind == "version":
            t = "standby version 2"
        elif kind == "bia":
            t = "standby use-bia" + ["", " scope interface"][i % 2]
        elif kind == "name":
            t = s + "name " + ["msec", "track", "use-bia"][i] + " x"
        elif kind == "description":
            t = "description " + ["standby 2 ip 10.0.0.8", "standby use-bia", "standby 2 preempt", "standby 2 track Gi0/1 7"][cx.choose("v" + n, 4)]
        else:
            t = "no standby " + ["2 ip 10.0.0.8", "use-bia", "2 preempt", "2 authentication md5 key-chain x"][cx.choose("v" + n, 4)]
            cx.cover("no form")
        rows.append((kind, g, v))
        lines.append(" " + t)
    p = CiscoConfParse(lines + after, syntax="ios", factory=True)
    o = list(p.objs)[0]
    groups = [g for g in ("2", G) if first(rows, ("ip", "ipv6"), g) is not None]
    got = o.hsrp_interfaces
    cx.check(len(got) == len(groups), "one group object per group with a virtual address")
    for h, g in zip(got, groups):
        check_group(cx, h, rows, g, "Gi1/1")
    a = first(rows, "ip", None)
    cx.check(o.hsrp_ip_addr == ("" if a is None else a), "hsrp_ip_addr")
    cx.check(o.has_ip_hsrp == (a is not None), "has_ip_hsrp")
    gs = [g for k, g, v in rows if k == "ip"]
    cx.check(o.hsrp_group == (int(gs[0]) if gs else -1), "hsrp_group: the group of the first virtual address")
    v = first(rows, "priority", None)
    cx.check(o.hsrp_priority == (0 if a is None else 100 if v is None else int(v)), "hsrp_priority")
    v = first(rows, "timers", None)
    cx.check(o.hsrp_hello_timer == (0 if v is None else v[0]), "hsrp_hello_timer")
    cx.check(o.hsrp_hold_timer == (0 if v is None else v[1]), "hsrp_hold_timer")
    tr = [v if k == "track" else v[0] for k, g, v in rows if k in ("track", "trackdec")]
    cx.check(o.hsrp_track == (tr[0] if tr else ""), "hsrp_track: the first tracked interface")
    cx.check(o.has_hsrp_track == (len(tr) > 0), "has_hsrp_track")
    cx.check(o.has_hsrp_usebia == (first(rows, "bia", None) is not None), "has_hsrp_usebia")
    cx.check(o.has_hsrp_preempt == (first(rows, ("preempt", "delay", "reload"), None) is not None), "has_hsrp_preempt")
    v = first(rows, "md5", None)
    cx.check(o.hsrp_authentication_md5_keychain == ("" if v is None else v), "hsrp_authentication_md5_keychain")
    cx.check(o.has_hsrp_authentication_md5 == (v is not None), "has_hsrp_authentication_md5")
