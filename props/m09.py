from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ccp_util import IPv4Obj
from props.common import *

META = {
    "bounds": {
        "quick": "ASA configurations with two 'name' lines, network groups of two members out of 8 kinds (hosts by address, known and unknown name, networks by address and name with 5 masks, nested group, "
                 "description) and service groups of four protocol kinds with two members out of 9 kinds, nested groups defined before or after, nesting to depth 3; names of 1-2 symbolic characters, "
                 "symbolic address digits and ports of one digit in the first member; access lists of three entries under two names",
        "thorough": "three members, names of 3 characters, ports of 2 digits",
    },
    "outside": "groups nested in a cycle through other groups, members the parser refuses with NotImplementedError ('network-object object', 'service-object icmp'), group names used twice, malformed 'name' lines",
    "assumptions": ["member lines are indented by one blank"],
    "must_cover": ["nested", "name resolved", "unknown name", "tcp-udp", "self reference", "missing group", "depth 3", "range"],
}
NAME = "ABxy19_-."
MASKS = [("255.0.0.0", 8), ("255.255.255.0", 24), ("255.255.255.252", 30), ("255.255.255.255", 32), ("0.0.0.0", 0)]


def tasks(tier):
    big = tier == "thorough"
    W = 3 if big else 2
    out = []
    for i in range(8):
        out.append({"name": "net-%d" % i, "mode": "net", "first": i, "W": W, "n": 3 if big else 2})
    for i in range(9):
        out.append({"name": "svc-%d" % i, "mode": "svc", "first": i, "W": W, "n": 3 if big else 2, "P": 2 if big else 1})
    for m in ("deep", "bad", "names", "acl", "class", "equal"):
        out.append({"name": m, "mode": m, "W": W})
    return out


def network_text(o):
    return str(o.as_cidr_net)


def net_member(cx, i, k, w, n1, a1):
    """line, its network_strings entry, the network, or None for a nested group"""
    d = cx.str("d%d" % i, 1, DIGITS) if i == 0 else "4"
    if k == 0:
        return " network-object host 10.1.1." + d, "10.1.1." + d, "10.1.1." + d + "/32"
    if k == 1:
        cx.cover("name resolved")
        return " network-object host " + n1, a1, a1 + "/32"
    if k == 2:
        u = "u" + cx.str("u%d" % i, 1, NAME)
        cx.cover("unknown name")
        return " network-object host " + u, u, None
    if k == 3 or k == 4:
        mask, plen = MASKS[cx.choose("mask%d" % i, len(MASKS)) if i == 0 else 2]
        base = "10.2." + d + ".8"
        net = {8: "10.0.0.0", 24: "10.2." + d + ".0", 30: base, 32: base, 0: "0.0.0.0"}[plen]
        shown = base if plen == 32 else base + "/" + mask
        if k == 4:
            net = {8: "10.0.0.0", 24: "10.9.9.0", 30: "10.9.9.%d" % (int(a1[7:]) // 4 * 4), 32: a1, 0: "0.0.0.0"}[plen]
            return " network-object " + n1 + " " + mask, (a1 if plen == 32 else a1 + "/" + mask), net + "/%d" % plen
        return " network-object " + base + " " + mask, shown, net + "/%d" % plen
    if k == 5:
        cx.cover("nested")
        return " group-object H", "", "nested"
    if k == 6:
        return " description network-object host 1.2.3." + d, "", "none"
    return " network-object 10.3.0.0  255.255.0.0", "10.3.0.0/255.255.0.0", "10.3.0.0/16"


def svc_member(cx, i, k, proto, case):
    """line and the list of (protocol, ports)"""
    P = case["P"]
    p = cx.str("p%d" % i, P, DIGITS) if i == 0 else "3"
    cx.assume(p[0] != "0")
    n = int(p)
    own = ["tcp", "udp"] if proto == "tcp-udp" else [proto]
    if k == 0:
        return " service-object tcp destination eq " + p, [("tcp", [n])]
    if k == 1:
        return " service-object udp source " + p, [("udp", [n])]
    if k == 2:
        cx.cover("tcp-udp")
        return " service-object tcp-udp destination eq  " + p, [("tcp", [n]), ("udp", [n])]
    if k == 3 or k == 7:
        q = cx.str("q%d" % i, P, DIGITS) if i == 0 else "5"
        m = int(q)
        cx.assume(n <= m)
        cx.cover("range")
        ports = []
        for x in range(1, 10 ** P):
            if n <= x and x <= m:
                ports.append(x)
        if k == 3:
            return " service-object tcp source range " + p + " " + q, [("tcp", ports)]
        return " port-object range " + p + " " + q, [(a, ports) for a in own]
    if k == 4:
        names = ["ssh", "www", "domain"]
        return " service-object tcp destination " + names[0], [("tcp", [22])]
    if k == 5:
        cx.cover("nested")
        return " group-object H", None
    if k == 6:
        return " port-object eq " + p, [(a, [n]) for a in own]
    return " description service-object tcp destination eq " + p, []


def check_ports(cx, got, want):
    cx.check(len(got) == len(want), "one object per protocol and member")
    for g, (proto, ports) in zip(got, want):
        cx.check(g.protocol == proto, "protocol of a port object")
        cx.check(list(g.port_list) == ports, "ports of a port object")


def harness(cx, case):
    mode = case["mode"]
    W = case["W"]

    def parse(lines):
        return CiscoConfParse(lines, syntax="asa", factory=True)
    if mode == "net":
        n1 = "n" + cx.str("n1", W - 1, NAME)
        d = cx.str("a", 1, DIGITS)
        a1 = "10.9.9." + d
        lines = ["object-group network G"]
        strs, nets = [], []
        hstr, hnet = "10.7.7.7", "10.7.7.7/32"
        for i in range(case["n"]):
            k = case["first"] if i == 0 else cx.choose("k%d" % i, 8)
            t, s, net = net_member(cx, i, k, W, n1, a1)
            lines.append(t)
            if net == "nested":
                strs += [hstr, "10.7.0.0/255.255.0.0"]
                nets += [hnet, "10.7.0.0/16"]
            elif net != "none":
                strs.append(s)
                nets.append(net)
        group_h = ["object-group network H", " network-object host 10.7.7.7", " network-object 10.7.0.0 255.255.0.0"]
        other = ["object-group network GG", " network-object host 10.6.6.6"]
        nm = ["name 1.1.1.1 zz", "name " + a1 + " " + n1]
        if cx.bool("after"):
            cfg = lines + nm + other + group_h
            g = 0
        else:
            cfg = nm + group_h + lines + other
            g = len(nm) + len(group_h)
        p = parse(cfg)
        o = list(p.objs)[g]
        cx.check(o.name == "G", "name of the group")
        cx.check(o.network_strings == strs, "network_strings in order, names resolved, nested groups expanded")
        cx.check(o.network_count == len(strs), "network_count")
        if None not in nets:
            got = o.networks
            cx.check(len(got) == len(nets), "one network per entry")
            for x, w in zip(got, nets):
                cx.check(isinstance(x, IPv4Obj), "networks are IPv4Obj")
                cx.check(network_text(x) == w, "network of a member")
            again = o.networks
            cx.check([network_text(x) for x in again] == nets, "networks again")
        return
    if mode == "svc":
        proto = ["", "tcp", "udp", "tcp-udp"][cx.choose("proto", 4)]
        lines = ["object-group service G" + (" " + proto if proto != "" else "")]
        want = []
        for i in range(case["n"]):
            k = case["first"] if i == 0 else cx.choose("k%d" % i, 9)
            if proto == "" and k in (6, 7):
                cx.assume(False)
            t, w = svc_member(cx, i, k, proto, case)
            lines.append(t)
            want += [("udp", [7]), ("tcp", [8, 9])] if w is None else w
        group_h = ["object-group service H", " service-object udp destination eq 7", " service-object tcp destination range 8 9"]
        if cx.bool("after"):
            cfg, g = lines + group_h, 0
        else:
            cfg, g = group_h + lines, len(group_h)
        o = list(parse(cfg).objs)[g]
        cx.check(o.name == "G", "name of the group")
        cx.check(o.protocol_type == proto, "protocol of the group")
        cx.check(o.L4Objects_are_directional == (proto == ""), "a group without protocol is directional")
        check_ports(cx, o.ports, want)
        return
    if mode == "deep":
        cx.cover("depth 3")
        n = ["x" + cx.str("n%d" % i, 1, NAME) for i in range(3)]
        cx.assume(n[0] != n[1])
        cx.assume(n[1] != n[2])
        cx.assume(n[0] != n[2])
        d = [cx.str("d%d" % i, 1, DIGITS) for i in range(3)]
        svc = cx.bool("svc")
        order = [(0, 1, 2), (2, 1, 0), (1, 2, 0)][cx.choose("order", 3)]
        cfg = []
        at = {}
        for j in order:
            at[j] = len(cfg)
            cfg.append("object-group " + ("service " if svc else "network ") + n[j])
            body = [" service-object tcp destination eq 5" + d[j] if svc else " network-object host 10.0.%d." % j + d[j]]
            if j < 2:
                body.insert(j, " group-object " + n[j + 1])
            cfg += body
        objs = list(parse(cfg).objs)
        # group 0: group-object first; group 1: group-object last
        if svc:
            want = [("tcp", [int("5" + d[j])]) for j in (1, 2, 0)]
            check_ports(cx, objs[at[0]].ports, want)
            check_ports(cx, objs[at[1]].ports, want[0:2])
        else:
            want = ["10.0.%d." % j + d[j] for j in (1, 2, 0)]
            cx.check(objs[at[0]].network_strings == want, "network_strings of a group nested twice")
            cx.check(objs[at[1]].network_strings == want[0:2], "network_strings of the nested group")
            cx.check([network_text(x) for x in objs[at[0]].networks] == [w + "/32" for w in want], "networks of a group nested twice")
        return
    if mode == "bad":
        svc = cx.bool("svc")
        kw = "service " if svc else "network "
        a = cx.str("a", W, NAME)
        b = cx.str("b", W, NAME)
        same = a == b
        p = parse(["object-group " + kw + a, " group-object " + b, "object-group " + ("network " if svc else "service ") + "B" + b, " description x"])
        cx.cover("self reference" if same else "missing group")
        o = list(p.objs)[0]
        try:
            got = o.ports if svc else o.network_strings
            bad = False
        except ValueError:
            bad = True
        cx.check(bad, "a group which refers to itself or to a missing group is refused with ValueError")
        return
    if mode == "names":
        a = cx.str("a", W, NAME)
        b = cx.str("b", W, NAME)
        d = cx.str("d", 2, DIGITS)
        sp = [" ", "  "][cx.choose("sp", 2)]
        p = parse(["name 10.1.1." + d + sp + a, "names", "object-group network G", " description name 1.1.1.1 zz", "name 10.1.2.3 " + b + " description x"])
        want = {}
        want[a] = "10.1.1." + d
        want[b] = "10.1.2.3"
        objs = list(p.objs)
        cx.check(p.ConfigObjs.names == want, "names maps every name to its address, the last line winning")
        cx.check(objs[0].name == a and objs[0].addr == "10.1.1." + d, "name and addr of a name line")
        cx.check(objs[0].result_dict == {"name": a, "addr": "10.1.1." + d}, "result_dict of a name line")
        cx.check(objs[4].name == b and objs[4].addr == "10.1.2.3", "name with a description")
        groups = p.ConfigObjs.object_group_network
        cx.check(list(groups.keys()) == ["G"] and groups["G"] is objs[2], "object_group_network maps names to groups")
        return
    if mode == "acl":
        a = cx.str("a", W, NAME)
        b = cx.str("b", W, NAME)
        which = [cx.bool("w%d" % i) for i in range(3)]
        lines = ["access-list " + (a if w else b) + " extended permit tcp any any eq %d" % (i + 1) for i, w in enumerate(which)]
        p = parse(["hostname x"] + lines + ["access-group " + a + " in interface outside"])
        got = p.ConfigObjs.access_list
        want = {}
        for i, w in enumerate(which):
            nm = a if w else b
            want.setdefault(nm, []).append(i + 1)
        cx.check(len(got) == len(want), "one key per access list")
        for nm in want:
            cx.check([o.linenum for o in got[nm]] == want[nm], "the entries of an access list, in order")
        return
    if mode == "equal":
        d = cx.str("d", 1, DIGITS)
        e = cx.str("e", 1, DIGITS)
        lines = ["name 10.1.1." + d + " nn", "object-group network A", " network-object host nn", "object-group network B", " network-object host 10.1.1." + e, "object-group network C", " group-object A"]
        objs = list(parse(lines).objs)
        A, B, C = objs[1], objs[3], objs[5]
        cx.check((A.network_strings == B.network_strings) == (d == e), "groups of the same addresses have the same strings")
        cx.check(A.network_strings == C.network_strings, "a group of one group has its strings")
        cx.check(A.hash_children == C.hash_children, "hash_children follows the expanded networks")
        if d == e:
            cx.check(A.hash_children == B.hash_children, "hash_children of equal groups")
        return
    CMD = [("name 1.1.1.1 x", "Name"), ("object network x", "ObjNetwork"), ("object service x", "ObjService"), ("object-group network x", "ObjGroupNetwork"), ("object-group service x tcp", "ObjGroupService"),
           ("interface Ethernet0/1", "IntfLine"), ("mtu outside 1500", "IntfGlobal"), ("hostname x", "HostnameLine"), ("access-list x remark y", "AclLine"), ("route outside 0 0 1.1.1.1", "CfgLine"),
           ("object-group icmp-type x", "CfgLine"), ("object-group protocol x", "CfgLine"), ("names", "CfgLine"), ("nat (inside) 0 access-list x", "CfgLine")]
    text, cls = CMD[cx.choose("k", len(CMD))]
    s = cx.choose("s", 3)
    if s == 0:
        text = "x" + cx.str("t", 1, ALNUM) + " " + text
        cls = "CfgLine"
    elif s == 1 and cls not in ("AclLine",):
        text = text + cx.str("t", 2, ALNUM)
        if text[0:5] == "names":
            cls = "CfgLine"
    objs = list(parse(["version 9", text, " mtu 1500", "end"]).objs)
    cx.check([o.classname for o in objs] == ["ASACfgLine", "ASA" + cls, "ASACfgLine", "ASACfgLine"], "the class of a line is that of the command it starts with")
    cx.check([o.text for o in objs] == ["version 9", text, " mtu 1500", "end"], "texts are kept")
    cx.check(objs[2].parent is objs[1], "children stay with their parent")
    if cls == "HostnameLine":
        cx.check(objs[1].hostname == text[9:], "hostname")
