from ciscoconfparse import CiscoConfParse
from props.common import *

META = {
    "bounds": {
        "quick": "syntaxes ios and nxos: hostname, 'line', AAA and global commands with symbolic words of 1-2 characters, line numbers of 1-2 symbolic digits, 0-2 further AAA methods, two child lines in "
                 "either order, and a second block of the same kind after it; classes of 14 command texts preceded or followed by symbolic text",
        "thorough": "words of 3 characters, numbers of 3 digits",
    },
    "outside": "lines with slot numbers ('line 0/0/1'), exec-timeout accessors without an exec-timeout command, 'aaa authorization console' arguments, AAA methods without a group, commands glued to other text "
               "('hostnamex'), malformed 'aaa group server' commands (refused with ValueError)",
    "assumptions": ["commands are separated by single blanks"],
    "must_cover": ["no methods", "two methods", "exec-timeout", "plain line"],
}

CMD = [
    ("hostname r1", "HostnameLine"),
    ("interface Ethernet1/1", "IntfLine"),
    ("line vty 0 4", "AccessLine"),
    ("aaa authentication login default group x", "AaaLoginAuthenticationLine"),
    ("aaa authentication enable default group x", "AaaEnableAuthenticationLine"),
    ("aaa authorization commands 15 default group x", "AaaCommandsAuthorizationLine"),
    ("aaa authorization console", "AaaConsoleAuthorizationLine"),
    ("aaa accounting commands 15 default start-stop group x", "AaaCommandsAccountingLine"),
    ("aaa accounting exec default start-stop group x", "AaaExecAccountingLine"),
    ("aaa group server tacacs+ x", "AaaGroupServerLine"),
    ("no cdp run", "IntfGlobal"),
    ("logging event link-status global", "IntfGlobal"),
    ("spanning-tree portfast bpduguard default", "IntfGlobal"),
    ("router bgp 5", "CfgLine"),
]


def tasks(tier):
    big = tier == "thorough"
    out = []
    for syn in ("ios", "nxos"):
        for m in ("class", "hostname", "line", "login", "enable", "commands", "acct", "server", "global"):
            out.append({"name": syn + "-" + m, "mode": m, "syn": syn, "W": 3 if big else 2, "N": 3 if big else 2})
    return out


def number(cx, name, n):
    t = cx.str(name, n, DIGITS)
    cx.assume(t[0] != "0")
    return t


def methods(cx):
    k = cx.choose("m", 3)
    out = []
    for i in range(k):
        out.append(cx.str("m%d" % i, 2 - i, NOSPACE))
    if k == 0:
        cx.cover("no methods")
    if k == 2:
        cx.cover("two methods")
    return out


def harness(cx, case):
    mode = case["mode"]
    syn = case["syn"]
    P = "IOS" if syn == "ios" else "NXOS"
    W = case["W"]

    def parse(lines):
        return list(CiscoConfParse(lines, syntax=syn, factory=True).objs)
    if mode == "class":
        k = cx.choose("k", len(CMD))
        text, cls = CMD[k]
        s = cx.choose("s", 4)
        if s == 0:
            t = cx.str("t", 1, NOSPACE)
            text = "x" + t + " " + text
            cls = "CfgLine"
        elif s == 1:
            text = "description " + cx.str("t", 1, NOSPACE) + " " + text
            cls = "CfgLine"
        elif s == 2:
            text = "no " + (text[3:] if text.startswith("no ") else text)
            if k != 10:
                cls = "CfgLine"
        if cls == "CfgLine":
            cx.cover("plain line")
        objs = parse(["version 1", text, " mtu 1500", "end"])
        cx.check([o.classname for o in objs] == [P + "CfgLine", P + cls, P + "CfgLine", P + "CfgLine"], "the class of a line is that of the command it starts with")
        cx.check([o.text for o in objs] == ["version 1", text, " mtu 1500", "end"], "texts are kept")
        cx.check([o.linenum for o in objs] == [0, 1, 2, 3], "line numbers")
        cx.check(objs[2].parent is objs[1], "children stay with their parent")
        return
    if mode == "hostname":
        w = cx.str("w", W, NOSPACE)
        tail = ["", " ", " x"][cx.choose("t", 3)]
        objs = parse(["version 1", "hostname " + w + tail])
        cx.check(objs[1].hostname == w, "hostname is the word after the command")
        return
    if mode == "line":
        kind = ["con", "vty", "aux", ""][cx.choose("k", 4)]
        a = cx.str("a", case["N"], DIGITS)
        two = cx.bool("two")
        b = cx.str("b", case["N"] - 1, DIGITS)
        nums = a + (" " + b if two else "")
        text = "line " + (kind + " " if kind != "" else "") + nums
        lines = [text, " login local"]
        m = s = 0
        et = cx.choose("et", 3)
        if et > 0:
            cx.cover("exec-timeout")
            x = cx.str("x", 2, DIGITS)
            y = cx.str("y", 1, DIGITS)
            m = int(x)
            if et == 2:
                s = int(y)
            lines.insert(1 + cx.choose("at", 2), " exec-timeout " + x + (" " + y if et == 2 else ""))
        objs = parse(lines + ["line vty 77 78", " exec-timeout 79 80"])
        o = objs[0]
        cx.check(o.is_accessline is True, "is_accessline")
        cx.check(o.name == kind, "name is the kind of line, '' for numbered lines")
        want = [int(a), int(b)] if two else [int(a)]
        got = o.line_range
        cx.check(type(got) is list, "line_range is a list")
        cx.check(got == want, "line_range is the list of the numbers")
        cx.check(o.range_str == " ".join([str(n) for n in want]), "range_str")
        cx.check(o.build_reset_string() == "default " + text, "build_reset_string")
        if et > 0:
            cx.check(list(o.parse_exectimeout) == ([m, s] if et == 2 else [m]), "parse_exectimeout is the list of the numbers")
            cx.check(o.manual_exectimeout_minutes() == m, "minutes")
            cx.check(o.manual_exectimeout_seconds() == s, "seconds, 0 when absent")
        else:
            cx.check(list(o.parse_exectimeout) == [], "no exec-timeout")
        return
    if mode == "login" or mode == "enable":
        n = cx.str("n", 1, NOSPACE)
        g = cx.str("g", W, NOSPACE)
        ms = methods(cx)
        o = parse(["aaa authentication " + mode + " " + n + " group " + g + "".join([" " + x for x in ms])])[0]
        cx.check(o.list_name == n, "list_name")
        cx.check(o.group == g, "group is the whole name of the server group")
        cx.check([x for x in o.methods if x != ""] == ms, "methods are the words after the group")
        return
    if mode == "commands":
        l = number(cx, "l", case["N"])
        n = cx.str("n", 1, NOSPACE)
        g = cx.str("g", W, NOSPACE)
        ms = methods(cx)
        o = parse(["aaa authorization commands " + l + " " + n + " group " + g + "".join([" " + x for x in ms])])[0]
        cx.check(o.level == int(l), "privilege level")
        cx.check(o.list_name == n, "list_name")
        cx.check(o.group == g, "group is the whole name of the server group")
        cx.check([x for x in o.methods if x != ""] == ms, "methods are the words after the group")
        return
    if mode == "acct":
        rec = ["none", "stop-only", "start-stop"][cx.choose("r", 3)]
        n = cx.str("n", 1, NOSPACE)
        g = cx.str("g", W, NOSPACE)
        if cx.bool("cmd"):
            l = number(cx, "l", case["N"])
            o = parse(["aaa accounting commands " + l + " " + n + " " + rec + " group " + g])[0]
            cx.check(o.level == int(l), "privilege level")
        else:
            o = parse(["aaa accounting exec " + n + " " + rec + " group " + g])[0]
        cx.check(o.list_name == n, "list_name")
        cx.check(o.record_type == rec, "record_type")
        cx.check(o.group == g, "group")
        return
    if mode == "server":
        proto = ["tacacs+", "radius"][cx.choose("p", 2)]
        g = cx.str("g", W, NOSPACE)
        lines = ["aaa group server " + proto + " " + g]
        vrf = src = ""
        priv = []
        for i in range(2):
            k = cx.choose("k%d" % i, 6)
            w = cx.str("w%d" % i, 2, ALNUM)
            if k == 0 and vrf == "":
                vrf = w
                lines.append((" use-vrf " if syn == "nxos" else [" vrf forwarding ", " ip vrf forwarding "][i]) + w)
            elif k == 1 and src == "":
                src = ["Loopback", "GigabitEthernet 0/"][i] + w
                lines.append((" " if syn == "nxos" else " ip " + proto.replace("+", "") + " ") + "source-interface " + src)
            elif k == 2:
                a = "10.0.%d." % i + w
                priv.append(a)
                lines.append(" server-private " + a + ["", " key 7 zz"][cx.choose("key%d" % i, 2)])
            elif k == 3:
                lines.append(" server name " + w)
            elif k == 4:
                lines.append(" ! vrf forwarding server-private " + w)
        objs = parse(lines + ["aaa group server " + proto + " zz", " ip vrf forwarding zz", " use-vrf zz", " ip tacacs source-interface zzz", " source-interface zzz", " server-private zz key z"])
        o = objs[0]
        cx.check(o.protocol == proto, "protocol")
        cx.check(o.group == g, "group")
        cx.check(o.vrf == vrf, "vrf")
        cx.check(o.source_interface == src, "source_interface")
        cx.check(o.server_private == set(priv), "server_private: the addresses of the private servers")
        return
    k = cx.choose("k", 5 if syn == "ios" else 4)
    names = ["no cdp run", "logging event link-status global", "spanning-tree portfast bpduguard default", "spanning-tree mode rapid-pvst", "spanning-tree portfast default"]
    t = cx.str("t", 1, " ")
    o = parse([names[k] + t, "end"])[0]
    cx.check(o.classname == P + "IntfGlobal", "a global interface command")
    cx.check(o.has_cdp_disabled == (k == 0), "has_cdp_disabled")
    cx.check(o.has_intf_logging_def == (k == 1), "has_intf_logging_def")
    cx.check(o.has_stp_portfast_bpduguard_def == (k == 2), "has_stp_portfast_bpduguard_def")
    cx.check(o.has_stp_mode_rapidpvst == (k == 3), "has_stp_mode_rapidpvst")
    if syn == "ios":
        cx.check(o.has_stp_portfast_def == (k == 4), "has_stp_portfast_def")
