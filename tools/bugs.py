CC = "ciscoconfparse.py"
AB = "ccp_abc.py"
UT = "ccp_util.py"
HDR = "from ciscoconfparse import CiscoConfParse\n"

bug("C01a", "C01", [(CC, "        self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg, debug=self.debug)",
"        self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng([ii for ii in self.ioscfg if ii != \"\"], debug=self.debug)")],
HDR + """
p = CiscoConfParse(["interface Gi0/1", "", " shutdown"], ignore_blank_lines=False)
before = p.ioscfg
p.commit()
assert p.ioscfg == before, p.ioscfg
""", "a configuration parsed with ignore_blank_lines=False, containing blank lines, then commit()", "commit() drops blank lines of an unedited configuration")

bug("C02a", "C02", [(CC, "            elif indent > max_indent:\n", "            elif is_config_line and indent > max_indent:\n")],
HDR + """
p = CiscoConfParse(["interface Gi0/1", "  ! a comment", "interface Gi0/2", "  description b"])
o = p.find_objects("description b")[0]
assert o.parent.text == "interface Gi0/2", o.parent
""", "an indented comment is the deepest line of a block and the next block has a line at the same indentation", "a child of the second block is attached to the first block (stale parent cache)")

bug("C03a", "C03", [(CC, "                    if len(parts) > 2:\n                        ## banner has both", "                    if len(parts) > 2 and parts[-1].strip() == \"\":\n                        ## banner has both")],
HDR + """
p = CiscoConfParse(["banner motd #hello# x", "interface Gi0/1", " shutdown"])
assert p.find_objects("^banner")[0].children == []
""", "a one-line banner followed by text after the closing delimiter", "the banner swallows the lines after it")

bug("C05a", "C05", [(CC, '        linespec = re.sub(r"\\s+", escaped_space, linespec)', '        linespec = re.sub(r"\\s", escaped_space, linespec)')],
HDR + """
p = CiscoConfParse(["a b"])
assert len(p.find_objects("a  b", ignore_ws=True)) == 1
""", "ignore_ws=True with two consecutive blanks in the spec and one in the line", "a line differing only in the amount of white space is not found")

bug("C06a", "C06", [(CC, "                for child in parent.all_children:\n", "                for child in parent.children + [gc for cc in parent.children for gc in cc.children]:\n")],
HDR + """
p = CiscoConfParse(["a", " b", "  c", "   d"])
assert [o.text for o in p.find_child_objects("^a", "d", recurse=True)] == ["   d"]
""", "recurse=True and the child is three or more levels below the parent", "descendants deeper than grandchildren are not found")

bug("C08a", "C08", [(AB, "        return [obj for obj in self.parent.children if (obj.indent == indent)]", "        return [obj for obj in self.parent.children if (obj.indent >= indent)]")],
HDR + """
p = CiscoConfParse(["a", "  b", " c"])
assert [o.text for o in p.find_objects("c")[0].siblings] == [" c"]
""", "children of one parent at different indentations, the deeper one first", "siblings includes lines with another indentation")

bug("C14a", "C14", [(AB, "        if self.linenum > val.linenum:\n            return True", "        if self.linenum >= val.linenum:\n            return True")],
HDR + """
a = CiscoConfParse(["x"]).objs[0]
b = CiscoConfParse(["y"]).objs[0]
assert not a > b and not b > a
""", "comparing lines of two configurations at the same line number", "> holds between lines with equal numbers")

bug("C07a", "C07", [(CC, "                            matched_capture = regex_result.groups()\n", "                            matched_capture = tuple(ii for ii in regex_result.groups() if ii is not None)\n")],
HDR + """
p = CiscoConfParse(["a b"])
assert p.find_object_branches(("(a)|(x)",), regex_groups=True) == [[("a", None)]]
""", "regex_groups=True with an expression whose groups do not all take part in the match", "groups are dropped, so captured values move to other positions")

bug("C09a", "C09", [(AB, "            last_child = self.all_children[-1]\n", "            last_child = self.children[-1]\n")],
HDR + """
p = CiscoConfParse(["a", " b", "  c", "d"])
p.objs[0].append_to_family(" e")
assert p.ioscfg == ["a", " b", "  c", " e", "d"], p.ioscfg
""", "append_to_family() on a line whose last child has children of its own", "the line is inserted in the middle of the family and captures the grandchildren")

bug("C10a", "C10", [(CC, "        objs = self.find_objects(linespec, exactmatch, ignore_ws)\n        for obj in reversed(objs):", "        objs = self.find_objects(linespec, exactmatch)\n        for obj in reversed(objs):")],
HDR + """
p = CiscoConfParse(["a  b", "c"])
p.delete_lines("a b", ignore_ws=True)
assert p.ioscfg == ["c"], p.ioscfg
""", "delete_lines(ignore_ws=True) and a line which differs from the spec in white space", "the matching line is not deleted")

bug("C11a", "C11", [(AB, '        if retval.strip() == "":\n            self.delete()', '        if retval == "":\n            self.delete()')],
HDR + """
p = CiscoConfParse(["a", " b"], ignore_blank_lines=False)
p.replace_lines("b", "")
assert p.ioscfg == ["a"], p.ioscfg
""", "the substitution leaves only the indentation of a line", "the blank line stays in the configuration")

bug("C11b", "C11", [(CC, "                    # Exclude replacements on pobj lines which match excludespec\n                    continue\n                elif childspec_re.search(cobj.text):\n                    retval.append(cobj.re_sub(childspec, replacestr))", "                    # Exclude replacements on pobj lines which match excludespec\n                    break\n                elif childspec_re.search(cobj.text):\n                    retval.append(cobj.re_sub(childspec, replacestr))")],
HDR + """
p = CiscoConfParse(["a", " b no", " b"])
p.replace_children("a", "b", "c", excludespec="no")
assert p.ioscfg == ["a", " b no", " c"], p.ioscfg
""", "an excluded child line in front of another matching child of the same parent", "children after the excluded one are not replaced")
UHDR = "from ciscoconfparse.ccp_util import *\nfrom ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj\n"
bug("I01a", "I01", [(UT, "            if not (0 <= v4input <= IPV4_MAXINT):", "            if not (0 <= v4input < IPV4_MAXINT):")],
UHDR + """
assert IPv4Obj(4294967295).as_cidr_addr == "255.255.255.255/32"
""", "the integer 2**32-1", "the highest address is refused as an integer")

bug("I01b", "I01", [(UT, '            if netmask != "" and prefixlen != "":\n                prefixlen = ""', '            if netmask != "" and prefixlen != "":\n                prefixlen = ""\n            if prefixlen != "":\n                prefixlen = str(min(int(prefixlen), IPV4_MAX_PREFIXLEN))')],
UHDR + """
try:
    IPv4Obj("10.0.0.1/33")
except ValueError:
    pass
else:
    raise SystemExit(1)
""", "a prefix length above 32", "an invalid prefix length is silently taken for 32")

bug("I02a", "I02", [(UT, "|(?P<opt9>:(?::{0}){{1,7}})", "|(?P<opt9>:(?::{0}){{1,6}})")],
UHDR + """
assert IPv6Obj("::2:3:4:5:6:7:8/64").prefixlen == 64
""", "a leading double colon that stands for a single zero group", "a valid IPv6 address is refused")

bug("I02b", "I02", [(UT, r"|(?P<opt2>[0-9a-fA-F\:]+?\d+\.\d+", r"|(?P<opt2>[0-9a-f\:]+?\d+\.\d+")],
UHDR + """
assert int(IPv6Obj("::FFFF:1.2.3.4/96")) == 0xffff01020304
""", "an embedded IPv4 address after hex digits in upper case", "a valid IPv6 address is refused")

bug("I03a", "I03", [(UT, '''                    if getattr(obj, attr_name, None) is None:
                        error_str = f"Cannot compare {self} with '{type(obj)}'"
                        raise RequirementFailure(error_str)

            val_prefixlen = int(getattr(val, "prefixlen"))
            self_prefixlen = int(getattr(self, "prefixlen"))
            val_ndec = int(getattr(val, "as_decimal_network"))
            self_ndec = int(getattr(self, "as_decimal_network"))
            val_dec = int(getattr(val, "as_decimal"))
            self_dec = int(getattr(self, "as_decimal"))

            if self_ndec == val_ndec and self_prefixlen == val_prefixlen:
                return self_dec < val_dec
''', '''                    if getattr(obj, attr_name, None) is None:
                        error_str = f"Cannot compare {self} with '{type(obj)}'"
                        raise RequirementFailure(error_str)

            val_prefixlen = int(getattr(val, "prefixlen"))
            self_prefixlen = int(getattr(self, "prefixlen"))
            val_ndec = int(getattr(val, "as_decimal_network"))
            self_ndec = int(getattr(self, "as_decimal_network"))
            val_dec = int(getattr(val, "as_decimal"))
            self_dec = int(getattr(self, "as_decimal"))

            if self_ndec == val_ndec and self_prefixlen == val_prefixlen:
                return self_dec <= val_dec
''')],
UHDR + """
a, b = IPv6Obj("2001:db8::1/64"), IPv6Obj("2001:db8::1/64")
assert not (a < b) and not (b < a)
""", "comparing two equal IPv6 addresses", "an IPv6 address is before itself")

bug("I03b", "I03", [(UT, """        # Python3 needs __hash__()
        if self.empty is False:
            return hash(str(self.ip_object)) + hash(str(self.prefixlen))
        else:
            return hash(None)

    # do NOT wrap with @logger.catch(...)
    # On IPv4Obj()
""", """        # Python3 needs __hash__()
        if self.empty is False:
            return hash(id(self.ip_object)) + hash(str(self.prefixlen))
        else:
            return hash(None)

    # do NOT wrap with @logger.catch(...)
    # On IPv4Obj()
""")],
UHDR + """
assert len({IPv4Obj("10.0.0.3/32"), IPv4Obj("10.0.0.3/32")}) == 1
""", "two equal IPv4 objects in a set or as dict keys", "equal objects have different hashes")

bug("I05a", "I05", [(UT, "            max_offset = self.as_decimal_broadcast - self.as_decimal_network\n", "            max_offset = self.numhosts\n")],
UHDR + """
a = IPv4Obj("10.0.0.1/24")
a.network_offset = 255
assert str(a.ip) == "10.0.0.255"
""", "network_offset set to the last address of the network", "a valid offset is refused (and an invalid one accepted for /31 and /32)")

bug("I05b", "I05", [(UT, '''            raise ValueError(f"Cannot add type: '{type(val)}' to {self}")

        orig_prefixlen = self.prefixlen
''', '''            raise ValueError(f"Cannot add type: '{type(val)}' to {self}")

        orig_prefixlen = self.prefixlen or IPV6_MAX_PREFIXLEN
''')],
UHDR + """
assert (IPv6Obj("::1/0") + 1).prefixlen == 0
""", "an IPv6 address with prefix length 0", "adding to it changes the prefix length to 128")

bug("N01a", "N01", [(UT, """                re_channel = re.search(r"\\:(?P<channel>\\d+)", _slot_card_port_subinterface_channel)
                if""", """                re_channel = re.search(r"\\d\\:(?P<channel>\\d{1,4})", _slot_card_port_subinterface_channel)
                if""", 0)],
UHDR + """
assert CiscoIOSInterface("Serial1/0:12345").channel == 12345
""", "a slashed interface name with a channel number of five digits", "the channel number is cut off")

bug("N01b", "N01", [(UT, """            return self.prefix == other.prefix and self.sort_list == other.sort_list
        except Exception:
            return False

    # This method is on CiscoIOSInterface()
    @logger.catch(reraise=True)
    def __gt__""", """            return self.prefix == other.prefix and self.number_list == other.number_list and self.subinterface == other.subinterface and self.channel == other.channel
        except Exception:
            return False

    # This method is on CiscoIOSInterface()
    @logger.catch(reraise=True)
    def __gt__""", 0)],
UHDR + """
assert CiscoIOSInterface("Serial1/0.1 multipoint") != CiscoIOSInterface("Serial1/0.1 point-to-point")
""", "two interfaces that differ only in their interface class", "they compare equal")

bug("R01a", "R01", [(UT, "                    input_str[ii + 1] - input_str[ii] == 1\n", "                    input_str[ii + 1] - input_str[ii] <= 2\n")],
UHDR + """
assert CiscoRange("1,2,4", result_type=int).as_compressed_str() == "1,2,4"
""", "two successive numbers followed by a gap of one number", "the compressed text includes the number of the gap")

bug("R01b", "R01", [(UT, "    def append(self, val, sort=True, ignore_errors=False, debug=False):", "    def append(self, val, sort=False, ignore_errors=False, debug=False):")],
UHDR + """
assert list(CiscoRange("5-7", result_type=int).append(1)) == [1, 5, 6, 7]
""", "a number appended that is not the largest, then iteration", "iteration is not in order, and the range differs from an equal one")

bug("R02a", "R02", [(UT, "        _expanded_interfaces = list(set(_expanded_interfaces))\n", "        _expanded_interfaces = list(_expanded_interfaces)\n")],
UHDR + """
assert len(CiscoRange("Eth1/1-3,2")) == 3
""", "overlapping parts of an interface range", "members are counted and iterated twice")

bug("R02b", "R02", [(UT, """                    for ii in range(begin_ordinal, end_ordinal + 1):
                        if debug is True:
                            logger.debug(f"    idx: {idx} at point04, ""","""                    for ii in range(begin_obj.subinterface, end_ordinal + 1):
                        if debug is True:
                            logger.debug(f"    idx: {idx} at point04, """)],
UHDR + """
assert CiscoRange("Eth1.1,5-6").as_list(result_type=str) == ["Eth1.1", "Eth1.5", "Eth1.6"]
""", "a range of subinterfaces whose later part is itself a range of bare numbers", "the later part starts at the first subinterface of the whole range")

bug("I04a", "I04", [(UT, "    return ipaddr_collapse_addresses([ip_net(ii) for ii in network_list])", "    # skip duplicates\n    networks = {ip_net(ii).network_address: ip_net(ii) for ii in network_list}\n    return ipaddr_collapse_addresses(networks.values())")],
UHDR + """
assert [str(ii) for ii in collapse_addresses([IPv4Obj("10.0.0.0/24"), IPv4Obj("10.0.0.0/25")])] == ["10.0.0.0/24"]
""", "two networks with the same first address and different lengths, the longer prefix last", "the larger network is lost")

bug("I04b", "I04", [(UT, "        elif isinstance(arg, IPv6Obj):\n            return arg.network\n        elif isinstance(arg, IPv6Network):", "        elif isinstance(arg, IPv6Obj):\n            return IPv6Network((arg.ip, arg.prefixlen or IPV6_MAX_PREFIXLEN), strict=False)\n        elif isinstance(arg, IPv6Network):")],
UHDR + """
assert [str(ii) for ii in collapse_addresses([IPv6Obj("::/0"), IPv6Obj("2001:db8::/32")])] == ["::/0"]
""", "an IPv6 default route in the list", "the default route is taken for a host address")

bug("C12a", "C12", [(AB, """                for cobj in self.all_children:
                    mm = re.search(regex, cobj.text)
                    if isinstance(mm, re.Match):
                        return self.get_typed_dict(""", """                for cobj in self.children:
                    mm = re.search(regex, cobj.text)
                    if isinstance(mm, re.Match):
                        return self.get_typed_dict(""")],
HDR + """
p = CiscoConfParse(["a", " b", "  c 5"], factory=False)
assert p.objs[0].re_match_iter_typed(r"c (?P<n>\\d+)", groupdict={"n": int}, recurse=True) == {"n": 5}
""", "groupdict with recurse, and a match only in a grandchild", "the grandchild is not searched")

bug("C12b", "C12", [(CC, "            if cobj.parent is not cobj:\n                continue\n\n            mm = re.search(regexspec, cobj.text)\n            if mm is not None and", "            if cobj.indent > 0:\n                continue\n\n            mm = re.search(regexspec, cobj.text)\n            if mm is not None and")],
HDR + """
p = CiscoConfParse(["  hostname R1", "a"], factory=False)
assert p.re_match_iter_typed(r"hostname (\\S+)") == "R1"
""", "an indented root line (the first line of the configuration)", "the root line is skipped")

bug("L01a", "L01", [(UT, "            if not (2 <= high_port <= 65535):", "            if not (1 <= high_port <= 65535):")],
UHDR + """
try:
    L4Object(protocol="udp", port_spec="lt 1", syntax="asa")
except Exception:
    pass
else:
    assert False
""", "the port specification 'lt 1'", "a specification of no port at all is accepted")

bug("L01b", "L01", [(UT, '            port_tmp = re.split(r"\\s+", port_spec)[1:]\n', '            port_tmp = port_spec.split(" ")[1:]\n')],
UHDR + """
assert L4Object(protocol="tcp", port_spec="range  20 21", syntax="asa").port_list == [20, 21]
""", "a port range with two blanks somewhere", "it is refused")

MC = "models_cisco.py"
DHDR = "from ciscoconfparse import CiscoConfParse\nfrom ciscoconfparse.ciscoconfparse import HDiff\n"

bug("C04a", "C04", [(CC, '            line1 = re.sub(r"\\s*\\{\\s*\\}\\s*", "", _line1)\n', '            line1 = re.sub(r"\\s*\\{\\s*\\S?\\s*\\}\\s*", "", _line1)\n')],
HDR + """
p = CiscoConfParse(["a {", "  b { x }", "}"], syntax="junos", comment="#")
assert [o.text for o in p.objs] == ["a", "    b { x }"], [o.text for o in p.objs]
""", "a block on one line whose content is a single character", "the content of the block is lost")

bug("C04b", "C04", [(CC, "        lines.append((\" \" * STOP_WIDTH * (offset + this_line_indent)) + line.strip())\n        offset += child_indent\n", "        lines.append((\" \" * STOP_WIDTH * (offset + this_line_indent)) + line.strip())\n        offset = min(offset + child_indent, 7)\n")],
HDR + """
p = CiscoConfParse(["a {"] + ["b%d {" % i for i in range(9)] + ["f;"] + ["}"] * 9 + ["g;", "}"], syntax="junos", comment="#")
o = p.find_objects("g")[0]
assert o.parent.text == "a", o.parent
""", "blocks nested more than seven deep", "lines after the deep blocks have the wrong depth and parent")

bug("C13a", "C13", [(CC, """            elif before_obj.diff_word == "remove" and (before_id_list != after_id_list):
                continue
""", """            elif before_obj.diff_word == "remove" and (before_id_list[0:2] != after_id_list[0:2]):
                continue
"""), (CC, """            elif before_obj.diff_word == "remove" and (before_id_list == after_id_list):
""", """            elif before_obj.diff_word == "remove":
""")],
DHDR + """
d = HDiff(["a", " b", "  c", "x"], ["a", "x", " b", "  c"])
assert "-  c" in d.unified_diffs(header=False), d.unified_diffs()
""", "a grandchild whose parent line is the same but whose grandparent differs", "the moved grandchild counts as unchanged")

bug("C13b", "C13", [(CC, """            diff_id_list = tuple(line_dict["diff_id_list"])

            # Remove some lines""", """            diff_id_list = tuple(line_dict["diff_id_list"][0:2])

            # Remove some lines""")],
DHDR + """
d = HDiff(["a", " b", "  c", "d", " b"], ["a", " b", "  c", "d", " b", "  c"])
assert d.unified_diffs(header=False).count("+  c") == 1, d.unified_diffs()
""", "the same grandchild and child lines below two different top level lines", "the added grandchild is dropped from the difference")

bug("C15a", "C15", [(CC, """            if not lrgx.search(command):
                continue

            if remove_lines is True""", """            if not lrgx.search(command.strip()):
                continue

            if remove_lines is True""")],
HDR + """
p = CiscoConfParse(["a", " b"])
d = p.sync_diff(["a", " c"], r"^ [bc]", r"\S.*")
assert " no b" in d, d
""", "a linespec which refers to the indentation of the line", "matching child lines are left as they are")

bug("C15b", "C15", [(CC, "                    remove_cmd = indent * \" \" + \"no \" + uu.group(0).strip()\n", "                    remove_cmd = indent * \" \" + \"no \" + command.strip()[0:uu.end()]\n")],
HDR + """
p = CiscoConfParse(["a", " bcd"])
assert p.sync_diff(["a"], r"b", uncfgspec=r"bc") == ["a", " no bc"], p.sync_diff(["a"], r"b", uncfgspec=r"bc")
""", "an uncfgspec matching only the first part of an indented line", "the removal command has too many characters")

bug("M01a", "M01", [(MC, "(?:\\s+(?P<nh_addr>\\d+\\.\\d+\\.\\d+\\.\\d+))? # NH addr\n", "(?:\\s(?P<nh_addr>\\d+\\.\\d+\\.\\d+\\.\\d+))? # NH addr\n"),
    (MC, "(?:\\s+name\\s+(?P<name>\\S+))?     # Route name\n(?:\\s+(?P<permanent>permanent))?", "(?:\\s+name\\s+(?P<name>\\w+))?     # Route name\n(?:\\s+(?P<permanent>permanent))?")],
HDR + """
p = CiscoConfParse(["ip route 10.0.0.0 255.0.0.0 1.2.3.4 name to-core tag 7"], factory=True)
o = p.objs[0]
assert (o.route_name, o.tag) == ("to-core", "7"), (o.route_name, o.tag)
""", "a route name with a hyphen, followed by a tag", "the route name is cut and the tag is lost")

bug("M01b", "M01", [(MC, "            return self.route_info[\"nh_addr1\"] or self.route_info[\"nh_addr2\"] or \"\"", "            return self.route_info[\"nh_addr1\"] or (self.route_info[\"nh_addr2\"] if not self.vrf else \"\") or \"\"")],
HDR + """
p = CiscoConfParse(["ipv6 route vrf A 2001:DB8::/32 Gi1/1 2002::1"], factory=True)
assert p.objs[0].next_hop_addr == "2002::1"
""", "an IPv6 route in a vrf with interface and address", "the next-hop address is not reported")

bug("M02a", "M02", [(MC, """            r"^\\s+ip\\s+address\\s+\\d+\\.\\d+\\.\\d+\\.\\d+\\s+(\\d+\\.\\d+\\.\\d+\\.\\d+)\\s*$",
            result_type=str,
            default="",
        )
        return retval
""", """            r"^\\s+ip\\s+address\\s+\\d+\\.\\d+\\.\\d+\\.\\d+\\s+(\\d+\\.\\d+\\.\\d+\\.\\d+)",
            result_type=str,
            default="",
        )
        return retval
""")],
HDR + """
p = CiscoConfParse(["interface Gi1/1", " ip address 2.2.2.2 255.255.0.0 secondary", " ip address 1.1.1.1 255.255.255.0"], factory=True)
assert p.objs[0].ipv4_netmask == "255.255.255.0", p.objs[0].ipv4_netmask
""", "a secondary address with another mask, listed before the primary one", "the netmask is that of the secondary address")

bug("M02b", "M02", [(MC, "            if subnet.empty is True:\n                continue\n            tmp = self.in_ipv4_subnet(ipv4network=subnet)", "            if subnet.empty is True:\n                break\n            tmp = self.in_ipv4_subnet(ipv4network=subnet)")],
HDR + """
from ciscoconfparse.ccp_util import IPv4Obj
p = CiscoConfParse(["interface Gi1/1", " ip address 1.1.1.1 255.255.255.0"], factory=True)
assert p.objs[0].in_ipv4_subnets([IPv4Obj(), IPv4Obj("1.0.0.0/8")]) is True
""", "an empty subnet listed before the one which contains the interface", "the interface is said to be in none of them")

bug("M03a", "M03", [(MC, """                    else:
                        vdict["add"] += f",{add_str}"
""", """                    elif add_str not in vdict["add"]:
                        vdict["add"] += f",{add_str}"
""")],
HDR + """
p = CiscoConfParse(["interface Gi1/1", " switchport mode trunk", " switchport trunk allowed vlan 1", " switchport trunk allowed vlan add 12", " switchport trunk allowed vlan add 2"], factory=True)
assert p.objs[0].trunk_vlans_allowed.as_list(result_type=int) == [1, 2, 12]
""", "two add lines, the text of the second occurring in the first", "the VLANs of the second line are missing")

bug("M03b", "M03", [(MC, """            if len(_parts) == 5 and _parts[0:4] == ["switchport", "trunk", "native", "vlan"]:
                # return the vlan integer from 'switchport trunk native vlan 911'
                return int(_parts[4])
        return default_val
""", """            if len(_parts) == 5 and _parts[0:4] == ["switchport", "trunk", "native", "vlan"]:
                # return the vlan integer from 'switchport trunk native vlan 911'
                default_val = int(_parts[4])
            elif _parts[0:1] == ["switchport"] and default_val == 0:
                default_val = 1
            elif _parts[0:2] == ["no", "switchport"]:
                default_val = 0
        return default_val
""")],
HDR + """
p = CiscoConfParse(["interface Gi1/1", " switchport mode trunk", " switchport trunk native vlan 9", " no switchport nonegotiate"], factory=True)
assert p.objs[0].native_vlan == 9
""", "a 'no switchport ...' line after the native VLAN", "the native VLAN is lost")

bug("M04a", "M04", [(MC, r"""            intf_regex = r"^interface\s+[A-Za-z\-]+\s*(\d+.*?)(\.\d+)*(\s\S+)*\s*$"
            intf_number""", r"""            intf_regex = r"^interface\s+[A-Za-z\-]+\s*(\d+.*?)(\.\d{1,3})*(\s\S+)*\s*$"
            intf_number""")],
HDR + """
p = CiscoConfParse(["interface Gi0/1.4094"], factory=True)
assert p.objs[0].interface_number == "0/1", p.objs[0].interface_number
""", "a subinterface number of four digits", "interface_number contains the subinterface")

bug("M05a", "M05", [(MC, r"""            r"^\s*(ip\s+)*vrf\sforwarding\s(\S+)$", result_type=str, group=2, default=""""", r"""            r"^\s*(ip\s+)*vrf\s+\w+\s+(\S+)$", result_type=str, group=2, default=""""")],
HDR + """
p = CiscoConfParse(["interface Gi0/1", " ip vrf receive RED", " ip address 1.1.1.1 255.255.255.0"], factory=True)
assert p.objs[0].vrf == "", p.objs[0].vrf
""", "an 'ip vrf receive' line", "the interface is said to be in that VRF")

bug("M05b", "M05", [(MC, """    def has_mac_accessgroup_out(self):
        if not self.is_switchport:
            return False
        return bool(self.mac_accessgroup_out)""", """    def has_mac_accessgroup_out(self):
        if not self.is_switchport:
            return False
        return bool(self.mac_accessgroup_out) and not self.mac_accessgroup_in""")],
HDR + """
p = CiscoConfParse(["interface Gi0/1", " switchport", " mac access-group A in", " mac access-group B out"], factory=True)
assert p.objs[0].has_mac_accessgroup_out is True
""", "a switchport with MAC access groups in both directions", "the outgoing one is not reported")

bug("M06a", "M06", [(MC, """            if obj_parts[0:3] == ["standby", str(self._group), "priority"]:
                return int(obj_parts[3])""", """            if obj_parts[0:1] == ["standby"] and obj_parts[1].startswith(str(self._group)) and obj_parts[2:3] == ["priority"]:
                return int(obj_parts[3])""")],
HDR + """
p = CiscoConfParse(["interface Gi0/1", " standby 20 ip 1.1.1.1", " standby 20 priority 90", " standby 2 ip 1.1.1.2", " standby 2 priority 110"], factory=True)
assert [g.priority for g in p.objs[0].hsrp_interfaces] == [110, 90]
""", "two groups, the number of one beginning with that of the other", "a group has the priority of the other")

bug("M06b", "M06", [(MC, "        intf_groups = sorted(retval, key=lambda x: x.group, reverse=False)", "        intf_groups = sorted(retval, key=lambda x: str(x.group), reverse=False)")],
HDR + """
p = CiscoConfParse(["interface Gi0/1", " standby 10 ip 1.1.1.1", " standby 2 ip 1.1.1.2"], factory=True)
assert [g.group for g in p.objs[0].hsrp_interfaces] == [2, 10]
""", "groups with different numbers of digits", "groups are not in ascending order")

bug("M06c", "M06", [(MC, "                decrement = 10\n                _gg", "                _gg"), (MC, "        retval = list()\n        for obj in self._parent.children:\n            obj_parts = obj.text.strip().split()\n            if obj_parts[0:3] == [\"standby\", str(self._group), \"track\"]:", "        retval = list()\n        decrement = 10\n        for obj in self._parent.children:\n            obj_parts = obj.text.strip().split()\n            if obj_parts[0:3] == [\"standby\", str(self._group), \"track\"]:")],
HDR + """
p = CiscoConfParse(["interface Gi0/1", " standby 1 ip 1.1.1.1", " standby 1 track Serial0/0 30", " standby 1 track Serial0/1"], factory=True)
assert [t.decrement for t in p.objs[0].hsrp_interfaces[0].interface_tracking] == [30, 10]
""", "two tracked interfaces, only the first with a decrement", "the second gets the decrement of the first")

bug("M07a", "M07", [(MC, r"""    def range_str(self):
        return " ".join(map(str, self.line_range))""", r"""    def range_str(self):
        return " ".join(map(str, sorted(set(self.line_range))))""")],
HDR + """
p = CiscoConfParse(["line vty 4 4"], factory=True)
assert p.objs[0].range_str == "4 4", p.objs[0].range_str
""", "a line command whose first and last number are the same", "range_str has one number only")

bug("M07b", "M07", [(MC, r"""regex = r"^aaa\s+accounting\s+exec\s+(\S+)\s+(none|stop\-only|start\-stop)\s+group\s(\S+)$\"""".replace('\\"', '"'), r"""regex = r"^aaa\s+accounting\s+exec\s+(\S+)\s+(stop\-only|start\-stop)\s+group\s(\S+)$\"""".replace('\\"', '"'))],
HDR + """
p = CiscoConfParse(["aaa accounting exec default none group tacacs+"], factory=True)
assert p.objs[0].record_type == "none", p.objs[0].record_type
""", "an accounting command which records nothing", "its list name, record type and group are empty")

bug("M07c", "M07", [(MC, r"""        retval = self.re_match_typed(r"^hostname\s+(\S+)", result_type=str, default="")""", r"""        retval = self.re_match_typed(r"^hostname\s+([\w\-\.]+)", result_type=str, default="")""")],
HDR + """
p = CiscoConfParse(["hostname r1#core"], factory=True)
assert p.objs[0].hostname == "r1#core", p.objs[0].hostname
""", "a hostname with a character other than letters, digits, '-', '_' and '.'", "the name is cut there")

MA = "models_asa.py"
MX = "models_nxos.py"

bug("M08a", "M08", [(MA, "errors|informational|notifications|warnings|[0-7]\"", "errors|informational|notifications|warnings|[1-7]\"")],
HDR + """
p = CiscoConfParse(["access-list A extended deny ip any any log 0"], syntax="asa", factory=True)
assert p.objs[0].result_dict["log_level"] == "0"
""", "an access-list entry logging at level 0", "the entry cannot be parsed")

bug("M08b", "M08", [(MA, "alternate-address|conversion-error|echo-reply|echo|information-reply", "alternate-address|conversion-error|echo|echo-reply|information-reply")],
HDR + """
p = CiscoConfParse(["access-list A extended deny icmp any any echo-reply log disable"], syntax="asa", factory=True)
d = p.objs[0].result_dict
assert d["log"] is True and d["disable"] is True, d
""", "an ICMP entry for echo-reply with further clauses", "log, disable and time-range are lost")

bug("M09a", "M09", [(MA, '                        names.get(net_obj["network"], net_obj["network"]),\n', '                        net_obj["network"],\n')],
HDR + """
p = CiscoConfParse(["name 10.1.1.0 web", "object-group network G", " network-object web 255.255.255.0"], syntax="asa", factory=True)
assert p.find_objects("^object-group")[0].network_strings == ["10.1.1.0/255.255.255.0"]
""", "a named network (not a host) in a group", "the name is not replaced by its address")

bug("M09b", "M09", [(MA, """            if not self.confobj._network_cache.get(net_str, False):
                net = IPv4Obj(net_str)
                self.confobj._network_cache[net_str] = net
                retval.append(net)
            else:
                retval.append(self.confobj._network_cache[net_str])""", """            key = net_str.split("/")[0]
            if not self.confobj._network_cache.get(key, False):
                net = IPv4Obj(net_str)
                self.confobj._network_cache[key] = net
                retval.append(net)
            else:
                retval.append(self.confobj._network_cache[key])""")],
HDR + """
p = CiscoConfParse(["object-group network G", " network-object 10.1.0.0 255.255.0.0", " network-object 10.1.0.0 255.255.255.0"], syntax="asa", factory=True)
assert [n.prefixlen for n in p.find_objects("^object-group")[0].networks] == [16, 24]
""", "two members with one address and different masks", "the second network is the first one again")

bug("M10a", "M10", [(MA, r'''        intf_regex = r"^interface\s+(\S+?\.\d+)"''', r'''        intf_regex = r"^interface\s+(\D+?\d+/\d+\.\d+)"''')],
HDR + """
p = CiscoConfParse(["interface Port-channel1.100", " vlan 100"], syntax="asa", factory=True)
assert p.objs[0].is_subintf is True
""", "a subinterface of an interface without a slot number", "it is not taken for a subinterface")

bug("M10b", "M10", [(MA, """            r"^\\s*switchport\\s+access\\s+vlan\\s+(\\d+)$", result_type=int, default=0""", """            r"^\\s*switchport\\s+access\\s+vlan\\s+(\\d+)", result_type=int, default=0""") , (MA, """            r"^\\s*speed\\s+(\\d+)$", result_type=bool, default=False""", """            r"^\\s*(speed)\\s+\\S", result_type=bool, default=False""")],
HDR + """
p = CiscoConfParse(["interface GigabitEthernet0/1", " speed auto"], syntax="asa", factory=True)
assert p.objs[0].has_manual_speed is False and p.objs[0].has_autonegotiation is True
""", "'speed auto'", "the interface is said to have a manual speed and no autonegotiation")

bug("M11a", "M11", [(MX, "    _VIRTUAL_INTF_REGEX = re.compile(_VIRTUAL_INTF_REGEX_STR, re.I)", "    _VIRTUAL_INTF_REGEX = re.compile(_VIRTUAL_INTF_REGEX_STR)")],
HDR + """
p = CiscoConfParse(["interface port-channel5"], syntax="nxos", factory=True)
assert p.objs[0].is_virtual_intf is True
""", "a lower-case interface type, as NX-OS writes loopback and port-channel", "the interface is not virtual")

bug("M11b", "M11", [(MX, r'''r"^\s*spanning-tree\s+port\s+type\s+(\S.+?)$", result_type''', r'''r"^\s*spanning-tree\s+port\s+type\s+(\S+)", result_type''')],
HDR + """
p = CiscoConfParse(["interface Ethernet1/1", " spanning-tree port type edge trunk"], syntax="nxos", factory=True)
assert p.objs[0].manual_stp_port_type == "edge trunk"
""", "a port type of two words", "manual_stp_port_type is the first word only")

bug("M12a", "M12", [(MX, r'''            r"^\s+ip\s+address\s+(\d+\.\d+\.\d+\.\d+)\s*\/\d+\s*$",''', r'''            r"^\s+ip\s+address\s+(\d+\.\d+\.\d+\.\d+)\s*\/\d+",''')],
HDR + """
p = CiscoConfParse(["interface Ethernet1/1", " ip address 10.2.0.1/16 secondary", " ip address 10.1.0.1/24"], syntax="nxos", factory=True)
assert p.objs[0].ipv4_addr == "10.1.0.1"
""", "a secondary address listed before the primary one", "ipv4_addr is the secondary address")

bug("M12b", "M12", [(MX, r'''            r"^\s*(switchport\sport-security)\s*$", result_type=bool, default=False''', r'''            r"^\s*(switchport\sport-security)", result_type=bool, default=False''')],
HDR + """
p = CiscoConfParse(["interface Ethernet1/1", " switchport", " switchport port-security maximum 5"], syntax="nxos", factory=True)
assert p.objs[0].has_switch_portsecurity is False
""", "only an option of port-security is configured", "port-security is said to be enabled")

bug("M13a", "M13", [(MX, r'''            r"^\s+(peer-gateway)", result_type=bool, default=False''', r'''            r"^\s+(peer-gateway)\s*$", result_type=bool, default=False''')],
HDR + """
p = CiscoConfParse(["vpc domain 5", "  peer-gateway exclude-vlan 7"], syntax="nxos", factory=True)
assert p.objs[0].has_peer_gateway is True
""", "'peer-gateway' with excluded VLANs", "has_peer_gateway is False")

bug("M13b", "M13", [(MX, r'''            retval = hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)")
            if retval:
                return retval''', r'''            retval = hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d{1,2})")
            if retval:
                return retval''')],
HDR + """
p = CiscoConfParse(["interface Vlan10", "  ip address 10.0.0.2/24", "  hsrp 101", "    ip 10.0.0.1"], syntax="nxos", factory=True)
assert p.objs[0].hsrp_group == "101"
""", "a group number of three digits", "the group number is cut")

bug("M14a", "M14", [(MX, r'''(?:\s+name\s+(?P<name>\S+))?     # Route name
(?:\s+tag\s+(?P<tag>\d+))?       # Route tag
(?:\s+(?P<ad>\d+))?              # Admin distance
''', r'''(?:\s+name\s+(?P<name>[\w\-]+))?     # Route name
(?:\s+tag\s+(?P<tag>\d+))?       # Route tag
(?:\s+(?P<ad>\d+))?              # Admin distance
''')],
HDR + """
p = CiscoConfParse(["ip route 10.0.0.0/8 1.2.3.4 name to.core tag 7 9"], syntax="nxos", factory=True)
assert p.objs[0].route_name == "to.core" and p.objs[0].tag == "7"
""", "a route name with a dot or slash", "name, tag and distance are lost")

bug("M14b", "M14", [(MX, r'''(?:\s+(?P<ad>\d+))?              # Administrative distance
''', r'''(?:\s+(?P<ad>\d\d?))?              # Administrative distance
''')],
HDR + """
p = CiscoConfParse(["ipv6 route 2001:db8::/32 fe80::1 200 tag 5"], syntax="nxos", factory=True)
assert p.objs[0].admin_distance == "200" and p.objs[0].tag == "5"
""", "an administrative distance of three digits", "distance and tag are wrong")

bug("P01a", "P01", [(CC, "int(xlat[int(s % 53)])", "int(xlat[int(s) if s < 53 else int(s) - 53])")],
"""from ciscoconfparse.ciscoconfparse import CiscoPassword
key = "dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87"
pw = "correct horse battery staple " * 2
enc = "52" + "".join("%02X" % (ord(c) ^ ord(key[(52 + i) % 53])) for i, c in enumerate(pw))
assert CiscoPassword(enc).decrypt() == pw
""", "a password so long that the key is used a third time", "decrypt() raises IndexError")

bug("P01b", "P01", [(CC, '''regex = re.compile("^(..)(.+)")''', '''regex = re.compile("^(..)([0-9A-F]+)")''')],
"""from ciscoconfparse.ciscoconfparse import CiscoPassword
assert CiscoPassword("0822455d0a16").decrypt() == CiscoPassword("0822455D0A16").decrypt() == "cisco"
""", "hexadecimal digits in lower case", "the password cannot be decrypted")

bug("C16a", "C16", [(CC, """                if lineobj.text.strip() == reqline.strip():
                    accept_lineobj = True
                    skip_cfgspec[reqline] = True
""", """                if lineobj.text.strip() == reqline.strip():
                    accept_lineobj = True
                    skip_cfgspec[reqline] = True
                    break
""")],
HDR + """
p = CiscoConfParse(["logging 1.1.1.1", "logging 2.2.2.2"])
assert p.req_cfgspec_excl_diff("^logging", "logging .*", ["logging 1.1.1.1", " logging 1.1.1.1"]) == ["no logging 2.2.2.2"]
""", "two required lines which differ in surrounding blanks only", "a line of the configuration is said to be missing")

bug("C16b", "C16", [(AB, """        elif tmp[0].lower() == "no":
            assert len""", """        elif self.text[self.indent:].startswith("no "):
            assert len""")],
HDR + """
p = CiscoConfParse(["interface a", " NO shutdown"])
assert p.objs[1].uncfgtext == " shutdown"
""", "a command written in capitals", "the opposite command is 'no NO shutdown'")

bug("C17a", "C17", [(CC, """        for idx, obj in enumerate(self._list):
            if (idx >= begin_index) and (not obj.is_comment):
                yield obj
""", """        for idx, obj in enumerate(ii for ii in self._list if not ii.is_comment):
            if idx >= begin_index:
                yield obj
""")],
HDR + """
p = CiscoConfParse(["! c", "a", "b"])
assert [o.text for o in p.ConfigObjs.iter_no_comments(1)] == ["a", "b"]
""", "a comment before the index at which the iteration begins", "the first line is skipped")

bug("C17b", "C17", [(CC, """            if obj.is_comment:
                continue
            elif len(obj.children) == 0:
                nonparent_siblings.append(obj)
""", """            if obj.is_comment and len(obj.children) == 0:
                continue
            elif len(obj.children) == 0 or obj.children[-1].is_comment:
                nonparent_siblings.append(obj)
""")],
HDR + """
p = CiscoConfParse(["interface a", " shutdown", " ! done", "end"])
assert [o.text for o in p.ConfigObjs.config_hierarchy()[0]] == ["interface a"]
""", "the last line of a block is a comment", "the block counts as a line without children")

XR = "models_iosxr.py"
bug("C01b", "C01", [(AB, "        self._text = newtext_\n", "        self._text = newtext_.replace(\"\\t\", \" \")\n")],
HDR + """
t = ["interface Gi0/1", " description a\\tb"]
assert CiscoConfParse(t).ioscfg == t, CiscoConfParse(t).ioscfg
""", "a line with a tab inside", "tabs in lines become blanks")

bug("C02b", "C02", [(CC, "            while candidate_parent_idx >= 0:\n", "            while candidate_parent_idx >= max(0, idx - 50):\n")],
HDR + """
t = ["interface Gi0/1"] + [" x%d" % i for i in range(60)] + ["  y"] + [" no x%d" % i for i in range(60)]
p = CiscoConfParse(t)
assert len(p.objs[0].children) == 120, len(p.objs[0].children)
""", "a parent more than fifty lines above its child, with a deeper line between", "lines far below their parent lose it")

bug("C03b", "C03", [(CC, "                    elif bannerdelimit in obj.text.strip():\n", "                    elif bannerdelimit in obj.text.strip() and not obj.is_comment:\n")],
HDR + """
p = CiscoConfParse(["banner motd ^", "hello", "! bye ^", "interface Gi0/1", " shutdown"])
assert [o.text for o in p.objs[0].children] == ["hello", "! bye ^"], p.objs[0].children
""", "a closing line that begins with the comment character", "the banner swallows the lines after it")

bug("C05b", "C05", [(CC, '        linespec = re.sub(r"\\s+", escaped_space, linespec)', '        linespec = re.sub(r"\\s+", escaped_space, linespec.strip())')],
HDR + """
p = CiscoConfParse(["ab", "a b"])
assert [o.text for o in p.find_objects("^a ", ignore_ws=True)] == ["a b"]
""", "ignore_ws with an expression that begins or ends with a blank", "lines without the blank match too")

bug("C06b", "C06", [(CC, "            if not obj.re_search_children(childspec, recurse=recurse)\n", "            if obj.children and not obj.re_search_children(childspec, recurse=recurse)\n")],
HDR + """
p = CiscoConfParse(["interface Gi0/1", "interface Gi0/2", " shutdown"])
assert [o.text for o in p.find_parent_objects_wo_child("^interface", "shutdown")] == ["interface Gi0/1"]
""", "a matching parent with no children at all", "the search without child leaves out lines with no children")

bug("C07b", "C07", [(CC, "                if re.search(childspec, cobj.text, regex_flags)\n", "                if re.search(childspec, cobj.text, regex_flags) and not (cobj.is_comment and parent_obj)\n")],
HDR + """
p = CiscoConfParse(["a", " ! b", " b"])
assert [[x.text for x in r] for r in p.find_object_branches(("^a", "b"))] == [["a", " ! b"], ["a", " b"]]
""", "an indented comment that matches a branch element below the first", "branches ending at comments are lost")

bug("C08b", "C08", [(AB, "            retval.extend(self.all_children)\n", "            retval.extend(self.children)\n")],
HDR + """
p = CiscoConfParse(["a", " b", "  c", "   d"])
assert [o.text for o in p.objs[1].lineage] == ["a", " b", "  c", "   d"]
""", "a line with grandchildren", "lineage leaves out grandchildren")

bug("C09b", "C09", [(AB, '            insertstr = (" " * (self.indent + auto_indent_width)) + insertstr.lstrip()\n', '            insertstr = (" " * (auto_indent_width * (self.indent + 1))) + insertstr.lstrip()\n')],
HDR + """
p = CiscoConfParse(["a", "  b", "    c", "d"], syntax="nxos")
p.find_objects("b")[0].append_to_family("e", auto_indent=True, auto_indent_width=2)
assert "    e" in p.ioscfg, p.ioscfg
""", "automatic indentation of width two or more below an already indented line", "the appended line is indented too far")

bug("C10b", "C10", [(CC, "            # del self.ConfigObjs[obj.linenum]\n            obj.delete()\n", "            # del self.ConfigObjs[obj.linenum]\n            obj.delete(recurse=obj.indent == 0)\n")],
HDR + """
p = CiscoConfParse(["a", " b", "  c", "   d", "e"])
p.delete_lines("^ b")
assert p.ioscfg == ["a", "e"], p.ioscfg
""", "a deleted line that is itself indented and has children", "its children stay behind")

bug("C14b", "C14", [(AB, "        if self.linenum > val.linenum:\n", "        if self.linenum >= val.linenum:\n")],
HDR + """
p = CiscoConfParse(["a", "b"])
q = CiscoConfParse(["a", "b"])
assert not (p.objs[0] > q.objs[0])
""", "two lines with the same number", "each of two equal lines is greater than the other")

bug("M04b", "M04", [(MC, '        intf_regex = r"^interface\\s+(\\Soopback)"\n', '        intf_regex = r"^interface\\s+(Loopback)"\n')],
HDR + """
p = CiscoConfParse(["interface loopback0"], factory=True)
assert p.objs[0].is_loopback_intf
""", "an interface type written in lower case", "is_loopback_intf is False for 'interface loopback0'")

bug("M15a", "M15", [(XR, '                return tuple(int(ii) for ii in intf_number.split("/"))\n', '                return tuple(int(ii) for ii in intf_number.split("/", 2))\n'.replace('split("/", 2))', 'split("/")[:3])'))],
HDR + """
p = CiscoConfParse(["interface HundredGigE0/0/0/1"], syntax="iosxr", factory=True)
assert tuple(p.objs[0].ordinal_list) == (0, 0, 0, 1), p.objs[0].ordinal_list
""", "a name with four numbers", "ordinal_list has only three numbers")

bug("M15b", "M15", [(XR, r'            r"^\s*speed\s+(\d+)$", result_type=int, default=0', r'            r"^\s*speed\s+(\d{1,3})$", result_type=int, default=0')],
HDR + """
p = CiscoConfParse(["interface GigabitEthernet0/0/0/1", " speed 1000"], syntax="iosxr", factory=True)
assert p.objs[0].manual_speed == 1000
""", "a speed of four digits", "manual_speed is 0")

bug("C18a", "C18", [(CC, "                text = fh.read()\n", "                text = fh.read().strip()\n")],
HDR + """
import os, tempfile
d = tempfile.mkdtemp()
f = os.path.join(d, "a.cfg")
try:
    with open(f, "w") as h:
        h.write(" shutdown\\nhostname a\\n")
    assert CiscoConfParse(f).ioscfg == [" shutdown", "hostname a"], CiscoConfParse(f).ioscfg
finally:
    os.unlink(f)
    os.rmdir(d)
""", "a file whose first line is indented", "the first line of the file loses its indentation")

bug("C18b", "C18", [(CC, '                    newconf.write(line + "\\n")\n', '                    newconf.write(line.strip() and line + "\\n")\n')],
HDR + """
import os, tempfile
d = tempfile.mkdtemp()
f = os.path.join(d, "a.cfg")
try:
    CiscoConfParse(["a", "", "b"], ignore_blank_lines=False).save_as(f)
    with open(f) as h:
        assert h.read() == "a\\n\\nb\\n"
finally:
    os.unlink(f)
    os.rmdir(d)
""", "a configuration with blank lines", "save_as leaves blank lines out")
