prop("C01", "Parsing keeps every line's text and is stable under re-parsing",
     "Parsing a configuration yields one entry per non-blank input line (per line when blank lines are kept), in input order, with the text unchanged "
     "except for trailing whitespace. Parsing that output again, or committing an unedited configuration, gives the same lines, parents and children.",
     "for every configuration text without brace blocks and banners (all line contents, blank lines, all syntaxes, factory on or off)",
     "Tests compare a few dozen fixed configurations; the guarantee is over every line content and every mixture of blank lines, comments and indentation.",
     [C, A], [("list construction and blank-line removal", C + ": ConfigList.bootstrap_obj_init_ng"), ("text normalisation", A + ": BaseCfgLine.text"), ("commit", C + ": CiscoConfParse.atomic")])
prop("C02", "Parent and children follow indentation",
     "The parent of a parsed line is the nearest preceding non-comment, non-blank line that is less indented, or the line itself when there is none; "
     "a comment directly below a more indented line stands alone. The children of a line are exactly the lines whose parent it is, in file order, and line numbers are positions.",
     "for every sequence of lines with any indentation, comments (any comment delimiters) and blank lines, in ios, nxos, iosxr and asa syntax",
     "The hierarchy depends on the whole history of indentations, comments and blanks before a line; tests fix a handful of well-formed samples.",
     [C, A], [("parent search with a per-indent cache", C + ": ConfigList._build_bootstrap_parent_child, _maintain_bootstrap_parent_cache"), ("comment exception", C + ": ConfigList._add_child_to_parent")])
prop("C03", "Banner and macro blocks own their lines verbatim",
     "All lines after a multi-line banner command up to and including the first line containing the banner's delimiter (for a macro: up to '@') are the direct children "
     "of the banner line and of no other line, whatever their indentation, and blank lines among them are kept (without factory parsing, empty input lines are ignored). A banner closed on its own line has no such children, and lines outside the block follow indentation as usual.",
     "for every banner type, delimiter character and block content, terminated or not",
     "Banner bodies are free text (comment characters, indentation, blank lines, delimiter positions); tests hold a few bodies.",
     [C], [("banner scan", C + ": ConfigList._banner_mark_regex"), ("macro scan", C + ": ConfigList._macro_mark_children"), ("blank line retention", C + ": ConfigList.bootstrap_obj_init_ng")])
prop("C05", "Line queries return exactly the matching lines in order",
     "find_objects, find_lines and has_line_with report exactly the lines whose text the given regular expression matches, in file order, each once. With exactmatch the expression must match the whole line, "
     "with ignore_ws every run of blanks in it matches any run of blanks, and no query changes the configuration.",
     "for every configuration and every plain-text or listed regular-expression spec",
     "A query's answer is over all lines and specs; tests compare fixed specs on fixed configurations.",
     [C], [("line search", C + ": CiscoConfParse.find_objects, find_lines, _find_line_OBJ, has_line_with"), ("blank tolerance", C + ": build_space_tolerant_regex")])
prop("C06", "Parent/child searches agree with the hierarchy",
     "Searching parents by child returns exactly the lines matching the parent spec that have a direct child (any descendant with recurse) matching the child spec, and the 'without child' search returns exactly the other matching lines. "
     "Searching children by parent returns exactly the matching direct children (descendants with recurse) of matching parents; the all-children and missing-children searches split the matching parents the same way, and every result is in file order without repeats.",
     "for every configuration hierarchy and every listed pair of parent and child specs",
     "The answers depend on every combination of hierarchy shape and match pattern; tests use a few interface configurations.",
     [C, A], [("searches", C + ": find_parent_objects, find_parent_objects_wo_child, find_child_objects, find_objects_w_all_children, find_objects_w_missing_children, find_children_w_parents"), ("child matching", A + ": BaseCfgLine.re_search_children")])
prop("C07", "find_object_branches returns every matching branch",
     "For a tuple of expressions the result has exactly one row per chain line, child, grandchild, ... matching them in order, with a row padded with None from the first level that has no matching child, and a single all-None row when nothing matches the first. "
     "regex_flags apply to every element, and regex_groups replaces each line by its captured groups, or its text when the expression has none.",
     "for every configuration hierarchy and every listed branch specification",
     "Rows multiply with the hierarchy; tests hold three branch specs on two configurations.",
     [C], [("branch growth", C + ": CiscoConfParse.find_object_branches")])
prop("C08", "Family accessors describe the hierarchy consistently",
     "For every line, its ancestors, direct children, all descendants, siblings, lineage, genealogy and block text are exactly those given by the parent relation, in file order and without repeats. "
     "The family queries by expression (matching lines with children, with all descendants, with siblings and ancestors, unique lineage) are the corresponding unions.",
     "for every configuration hierarchy",
     "They are closures over arbitrary trees; tests look at one or two lines of fixed configurations.",
     [A, C], [("closures", A + ": BaseCfgLine.all_parents, all_children, lineage, geneology, siblings, ioscfg"), ("family queries", C + ": find_children, find_all_children, find_blocks, find_lineage")])
prop("C09", "Insertion puts the new text exactly where requested",
     "insert_before, insert_after, insert_after_child, append_to_family, append_line, prepend_line and indexed insertion put one copy of the text (with the requested indentation) directly at each line referred to, and nowhere else, leaving all other lines in order. "
     "Line numbers stay equal to positions, and after commit the hierarchy is that of the edited text.",
     "for every configuration, every insertion point and inserted text, and sequences of edits with or without commits between",
     "The right place depends on duplicate and similar lines, hierarchy and earlier edits; tests insert into a few configurations.",
     [C, A], [("insertion", C + ": ConfigList.insert_before, insert_after, insert; CiscoConfParse.insert_before, insert_after, insert_after_child, append_line"), ("object insertion", A + ": BaseCfgLine.insert_before, insert_after, append_to_family")], over=("inputs", "histories"))
prop("C10", "Deletion removes exactly the selected lines and their families",
     "Deleting a line removes that line and all its descendants (only the line itself with recurse off); delete_lines and delete_children_matching do so for all matching lines, wherever the matches nest. "
     "Every other line stays in order, line numbers stay equal to positions, deleting again changes nothing, and after commit the hierarchy is that of the remaining text.",
     "for every configuration hierarchy, every selection and sequences of deletions",
     "Deletions shift line numbers while they run; tests delete a few separate lines.",
     [A, C], [("deletion", A + ": BaseCfgLine.delete, delete_children_matching"), ("deletion by expression", C + ": CiscoConfParse.delete_lines")], over=("inputs", "histories"))
prop("C11", "Substitution changes only the selected lines",
     "replace_lines, replace_children, replace_all_children and re_sub/replace substitute, once, in exactly the lines selected by the expressions and not excluded, and all other lines keep text and order; a line left blank by the substitution is deleted with its family. "
     "The changed texts are returned, and after commit the hierarchy is that of the edited text.",
     "for every configuration hierarchy, and every listed expression, replacement and exclusion",
     "Selection, exclusion and the emptied-line case interact with nesting; tests replace in a few configurations.",
     [C, A], [("replacement", C + ": CiscoConfParse.replace_lines, replace_children, replace_all_children"), ("substitution", A + ": BaseCfgLine.re_sub")])
prop("C14", "Lines are identified by number and text and ordered by number",
     "Two configuration lines are equal exactly when both their line numbers and their texts are equal, equal lines have equal hashes, and ordering follows line numbers. "
     "Consequently sets and sorted lists of the lines of a configuration keep every line exactly once, in file order.",
     "for all pairs of lines with any text and number",
     "Equality, hash and order must agree for every pair; tests compare a few objects.",
     [A], [("identity", A + ": BaseCfgLine.__eq__, __hash__, __lt__, __gt__")])
prop("I01", "IPv4Obj parses exactly the valid addresses and masks",
     "IPv4Obj accepts exactly a dotted quad of octets 0 to 255, alone or followed by a prefix length 0 to 32 or a contiguous dotted mask, or an integer of 32 bits, and raises for any other text. "
     "Address, mask, network, broadcast, number of hosts and every rendering of an accepted one are those of the written address and length, and rendering as CIDR text and parsing again gives an equal object.",
     "for every input text or integer",
     "Accepted inputs are 2^32 addresses in several notations; tests hold about twenty.",
     [U], [("parsing", U + ": IPv4Obj.__init__, get_regex, _RGX_IPV4ADDR_WITH_MASK"), ("accessors", U + ": IPv4Obj.netmask, network, broadcast, numhosts, as_decimal, as_zeropadded, as_hex, as_cidr_addr, as_cidr_net")])
prop("I02", "IPv6Obj and ip_factory parse exactly the valid addresses",
     "IPv6Obj accepts exactly the RFC 4291 spellings of an address with an optional prefix length 0 to 128, or an integer of 128 bits, and gives its value and length; any other text raises. "
     "Every rendering denotes the same address, and ip_factory returns the IPv4 or IPv6 object of the written address or raises, whatever the mode.",
     "for every input text or integer",
     "Compression, embedded IPv4 and letter case multiply spellings; tests hold about ten.",
     [U], [("parsing", U + ": IPv6Obj.__init__, _RGX_IPV6ADDR, get_regex"), ("dispatch", U + ": ip_factory, _get_ipv4, _get_ipv6"), ("accessors", U + ": IPv6Obj.compressed, exploded, as_hex_tuple, as_cidr_net")])
prop("I03", "Address objects compare, hash and contain consistently",
     "Two address objects are equal exactly when version, address and prefix length agree, equal objects have equal hashes, and objects of different kinds or empty ones are never equal to a given address. "
     "Within one version, ordering is by network, then prefix length, then address, and 'in' holds exactly when all addresses of the left network lie in the right one.",
     "for every pair of IPv4 or IPv6 address objects",
     "Relations over pairs of addresses and lengths; tests compare a few pairs.",
     [U], [("relations", U + ": IPv4Obj.__eq__, __lt__, __gt__, __hash__, __contains__; IPv6Obj likewise")], over=("inputs",))
prop("I05", "Address arithmetic and setters keep address and length consistent",
     "Adding or subtracting an integer moves the address by exactly that number and keeps the prefix length, raising when the result is no address; the operand is unchanged. "
     "Setting the prefix length by any of its names or the offset in the network changes that alone, the other accessors follow, and an offset outside the network is refused.",
     "for every address, prefix length and integer operand",
     "Boundaries lie at both ends of the address space and of each network; tests use a few operands.",
     [U], [("arithmetic", U + ": IPv4Obj.__add__, __sub__; IPv6Obj.__add__, __sub__"), ("setters", U + ": prefixlen, masklen, prefixlength, masklength, network_offset setters of both classes")])
prop("N01", "Interface names keep their components",
     "CiscoIOSInterface splits a name into prefix, slot, card, port, subinterface, channel and class exactly as written, absent ones None; its name, number, dict and sort list are those of its components, also after one is set, and parsing the name again gives an equal interface. "
     "Interfaces are equal (with equal hashes) exactly when prefix and all components are, and are ordered by slot, card, port, subinterface, channel and class, a missing one first.",
     "for every interface name of up to three slashed numbers, subinterface, channel and class, and every pair of them",
     "Names combine six optional components with arbitrary numbers; tests hold about fifteen.",
     [U], [("names", U + ": CiscoIOSInterface.parse_single_interface, parse_intf_short, parse_intf_long, render_as_string"), ("relations", U + ": CiscoIOSInterface.__eq__, __lt__, __gt__, __hash__")])
prop("R01", "Integer ranges hold exactly the numbers denoted",
     "CiscoRange(text, result_type=int) contains exactly the numbers and ranges written, once each and in ascending order, in every view (iteration, length, membership, as_list, as_set); append, remove, indexing, sum and difference change exactly the number concerned and never an operand. "
     "as_compressed_str writes three or more successive numbers as a range and the others singly, and denotes an equal range.",
     "for every list of numbers and ascending ranges, and every number appended or removed",
     "Parts may overlap, nest, touch or be out of order; tests hold a handful of texts.",
     [U], [("parsing", U + ": CiscoRange.parse_integers"), ("views", U + ": CiscoRange.as_list, as_set, as_compressed_str"), ("editing", U + ": CiscoRange.append, remove, __add__, __sub__, __setitem__, __delitem__")], over=("inputs", "histories"))
prop("R02", "Interface ranges hold exactly the interfaces denoted",
     "CiscoRange of an interface name with a range iterates its last number (channel, else subinterface, else port): 'Eth1/2.1-3,7' is Eth1/2 with subinterfaces 1, 2, 3, 7; later parts are bare numbers or whole names, an interface class applies to all. "
     "Every view lists exactly these interfaces once in ascending order, append, remove, sum and difference change exactly the interface concerned, and the compressed text denotes an equal range.",
     "for every shape of interface name and every list of numbers, ranges and whole names with the same prefix",
     "Shapes, parts and numbers multiply; tests hold about twenty ranges, mostly of ports.",
     [U], [("parsing", U + ": CiscoRange.parse_cisco_interfaces, split_range"), ("views", U + ": CiscoRange.as_list, as_set, as_compressed_str"), ("editing", U + ": CiscoRange.append, remove, __add__, __sub__")], over=("inputs", "histories"))
prop("C12", "Typed extraction returns the first match, typed, or the default",
     "re_match, re_match_typed and re_match_iter_typed return the requested group of the first matching line (the line itself, then its children, or all descendants with recurse, in file order; root lines for a whole configuration) as result_type, else the default, typed unless untyped_default. "
     "With groupdict each named group gets its own type, or the default. re_search, re_search_children and has_child_with select exactly the lines matching the expression.",
     "for every configuration hierarchy and line content, the listed expressions, types and defaults",
     "Which line matches first depends on content and nesting; tests hold a few configurations.",
     [A, C], [("extraction", A + ": BaseCfgLine.re_match, re_match_typed, re_match_iter_typed, get_typed_dict; " + C + ": CiscoConfParse.re_match_iter_typed"), ("selection", A + ": BaseCfgLine.re_search, re_search_children, has_child_with")])
prop("I04", "collapse_addresses preserves the covered addresses",
     "The networks returned cover exactly the addresses covered by the networks of the given objects, are disjoint and in ascending order, and no two of them could be merged into one network. "
     "The given objects are unchanged.",
     "for every list of up to three IPv4 or IPv6 networks within the length windows",
     "Overlap, containment and adjacency of networks multiply; tests hold two lists.",
     [U], [("collapse", U + ": collapse_addresses, IPv4Obj.network, IPv6Obj.network")])
prop("L01", "Port specifications denote exactly their ports",
     "L4Object of an ASA port specification (a port, eq, neq, lt, gt or range, with numbers or service names) lists exactly the ports 1 to 65535 it denotes in ascending order, and refuses one whose ports are no port numbers or that denotes none. "
     "Objects are equal exactly when protocol and ports are, and their repr shows the compressed ports.",
     "for every port number or name and every operator",
     "65536 ports and six operators; tests hold seven specifications.",
     [U, "ciscoconfparse/protocol_values.py"], [("ports", U + ": L4Object.__init__"), ("relations", U + ": L4Object.__eq__, __repr__")])
M = "ciscoconfparse/models_cisco.py"
prop("C04", "Brace blocks give lines the hierarchy of their blocks",
     "With syntax junos every statement becomes one line indented by four blanks per enclosing block, without its braces and final semicolon, whose parent is the line which opened the innermost block around it; comment lines are kept and open or close nothing; pure closing lines vanish. "
     "In the indented syntaxes (ios, nxos, iosxr, asa) a line starting with a closing brace is a child of the line ending in the matching opening brace, all other lines follow indentation, texts are kept, and an unmatched brace is ordinary text.",
     "for every balanced junos text and every indented text with braces",
     "Nesting, inline blocks, '} else {', several closings on one line and comments combine freely; tests hold a few complete files.",
     [C], [("junos conversion", C + ": parse_line_braces, convert_junos_to_ios"), ("closing braces", C + ": assign_parent_to_closing_braces, ConfigList.bootstrap_obj_init_ng")])
prop("C13", "HDiff reports exactly the added and removed lines",
     "HDiff marks each line of either configuration as unchanged, removed or added by whether the same line below the same parent lines exists in both, mentions no line twice, and places every line below its own parents; the unified output uses signs ' ', '-', '+' accordingly. "
     "It takes lists of lines or CiscoConfParse objects, in all valid syntaxes, and leaves CiscoConfParse inputs unchanged.",
     "for every pair of configurations",
     "Equal lines below different parents, and additions and removals at several depths, multiply; tests diff a few pairs.",
     [C], [("diff", C + ": HDiff.__init__, build_diff_obj, find_in_diff_obj, unified_diffs, all_output_dicts")])
prop("C15", "sync_diff commands turn the configuration into the required one",
     "Applying the commands returned by sync_diff to the configuration, each 'no' command removing its line, makes the lines which match linespec exactly the required lines which match it, with removals before additions and each command below its parents. "
     "With uncfgspec the removal command is 'no' and the matching part of the line, and with remove_lines=False nothing is removed.",
     "for every pair of configuration and list of required lines",
     "Extra, missing and equal lines occur at several depths; tests hold a few pairs.",
     [C], [("sync", C + ": CiscoConfParse.sync_diff")])
prop("M01", "Static routes report exactly the parts written",
     "Each part of an 'ip route' or 'ipv6 route' line (vrf, network, mask, next-hop interface, next-hop address, global, distance, multicast, name, permanent, track, tag, nexthop-vrf) is reported as written by IOSRouteLine, and an absent part by its default: '', False, or 1 for the distance. "
     "nexthop_str is the interface and address as far as present; the dhcp keyword is neither; network_object is the written network.",
     "for every combination of the optional parts in the documented order",
     "Thousands of combinations of optional parts, in two address families; tests hold about ten routes.",
     [M], [("parsing", M + ": IOSRouteLine, _RE_IP_ROUTE, _RE_IPV6_ROUTE")])
prop("M02", "Interface addresses are those of the interface's own address commands",
     "For an IOS interface the IPv4 address, netmask, mask length, address object and subnet object are those of its static primary address wherever it stands among the other lines, and empty without one (dhcp, negotiated, none); secondary addresses are exactly its secondary lines; ipv6_addr and its object are the first IPv6 address and prefix, '' or empty with dhcp or autoconfig. "
     "in_ipv4_subnet holds exactly when the interface's subnet lies in the given one, in_ipv4_subnets when in at least one; an empty object contains nothing.",
     "for every order and mixture of address commands, descriptions and following interfaces",
     "Primary, secondary and dynamic commands in any order; tests use one order.",
     [M], [("IPv4", M + ": BaseIOSIntfLine.ipv4_addr_object, ipv4_addr, ipv4_netmask, ip_network_object, ip_secondary_addresses, in_ipv4_subnet"), ("IPv6", M + ": BaseIOSIntfLine.ipv6_addr, ipv6_addr_object")])
prop("M03", "Layer-2 attributes are those of the interface's switchport commands",
     "For an IOS interface is_switchport, mode, access and native VLAN, trunk encapsulation, port-security, storm-control, DTP and port-channel number follow exactly from its own commands of that kind: 'no ...' and descriptions do not count, only a plain 'switchport port-security' enables it, a switchport has VLAN 1 and DTP unless told otherwise. "
     "trunk_vlans_allowed is the base list (all VLANs by default) plus 'add' less 'except' and 'remove' lists, and 0 for an access or routed port.",
     "for every mixture of layer-2 commands and every VLAN list",
     "Commands combine in any number and order, VLAN lists arbitrarily; tests hold about fifteen interfaces.",
     [M], [("switchport", M + ": BaseIOSIntfLine.is_switchport, has_dtp, has_switch_portsecurity, access_vlan, native_vlan"), ("VLAN list", M + ": BaseIOSIntfLine.trunk_vlans_allowed"), ("port-channel", M + ": IOSCfgLine.portchannel_number")])
prop("M04", "Interface names are taken apart into type, numbers and kind",
     "For an IOS interface line name, port_type, interface_number, subinterface_number, ordinal_list and port are exactly the parts of the written name; the abbreviations are those of its type. "
     "is_subintf, is_ethernet_intf, is_loopback_intf, is_virtual_intf and is_portchannel_intf say what the name says; on a line that is no interface line they and is_intf are False.",
     "for every interface type, number of slots, subinterface and spacing within the bounds",
     "Types, slots, subinterfaces and spacing multiply; tests hold about twenty names.",
     [M], [("name parts", M + ": BaseIOSIntfLine.name, port_type, ordinal_list, interface_number, subinterface_number, port"), ("kinds", M + ": IOSCfgLine.is_intf, is_subintf, is_ethernet_intf, is_virtual_intf, is_portchannel_intf")])
prop("M05", "Interface options are reported exactly when configured",
     "Each option accessor of an IOS interface (description, bandwidth, delay, hold queues, encapsulation, MPLS, speed, duplex, autonegotiation, carrier delay, clock rate, MTUs, shutdown, VRF, ICMP and ARP settings, PIM, helper addresses, CDP, xconnect, access groups) returns the value of the first command of exactly that kind among the interface's own lines, else its documented default. "
     "Other options, 'no' forms, descriptions quoting a command, similar commands and other interfaces do not count; ICMP, ARP and PIM accessors need an IPv4 address, MAC access groups count only on switchports.",
     "for every combination of option lines and values",
     "Forty accessors by every other line that may stand next to theirs; tests use one sample interface each.",
     [M], [("options", M + ": BaseIOSIntfLine.description, manual_*, has_*, is_shutdown, vrf, ip_helper_addresses, xconnect_vc, *_accessgroup_*")])
prop("M06", "HSRP attributes belong to the right group",
     "hsrp_interfaces has one object per HSRP group with a virtual IPv4 or IPv6 address on the interface, in ascending order, and its attributes (addresses, priority 100, preempt, minimum preempt delay 0, hello 3 and hold 10 seconds, MD5 key chain, tracked interfaces with decrement 10, version 1, use-bia) are those of that group's own lines, else the default given. "
     "The interface-level hsrp attributes are those of the first such line; 'no' forms and descriptions do not count. Groups and tracked interfaces are equal exactly when number, interface and decrement are.",
     "for every mixture of HSRP lines of two groups",
     "Lines of several groups interleave in any order; no test covers HSRP attributes.",
     [M], [("groups", M + ": HSRPInterfaceGroup, TrackingInterface, BaseIOSIntfLine.hsrp_interfaces"), ("interface level", M + ": BaseIOSIntfLine.hsrp_ip_addr, hsrp_group, hsrp_priority, hsrp_track, has_hsrp_*")])

prop("M07", "Global, line and AAA commands report what is written",
     "With factory parsing of IOS and NX-OS every line gets the class of the command it starts with, keeping its text, number and place in the hierarchy. "
     "Hostname, kind, numbers, reset command and exec-timeout of 'line' blocks, list name, group, methods, level and record type of AAA commands, and protocol, group, VRF, source interface and private servers of AAA server groups are exactly the parts of that command or block; the global interface attributes tell which such command the line is.",
     "for every name, number, method list and order of child lines within the bounds",
     "Names, numbers and child lines are free; tests hold a few AAA and line blocks.",
     [M, "ciscoconfparse/models_nxos.py"], [("lines", M + ": IOSAccessLine, IOSHostnameLine, IOSIntfGlobal, IOSAaa*Line"), ("NX-OS", "ciscoconfparse/models_nxos.py: NXOSAccessLine, NXOSHostnameLine, NXOSAaa*Line")])

AS = "ciscoconfparse/models_asa.py"
prop("M08", "ASA access-list entries report exactly the clauses written",
     "result_dict of an ASA access-list entry gives the list name, action, IP protocol number (65535 and the group's name for a service object-group), how source and destination are given (network, object or object-group), logging with its level (informational by default) and interval (300 by default), disable and time-range exactly as written, with the documented empty value for a clause that is absent. "
     "A remark is reported verbatim with protocol -1, a standard entry as IP.",
     "for every combination of address, port, log and option clauses and every name within the bounds",
     "Clauses multiply into thousands of forms; tests only check that about 60 lines parse.",
     [AS], [("access lists", AS + ": ASAAclLine.result_dict, _RE_ACLOBJECT")])
prop("M09", "ASA names and object groups expand to exactly their members",
     "network_strings and networks of an ASA network group list its members in order, with names of 'name' commands replaced by their addresses and nested groups expanded in place; ports of a service group list protocol and ports of each member the same way (tcp-udp as both); descriptions add nothing, and a group referring to itself or to a missing group is refused with ValueError. "
     "names, object_group_network and access_list of the configuration map each name to its address, group and ordered entries, and every line gets the class of the command it starts with.",
     "for every mixture of members, every nesting and every order of definition",
     "Members, names and nested groups combine freely and may be defined later; tests hold five groups.",
     [AS, C], [("groups", AS + ": ASAObjGroupNetwork.network_strings, networks, ASAObjGroupService.ports, ASAName"), ("dictionaries", C + ": ConfigList.names, object_group_network, object_group_service, access_list")])
prop("M10", "ASA interfaces report exactly their own addresses, names and options",
     "For an ASA interface the IPv4 address, mask, mask length, subnet and standby address, and the IPv6 address, prefix length and standby address are those of its own address commands, and empty, '' or 0 without one (dhcp and autoconfig included); in_ipv4_subnet(s) holds exactly when the interface lies in (one of) the given subnets. "
     "Name, type and numbers are the parts of the written name; description, delay, speed, duplex, shutdown, PIM and switchport attributes are those of its own commands, not of 'no' forms, descriptions or other interfaces.",
     "for every mixture of address and option lines and every name within the bounds",
     "Lines combine in any order next to other interfaces; tests read seven attributes of three interfaces.",
     [AS], [("addresses", AS + ": BaseASAIntfLine.ipv4_addr, ipv4_standby_addr, ipv6_addr_object, ipv6_standby_addr, in_ipv4_subnet"), ("names and options", AS + ": ASACfgLine.is_*, BaseASAIntfLine.name, ordinal_list, description, is_switchport")])

NX = "ciscoconfparse/models_nxos.py"
prop("M11", "NX-OS interfaces report their name, kind and options exactly as written",
     "An NX-OS interface command is an NXOSIntfLine whose name, type, numbers, subinterface number and kind (Ethernet, loopback, port-channel, virtual) are those of the written name, and whose abbreviations are exactly the prefixes of the type followed by the number. "
     "Every option accessor (description, speed, duplex, beacon, bandwidth, delay, MTUs, VRF, ICMP, PIM, ARP, DHCP relay, MAC and IP access groups, CDP, xconnect, channel-group, vPC, FEX, spanning-tree) gives the value of the first such command of that interface and the documented default without one; 'no' forms, descriptions, similar commands and other interfaces do not count.",
     "for every name, every pair of option commands in either order, with and without an address",
     "Names and option lines combine freely; tests read a handful of accessors of one fixed configuration.",
     [NX], [("names", NX + ": BaseNXOSIntfLine.name, ordinal_list, interface_number, abbvs, NXOSCfgLine.is_*"), ("options", NX + ": BaseNXOSIntfLine accessors")])
prop("M12", "NX-OS interface addresses, switching and VLAN lists are those configured",
     "ipv4_addr, mask, mask length, address and subnet objects of an NX-OS interface come from its own primary 'ip address' command, with the documented default without one and DynamicAddressException for DHCP; in_ipv4_subnet(s) holds exactly when the interface lies in (one of) the given subnets. "
     "The switchport attributes are those of its own switchport commands, and trunk_vlans_allowed is the set that its allowed-VLAN commands (list, all, none, add, except, remove) give when applied in order, and 0 on other ports.",
     "for every mixture and order of address, switchport and allowed-VLAN commands within the bounds",
     "Commands combine in any order; tests check no add, except or remove list and no secondary address.",
     [NX], [("addresses", NX + ": BaseNXOSIntfLine.ipv4_addr, ipv4_netmask, ip_network_object, in_ipv4_subnet"), ("switching", NX + ": BaseNXOSIntfLine.trunk_vlans_allowed, access_vlan, has_dtp, is_switchport")])
prop("M13", "NX-OS HSRP and vPC attributes are those of the group and domain",
     "The HSRP accessors of an NX-OS interface (group, virtual address, priority, hello and hold timers in seconds, tracked object, use-bia, preemption, key chain) give what the 'hsrp' block of that interface says, 100 as the default priority and empty values without HSRP. "
     "A 'vpc domain' reports its number, priorities, MAC, options and peer-keepalive parameters exactly as configured, -1 or '' for absent ones; 'no' forms and other blocks do not count.",
     "for every pair of commands in the block, every value, and every pair of keepalive options in either order",
     "Commands and options appear in any mixture; tests hold one HSRP group and one vPC domain.",
     [NX], [("HSRP", NX + ": BaseNXOSIntfLine.hsrp_*"), ("vPC", NX + ": NXOSvPCLine")])
prop("M14", "NX-OS static routes report exactly the parts written",
     "For an NX-OS 'ip route' or 'ipv6 route' command the network, mask, next-hop interface and address, distance (1 by default), route name, tag and tracked object are exactly the parts written, each absent part giving its documented empty value, with or without a VRF. "
     "nexthop_str and routeinfo, and with them the printed form, name the interface and the address of the next hop.",
     "for every combination of optional parts and every value within the bounds",
     "Optional parts multiply; tests parse eight routes without options in combination.",
     [NX], [("routes", NX + ": NXOSRouteLine, BaseNXOSRouteLine.routeinfo, _RE_IP_ROUTE, _RE_IPV6_ROUTE")])
prop("C16", "Required-line checks report exactly the missing and superfluous lines",
     "req_cfgspec_all_diff returns, in the order given, exactly the required lines which equal no line of the configuration up to surrounding blanks (and up to the length of runs of blanks with ignore_ws). "
     "req_cfgspec_excl_diff returns, in file order and each once, for every line which matches linespec and is not required the lines above it and 'no' with the part matching uncfgspec, at the line's own indentation, followed by the required lines which equal no matching line. "
     "uncfgtext of a line is the opposite command at its indentation, and neither check changes the configuration.",
     "for every configuration hierarchy, every required line and every listed pair of expressions within the bounds",
     "Required lines contain expression characters and blanks and sit anywhere in the hierarchy; tests hold three flat examples.",
     [C, A], [("missing lines", C + ": CiscoConfParse.req_cfgspec_all_diff"), ("removal", C + ": CiscoConfParse.req_cfgspec_excl_diff, _objects_to_uncfg"), ("opposite command", A + ": BaseCfgLine.uncfgtext, add_uncfgtext")])
prop("P01", "Type 7 passwords are decrypted to the password encrypted",
     "CiscoPassword.decrypt of a type 7 string, given to it or to the constructor, is the password which was encrypted, for every salt, every length and either case of the hexadecimal digits. "
     "A text which is no type 7 string (odd length, no leading decimal salt, or empty) gives the empty string.",
     "for every salt 00 to 99 and every encrypted password within the bounds",
     "Salt, position and character combine, and the key wraps after 53 characters; tests decrypt two strings.",
     [C], [("decryption", C + ": CiscoPassword.decrypt")])
prop("C17", "The line container is a list of the lines at their positions",
     "ConfigList behaves as the list of its lines: an index, a slice, iteration (also reversed, from an index, or without comments), index, count, in, +, * and copies give exactly the same line objects in the same order and change nothing; two lists are equal exactly when their lines are. "
     "pop, remove and del take out exactly the named line, and line numbers stay equal to positions; += and extend append, and sort orders by line number. "
     "all_parents are the lines with children, and config_hierarchy divides the root lines without comments into those with and without children.",
     "for every configuration, index, slice and line within the bounds",
     "Positions, comments and hierarchy combine; tests index the container but hold no slice, copy, sum or removal.",
     [C], [("container", C + ": ConfigList.__getitem__, __delitem__, __add__, pop, remove, copy"), ("views", C + ": ConfigList.iter_no_comments, config_hierarchy, all_parents")])
prop("M15", "IOS-XR interface names, options and addresses are those configured",
     "For an IOS-XR 'interface' command, the interface type, slot/port numbers and subinterface number are exactly those written, with or without 'l2transport', and is_abbreviated_as accepts exactly the prefixes of the type followed by that number. "
     "Description, bandwidth, delay, encapsulation, speed, duplex, carrier delay, MTUs, VRF, shutdown and IPv4 access groups are those of its own commands, the documented empty value without one; no other command, 'no' form or neighbouring interface is read instead. "
     "Its IPv4 address, mask and subnet objects come from its primary 'ipv4 address', and in_ipv4_subnet(s) holds exactly when the interface lies in (one of) the given subnets.",
     "for every interface kind, number, option pair in either order, address and subnet within the bounds",
     "Names, numbers and option order combine; tests read one small IOS-XR configuration.",
     ["ciscoconfparse/models_iosxr.py"], [("naming", "ciscoconfparse/models_iosxr.py: BaseIOSXRIntfLine.port_type, ordinal_list, interface_number, is_abbreviated_as"), ("options", "ciscoconfparse/models_iosxr.py: BaseIOSXRIntfLine.description, manual_*, vrf, is_shutdown"), ("addresses", "ciscoconfparse/models_iosxr.py: BaseIOSXRIntfLine.ipv4_addr, ip_network_object, in_ipv4_subnets")])
prop("C18", "Configuration files are read and written line by line",
     "Parsing a configuration file (given as text or pathlib.Path) gives the same lines and hierarchy as parsing the list of the lines in it, whatever its line ends (\\n or \\r\\n) and with or without one on the last line; an empty file has no lines and a missing one raises FileNotFoundError. "
     "save_as writes exactly the current lines, each with a line end, and reading that file back gives the same configuration. Diff of two files equals Diff of their lines.",
     "for every file content and mixture of line ends within the bounds",
     "Empty lines, line ends and banners combine; tests read fixture files with one kind of line end.",
     [C], [("reading", C + ": CiscoConfParse.read_config_file"), ("writing", C + ": CiscoConfParse.save_as"), ("comparison", C + ": Diff.__init__")])
