#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept as code so that the long texts stay readable."""
import json, os
C = "ciscoconfparse/ciscoconfparse.py"; U = "ciscoconfparse/ccp_util.py"; A = "ciscoconfparse/ccp_abc.py"
MC = "ciscoconfparse/models_cisco.py"; MA = "ciscoconfparse/models_asa.py"; MN = "ciscoconfparse/models_nxos.py"
MX = "ciscoconfparse/models_iosxr.py"; MALL = "ciscoconfparse/models_all.py"; MJ = "ciscoconfparse/models_junos.py"
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    an = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": False}
    if state:
        an["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": an})
LNUM = ("line number", "position of the line in the parsed text; identity, ordering and deletion all depend on it")
TREE = ("parent / children links", "the tree derived from indentation that every relational query walks")

p("P01", "Parsing preserves the configuration text",
  "A parsed configuration holds exactly the lines it was given, in the same order and with only trailing whitespace removed; the only lines that may be missing are blank ones, and only when blank lines are ignored (blank lines inside banners and macros are kept where the parser recognises them). "
  "Line numbers strictly increase from the top of the file and are the zero-based position of each line when no blank line was dropped.",
  ["inputs"], "every list of text lines, every comment delimiter, blank-line policy and supported syntax with a line-oriented format (IOS, NX-OS, IOS-XR, ASA)",
  "The tests parse about a dozen fixed fixtures; nothing says that no line of an arbitrary configuration is lost, reordered, duplicated or altered.",
  [C], [("CiscoConfParse / ConfigList construction", C), ("indentation tree builder", C), ("blank-line filter", C)], "lines, text and line numbers of the parsed configuration", [LNUM])
p("P02", "A configuration parses the same from any source and round-trips through files",
  "The same configuration text given as a list, a tuple, a file name, a path object or a file with LF or CRLF line endings in the declared encoding parses to the same lines, line numbers and parent/child relations. "
  "Saving a parsed configuration of a line-oriented syntax to a file and parsing that file again gives the same lines and the same parent/child relations between commands. A text which the encoding cannot express, or a file which is not in the declared encoding, is refused instead of altered.",
  ["inputs", "configurations"], "every configuration of the line-oriented syntaxes (and brace-delimited text for the sources), as list, tuple, str path, pathlib path, LF/CRLF file, utf-8/latin-1/utf-16 encodings, followed by save and re-parse",
  "Tests read a few fixture files and save one; they do not vary line endings, encodings, blank-line runs, trailing newline or content.",
  [C], [("file reading", C), ("save_as", C)], "parsed lines and relations from each source; bytes of the saved file")
p("P03", "Each line's parent is the nearest shallower line above it",
  "Outside banners, macros and brace-delimited text, the parent of an indented command is the nearest command above it that is indented less, and a command with none above it has no parent (it is its own parent). "
  "Blank lines and comment lines never become anybody's parent, and never change the parent of the commands around them. "
  "A comment line is attached like a command of its indentation, unless the line just above it is indented more: then it is attached to nothing.",
  ["inputs"], "every sequence of lines with arbitrary indentation steps (including dedents to levels never seen before), comments, blanks and duplicates",
  "Fixtures use regular one- or two-space steps; irregular dedents, deep nesting, comments and blanks between levels are barely sampled.",
  [C], [("indentation tree builder", C)], "parent and children of every line", [TREE])
p("P04", "Family relations all describe one tree",
  "Every relation a line object offers agrees with the single tree given by the parent links: children are exactly the lines whose parent it is, in file order; all descendants, all ancestors, siblings, lineage, family text, family end point, and the parent/child predicates are those of that tree. "
  "No relation depends on duplicates of a line elsewhere in the file (line-oriented syntaxes).",
  ["inputs"], "every parsed configuration and every line in it",
  "Tests look at selected lines of selected fixtures; consistency between a dozen derived relations over all lines and trees is never checked.",
  [A, C], [("family properties of a configuration line", A)], "parent, children, all_children, all_parents, siblings, lineage, geneology, ioscfg, family_endpoint, is_child, is_parent, has_children ...", [TREE])
p("P05", "Banner and macro bodies belong to their opening line",
  "Every line of a banner body, up to and including the line carrying the closing delimiter, and every line of a macro body up to and including its end marker is a child of the opening line, whatever the body looks like, and the text of the body is kept, blank lines included, except empty lines that the untyped parser drops when blank lines are ignored (the delimiter is the first non-blank character after the banner type and does not occur in the body; the line after the end starts at column zero; ASA banner commands have no delimiter and are ordinary lines). "
  "Commands before the banner or macro and after its end are parsed exactly as if its body were not there.",
  ["inputs"], "every banner type and delimiter, one-line and multi-line, body lines that look like commands, comments, blanks or indented text, at any place in the file; macros likewise",
  "A few fixture banners with one delimiter each; the delimiter, body content and the surroundings range over an unbounded space.",
  [C], [("banner handling", C), ("macro handling", C)], "children of the banner line and relations of the other lines", [TREE])
p("P06", "Brace-delimited configuration keeps its block structure",
  "Parsing a brace-delimited (Junos) configuration gives one line per statement or block header, with braces and statement terminators removed and no statement lost or altered, where the parent of each line is the header of the innermost block that encloses it. "
  "This holds for any nesting depth, for empty blocks and for any indentation used in the source, with one statement, header, comment or closing brace per line; a block written on a single line stays a single line with all its text.",
  ["inputs"], "every well-formed nested block structure rendered with any indentation and line comments",
  "Two fixture files in the tests; no arbitrary nesting, no empty blocks, no irregular indentation.",
  [C, MJ], [("brace to indentation conversion", C)], "lines, parents and children of the parsed configuration")
p("P07", "Typed parsing is transparent and classifies by the command",
  "Asking for typed line objects changes neither the text, the line numbers nor the tree of the parsed configuration (when blank lines are kept or there are none). "
  "Each line's type is determined by its own text and the syntax: interface, route, AAA, access-line, host name, ACL, name and object-group commands get their specialised type, and every other line gets the generic type of that syntax; whether a line is an interface (sub-, loopback, ethernet, virtual) follows from its own text too.",
  ["inputs", "configurations"], "every configuration and each of the syntaxes",
  "Tests exercise factory mode on hand-picked stanzas and never compare it with the plain parse of the same text.",
  [C, MC, MN, MX, MA, MJ], [("line factory", C), ("is_object_for classifiers", MC)], "class and relations of each line object", [TREE])
p("P08", "A line search returns exactly the matching lines, in order",
  "Searching for a pattern returns exactly the lines in which that regular expression is found, each once and in file order; the variants (exact match, whitespace-insensitive, interface search by name, search by line type) return exactly the lines satisfying the stated condition. "
  "Asking only whether a matching line exists agrees with the search.",
  ["inputs"], "every configuration, every regular expression and every option combination",
  "Tests run fixed patterns on fixed fixtures with one expected list each.",
  [C], [("find_objects, find_lines, has_line_with, find_interface_objects", C)], "the returned objects or texts")
p("P09", "Parent searches return exactly the qualifying parents",
  "Searching for parents with (or without) a child returns exactly the lines that match the parent pattern (a regular expression, a literal text if escaped, or the text of a line object) and have (or lack) a matching child, or descendant when the recursive form is asked for, each once and in file order. "
  "The text-returning, object-returning and single-object forms agree with each other.",
  ["inputs"], "every configuration, every pair of patterns, child and descendant forms, positive and negative",
  "Fixed patterns on fixed fixtures; nothing compares the forms with each other or with a full enumeration.",
  [C], [("find_parent_objects, find_parents_w_child, *_wo_child, has_child_with", C)], "returned objects and texts", [TREE])
p("P10", "Child searches return exactly the qualifying children",
  "Searching for children under a parent returns exactly the lines that match the child pattern and whose parent chain, as far as the chosen form looks, contains a line matching the parent pattern, each once and in file order. "
  "A pattern is a regular expression, a literal text if escaped, or a line object where that is accepted. Forms differing only in what they return (text or object) agree.",
  ["inputs"], "every configuration and every pair of patterns, all child-search forms",
  "Fixed patterns on fixed fixtures.",
  [C], [("find_child_objects, find_children_w_parents, find_objects_w_parents", C)], "returned objects and texts", [TREE])
p("P11", "Family searches return whole, correct families",
  "Searching for families returns, for each matching line, the line and exactly its direct children (child form), all its descendants (full form), its ancestors and descendants (lineage form, which requires a unique match), or the lines of its block (block form: the lines sharing its parent, or its own children for a top-level line, and the ancestors of all of these), without duplicates and in file order.",
  ["inputs"], "every configuration and pattern",
  "Fixed patterns on fixed fixtures with at most two levels.",
  [C], [("find_children, find_all_children, find_lineage, find_blocks", C)], "the returned lines", [TREE])
p("P12", "A branch search enumerates exactly the matching branches",
  "A search for a sequence of patterns returns, in file order, every chain of lines in which the first matches the first pattern and each next line is a direct child of the previous one and matches the next pattern; a chain that cannot be continued is reported once, padded with empty positions to the length of the sequence. The group form returns what each pattern's groups captured in each line of each branch.",
  ["inputs"], "every configuration and every sequence of patterns, with and without incomplete branches",
  "Four or five fixed branch specifications.",
  [C], [("find_object_branches", C)], "the returned list of branches", [TREE])
p("P13", "Value extraction returns what the regular expression captured",
  "Extracting a value by regular expression from a line, from its children or from the whole configuration returns the requested group of the first match in which that group took part, converted to the requested type, and the given default exactly when nothing matched (untyped if so requested); the named-group form returns every named group converted to its type. "
  "Extraction never looks at lines outside the requested scope.",
  ["inputs"], "every configuration, pattern, group, result type, default and recursion flag",
  "A few fixed extractions from fixed stanzas.",
  [A, C], [("re_match, re_match_typed, re_match_iter_typed", A), ("CiscoConfParse.re_match_iter_typed", C)], "the returned value and its type")
p("P14", "Insertion adds exactly the requested lines at the requested place",
  "Inserting text before or after lines, at an index, at the end of the file or under a parent adds exactly the requested line or lines next to exactly the requested target lines, and leaves every other line's text and order unchanged. "
  "Text inserted under a parent becomes that parent's child. (Edited lines lie outside banners, macros and brace-delimited text.)",
  ["inputs"], "every configuration, target pattern or object, position and inserted text",
  "Tests insert into small fixtures where the target text is unique.",
  [C, A], [("insert_before / insert_after / append_line / prepend_line", C), ("append_to_family, insert_before, insert_after on a line", A)], "text of the configuration after the edit", [LNUM, TREE])
p("P15", "Deletion removes exactly the requested lines and their descendants",
  "Deleting a line, or all lines matching a pattern, removes exactly those lines together with their descendants, and nothing else; the remaining lines keep their text, their order and consistent line numbers. "
  "Deleting children that match a pattern touches only children of the given line.",
  ["inputs"], "every configuration, pattern and target line, including nested and duplicate matches and configurations with blank lines",
  "Tests delete isolated lines; nested matches, duplicates and dropped blank lines do not occur.",
  [C, A], [("delete, delete_lines, delete_children_matching", A)], "text of the configuration after the edit", [LNUM, TREE])
p("P16", "Replacement rewrites exactly the matching text",
  "Replacing a pattern in lines, in children or in all descendants of matching parents, rewrites exactly the matching lines in scope as the regular-expression substitution does, skips excluded lines, and leaves every other line unchanged; the returned list gives the new text of exactly the rewritten lines. A line whose text becomes blank is deleted with its descendants.",
  ["inputs"], "every configuration, pattern, replacement, exclusion and scope",
  "Fixed replacements on fixed fixtures.",
  [C, A], [("replace_lines, replace_children, replace_all_children, re_sub, replace, replace_text", C)], "text of the configuration and returned list", [TREE])
p("P17", "After any editing history, commit equals a fresh parse of the text",
  "After any sequence of insertions, deletions, replacements and commits, the committed configuration has the same lines, line numbers and parent/child relations as a new parse of its own text, and that text is the one obtained by applying the same edits to a plain list of lines. "
  "Searches, and the typed facts of the lines, asked between edits after a commit are those of the edited configuration. (Line objects are edited only if they come from the last commit.)",
  ["histories"], "every sequence of edits and commits on every starting configuration",
  "Tests apply one or two edits; interactions between edits (stale line numbers, stale links, hash collisions) need longer histories.",
  [C, A], [("commit / atomic", C), ("edit methods", A)], "text, line numbers and relations after each commit", [LNUM, TREE])
p("P18", "A configuration diff accounts for every line on both sides",
  "A hierarchical diff lists every line of the before and after configurations: removed lines are exactly those whose full path (line and ancestors, whitespace-normalised) is absent afterwards, added lines exactly those whose path is absent before, all others are unchanged, and dropping the added lines gives the before configuration in its order; a path that occurs several times is listed once, a comment's path is the comment itself, and each added line is listed within its parent's block (IOS and NX-OS). "
  "Diffing a configuration with itself shows no change.",
  ["inputs"], "every pair of nested configurations without duplicated sibling lines",
  "Three fixed diffs.",
  [C], [("HDiff", C), ("Diff", C)], "unified_diffs and output dictionaries")
p("P19", "Applying a diff's commands turns the old configuration into the new one",
  "The commands a configuration diff produces remove exactly what only the old configuration has and add exactly what only the new one has, so that executing them on the old configuration gives the new configuration up to order; the rollback commands do the reverse, and equal configurations give no commands (ordinary commands: not negated ones, numbered access-list sections, banners or VLAN names). "
  "Required-configuration diffs list the missing lines, removals of unwanted lines (those the removal filter selects), and nothing already satisfied.",
  ["inputs"], "every pair of configurations in the supported form",
  "Three fixed diffs.",
  [C], [("Diff.diff / rollback", C), ("sync_diff, req_cfgspec_excl_diff, req_cfgspec_all_diff", C)], "the returned command lists")
p("P20", "IPv4 objects agree with standard IPv4 arithmetic",
  "For every valid IPv4 address with mask, prefix length, host mask or integer value, the parsed object reports the same address, network, broadcast, masks, prefix length, integer, binary and hexadecimal forms, host count and classification flags as the standard library's IPv4 types. "
  "Parsing the object's own textual form gives an equal object, and equal objects hash equally.",
  ["inputs"], "all 2^32 addresses by 33 prefix lengths in all accepted notations",
  "Tests check one network by hand.",
  [U], [("IPv4Obj", U)], "properties of the parsed address")
p("P21", "IPv6 objects agree with standard IPv6 arithmetic",
  "For every valid IPv6 address with prefix length in any legal spelling, including embedded IPv4, compressed forms and integers, the parsed object reports the same address, network, broadcast (last) address, masks, integers, compressed, exploded, binary and hexadecimal forms, host count and classification flags as the standard library's IPv6 types. "
  "Parsing the object's own textual form gives an equal object, and equal objects hash equally.",
  ["inputs"], "all 2^128 addresses by 129 prefix lengths in all legal spellings",
  "Tests check a handful of spellings.",
  [U], [("IPv6Obj", U)], "properties of the parsed address")
p("P22", "Address ordering, containment, collapse and longest match are exact",
  "Comparison of address objects is a total order consistent with equality (network first, then prefix length, then host address); containment holds exactly when every address of one network is in the other. "
  "Objects of different families are never equal nor contained in each other. Collapsing a set of networks gives the minimal disjoint list covering exactly the same addresses.",
  ["inputs"], "all pairs and sets of IPv4 and of IPv6 prefixes, including default routes, host routes and equal networks",
  "Tests compare a handful of pairs.",
  [U], [("comparison, containment", U), ("collapse_addresses", U)], "results of comparisons, sorting, `in` and collapse")
p("P23", "Address arithmetic and field updates are exact",
  "Adding or subtracting an integer moves an address by exactly that amount, keeps its prefix length, and rejects results outside the address space; addition and subtraction are inverse. "
  "Setting the prefix length, mask, network or offsets changes exactly that aspect, and a network offset is the distance from the network address.",
  ["inputs"], "all addresses, prefix lengths and offsets, including the ends of the address space",
  "Tests add small integers to a few addresses.",
  [U], [("__add__, __sub__, offsets, setters", U)], "the resulting address object")
p("P24", "Interface names parse, print, compare and convert losslessly",
  "Any well-formed interface name parses into its prefix, slot, card, port, sub-interface, channel and class, and prints back to the same name up to spacing; converting to a dictionary and back gives an equal interface, and equal interfaces hash equally. "
  "Interfaces of one prefix sort numerically, component by component (slot, card, port, sub-interface, channel, class), an absent component before any present one (IOS names, at most three numbers separated by slashes).",
  ["inputs"], "every combination of prefix, separator, one to three numbers, sub-interface, channel and class",
  "A dozen fixed interface names.",
  [U], [("CiscoIOSInterface", U)], "rendered name, components, ordering")
p("P25", "Range expansion and compression are inverse and exact",
  "Expanding a range expression of integers or interfaces gives exactly the members it denotes, without duplicates, and compressing the members gives an expression that expands to the same set. "
  "Appending adds exactly one member, removing removes exactly one, and membership, length and iteration agree with the expansion. A bare number in an interface range varies the last component of the interface named before it.",
  ["inputs", "histories"], "every comma and dash expression over integers and over interface names with slots, ports, sub-interfaces and channels, and every sequence of append and remove",
  "A dozen fixed ranges.",
  [U], [("CiscoRange", U)], "list, set, compressed string, membership")
p("P26", "Port specifications denote exactly their ports",
  "An equality, range, less-than or greater-than port specification, by number or by service name, denotes exactly the ports it describes within 1 to 65535, and two specifications are equal exactly when protocol and ports agree. "
  "Malformed specifications are rejected.",
  ["inputs"], "every operator, port number and known service name",
  "A dozen fixed specifications.",
  [U, "ciscoconfparse/protocol_values.py"], [("L4Object", U)], "port list, protocol, equality")
p("P27", "Type-7 passwords decrypt to the original text",
  "Decrypting any type-7 encrypted password gives back the clear text for every salt and every password length the cipher supports, and text that is not a valid type-7 string is rejected (an error, or an empty result) rather than decrypted to something else.",
  ["inputs"], "every salt, every clear text",
  "One fixed password per length at most.",
  [C], [("CiscoPassword.decrypt", C)], "the decrypted text")
p("P28", "Interface facts are exactly what the interface's own lines say",
  "For every IOS interface stanza, each reported fact (name, numbers, description, addresses, helpers, VLANs, encapsulation, bandwidth, MTU, timers, ACLs, shutdown and switchport state and the like) equals what the corresponding command in that stanza sets, and the documented default when there is no such command. "
  "Facts do not depend on the order of unrelated commands nor on other stanzas.",
  ["inputs"], "every set of interface commands with arbitrary values, in any order, among other interfaces",
  "One fixture configuration with fixed values per interface.",
  [MC, MALL], [("IOSIntfLine properties", MC)], "values of the interface's properties")
p("P29", "Static route facts are exactly what the route command says",
  "For every IPv4 or IPv6 static route command, the reported VRF, prefix, mask, next-hop interface and address, administrative distance, name, tag, track and flags equal the values written in the command, with documented defaults for those not written.",
  ["inputs"], "every legal combination of the route command's options with arbitrary values",
  "About fifteen fixed routes.",
  [MC], [("IOSRouteLine", MC)], "values of the route's properties")
p("P30", "Trunk VLAN sets follow the command sequence",
  "The allowed VLAN set of a trunk interface is the one obtained by executing its allowed-VLAN commands in order (a list, all and none replace the set, add adds to it, remove takes away from it; except takes away from it on IOS and means all other VLANs on NX-OS and IOS-XR), and access and native VLANs are the configured values or the defaults.",
  ["inputs", "histories"], "every sequence of allowed-VLAN commands over VLANs 1 to 4094",
  "Half a dozen fixed interfaces.",
  [MC, MN, MX], [("trunk_vlans_allowed", MC)], "the reported VLAN set")
p("P31", "HSRP group facts are exactly what the standby commands say",
  "Each numbered HSRP group on an interface reports the address, priority, preemption, timers, version and tracked objects configured for that group number and no other, with documented defaults for those not configured, and the groups listed are exactly those with an IPv4 or IPv6 address command.",
  ["inputs"], "every set of groups and standby commands in any order",
  "One fixture with two groups.",
  [MC], [("HSRPInterfaceGroup", MC)], "values of the group's properties")
p("P32", "ASA names and object groups resolve to the configured members",
  "Resolving an ASA network or service object group gives exactly the addresses, networks or ports of its members in order, with names replaced by their configured addresses and nested groups expanded in place; unknown or self-referring groups are rejected rather than silently dropped.",
  ["inputs"], "every set of names and of nested network and service groups",
  "One fixture of groups.",
  [MA], [("ASAObjGroupNetwork", MA), ("ASAObjGroupService", MA), ("ASAName", MA)], "network_strings, networks, ports")
p("P33", "ASA access-list lines parse into the fields they state",
  "For every extended ASA access-list line, the reported list name, action, protocol, source and destination methods, logging, time range, remark and the disable keyword equal what the line states.",
  ["inputs"], "every legal combination of access-list fields",
  "A few dozen fixed lines.",
  [MA], [("ASAAclLine", MA)], "result dictionary of the line")
p("P34", "NX-OS, IOS-XR and ASA interface facts follow their own lines",
  "For every NX-OS, IOS-XR or ASA interface stanza, each reported fact (name, numbers, description, addresses, masks, subnet membership, shutdown state, VRF, bandwidth, MTU, channel group, helper addresses, access groups, HSRP group and the like) equals what the corresponding command in that stanza sets, and the documented default when there is no such command; commands starting with \"no\" and comments set nothing. "
  "The facts of an NX-OS vPC domain follow its own lines in the same way, and an IOS-XR interface name splits into its numbers and reads back as the same name.",
  ["inputs", "configurations"], "every set of interface commands with arbitrary values, in any order, in each of the three syntaxes",
  "Small fixtures with fixed values.",
  [MN, MX, MA], [("interface line properties", MN)], "values of the interface's properties")
p("P35", "Negation and reset strings invert the command they come from",
  "The negation of a command (with at most one leading \"no\") removes an existing \"no\" or adds one, keeping the indentation and everything else, so negating twice gives the original command; an interface's or access line's reset string is the default-command for it, and resetting it inserts exactly that command before it.",
  ["inputs"], "every command line",
  "A couple of fixed lines.",
  [A, MC], [("uncfgtext", A), ("build_reset_string", MC)], "the returned command text")
p("P36", "Queries never change the configuration",
  "Any sequence of searches, relation queries and fact queries leaves the text, line numbers and relations of the parsed configuration, and the list it was parsed from, unchanged; repeating a query, in any order or on a fresh parse, gives the same answer.",
  ["histories"], "every configuration and every sequence of queries",
  "Tests query freshly parsed fixtures once.",
  [C, A], [("all find_* methods and line properties", C)], "snapshot before and after the queries", [TREE])
p("P37", "Malformed input is rejected, never misread",
  "Invalid IPv4 and IPv6 addresses, masks, prefix lengths, interface names, ranges (also reversed ones), unknown syntaxes, invalid regular expressions and wrongly typed configurations, lines, search and edit arguments, interface components and values raise an error instead of yielding an object or a result with some other value.",
  ["inputs"], "every string or value that is not in the accepted language",
  "A few fixed bad inputs.",
  [U, C], [("argument validation", U)], "the raised error")
p("P38", "The list of configuration lines behaves as a sequence of its lines",
  "The list of lines of a parsed configuration answers length, indexing, slicing, iteration, membership, counting, position, reversal, sorting, comparison, concatenation, repetition and copying exactly as a plain list of the same line objects; changing a copy of it leaves the original alone, inserting by position puts the line there and renumbers, and its filtered iterations (with or without comments, parents only, top-level hierarchy) select exactly the lines they name. A copied or pickled configuration has the same lines and relations.",
  ["inputs", "histories"], "every configuration, index, slice and sequence of list operations",
  "Tests index a few fixtures.",
  [C], [("ConfigList", C), ("as_text_list", U)], "the values the list returns", [TREE])
p("P39", "Junos interfaces and units are recognised by their place in the tree",
  "In a Junos configuration the statements directly inside a top-level interfaces block are interfaces and the units directly inside them are subinterfaces, nothing else is; the interface name joins the interface and the unit, other lines have none; an interface is a switchport exactly when family ethernet-switching is configured in it or in one of its units.",
  ["configurations"], "every block tree, with interfaces blocks also in other places",
  "One fixture.",
  [MJ], [("JunosCfgLine", MJ)], "is_intf, is_subintf, intf_name, name, is_switchport", [TREE])
p("P40", "AAA, terminal line, host name and global facts are what the command says",
  "For every AAA authentication, authorization, accounting and server-group command of IOS and NX-OS, the reported list name, level, record type, server group, further methods, protocol, VRF, source interface and private servers equal those written (in method lists that begin with a server group); terminal lines report their name, range and exec-timeout, host name lines their name, and global interface commands the default they set.",
  ["inputs"], "every value of every field of these commands",
  "A handful of fixed lines.",
  [MC, MN], [("AAA and access line classes", MC), ("AAA and access line classes", MN)], "attributes of the line objects")
p("P41", "Configurations do not influence each other",
  "The results of parsing, querying and editing a configuration depend only on that configuration and the operations on it: interleaving with operations on other configurations, running them in parallel threads (each configuration in one thread), or running in another process with another hash seed gives the same results.",
  ["schedules", "histories"], "every set of configurations, operation histories and interleavings",
  "Tests handle one configuration at a time.",
  [C, A, U], [("CiscoConfParse, ConfigList, line classes", C)], "results of every step", [TREE])
p("P42", "IOS-XR interface names parse, print, compare and convert losslessly",
  "Any well-formed IOS-XR interface name (one, two or four slash-separated components, the second and third possibly with letters as in 0/RSP0/CPU0/0, then optionally sub-interface, channel and class) parses into its components and prints back to the same name up to spacing; converting it to a dictionary and back gives an equal interface, and equal interfaces hash equally. Interfaces of one prefix sort component by component, numbers as numbers, an absent component first. A name that does not have this form as a whole is rejected, not cut.",
  ["inputs"], "every combination of prefix, one, two or four components, sub-interface, channel and class",
  "No test uses the IOS-XR interface class.",
  [U], [("CiscoIOSXRInterface", U)], "rendered name, components, ordering")
p("P43", "DNS lookups report exactly what the name server answers",
  "A DNS query for A, AAAA, CNAME, MX, NS, PTR (of an IPv4 or IPv6 address) or TXT records asks the given server for exactly that name and type, and reports one response per record of the answer with its value (and preference for MX); when the server answers with an error or with nothing, there is one response that carries the error and no value. The older lookup functions report the same values, invalid addresses and malformed queries raise an error and nothing is asked.",
  ["inputs", "fault_sequences"], "every name, record type, set of records and failure of the name server",
  "The tests skip without network.",
  [U], [("dns_query, dns_lookup, reverse_dns_lookup", U)], "the questions asked and the responses reported")
p("P44", "The command-line tool prints exactly what the method selects",
  "Running the command-line tool with a configuration file, a method and its arguments prints exactly the lines which that method selects from the file, one per line and in file order; required-configuration methods print the missing commands and removals. When there is nothing to print it ends with an error, and decrypting a type-7 password prints the clear text.",
  ["inputs"], "every configuration file, method and arguments which do not begin with a dash",
  "No test runs the command-line tool.",
  [C], [("parse_global_options", C)], "the printed lines and whether the tool ends with an error")
p("P45", "Commands, wrappers and helper functions do exactly what they state",
  "Running an external command through the library returns its exit status, standard output and standard error, run in the requested directory, with the requested environment and in the requested shell mode; an environment which is not a mapping of names to text or numbers is refused. "
  "Removing repeated leading words removes pairs of exactly that word (any characters in it) and keeps the indentation and the rest of the command. The call-logging and Junos-warning decorators leave the arguments, results and exceptions of the function unchanged, and the type check refuses exactly the values of other types.",
  ["inputs"], "every command line, argument, environment and exit status; every word and command; every function call",
  "No test gives an environment to a command or uses the decorators; the repeated-word helper is tested on two strings.",
  [U], [("run_this_posix_command", U), ("fix_repeated_words", U), ("log_function_call / junos_unsupported / enforce_valid_types", U)], "returned status and output; returned text; calls and results of wrapped functions")
p("P46", "Log control delivers exactly the library messages asked for",
  "A log handler added through the library gets every message at or above its level, in order and coloured only when asked, until it is removed; reconfiguring replaces the handlers it is given, also when they are already gone. "
  "Disabling the log silences every message of the library and only of the library, and enabling, adding or reconfiguring brings them back. Parsing with read_only gives the same configuration, whatever was done to the handlers before; invalid actions are refused.",
  ["histories"], "every history of adding, removing, disabling, enabling and reconfiguring handlers at any level, read-only parses and messages from modules of the library and of the user",
  "The tests do not look at log output.",
  [U, C], [("ccp_logger_control / configure_loguru", U), ("read_only parsing", C)], "the text each handler received")
p("P47", "Debug output, log handlers and read-only mode change no result",
  "Parsing, searching, editing, committing and address, interface and range objects give the same configuration, answers and refusals at every debug level, with the library's log on or off, and in read-only mode. Only the log differs.",
  ["histories", "configurations"], "every configuration, syntax, sequence of queries and edits, debug level, log handler and read-only setting; every interface name, range and address text",
  "No test passes a debug level to most of the functions which take one; the debug branches of the parser run in no test which checks a result.",
  [C, U], [("CiscoConfParse / ConfigList debug, read_only", C), ("find_object_branches debug", C), ("CiscoIOSInterface, CiscoIOSXRInterface, CiscoRange, IPv4Obj, IPv6Obj, ip_factory debug", U)], "tree, line types, answers and exceptions compared with the same session without debug output")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
