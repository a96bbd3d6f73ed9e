"""P32: ASA names and object groups."""
import ipaddress
from .. import env  # noqa: F401
from ..core import Sub, raises, require, same
from ..ccp import parse
from ..stanza import v4, mask
from .p26 import NAMES as PORTS, ports as port_set

RULE = "a group has a nested group, or at least three members of two kinds"
ASSUME = ["groups refer to groups of their own kind; a reference cycle over several groups is rejected with any error",
          "members which the library does not know (object references, IPv6 networks, protocols without ports) are rejected"]
NM = ["host1", "loghost01", "dmz-srv", "SRV.a", "n", "any", "object-group", "inside_net"]
GR = ["G1", "INSIDE", "INSIDE_addrs", "g1", "network", "service", "host1", "G1.b", "tcp"]
DESC = ["description servers", "description network-object host 10.9.9.9", "description group-object G1", "description port-object eq 80", "description x"]
NOISE = ["!", "hostname fw", "no names", "names", "access-list A extended permit ip any any", "no name 10.1.1.1 host1", "name-server 10.1.1.1 host1", "mtu inside 1500",
         "object network G1", " host 10.1.1.1", "object service G1", "object-group icmp-type G1", " icmp-object echo", "object-group protocol G1", " protocol-object tcp"]


def noise(d):
    k = d.pick([0, 0, 1, 2])
    out = []
    for _ in range(k):
        x = d.pick(NOISE)
        if x[0] == " ":
            continue
        out.append([x] + {"object network G1": [" host 10.1.1.1"], "object-group icmp-type G1": [" icmp-object echo"], "object-group protocol G1": [" protocol-object tcp"]}.get(x, []))
    return out


def port(d, proto):
    # proto: list of protocols which must know the port name
    names = sorted(set.intersection(*[set(PORTS[p]) for p in proto]))
    names = [n for n in names if len({PORTS[p][n] for p in proto}) == 1]
    p = d.pick(names) if d.chance(0.4) else d.pick([1, 2, 80, 65534, 65535, d.int(1, 65535)])
    return p, (PORTS[proto[0]][p] if isinstance(p, str) else p)


def spec(d, proto, ops):
    op = d.pick(ops)
    a, va = port(d, proto)
    if op == "range":
        b, vb = port(d, proto)
        if va > vb:
            a, va, b, vb = b, vb, a, va
        if vb - va > 300:
            b = vb = va + d.draw(300)
            if vb > 65535:
                b = vb = 65535
        return [op, a, b]
    if op == "gt":
        a = d.int(64000, 65534)
    if op == "lt":
        a = d.int(2, 1024)
    return [op, a]


def netmember(d, names):
    k = d.draw(4)
    if k == 0:
        a = v4(d)
        return "network-object host " + a, a
    if k == 1 and names:
        n, a = d.pick(names)
        if d.chance(0.3):
            return "network-object %s 255.255.255.255" % n, a
        return "network-object host " + n, a
    n = d.pick([24, 16, 8, 0, 30, 32, d.int(1, 31)])
    net = str(ipaddress.IPv4Network("%s/%d" % (v4(d), n), strict=False).network_address)
    w = net
    if names and d.chance(0.3):
        nm, a = d.pick(names)
        net = str(ipaddress.IPv4Network("%s/%d" % (a, n), strict=False).network_address)
        if net == a:
            w = nm
        else:
            w = net
    return "network-object %s %s" % (w, mask(n)), net if n == 32 else "%s/%s" % (net, mask(n))


def svcmember(d, kind):
    protos = {"": None, "tcp": ["tcp"], "udp": ["udp"], "tcp-udp": ["tcp", "udp"]}[kind]
    if protos is None:
        word = d.pick(["tcp", "udp", "tcp-udp"])
        protos = {"tcp": ["tcp"], "udp": ["udp"], "tcp-udp": ["tcp", "udp"]}[word]
        sp = spec(d, protos, ["eq", "", "range", "gt", "lt"])
        line = " ".join(["service-object", word, d.pick(["destination", "source"])] + [str(x) for x in sp if x != ""])
    else:
        sp = spec(d, protos, ["eq", "range"])
        line = " ".join(["port-object"] + [str(x) for x in sp])
    return line, [[p, sp] for p in protos]


def g(d):
    kind = d.pick(["network", "network", "service"])
    names = []
    for n in d.subset(NM):
        names.append([n, v4(d)])
    names = names[:5]
    groups = []
    ids = d.shuffle(list(GR))[:d.pick([1, 2, 3, 4, 5])]
    for i, gid in enumerate(ids):
        typ = d.pick(["", "tcp", "udp", "tcp-udp"]) if kind == "service" else ""
        head = "object-group %s %s%s" % (kind, gid, " " + typ if typ else "")
        body, members = [], []
        if d.chance(0.3):
            body.append(d.pick(DESC))
        for _ in range(d.pick([0, 1, 2, 3, 5])):
            if i and d.chance(0.4):
                t = d.pick(ids[:i])
                body.append("group-object " + t)
                members.append(["G", t])
            elif kind == "network":
                line, m = netmember(d, names)
                body.append(line)
                members.append(["M", [m]])
            else:
                line, m = svcmember(d, typ)
                body.append(line)
                members.append(["M", m])
        groups.append([gid, typ, [head] + [" " + x for x in body], members])
    fault = d.weighted([(60, None), (4, "unknown"), (4, "self"), (1, "cycle"), (4, "strange")])
    if fault:
        k = d.draw(len(groups))
        line = {"unknown": "group-object NOSUCH" + d.pick(["", ids[0]]), "self": "group-object " + groups[k][0], "cycle": "group-object " + groups[-1][0],
                "strange": d.pick(["network-object object X", "icmp-object echo", "network-object 2001:db8::/64", "port-object", "service-object object Y", "protocol-object tcp",
                                   "service-object icmp echo", "port-object gt 5", "network-object host"])}[fault]
        if fault == "cycle" and k == len(groups) - 1:
            fault = "self"
        if fault == "cycle":
            groups[-1][2].append(" group-object " + groups[k][0])
            groups[-1][3].append(["X", fault])
        groups[k][2].insert(d.int(1, len(groups[k][2])), " " + line)
        groups[k][3].append(["X", fault])
    nb = [["name %s %s%s" % (a, n, d.pick(["", "", " description " + d.pick(["x", "name 10.9.9.9 host1"])]))] for n, a in names]
    blocks = d.shuffle(nb + [x[2] for x in groups] + noise(d))
    if names and d.chance(0.15):  # an earlier definition, superseded
        n = d.pick(names)[0]
        k = next(i for i, b in enumerate(blocks) if b[0].split()[0] == "name" and b[0].split()[2:3] == [n])
        blocks.insert(d.draw(k + 1), ["name %s %s" % (v4(d), n)])
    return {"kind": kind, "names": names, "groups": groups, "blocks": blocks, "factory": True}


def expand(groups, gid):
    """The members of a group in order; None when it cannot be resolved."""
    out = []
    for k, m in groups[gid][3]:
        if k == "X":
            return None
        if k == "M":
            out += m
        else:
            sub = expand(groups, m)
            if sub is None:
                return None
            out += sub
    return out


def c(case):
    lines = [x for b in case["blocks"] for x in b]
    p = parse(lines, syntax="asa", factory=True)
    what = "%r: " % "\n".join(lines)
    objs = p.objs
    same(dict(objs.names), dict((n, a) for n, a in case["names"]), what + "names")
    same(dict(parse(lines, syntax="asa").objs.names), dict((n, a) for n, a in case["names"]), what + "names without factory")
    for o in objs:
        if o.text.startswith("name "):
            w = o.text.split()
            same([o.name, o.addr, o.result_dict], [w[2], w[1], {"name": w[2], "addr": w[1]}], what + "name object of %r" % o.text)
    groups = dict((x[0], x) for x in case["groups"])
    table = objs.object_group_network if case["kind"] == "network" else objs.object_group_service
    same(sorted(table), sorted(groups), what + "object groups by name")
    same(sorted(objs.object_group_service if case["kind"] == "network" else objs.object_group_network), [], what + "object groups of the other kind")
    deep = False
    for gid, (_, typ, body, members) in groups.items():
        o = table[gid]
        same([o.text, o.name, [x.text for x in o.children]], [body[0], gid, body[1:]], what + "group %s" % gid)
        want = expand(groups, gid)
        t = what + "group %s " % gid
        if case["kind"] == "network":
            if want is None:
                raises(lambda: o.network_strings, t + "has a member which cannot be resolved: network_strings")
                raises(lambda: o.networks, t + "has a member which cannot be resolved: networks")
            else:
                for _ in range(2):
                    same(list(o.network_strings), want, t + "network_strings")
                    same([str(x.network) for x in o.networks], [str(ipaddress.IPv4Network(x)) for x in want], t + "networks")
                same(o.network_count, len(want), t + "network_count")
                for other in groups:
                    w2 = expand(groups, other)
                    if w2 == want:
                        same(table[other].hash_children, o.hash_children, t + "hash_children of a group with the same members")
        else:
            same([o.protocol_type, o.L4Objects_are_directional], [typ, typ == ""], t + "protocol_type")
            if want is None:
                raises(lambda: o.ports, t + "has a member which cannot be resolved: ports")
            else:
                for _ in range(2):
                    same([[x.protocol, list(x.port_list)] for x in o.ports], [[pr, list(port_set(pr, sp))] for pr, sp in want], t + "ports")
        require(isinstance(repr(o), str), "%sprinting", t)
        deep = deep or any(k == "G" for k, _ in members) or len(members) > 2
    return deep


def g_edit(d):
    case = g(d)
    if case["kind"] != "network":
        case = g(d)
    case["pick"] = d.draw(100)
    case["addr"] = v4(d)
    return case


def c_edit(case):
    """Groups and names are resolved in the configuration as it is now, not as it was parsed."""
    if case["kind"] != "network":
        return False
    groups = dict((x[0], x) for x in case["groups"])
    lines = [x for b in case["blocks"] for x in b]
    p = parse(lines, syntax="asa", factory=True)
    for o in p.objs.object_group_network.values():
        if expand(groups, o.name) is not None:
            o.networks
    i = case["pick"] % len(case["groups"])
    p.objs.object_group_network[case["groups"][i][0]].append_to_family(" network-object host " + case["addr"])
    case["groups"][i][3].append(["M", [case["addr"]]])
    p.commit()
    what = "%r, after adding host %s to group %s: " % ("\n".join(lines), case["addr"], case["groups"][i][0])
    ok = False
    for gid in groups:
        want = expand(groups, gid)
        if want is not None:
            same(list(p.objs.object_group_network[gid].network_strings), want, what + "network_strings of " + gid)
            ok = True
    # another address for a name, another name or mask in a member: as in a fresh parse of the same text
    for o in list(p.objs):
        w = o.text.split()
        if w[:1] == ["name"] and len(w) > 2 and case["pick"] & 1:
            o.text = "name %s %s" % (case["addr"], w[2])
        elif w[:1] == ["network-object"] and len(w) == 3 and case["pick"] & 2 and w[2][:3] == "255":
            o.text = " network-object %s 255.255.255.255" % w[1]
    p.commit()
    what = "%r, edited: " % "\n".join(p.ioscfg)
    q = parse(p.ioscfg, syntax="asa", factory=True)
    same(dict(p.objs.names), dict(q.objs.names), what + "names")
    for gid in groups:
        got, want = [], []
        for r, x in ((got, p), (want, q)):
            try:
                o = x.objs.object_group_network[gid]
                r += [list(o.network_strings), [str(y) for y in o.networks], o.network_count]
            except Exception as e:
                r.append(type(e).__name__)
        same(got, want, what + "group %s and the same group of a fresh parse" % gid)
    return ok


SUBS = [Sub("groups", g, c, RULE, 3), Sub("edited", g_edit, c_edit, "a group can be resolved", 1)]
