"""P31: HSRP groups."""
from .. import env  # noqa: F401
from ..core import Sub, require, same
from ..ccp import parse
from ..stanza import VOCAB, Stanza, decoy, v4, mask
from ciscoconfparse.models_cisco import TrackingInterface

RULE = "the interface has at least two groups, or a group with three or more settings"
ASSUME = ["numbered groups; a group is configured by its address command; each setting of a group occurs at most once",
          "the facts of the interface itself (hsrp_group and the like) are checked on interfaces with one group"]
QUOTES = [x for x in VOCAB if x.startswith("standby")] + ["standby 7 track 3 9", "standby 7 track 3 decrement 9", "standby 7 preempt delay minimum 9", "standby 7 authentication md5 key-string x",
                                                          "standby 7 ip 10.9.9.9 secondary", "standby ipv6 autoconfig", "standby 7 ip 10.9.9.9 255.255.255.0"]
NOISE = ["description standby 7 ip 10.9.9.9", "description use-bia", "no standby 8 ip 10.8.8.8", "no standby 1 preempt", "no standby 1 priority 200",
         "! standby 1 ip 10.1.2.3", "ip address 10.0.0.2 255.0.0.0", "no standby use-bia", "standby redirect", "vrrp 3 ip 10.0.0.9", "no standby version 2",
         "no standby 2 track 9", "no standby 1 timers 2 7", "description standby version 2", "standby delay minimum 30 reload 60", "glbp 1 priority 90", "mtu 1500"]
INTF = ["Serial1/0", "Dialer1", "FastEthernet 0/1", "GigabitEthernet0/0/1.100", "Port-channel10", "5", "10", "500"]


def group(d, n):
    g = dict(group=n, ip="", ipv6="", priority=100, preempt=False, preempt_delay=0, hello=3, hold=10, keychain="", tracks=[])
    cmds = []
    pre = "standby %d " % n
    kind = d.pick(["4", "4", "4", "4", "6", "46", "learn"])
    first = []
    if kind == "learn":
        cmds.append(pre + "ip")
    if "4" in kind:
        g["ip"] = v4(d)
        block = [pre + "ip " + g["ip"]]
        for _ in range(d.pick([0, 0, 0, 1, 2])):
            block.insert(d.draw(len(block) + 1), pre + "ip " + v4(d) + " secondary")
        first = block
    if "6" in kind:
        g["ipv6"] = d.pick(["autoconfig", "FE80::%x" % d.int(1, 255), "2001:db8::%x/64" % d.int(1, 65535)])
        cmds.append(pre + "ipv6 " + g["ipv6"])
    cnt = 0
    if d.chance(0.5):
        g["priority"] = d.pick([0, 255, 100, d.int(1, 254)])
        cmds.append(pre + "priority %d" % g["priority"])
        cnt += 1
    if d.chance(0.5):
        g["preempt"] = True
        k = d.draw(4)
        x, y = d.int(1, 3600), d.int(1, 3600)
        if k in (1, 2):
            g["preempt_delay"] = x
        cmds.append(pre + "preempt" + ["", " delay minimum %d" % x, " delay minimum %d reload %d" % (x, y), " delay reload %d" % y][k])
        cnt += 1
    if d.chance(0.5):
        k = d.draw(4)
        h, w = d.int(1, 254), d.int(2, 255)
        if k & 1:
            h = d.pick([15, 250, 999])
        if k & 2:
            w = d.pick([50, 800, 3000])
        cmds.append(pre + "timers %s%d %s%d" % ("msec " if k & 1 else "", h, "msec " if k & 2 else "", w))
        g["hello"] = h / 1000.0 if k & 1 else h
        g["hold"] = w / 1000.0 if k & 2 else w
        cnt += 1
    if d.chance(0.4):
        if d.chance(0.6):
            g["keychain"] = d.pick(["KC1", "hsrp-keys", "k"])
            cmds.append(pre + "authentication md5 key-chain " + g["keychain"])
        else:
            cmds.append(pre + d.pick(["authentication cisco", "authentication md5 key-string 7 0822", "authentication text key-chain"]))
        cnt += 1
    if d.chance(0.3):
        cmds.append(pre + d.pick(["name HSRP-USER", "name use-bia", "name preempt", "mac-address 0000.0c07.ac01", "follow X"]))
    cmds = d.shuffle(cmds)
    tr = []
    for _ in range(d.pick([0, 0, 1, 2, 3])):
        i = d.pick(INTF)
        dec = d.pick([None, 10, d.int(1, 255)])
        if i.isdigit() and d.chance(0.2):
            tr.append(pre + "track " + i + " shutdown")
            g["tracks"].append([i, None])  # no decrement
            continue
        if i.isdigit():
            tr.append(pre + "track " + i + ("" if dec is None else " decrement %d" % dec))
        else:
            tr.append(pre + "track " + i + ("" if dec is None else " %d" % dec))
        g["tracks"].append([i, 10 if dec is None else dec])
        cnt += 1
    g["n"] = cnt
    return g, [x for x in [first, tr] + [[c] for c in cmds] if x]


def g(d):
    ids = d.list(lambda: d.pick([0, 1, 2, 10, 11, 110, 255, 4095, d.int(0, 4095)]), 0, 4, 2)
    ids = list(dict.fromkeys(ids))
    s = Stanza("interface " + d.pick(["GigabitEthernet0/1", "Vlan10", "FastEthernet 0/0", "Port-channel1.20"]), {})
    has4 = d.chance(0.8)
    if has4:
        s.blocks.append(["ip address 10.0.0.2 255.255.255.0"])
    groups = []
    for n in ids:
        gr, blocks = group(d, n)
        groups.append(gr)
        s.blocks += blocks
    ver = d.pick([None, None, 1, 2])
    if ver:
        s.blocks.append(["standby version %d" % ver])
    bia = d.chance(0.3)
    if bia:
        s.blocks.append(["standby use-bia" + d.pick(["", " scope interface"])])
    for _ in range(d.pick([0, 0, 1, 2])):
        x = decoy(d) if d.chance(0.3) else d.pick(NOISE)
        if d.chance(0.2):
            x = d.pick(["description ", "description see ", "! "]) + d.pick(QUOTES)
        if not (x.startswith("ip address")):
            s.blocks.append([x])
    other = d.pick([[], ["interface Vlan99", " ip address 10.99.0.1 255.255.0.0", " standby 1 ip 10.99.0.9", " standby 1 priority 7", " standby 1 preempt",
                         " standby version 2", " standby use-bia", " standby 1 track Serial9 9", " standby 1 timers 7 77", " standby 33 ip 10.99.0.10", " standby 0 ip 10.99.0.11"]])
    return {"lines": s.render(d), "groups": sorted(groups, key=lambda x: x["group"]), "version": ver or 1, "bia": bia, "has4": has4, "other": other, "first": d.chance(0.5)}


def c(case):
    own, other = case["lines"], case["other"]
    p = parse((other + own) if case["first"] else (own + other), factory=True)
    o = list(p.objs)[len(other) if case["first"] else 0]
    what = "%r: " % "\n".join(own)
    name = own[0].split(None, 1)[1]
    got = o.hsrp_interfaces
    same([x.group for x in got], [x["group"] for x in case["groups"]], what + "HSRP groups")
    for h, w in zip(got, case["groups"]):
        t = what + "group %d " % w["group"]
        for k, v in (("hsrp_group", w["group"]), ("ip", w["ip"]), ("ipv4", w["ip"]), ("has_ipv6", bool(w["ipv6"])), ("priority", w["priority"]),
                     ("preempt", w["preempt"]), ("preempt_delay", w["preempt_delay"]), ("hello_timer", w["hello"]), ("hold_timer", w["hold"]),
                     ("version", case["version"]), ("use_bia", case["bia"]), ("authentication_md5_keychain", w["keychain"]),
                     ("has_authentication_md5", bool(w["keychain"])), ("interface_name", name), ("has_hsrp_track", bool(w["tracks"]))):
            same(getattr(h, k), v, t + k)
        same(h.ipv6.lower(), w["ipv6"].lower(), t + "ipv6")
        tr = h.interface_tracking
        same([x.interface for x in tr], [x[0] for x in w["tracks"]], t + "tracked interfaces")
        for x, (i, dec) in zip(tr, w["tracks"]):
            dec = x.decrement if dec is None else dec
            same(x.decrement, dec, t + "decrement of tracked interface " + i)
            same([x.name, x.interface_name, x.tracking_interface_group], [i, i, w["group"]], t + "tracked interface")
            twin = TrackingInterface(group=w["group"], interface=i, decrement=dec)
            require(x == twin and hash(x) == hash(twin), "%stracked interface %r differs from an equal one", t, x)
            require(x != TrackingInterface(group=w["group"], interface=i, decrement=dec + 1), "%stracked interface %r equals one with another decrement", t, x)
            require(x != TrackingInterface(group=w["group"] + 1, interface=i, decrement=dec), "%stracked interface %r equals one of another group", t, x)
            str(x), repr(x)
        str(h), repr(h)
        require(h == h and all((h == y) == (h.group == y.group) for y in got), "%sequality of groups", t)
    if other:
        far = [x for x in p.find_objects(r"^interface Vlan99$")[0].hsrp_interfaces]
        for h in got:
            for y in far:
                require((h == y) is False and (y == h) is False, "%sgroup %s equals group %s of another interface", what, h.group, y.group)
            require(h in set(got) and h not in set(far), "%sgroup %s in a set of groups", what, h.group)
    if len(case["groups"]) == 1 and case["groups"][0]["ip"]:
        w = case["groups"][0]
        has4 = case["has4"]
        same(o.hsrp_group, w["group"], what + "hsrp_group")
        same(o.hsrp_priority, w["priority"] if has4 else 0, what + "hsrp_priority")
        same(o.has_ip_hsrp, has4, what + "has_ip_hsrp")
        if not any("secondary" in x for x in own):
            same(o.hsrp_ip_addr, w["ip"] if has4 else "", what + "hsrp_ip_addr")
        same(o.has_hsrp_preempt, w["preempt"], what + "has_hsrp_preempt")
        same(o.has_hsrp_usebia, case["bia"], what + "has_hsrp_usebia")
        same(o.hsrp_authentication_md5_keychain, w["keychain"], what + "hsrp_authentication_md5_keychain")
        same(o.has_hsrp_authentication_md5, bool(w["keychain"]), what + "has_hsrp_authentication_md5")
        same([o.hsrp_track, o.has_hsrp_track], [w["tracks"][0][0] if w["tracks"] else "", bool(w["tracks"])], what + "hsrp_track")
        if isinstance(w["hello"], int) and isinstance(w["hold"], int) and any(x.strip().startswith("standby ") and " timers " in x for x in own):
            same([o.hsrp_hello_timer, o.hsrp_hold_timer], [float(w["hello"]), float(w["hold"])], what + "HSRP timers of the interface")
    return len(case["groups"]) > 1 or any(x["n"] > 2 for x in case["groups"])


SUBS = [Sub("groups", g, c)]
