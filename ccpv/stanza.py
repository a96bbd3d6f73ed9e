"""Interface stanzas rendered from generated facts: every command adds its line(s) and the facts it sets."""
WORDS = ["uplink", "core", "to R2", "Gi0/1", "10.1.1.1", "x", "CUST-A #1", "*** x ***"]
# descriptions which quote commands must not be taken for these commands
QUOTED = ["ip address 10.9.9.9 255.255.255.0", "shutdown", "ip helper-address 10.8.8.8", "mtu 1400", "see ip helper-address vrf A 10.8.8.8",
          "switchport mode trunk", "standby 1 ip 10.7.7.7", "bandwidth 10", "no cdp enable", "x channel-group 7 mode on", "encapsulation ppp",
          "ip access-group 101 in", "description foo", "old switchport trunk allowed vlan 5", "vrf forwarding RED", "vrf member RED", "nameif inside"]

# commands of interfaces; used as text which a fact must not be read from (quoted, negated or commented out)
VOCAB = ["bandwidth 77", "delay 77", "hold-queue 77 in", "hold-queue 77 out", "clock rate 64000", "mtu 1777", "mpls mtu 1777", "ip mtu 1777", "speed 100", "duplex full",
         "carrier-delay 7", "carrier-delay msec 77", "encapsulation dot1q 77", "mpls ip", "mpls ip forwarding", "shutdown", "vrf forwarding OTHER", "ip vrf forwarding OTHER", "vrf member OTHER",
         "vrf OTHER", "ip address 10.99.1.1 255.255.0.0", "ip address 10.99.1.1/16", "ipv4 address 10.99.1.1 255.255.0.0", "ip address 10.99.1.1 255.255.0.0 secondary", "ip address dhcp",
         "ip redirects", "ip pim dense-mode", "ip pim sparse-mode", "ip pim sparse-dense-mode", "arp timeout 77", "ip helper-address 10.99.1.9", "ip dhcp relay address 10.99.1.9",
         "ipv6 address 2001:db8:99::1/64", "switchport mode access", "switchport mode trunk", "switchport mode fex-fabric", "switchport trunk encapsulation dot1q", "switchport access vlan 77",
         "switchport trunk native vlan 77", "switchport trunk allowed vlan 77", "switchport trunk allowed vlan add 77", "switchport trunk allowed vlan remove 77", "switchport nonegotiate",
         "switchport port-security", "storm-control broadcast level 77.00", "xconnect 10.99.1.1 77 encapsulation mpls", "ip access-group OTHER in", "ip access-group OTHER out",
         "mac access-group OTHER in", "mac access-group OTHER out", "channel-group 77 mode on", "standby 77 ip 10.99.1.8", "standby 77 priority 77", "standby use-bia", "standby 77 preempt",
         "standby 77 timers 7 77", "standby 77 authentication md5 key-chain OTHER", "standby 77 track Serial7/7 77", "standby version 2", "beacon", "vpc 77", "no ip proxy-arp", "no ip unreachables", "no cdp enable", "vpc peer-link", "fex associate 77",
         "spanning-tree link-type shared", "spanning-tree port type network", "hsrp 77", "hsrp use-bia"]


def decoy(d):
    """a line which quotes, negates or comments out a command and sets nothing"""
    x = d.pick(VOCAB)
    if x == "ip redirects":  # negating it is a fact of its own
        x = "no ip redirects"
    if x.startswith("no "):
        return d.pick(["! ", "x-"]) + x
    return d.pick(["no ", "no ", "! ", "x-"]) + x


def description(d):
    k = d.draw(5)
    if k == 0:
        return d.pick(QUOTED)
    if k == 4:
        return d.pick(["", "see ", "no "]) + d.pick(VOCAB)
    if k == 1:
        return d.pick(WORDS) + d.pick([" ", "  "]) + d.pick(WORDS + QUOTED)
    return d.pick(WORDS)


def v4(d):
    return ".".join(str(x) for x in (d.int(1, 223), d.pick([0, 1, 255, d.int(0, 255)]), d.int(0, 255), d.int(0, 255)))


def mask(n):
    m = (0xFFFFFFFF << (32 - n)) & 0xFFFFFFFF
    return ".".join(str((m >> s) & 255) for s in (24, 16, 8, 0))


def v6(d):
    k = d.draw(5)
    if k == 0:
        return "2001:DB8::%x" % d.int(1, 65535)
    if k == 1:
        return "2001:db8:%x:%x::%x" % (d.int(1, 65535), d.int(0, 65535), d.int(1, 9))
    if k == 2:
        return "FD00:%x:1:2:3:4:5:%x" % (d.int(1, 65535), d.int(0, 65535))
    if k == 3:
        return "2001:db8::10.1.2.%d" % d.int(0, 255)
    return "2001:db8:0:1::"


class Stanza:
    """Collects command lines (in blocks kept together) and the facts they set."""

    def __init__(self, header, facts):
        self.header = header
        self.facts = dict(facts)
        self.blocks = []

    def add(self, line, **facts):
        self.blocks.append([line] if isinstance(line, str) else list(line))
        self.facts.update(facts)

    def render(self, d, indent=" "):
        blocks = d.shuffle(self.blocks)
        return [self.header] + [indent + x for b in blocks for x in b]
