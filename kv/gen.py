"""Generators for kickstart command lines, driven by the frozen grammar."""
from . import focus
from . import model as M

WORDS = ["alpha", "beta", "gamma", "delta", "eps1", "x", "zeta-9", "a_b"]
ODD = ["Mixed.Case", "with+plus", "50%", "tilde~1", "a:b", "k=v", "x@y", "eu/ro", "p^q", "naïve", "Łódź"]
DEVS = ["sda", "sdb", "sdc", "nvme0n1", "mapper/luks-1", "vda2"]
PATHS = ["/", "/home", "/boot", "/var", "/usr/local", "/opt/x-1"]
URLS = ["http://ex.org/a", "https://ex.org/os/$basearch", "ftp://h/p", "nfs:host:/exp", "file:///mnt/x",
        "http://u:p@ex.org:80/r?x=1&y=2"]
HOSTS = ["host1", "h.ex.org", "10.0.0.1", "fe80::1"]

FREETEXT = {  # options whose values survive a round trip even when they need quoting
    ("AutoPart", "--cipher"), ("AutoPart", "--escrowcert"), ("AutoPart", "--passphrase"), ("BTRFS", "--label"),
    ("BTRFS", "--mkfsoptions"), ("Bootloader", "--append"), ("Bootloader", "--hvargs"),
    ("Bootloader", "--md5pass"), ("Bootloader", "--password"), ("Device", "--opts"), ("DmRaid", "--dev"),
    ("Iscsi", "--password"), ("Iscsi", "--reverse-password"), ("Liveimg", "--checksum"), ("Liveimg", "--proxy"),
    ("Liveimg", "--url"), ("LogVol", "--cipher"), ("LogVol", "--escrowcert"), ("LogVol", "--fsoptions"),
    ("LogVol", "--fsprofile"), ("LogVol", "--fstype"), ("LogVol", "--label"), ("LogVol", "--mkfsoptions"),
    ("LogVol", "--passphrase"), ("Monitor", "--monitor"), ("Mount", "--mkfsoptions"), ("Mount", "--mountoptions"),
    ("MultiPath", "--rule"), ("NFS", "--opts"), ("Network", "--essid"), ("Network", "--ethtool"),
    ("Network", "--teamconfig"), ("Network", "--wepkey"), ("Network", "--wpakey"), ("OSTreeSetup", "--osname"),
    ("OSTreeSetup", "--ref"), ("OSTreeSetup", "--remote"), ("Partition", "--cipher"),
    ("Partition", "--escrowcert"), ("Partition", "--fsoptions"), ("Partition", "--fsprofile"),
    ("Partition", "--fstype"), ("Partition", "--label"), ("Partition", "--mkfsoptions"),
    ("Partition", "--passphrase"), ("RHSM", "--activation-key"), ("RHSM", "--organization"), ("RHSM", "--proxy"),
    ("RHSM", "--rhsm-baseurl"), ("RHSM", "--server-hostname"), ("Raid", "--cipher"), ("Raid", "--escrowcert"),
    ("Raid", "--fsoptions"), ("Raid", "--fsprofile"), ("Raid", "--fstype"), ("Raid", "--label"),
    ("Raid", "--mkfsoptions"), ("Raid", "--passphrase"), ("Repo", "--name"), ("Repo", "--proxy"),
    ("Repo", "--sslcacert"), ("Repo", "--sslclientcert"), ("Repo", "--sslclientkey"), ("Syspurpose", "--addon"),
    ("Syspurpose", "--role"), ("Syspurpose", "--sla"), ("Syspurpose", "--usage"), ("Url", "--metalink"),
    ("Url", "--mirrorlist"), ("Url", "--proxy"), ("Url", "--sslcacert"), ("Url", "--sslclientcert"),
    ("Url", "--sslclientkey"), ("Url", "--url"), ("User", "--gecos"), ("User", "--password"),
    ("Vnc", "--password"),
}

_RT = [False]        # generating for a round trip: stay inside what the writer can express

URLISH = {"url", "baseurl", "mirrorlist", "metalink", "proxy", "source", "rhsm_baseurl"}
SSL = {"sslcacert", "sslclientcert", "sslclientkey", "checksum"}


def word(src, odd=10):
    if focus.words() and src.chance(20):
        return src.choice(focus.words())
    if src.chance(odd):
        return src.choice(ODD)
    return src.choice(WORDS)


def words(src, lo=1, hi=3):
    return src.list(lo, hi, lambda: word(src, 5))


def value(src, sp, o, valid=90):
    """A value token for option or positional o."""
    v = raw_value(src, sp, o, valid)
    if not _RT[0] and o["type"] == "str" and o["choices"] is None and src.chance(4):
        if src.chance(12):
            return ""
        return v + src.choice(["\t", "\t#", "\u00a0", " # ", " #", "#", " ", "  ", "'", " 'a b' ", "\\", "$(x)", ";", " --x=", " | ", "%", "\""]) + word(src, 0)
    if not _RT[0] or o["type"] != "str" or o["choices"] is not None:
        return v
    if o["flags"] and any((sp.suffix, f) in FREETEXT for f in o["flags"]):
        if src.chance(15) and o["dest"] not in ("teamconfig", "fstype") and o["dest"] not in URLISH:
            v = v + src.choice([" ", " #", "#", "  ", " --x=", ";", " # "]) + word(src, 0)
        return v
    if sp.suffix in ("RootPw", "User") and o["dest"] == "password" and src.chance(15):
        return v + src.choice([" ", "#", " #"]) + word(src, 0)
    return "_".join(v.split())


def _not_kept(suffix, dest, v):
    """A size of nothing is the same as no size when it is written (see DESIGN.md); a negative one means nothing."""
    return v == 0 and (dest == "bytesPerInode" or (suffix, dest) in (
        ("LogVol", "size"), ("Partition", "size"), ("Raid", "chunk_size"), ("LogVol", "chunk_size"), ("LogVol", "metadata_size"),
        ("VolGroup", "pesize"))) or (v < 0 and (suffix, dest) == ("Partition", "maxSizeMB"))


def raw_value(src, sp, o, valid=90):
    d, t, s = o["dest"], o["type"], sp.suffix
    if o["choices"] is not None:
        if src.chance(100 - valid, 200):
            return "nosuch"
        return src.choice(M.unjs(o["choices"]))
    if t == "int":
        if src.chance(100 - valid, 200):
            return src.choice(["abc", "1.5", "12x", ""])
        if d in ("percent", "reserved_percent"):
            return str(src.choice([50, 1, 99, 7, 100, 101, 0, -1]) if src.chance(30) else src.int(1, 99))
        if focus.ints() and src.chance(25):
            v = src.choice(focus.ints())
            if not _not_kept(s, d, v):
                return str(v)
        if d in ("gid", "uid", "cost", "reserved_space") and src.chance(12):
            return "0"
        if src.chance(8):
            v = src.choice([0, 0, -1, 2 ** 31, 10 ** 12])
            if not _RT[0] or not _not_kept(s, d, v):
                return str(v)
        return str(src.choice([1, 2, 5, 10, 100, 512, 1024, 4096, 8192, 65536])) if src.chance(60) \
            else str(src.int(1, 99999))
    if t == "ksboolean":
        if src.chance(100 - valid, 200):
            return src.choice(["maybe", "2", "", "y", "n", "t", "enable"])
        return src.choice(["on", "off", "yes", "no", "true", "false", "1", "0", "ON", "Yes", "True", "OFF", "No",
                           "False"])
    if t == "mountpoint":
        if s == "Mount" and src.chance(10):
            return src.choice(["none", "None", "relative"])
        if s in ("Partition", "Raid", "LogVol", "BTRFS") and src.chance(30):
            return src.choice(["swap", "pv.01", "raid.01", "biosboot", "none", "pv.02"])
        if src.chance(10):
            return src.choice(["/home/", "//usr//local/", "/a/../b", "/./x"])
        return src.choice(PATHS)
    if t == "commaSplit":
        pool = DEVS if d in ("drives", "devices", "driveorder", "ignoredisk", "onlyuse", "blockdevs", "cache_pvs") \
            else None
        if d == "x_layouts":
            pool = ["us", "cz", "cz (qwerty)", "de (nodeadkeys)"] if src.chance(15) else ["us", "cz", "de"]
        vals = src.list(1, 3, lambda: src.choice(pool) if pool else word(src, 5))
        if src.chance(6):
            return src.choice(["a,,b", ",a", "a,"] if _RT[0] else [",", "", "a,,b", ",a", "a,"])
        if src.chance(5):
            return ", ".join(vals)
        return ",".join(vals)
    if t == "cb:firewall_port_cb":
        return ",".join(src.list(1, 3, lambda: src.choice(
            ["22:tcp", "53:udp", "imap:tcp", "1234", "80:tcp"] + ([] if _RT[0] else ["http", "ssh"]))))
    if t == "cb:part_cb":
        return ("/dev/" if src.chance(30) else "") + src.choice(DEVS)
    if t == "cb:device_cb":
        if not sp.has("F19"):
            return src.choice(["0", "1", "md2", "3", "md10", "md0"])
        return src.choice(["0", "1", "md2", "root", "home", "md0", "mdx", "data-1"])
    if t == "cb:level_cb" and s == "Raid":
        if src.chance(100 - valid, 200):
            return src.choice(["raid7", "11", "linear", ""])
        m = M.raid_levels(sp)
        lv = src.choice(sorted(m) + sorted(m.values()))
        return lv.lower() if src.chance(30) else lv
    if t == "cb:level_cb":
        if src.chance(100 - valid, 200):
            return src.choice(["raid7", "5", "raid5"])
        lv = src.choice(sorted(M.BTRFS_LEVELS))
        return lv.upper() if src.chance(30) else lv
    if t == "cb:_type_cb":
        if src.chance(100 - valid, 200):
            return src.choice(["nosuch", "thinp", ""])
        return src.choice(["lvm", "btrfs", "plain", "partition", "LVM", "Plain"] +
                          (["thinp", "ThinP"] if sp.has("F20") else []))
    if t == "cb:_when_cb":
        if src.chance(100 - valid, 200):
            return "during-install"
        return src.choice(["post-install", "pre-install", "Post-Install"])
    if t == "cb:teamslaves_cb":
        def one():
            dev = src.choice(["eth0", "eth1", "ens3"])
            if src.chance(50):
                dev += "'%s'" % src.choice(['{"prio": -10, "sticky": true}', '{"prio": 100}', "{}", '{"a": [1, 2]}'])
            return dev
        return ",".join(src.list(1, 3, one))
    assert t == "str", t
    # ---- strings
    if d in URLISH:
        if s == "OSTreeSetup":
            return src.choice(["http://ex.org/repo", "https://ex.org/repo", "file:///r"] +
                              (["ftp://x/y", "/plain"] if src.chance(100 - valid) else []))
        return src.choice(URLS)
    if d in SSL:
        return src.choice(["file:///etc/ca.pem", "https://h/c.crt", "abcdef0123"])
    if d in ("ip", "gateway", "netmask", "nameserver", "ipaddr", "server_hostname", "ntp_server", "ntp_pool", "host"):
        return src.choice(HOSTS)
    if d == "ipv6":
        return src.choice(["auto", "dhcp", "fe80::2/64"])
    if s == "Network" and d == "interfacename":
        good = ["vlan171", "eth0.171", "ens3", "myvlan", "vlan0", "bond0.4095"]
        bad = ["vlan", "vlan5000", "eth0.x", "vlan.17", "eth0.5000", "vlanx"]
        if src.chance(100 - valid):
            return src.choice(bad + ["%s%s%s" % (src.choice(["vlan", "eth0", "a.b", "my-vlan", "VLAN", "vlan5", "."]),
                                                 src.choice([".", "", ".."]),
                                                 src.choice(["0", "1", "171", "4094", "4095", "4096", "-1", "+7", "x", "", "1.5",
                                                             "0x1f", "007"]))
                                     for _ in range(6)])
        return src.choice(good)
    if d == "bridgeopts":
        good = ["priority=40000", "priority=1,stp=yes", "forward-delay=2,hello-time=2,max-age=10"]
        bad = ["priority", "priority=", "stp=yes,x", "a=b=c", "a=1,b=2=3", "a=1,b", "x,a=1", "a=1,,b=2", "a=1,b=", "=1", "a==b"]
        return src.choice(bad) if src.chance(100 - valid) else src.choice(good)
    if d == "teamconfig":
        return src.choice(['{"runner": {"name": "activebackup"}}', '{}', '{"a":"b"}', '{"r": ["x", "y z"]}'])
    if d in ("bondslaves", "bridgeslaves"):
        return src.choice(["eth0", "eth0,eth1", "em1,em2,em3"])
    if d == "bondopts":
        return src.choice(["mode=active-backup", "mode=802.3ad;miimon=100", "mode=1,primary=eth0"])
    if d in ("device", "onbiosdisk", "disk", "bootDrive", "biospart", "namespace") or d == "nic":
        if s == "Network":
            return src.choice(["eth0", "eth1", "link", "00:11:22:33:44:55"])
        if d == "bootDrive" and src.chance(100 - valid):
            return src.choice(["sda,sdb", ",", "sda,"])
        if d == "biospart":
            return src.choice(["80p1", "80", "81p2"])
        return src.choice(DEVS)
    if d in ("mtu", "vlanid", "port", "bytes_per_inode", "depth", "videoram", "videoRam", "start", "end", "scsiid",
             "scsilun", "dhcpclass"):
        return str(src.int(0 if src.chance(10) else 1, 9000))
    if d in ("devnum", "wwpn", "fcplun"):
        return src.choice(["0.0.4000", "0x5005", "0x500000", "4000"])
    if d == "fstype":
        return src.choice(["ext4", "ext3", "xfs", "swap", "vfat"] + (["btrfs", "tmpfs"] if src.chance(25) else []))
    if d == "cache_mode":
        return src.choice(["writeback", "writethrough"] + (["sideways"] if src.chance(100 - valid) else []))
    if d == "origin":
        return src.choice(["vg/lv", "fedora/root"] + (["vg", "vg/", "/lv", "a/b/c"] if src.chance(100 - valid) else []))
    if d in ("_connect", "connect"):
        return src.choice(["h1", "h1:5500", "h.ex.org:1"])
    if d == "rule":
        return src.choice(["failover", "multibus"])
    if d == "activation_keys":
        return "" if src.chance((100 - valid) // 3) else word(src)
    if d == "root_device":
        return "" if src.chance((100 - valid) // 3) else src.choice(DEVS)
    if d in ("partition",):
        return src.choice(["hda1", "sda2", "LABEL=x"])
    if d in ("homedir", "dir", "shell"):
        return src.choice(["/home/x", "/bin/sh", "/srv/tree"])
    if d in ("timezone",):
        return src.choice(["America/New_York", "Europe/Prague", "UTC", "Etc/GMT+5"])
    if d == "lang":
        return src.choice(["en_US", "cs_CZ.UTF-8", "de_DE"])
    if d == "iqn":
        return "iqn.2012-06.org:" + word(src, 0)
    if d in ("appendLine", "hvArgs", "gecos", "opts", "moduleOpts", "fsopts", "mkfsopts", "mount_opts", "mkfs_opts",
             "label", "ethtool", "essid", "sshkey"):
        if src.chance(20):
            return word(src) + src.choice([" ", "  ", " = ", ","]) + word(src)
        return ",".join(words(src, 1, 2))
    if d == "reformat":
        return src.choice(["ext4", "xfs"])
    if d == "name" and s in ("DmRaid", "MultiPath"):
        return ("/dev/mapper/" if src.chance(30) else "") + src.choice(WORDS)
    return word(src)


# fields whose documented domain is a fixed vocabulary but which the grammar leaves open, etc.
def opt_item(src, sp, o, valid=90):
    flag = src.choice(o["flags"])
    if o["nargs"] == 0:
        return ("o", flag, None)
    if o["nargs"] == "?" and src.chance(50):
        return ("o", flag, None)
    return ("o", flag, value(src, sp, o, valid))


EXTRA_POS = {   # commands that take operands outside the declared positionals
    "BTRFS": lambda src, sp: [src.choice(PATHS + ["none"])] + src.list(1, 3, lambda: src.choice(
        ["btrfs.01", "btrfs.02", "LABEL=x", "sda1"])),
    "Device": lambda src, sp: ([src.choice(["scsi", "eth"])] if not sp.has("F8") else []) + [word(src, 5)],
    "Key": lambda src, sp: [word(src, 5)],
    "LangSupport": lambda src, sp: src.list(0, 3, lambda: src.choice(["en_US", "cs_CZ", "de_DE"])),
    "Mouse": lambda src, sp: [src.choice(["genericps/2", "msintellips/2"])],
    "Raid": None, "VolGroup": None,
}

RAW = {"Authconfig", "Authselect"}


def raw_args(src):
    """Free-form arguments, kept verbatim by the command."""
    return src.list(1, 4, lambda: src.choice(
        ["--enableshadow", "--passalgo=sha512", "select", "sssd", "with-mkhomedir", "--enablemd5",
         "--ldapserver=h.ex.org", "--x=\"a b\"", "custom/x"]))


def positionals(src, sp, valid=90):
    s = sp.suffix
    out = []
    if s == "Raid":
        out.append(value(src, sp, [a for a in sp.pos if a["dest"] == "mntpoint"][0], valid))
        out += src.list(1, 3, lambda: src.choice(["raid.01", "raid.02", "raid.03"]))
        return out
    if s == "VolGroup":
        return [src.choice(["vg0", "vg1", "fedora"])] + src.list(1, 3, lambda: src.choice(["pv.01", "pv.02", "pv.03"]))
    if s in EXTRA_POS:
        return EXTRA_POS[s](src, sp)
    for a in sp.pos:
        n = {None: 1, 1: 1, "?": None, "*": None, "+": None}[a["nargs"]]
        if n is None:
            if s == "SshPw":
                n = src.int(1, 3)
            elif a["nargs"] == "?":
                n = 1 if src.chance(85) else 0
            else:
                n = 1 if src.chance(85) else src.int(0, 2)
        out += [value(src, sp, a, valid) for _ in range(n)]
    if src.chance(100 - valid, 300):
        if out and src.chance(50):
            out.pop()
        else:
            out.append(word(src))
    return out


def realm_items(src):
    items = [("p", "join")]
    for f in src.subset(list(M.REALM_VAL), 35):
        items.append(("o", f, word(src, 5)))
    if src.chance(30):
        items.append(("o", "--no-password", None))
    items.append(("p", src.choice(["EXAMPLE.COM", "ad.ex.org"])))
    return items


def fixup(src, sp, items, opts_by_flag):
    """Steer towards acceptable lines: resolve the commonest exclusions by construction."""
    s = sp.suffix
    have = {}
    for it in items:
        if it[0] == "o" and it[1] in sp.byflag:
            have[sp.byflag[it[1]]["dest"]] = it

    def drop(*dests):
        for d in dests:
            if d in have:
                items.remove(have.pop(d))

    def keep_one(dests):
        present = [d for d in dests if d in have]
        if len(present) > 1:
            k = src.choice(present)
            drop(*[d for d in present if d != k])
        elif not present:
            cand = [o for o in sp.live_opts() if o["dest"] in dests]
            if cand:
                o = src.choice(cand)
                it = opt_item(src, sp, o)
                items.append(it)
                have[o["dest"]] = it

    def need(dest):
        if dest not in have:
            cand = [o for o in sp.live_opts() if o["dest"] == dest]
            if cand:
                it = opt_item(src, sp, cand[0])
                items.append(it)
                have[dest] = it

    if "pbkdf_time" in have and "pbkdf_iterations" in have:
        drop(src.choice(["pbkdf_time", "pbkdf_iterations"]))
    if "mkfsopts" in have:
        if src.chance(50):
            drop("fsprofile", "format", "preexist")
        else:
            drop("mkfsopts")
    if s == "Partition":
        if "resize" in have:
            need("onPart"), need("size")
    if s in ("Raid", "VolGroup"):
        if "preexist" in have or "format" in have:
            pos = [it for it in items if it[0] == "p"]
            for it in pos[1:]:
                items.remove(it)
        elif s == "Raid":
            need("level")
    if s == "LogVol":
        if "resize" in have:
            if not ({"preexist", "format"} & set(have)):
                drop("resize")
            else:
                need("size")
        if "thin_volume" in have:
            drop("thin_pool")
            need("pool_name")
        if not ("thin_pool" in have):
            drop("chunk_size", "metadata_size")
        if "size" in have and "percent" in have:
            drop(src.choice(["size", "percent"]))
        if sp.has("F20") and not ({"preexist", "format", "percent", "size", "recommended", "hibernation"} & set(have)):
            need("size")
        if {"cache_size", "cache_mode", "cache_pvs"} & set(have):
            if {"preexist", "format", "thin_volume"} & set(have) or src.chance(50):
                drop("cache_size", "cache_mode", "cache_pvs")
            else:
                need("cache_pvs"), need("cache_size")
    if s == "Repo":
        keep_one(["baseurl", "mirrorlist", "metalink"])
    if s in ("Url",) and sp.has("F18"):
        keep_one(["url", "mirrorlist", "metalink"])
    if s == "HardDrive" and "biospart" in {o["dest"] for o in sp.opts} and not sp.has("F33"):
        keep_one(["biospart", "partition"])
    if s == "DriverDisk":
        if any(it[0] == "p" for it in items):
            drop("source", "biospart")
        else:
            keep_one([d for d in ("source", "biospart") if any(o["dest"] == d for o in sp.opts)])
    if s == "IgnoreDisk" and sp.has("F8"):
        keep_one([d for d in ("ignoredisk", "onlyuse", "interactive") if any(o["dest"] == d for o in sp.opts)
                  and not (d == "interactive" and sp.has("F29"))])
    if s == "Timesource":
        keep_one(["ntp_server", "ntp_pool", "ntp_disable"])
    if s == "Timezone" and "nontp" in have and "ntpservers" in have:
        drop(src.choice(["nontp", "ntpservers"]))
    if s == "Nvdimm":
        act = [it[1] for it in items if it[0] == "p"]
        if act == ["reconfigure"]:
            need("namespace")
            drop("blockdevs")
            if "mode" in have:
                need("sectorsize")
        else:
            keep_one(["namespace", "blockdevs"])
    if s == "Rescue" and "nomount" in have and "romount" in have:
        drop("nomount")
    if s == "Logging" and "port" in have:
        need("host")
    if s == "Network":
        if "bridgeopts" in have:
            need("bridgeslaves")
        if "bindto" in have and "vlanid" in have:
            drop("bindto")
    if s == "Services" and not ({"disabled", "enabled"} & set(have)):
        need("enabled")
    if s == "BTRFS" and "subvol" in have:
        need("name")
    if s == "BTRFS" and "mkfsopts" in have:
        drop("preexist", "format")
    if s == "AutoPart" and "fstype" in have and "type" in have:
        drop(src.choice(["fstype", "type"]))
    if s == "Keyboard" and sp.has("F18"):
        if not any(it[0] == "p" for it in items) and not ({"vc_keymap", "x_layouts"} & set(have)):
            need("vc_keymap")
    if s == "RootPw" and not any(it[0] == "p" for it in items):
        if sp.has("F18"):
            need("lock")
        else:
            items.append(("p", word(src)))
    if s == "Eula":
        need("agreed")
    if s == "Key" and "skip" in have:
        for it in [x for x in items if x[0] == "p"]:
            items.remove(it)
    if s == "Monitor" and False:
        pass
    return items


def line(src, version, cmd, valid=90, density=30, opts=None, deprecated=5, rt=False):
    """-> (cmd, items).  valid: % weight of staying inside the documented rules."""
    _RT[0] = rt
    try:
        return _line(src, version, cmd, valid, density, opts, deprecated)
    finally:
        _RT[0] = False


def text(version, cmd, items):
    """The source line of items."""
    sp = M.spec(version, cmd) if cmd in M.G["versions"][version]["commands"] else None
    if sp is not None and sp.suffix in RAW:
        return " ".join([cmd] + [x[1] for x in items])
    return M.render(cmd, items)


def _line(src, version, cmd, valid, density, opts, deprecated):
    sp = M.spec(version, cmd)
    s = sp.suffix
    if sp.kind != "normal":
        items = [("p", word(src)) for _ in range(src.int(0, 1))]
        return cmd, items
    if s in RAW:
        return cmd, [("p", t) for t in raw_args(src)]
    if s == "Realm":
        items = realm_items(src)
        if src.chance(100 - valid):
            items.pop(src.below(len(items)))
        return cmd, items
    if s == "DeviceProbe":
        return cmd, [("p", word(src, 0)) for _ in range(src.int(0, 2))]
    chosen = []
    for o in sp.opts:
        if o["required"]:
            if valid == 100 or not src.chance(100 - valid, 400):
                chosen.append(o)
        elif opts is not None:
            continue
        elif o["deprecated"]:
            if src.chance(deprecated):
                chosen.append(o)
        elif src.chance(density):
            chosen.append(o)
    if opts is not None:
        chosen += [o for o in opts if o not in chosen]
    items = [opt_item(src, sp, o, valid) for o in chosen]
    if src.chance(100 - valid, 200):
        items.append(("o", src.choice(["--nosuch", "--bogus"]), word(src) if src.chance(50) else None))
    pos = [("p", t) for t in positionals(src, sp, valid)]
    items = pos + items
    if src.chance(valid):
        items = fixup(src, sp, items, None)
    pos = [it for it in items if it[0] == "p"]
    ops = [it for it in items if it[0] == "o"]
    ops = src.shuffle(ops)
    # an option that may take its value from the next word must not be followed by an operand
    if any(it[2] is None and it[1] in sp.byflag and sp.byflag[it[1]]["nargs"] != 0 for it in ops):
        items = pos + [it for it in ops if it[2] is not None or sp.byflag.get(it[1], {}).get("nargs") == 0] + \
            [it for it in ops if not (it[2] is not None or sp.byflag.get(it[1], {}).get("nargs") == 0)]
        return cmd, items
    where = src.below(4 if s in ("Raid", "VolGroup", "BTRFS") else 3)
    if where == 3:
        items = []
        ops = list(ops)
        for it in pos:
            while ops and src.chance(40):
                items.append(ops.pop())
            items.append(it)
        items += ops
    elif where == 0 or not pos:
        items = pos + ops
    elif where == 1:
        items = ops + pos
    else:
        k = src.below(len(ops) + 1)
        items = ops[:k] + pos + ops[k:]
    return cmd, items
