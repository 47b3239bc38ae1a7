"""Reference model of the kickstart commands.

The grammar of each syntax version (which commands exist, which options each takes, their
value types, defaults and destinations) is the frozen table grammar.json.  Everything that is
not grammar - conversions, required/exclusive combinations, cross-command conflicts, which
attribute an argument lands in, what a second occurrence does - is written by hand below, from
the documentation and the documented behaviour of each syntax version.  Nothing in this module
imports the code under test, except that symbolic constants are looked up by name.
"""
import copy
import json
import os
import re
import shlex

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "grammar.json")) as _f:
    G = json.load(_f)

VERSIONS = sorted(G["versions"], key=lambda v: G["versions"][v]["num"])
NUM = {v: G["versions"][v]["num"] for v in VERSIONS}

# helper attributes of command objects that are not configuration data
NOT_DATA = {"levelMap", "typeMap", "whenMap", "exclusive_required_options", "bootprotoList",
            "bind_to_choices", "validActions", "validModes"}


class Reject(Exception):
    """The model says: this line is an error."""


class DontCare:
    """An attribute value the model does not constrain."""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<any>"
    __hash__ = None


ANY = DontCare()


class Unordered:
    """A collection whose order and container type are not part of the contract."""
    def __init__(self, items):
        self.s = set(items)

    def __eq__(self, other):
        if isinstance(other, Unordered):
            return self.s == other.s
        return sorted(self.s) == sorted(other)

    def __ne__(self, other):
        return not self == other

    def __iter__(self):
        return iter(sorted(self.s))

    def __len__(self):
        return len(self.s)

    def __repr__(self):
        return "Unordered(%r)" % sorted(self.s)
    __hash__ = None


class Unset:
    """No value: the library may hold any empty value here."""
    def __eq__(self, other):
        return isinstance(other, Unset) or not other

    def __ne__(self, other):
        return not self == other

    def __bool__(self):
        return False

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<unset>"
    __hash__ = None


UNSET = Unset()

_consts = None


def const(name):
    global _consts
    if _consts is None:
        import pykickstart.constants as c
        _consts = c
    return getattr(_consts, name)


# (class suffix, dest) -> {frozen int: constant name}
CONSTS = {
    ("ClearPart", "type"): {0: "CLEARPART_TYPE_LINUX", 1: "CLEARPART_TYPE_ALL", 2: "CLEARPART_TYPE_NONE"},
    ("AutoPart", "type"): {0: "AUTOPART_TYPE_PLAIN"},
    ("Firstboot", "firstboot"): {0: "FIRSTBOOT_DEFAULT", 1: "FIRSTBOOT_SKIP", 2: "FIRSTBOOT_RECONFIG"},
    ("SELinux", "selinux"): {0: "SELINUX_DISABLED", 1: "SELINUX_ENFORCING", 2: "SELINUX_PERMISSIVE"},
    ("Zipl", "secure_boot"): {-1: "SECURE_BOOT_DEFAULT", 0: "SECURE_BOOT_DISABLED",
                              1: "SECURE_BOOT_ENABLED", 2: "SECURE_BOOT_AUTO"},
}


def unjs(v):
    if isinstance(v, dict):
        if "__set__" in v:
            return set(unjs(x) for x in v["__set__"])
        if "__dict__" in v:
            return {k: unjs(x) for k, x in v["__dict__"].items()}
        return ANY
    if isinstance(v, list):
        return [unjs(x) for x in v]
    return v


class Spec:
    """The grammar of one command in one version."""
    def __init__(self, version, cmd):
        self.version, self.cmd = version, cmd
        self.num = NUM[version]
        cn = G["versions"][version]["commands"][cmd]
        c = G["classes"][cn]
        self.cls = cn
        self.suffix = cn.split("_", 1)[1]
        self.lineage = set(c["lineage"])
        self.kind = c["kind"]
        self.opts, self.pos = c["opts"], c["pos"]
        self.prio = c["prio"]
        var = c.get("variants", {}).get(version)
        self.data = var["data"] if var is not None and var.get("data") else c["data"]
        self.listattr = (c.get("listattr") or [None])[0]
        self.attrs = {k: v for k, v in c["attrs"].items() if k not in NOT_DATA}
        self.byflag = {}
        for o in self.opts:
            for f in o["flags"]:
                self.byflag[f] = o
        # attributes a deprecated option would land in: not constrained
        self.dep_dests = {o["dest"] for o in self.opts if o["deprecated"]}

    def has(self, *names):
        return any(n in self.lineage for n in names)

    def live_opts(self):
        return [o for o in self.opts if not o["deprecated"]]

    def fresh_attrs(self):
        a = {k: unjs(v) for k, v in self.attrs.items()}
        if self.suffix == "Zipl":
            a["secure_boot"] = const("SECURE_BOOT_DEFAULT")
        if self.suffix == "Keyboard" and self.has("F18"):
            a["keyboard"] = ""
        if self.suffix == "Network" and self.has("F18"):
            a["hostname"] = None
        return a

    def fresh_data(self):
        return {k: unjs(v) for k, v in self.data["attrs"].items() if k not in NOT_DATA}


_specs = {}


def spec(version, cmd):
    k = (version, cmd)
    if k not in _specs:
        _specs[k] = Spec(version, cmd)
    return _specs[k]


def commands(version):
    return sorted(G["versions"][version]["commands"])


# ---------------------------------------------------------------- value conversion
def comma_split(v):
    return [x.strip() for x in v.split(",") if x.strip()]


def norm_mountpoint(v):
    return os.path.normpath(v) if v.startswith("/") else v


def to_int(v):
    try:
        return int(v)
    except ValueError:
        raise Reject("not an integer: %r" % v)


def to_bool(v):
    if v.lower() in ("on", "yes", "true", "1"):
        return True
    if v.lower() in ("off", "no", "false", "0"):
        return False
    raise Reject("not a boolean: %r" % v)


RAID_LEVELS = {"0": "RAID0", "1": "RAID1", "5": "RAID5", "6": "RAID6"}


def raid_levels(sp):
    m = dict(RAID_LEVELS)
    if sp.has("RHEL5", "F7"):
        m["10"] = "RAID10"
    if sp.has("F13"):
        m["4"] = "RAID4"
    return m


BTRFS_LEVELS = {"raid0": "raid0", "0": "raid0", "raid1": "raid1", "1": "raid1",
                "raid10": "raid10", "10": "raid10", "single": "single"}


def convert(sp, o, v):
    t = o["type"]
    if t == "str":
        return v
    if t == "int":
        return to_int(v)
    if t == "commaSplit":
        return comma_split(v)
    if t == "ksboolean":
        return to_bool(v)
    if t == "mountpoint":
        return norm_mountpoint(v)
    if t == "cb:part_cb":
        return v[5:] if v.startswith("/dev/") else v
    if t == "cb:device_cb":
        return v[2:] if v[:2] == "md" else v
    if t == "cb:firewall_port_cb":
        return [p.strip() if ":" in p else p.strip() + ":tcp" for p in v.split(",")]
    if t == "cb:level_cb" and sp.suffix == "Raid":
        lv = v.upper()
        m = raid_levels(sp)
        if lv in m:
            return m[lv]
        if lv in m.values():
            return lv
        raise Reject("raid level %r" % v)
    if t == "cb:level_cb" and sp.suffix == "BTRFS":
        if v.lower() in BTRFS_LEVELS:
            return BTRFS_LEVELS[v.lower()]
        raise Reject("btrfs level %r" % v)
    if t == "cb:_type_cb":
        m = {"lvm": "AUTOPART_TYPE_LVM", "btrfs": "AUTOPART_TYPE_BTRFS",
             "plain": "AUTOPART_TYPE_PLAIN", "partition": "AUTOPART_TYPE_PLAIN"}
        if sp.has("F20"):
            m["thinp"] = "AUTOPART_TYPE_LVM_THINP"
        if v.lower() in m:
            return const(m[v.lower()])
        raise Reject("autopart type %r" % v)
    if t == "cb:_when_cb":
        m = {"post-install": "SNAPSHOT_WHEN_POST_INSTALL", "pre-install": "SNAPSHOT_WHEN_PRE_INSTALL"}
        if v.lower() in m:
            return const(m[v.lower()])
        raise Reject("snapshot when %r" % v)
    if t == "cb:teamslaves_cb":
        return parse_teamslaves(v)
    raise AssertionError("model: unknown type " + t)


def parse_teamslaves(v):
    """a,b'{cfg}',c  ->  [(a,""),(b,"{cfg}"),(c,"")]"""
    out = []
    i = 0
    while i < len(v):
        m = re.compile(r",*([^,']*)").match(v, i)
        dev = m.group(1)
        i = m.end()
        cfg = ""
        if i < len(v) and v[i] == "'":
            j = v.index("'", i + 1)
            cfg = v[i + 1:j]
            i = j + 1
        out.append((dev, cfg))
    return out


# ---------------------------------------------------------------- argument parsing
def parse_known(sp, items):
    """items: [("o", flag, value-or-None) | ("p", token)].  Returns (ns, extra, used-deprecated)."""
    ns = {}
    for a in sp.opts + sp.pos:
        d = a["dest"]
        if d not in ns:
            ns[d] = unjs(a["default"])
            key = (sp.suffix, d)
            if key in CONSTS and ns[d] in CONSTS[key]:
                ns[d] = const(CONSTS[key][ns[d]])
    extra, seen, dep = [], set(), 0
    posacts = list(sp.pos)
    seenpos = set()

    def convert_pos(a, toks):
        vals = [convert(sp, a, t) for t in toks]
        if a["choices"] is not None:
            for v in vals:
                if v not in unjs(a["choices"]):
                    raise Reject("choice %r" % v)
        return vals

    def consume(block):
        """argparse hands a run of positionals to as many pending arguments as match."""
        rx = {None: "A", 1: "A", "?": "A?", "*": "A*", "+": "A+"}
        s = "A" * len(block)
        for n in range(len(posacts), 0, -1):
            m = re.match("".join("(%s)" % rx[a["nargs"]] for a in posacts[:n]), s)
            if m:
                i = 0
                for a, g in zip(posacts[:n], m.groups()):
                    toks = block[i:i + len(g)]
                    i += len(g)
                    seenpos.add(id(a))
                    if a["nargs"] is None:
                        ns[a["dest"]] = convert_pos(a, toks)[0]
                    elif a["nargs"] == "?":
                        if toks:
                            ns[a["dest"]] = convert_pos(a, toks)[0]
                    elif a["nargs"] == "*" and not toks:
                        if ns[a["dest"]] is None:
                            ns[a["dest"]] = []
                    else:
                        ns[a["dest"]] = convert_pos(a, toks)
                del posacts[:n]
                return block[i:]
        return block

    items = list(items)
    i = 0
    block = []
    while i < len(items):
        it = items[i]
        if it[0] == "p":
            block.append(it[1])
            i += 1
            continue
        if block:
            extra.extend(consume(block))
            block = []
        _k, flag, val = it
        i += 1
        o = sp.byflag.get(flag)
        if o is None:
            extra.append(flag if val is None else "%s=%s" % (flag, val))
            continue
        seen.add(id(o))
        dep += bool(o["deprecated"])
        d = o["dest"]
        takes = not (o["nargs"] == 0)
        if not takes:
            if val is not None:
                raise Reject("%s takes no value" % flag)
            act = o["action"]
            if act in ("store_true", "store_false"):
                ns[d] = act == "store_true"
            elif act == "store_const":
                c = unjs(o["const"])
                key = (sp.suffix, d)
                ns[d] = const(CONSTS[key][c]) if key in CONSTS else c
            elif act == "append_const":
                ns[d] = (ns[d] or []) + [unjs(o["const"])]
            elif act == "extend_const":
                ns[d] = (ns[d] or []) + unjs(o["const"])
            else:
                raise AssertionError(act)
            continue
        if val is None and i < len(items) and items[i][0] == "p":
            val = items[i][1]
            i += 1
        if val is None:
            if o["nargs"] == "?":
                ns[d] = unjs(o["const"])
                continue
            raise Reject("%s needs a value" % flag)
        v = convert(sp, o, val)
        if o["choices"] is not None and v not in unjs(o["choices"]):
            raise Reject("choice %r" % val)
        if o["action"] == "append":
            ns[d] = (ns[d] or []) + [v]
        elif o["action"] == "extend":
            ns[d] = (ns[d] or []) + v
        else:
            ns[d] = v
    extra.extend(consume(block))
    for o in sp.opts:
        if o["required"] and id(o) not in seen:
            raise Reject("missing %s" % o["flags"][0])
    for a in sp.pos:
        if id(a) not in seenpos and a["nargs"] in (None, 1, "+"):
            raise Reject("missing %s" % a["dest"])
    return ns, extra, dep


def is_opt(tok):
    return tok.startswith("-")


# ---------------------------------------------------------------- command semantics
class CmdState:
    def __init__(self, sp):
        self.sp = sp
        self.attrs = sp.fresh_attrs()
        self.data = []          # list of dicts, in order
        self.lineno = 0


class ModelHandler:
    """What a handler of the given version holds after a sequence of command lines."""
    def __init__(self, version):
        self.version = version
        self.st = {}

    def state(self, cmd):
        sp = spec(self.version, cmd)
        if sp.cls not in self.st:
            self.st[sp.cls] = CmdState(sp)
        return self.st[sp.cls]

    def seen(self, cmd):
        """Has the named command been used (accepted or not)?  False if this version lacks it."""
        if cmd not in G["versions"][self.version]["commands"]:
            return False
        sp = spec(self.version, cmd)
        st = self.st.get(sp.cls)
        return bool(st and st.attrs.get("seen"))

    def run(self, cmd, items, raw, lineno=1):
        """Process one line.  Returns the list of warning kinds, or raises Reject.
        On Reject the state of this command is unspecified (but other commands are untouched)."""
        if cmd not in G["versions"][self.version]["commands"]:
            raise Reject("unknown command")
        sp = spec(self.version, cmd)
        st = self.state(cmd)
        st.attrs["seen"] = True
        st.lineno = lineno
        if sp.kind == "deprecated":
            return ["dep"]
        if sp.kind == "removed":
            raise Reject("removed")
        warns = []
        fn = RULES.get(sp.suffix)
        if fn is None:
            default_rule(self, sp, st, cmd, items, raw, warns)
        else:
            fn(self, sp, st, cmd, items, raw, warns)
        if sp.data is not None and st.data and "lineno" not in st.data[-1]:
            st.data[-1]["lineno"] = lineno
        return warns


def strict(sp, items, warns):
    ns, extra, dep = parse_known(sp, items)
    if extra:
        raise Reject("unrecognized %r" % extra)
    warns.extend(["dep"] * dep)
    return ns


def known(sp, items, warns):
    ns, extra, dep = parse_known(sp, items)
    warns.extend(["dep"] * dep)
    return ns, extra


def put(target, ns, sp):
    for k, v in ns.items():
        if k in target and v is not None:
            target[k] = v
    for k in sp.dep_dests:
        if k in target:
            target[k] = ANY


def new_data(sp, ns):
    d = sp.fresh_data()
    put(d, ns, sp)
    return d


def default_rule(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    if sp.data is not None:
        st.data.append(new_data(sp, ns))
    else:
        put(st.attrs, ns, sp)


def flag_rule(attr):
    def rule(m, sp, st, cmd, items, raw, warns):
        ns = strict(sp, items, warns)
        put(st.attrs, ns, sp)
        st.attrs[attr] = True
    return rule


def dup_rule(key, check=None):
    """A data command that warns when an entry with the same key exists."""
    def rule(m, sp, st, cmd, items, raw, warns):
        ns = strict(sp, items, warns)
        d = new_data(sp, ns)
        if check:
            check(m, sp, d, ns)
        if any(all(d[k] == e[k] for k in key) for e in st.data):
            warns.append("parse")
        st.data.append(d)
    return rule


def rest_of_line(cmd, raw):
    return raw[len(cmd):].strip()


def r_authconfig(m, sp, st, cmd, items, raw, warns):
    if sp.has("F28"):
        warns.append("dep")
    st.attrs["authconfig"] = rest_of_line(cmd, raw)


def r_authselect(m, sp, st, cmd, items, raw, warns):
    st.attrs["authselect"] = rest_of_line(cmd, raw)


def storage_conflict(m, names):
    for n in names:
        if m.seen(n):
            raise Reject("conflicts with " + n)


def pbkdf_check(d):
    if d.get("pbkdf_time") and d.get("pbkdf_iterations"):
        raise Reject("pbkdf-time and pbkdf-iterations")


def r_autopart(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    a = st.attrs
    put(a, ns, sp)
    a["autopart"] = True
    if sp.has("F17"):
        a["lvm"] = True
    if sp.has("F16"):
        storage_conflict(m, ["volgroup"])
    if sp.has("RHEL6", "F20"):
        storage_conflict(m, ["part", "raid", "volgroup", "logvol"])
    if sp.has("F20"):
        storage_conflict(m, ["mount"])
    if sp.has("F23", "RHEL7"):
        storage_conflict(m, ["reqpart"])
    if sp.has("F21"):
        if a["fstype"] == "btrfs":
            raise Reject("fstype btrfs")
        if a["type"] == const("AUTOPART_TYPE_BTRFS") and a["fstype"]:
            raise Reject("fstype with btrfs")
    if sp.has("F29"):
        pbkdf_check(a)
    if sp.has("RHEL8") and a["type"] == const("AUTOPART_TYPE_BTRFS"):
        raise Reject("btrfs")


def r_bootloader(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    if ns.get("_md5pass"):
        ns["password"] = ns["_md5pass"]
        ns["isCrypted"] = True
    put(st.attrs, ns, sp)
    if cmd == "lilo":
        st.attrs["useLilo"] = True
    if sp.has("F17") and "," in st.attrs["bootDrive"]:
        raise Reject("one boot drive")


def r_btrfs(m, sp, st, cmd, items, raw, warns):
    ns, extra = known(sp, items, warns)
    d = new_data(sp, ns)
    if not d["format"] or d["preexist"]:
        d["format"], d["preexist"] = False, True
    if not extra or any(is_opt(x) for x in extra):
        raise Reject("mountpoint/unexpected")
    d["mountpoint"] = norm_mountpoint(extra[0])
    d["devices"] = extra[1:]
    if not d["devices"]:
        raise Reject("devices")
    if d["subvol"] and not d["name"]:
        raise Reject("subvol name")
    if sp.has("F23") and d["preexist"] and d["mkfsopts"]:
        raise Reject("mkfsoptions")
    if any(e["mountpoint"] == d["mountpoint"] for e in st.data):
        warns.append("parse")
    st.data.append(d)


def r_noargs(m, sp, st, cmd, items, raw, warns):
    if items:
        raise Reject("no arguments")


def r_clearpart(m, sp, st, cmd, items, raw, warns):
    put(st.attrs, strict(sp, items, warns), sp)
    if st.attrs.get("devices"):
        st.attrs["type"] = const("CLEARPART_TYPE_LIST")


def r_device(m, sp, st, cmd, items, raw, warns):
    ns, extra = known(sp, items, warns)
    want = 1 if sp.has("F8") else 2
    if len(extra) != want or any(is_opt(x) for x in extra):
        raise Reject("device args")
    if sp.has("F8"):
        d = new_data(sp, ns)
        d["moduleName"] = extra[0]
        if any(e["moduleName"] == d["moduleName"] for e in st.data):
            warns.append("parse")
        st.data.append(d)
    else:
        st.attrs.update(moduleOpts=ns["moduleOpts"], type=extra[0], moduleName=extra[1])


def r_deviceprobe(m, sp, st, cmd, items, raw, warns):
    st.attrs["deviceprobe"] = " ".join(render_items(items))


def r_displaymode(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    put(st.attrs, ns, sp)
    st.attrs["displayMode"] = const({"cmdline": "DISPLAY_MODE_CMDLINE", "graphical": "DISPLAY_MODE_GRAPHICAL",
                                     "text": "DISPLAY_MODE_TEXT"}[cmd])
    if sp.has("F26") and cmd == "cmdline" and st.attrs["nonInteractive"]:
        raise Reject("cmdline non-interactive")


def r_dmraid(m, sp, st, cmd, items, raw, warns):
    d = new_data(sp, strict(sp, items, warns))
    d["name"] = d["name"].split("/")[-1]
    if any(e["name"] == d["name"] and e["devices"] == d["devices"] for e in st.data):
        warns.append("parse")
    st.data.append(d)


def r_driverdisk(m, sp, st, cmd, items, raw, warns):
    ns, extra = known(sp, items, warns)
    if len(ns["partition"]) > 1 or extra:
        raise Reject("driverdisk args")
    if sum(bool(ns.get(k)) for k in ("partition", "source", "biospart")) != 1:
        raise Reject("exactly one source")
    part = ns.pop("partition")
    d = new_data(sp, ns)
    if part:
        d["partition"] = part[0]
    else:
        d["partition"] = ANY     # an empty placeholder; "not given"
    st.data.append(d)


def r_eula(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    put(st.attrs, ns, sp)
    if not st.attrs["agreed"]:
        raise Reject("agreed")


def r_firstboot(m, sp, st, cmd, items, raw, warns):
    st.attrs["firstboot"] = strict(sp, items, warns)["firstboot"]


def r_harddrive(m, sp, st, cmd, items, raw, warns):
    put(st.attrs, strict(sp, items, warns), sp)
    if not sp.has("F33") and (st.attrs["biospart"] is None) == (st.attrs["partition"] is None):
        raise Reject("one of")


def r_ignoredisk(m, sp, st, cmd, items, raw, warns):
    a = st.attrs
    put(a, strict(sp, items, warns), sp)
    if not sp.has("F8"):
        return
    n = bool(a["ignoredisk"]) + bool(a["onlyuse"])
    if sp.has("RHEL6") and not sp.has("F29"):
        n += bool(a["interactive"])
    if n != 1:
        raise Reject("exactly one")


def r_upgrade(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    if "root_device" in ns:
        if ns["root_device"] == "":
            raise Reject("empty root device")
        st.attrs["root_device"] = ns["root_device"]
    st.attrs["upgrade"] = cmd == "upgrade"


def r_iscsiname(m, sp, st, cmd, items, raw, warns):
    st.attrs["iscsiname"] = strict(sp, items, warns)["iqn"][0]


def r_key(m, sp, st, cmd, items, raw, warns):
    ns, extra = known(sp, items, warns)
    st.attrs["skip"] = ns["skip"]
    if ns["skip"]:
        st.attrs["key"] = const("KS_INSTKEY_SKIP")
    elif len(extra) != 1 or is_opt(extra[0]):
        raise Reject("one key")
    else:
        st.attrs["key"] = extra[0]


def r_keyboard(m, sp, st, cmd, items, raw, warns):
    ns, extra = known(sp, items, warns)
    if extra:
        raise Reject("unexpected")
    a = st.attrs
    if not sp.has("F18"):
        if len(ns["kbd"]) != 1:
            raise Reject("one keyboard")
        a["keyboard"] = ns["kbd"][0]
        return
    put(a, ns, sp)
    if len(ns["kbd"]) > 1 or not (ns["kbd"] or a["vc_keymap"] or a["x_layouts"]):
        raise Reject("keyboard args")
    if ns["kbd"]:
        st.kbd = ns["kbd"][0]
    a["keyboard"] = getattr(st, "kbd", "") or a["vc_keymap"] or (a["x_layouts"][0] if a["x_layouts"] else "")


def r_lang(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    ns["lang"] = ns["lang"][0]
    put(st.attrs, ns, sp)


def r_langsupport(m, sp, st, cmd, items, raw, warns):
    ns, extra = known(sp, items, warns)
    if any(is_opt(x) for x in extra):
        raise Reject("unexpected")
    put(st.attrs, ns, sp)
    st.attrs["supported"] = extra


def r_logging(m, sp, st, cmd, items, raw, warns):
    put(st.attrs, strict(sp, items, warns), sp)
    if st.attrs["port"] and not st.attrs["host"]:
        raise Reject("port without host")


def mkfs_check(d):
    if not d["format"] and d["mkfsopts"]:
        raise Reject("mkfsoptions with noformat")
    if d["fsprofile"] and d["mkfsopts"]:
        raise Reject("mkfsoptions with fsprofile")


def r_logvol(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    mp = ns.pop("mntpoint")[0]
    d = new_data(sp, ns)
    d["mountpoint"] = mp
    if not d["format"]:
        d["preexist"] = True
    if sp.has("F17") and d["resize"] and not (d["preexist"] and d["size"]):
        raise Reject("resize")
    if sp.has("RHEL6", "F20"):
        if d["thin_volume"] and (d["thin_pool"] or not d["pool_name"]):
            raise Reject("thin")
        if (d["chunk_size"] or d["metadata_size"]) and not d["thin_pool"]:
            raise Reject("thin pool only")
        storage_conflict(m, ["autopart"])
    if sp.has("F20"):
        storage_conflict(m, ["mount"])
        if not (d["preexist"] or d["percent"] or d["size"] or d["recommended"] or d["hibernation"]):
            raise Reject("no size")
        if d["percent"] is not None and not 0 <= d["percent"] <= 100:
            raise Reject("percent")
    if sp.has("F21") and d["size"] and d["percent"]:
        raise Reject("size and percent")
    if sp.has("F23") and (d["cache_size"] or d["cache_mode"] or d["cache_pvs"]):
        if d["preexist"] or d["thin_volume"] or not d["cache_pvs"] or not d["cache_size"]:
            raise Reject("cache")
        if d["cache_mode"] and d["cache_mode"] not in ("writeback", "writethrough"):
            raise Reject("cache mode")
    if sp.has("RHEL7", "F23"):
        mkfs_check(d)
    if sp.has("F29"):
        pbkdf_check(d)
    if sp.has("RHEL8") and d["fstype"] == "btrfs":
        raise Reject("btrfs")
    if any(e["vgname"] == d["vgname"] and e["name"] == d["name"] for e in st.data):
        warns.append("parse")
    st.data.append(d)


def r_mount(m, sp, st, cmd, items, raw, warns):
    storage_conflict(m, ["autopart", "part", "raid", "volgroup", "logvol", "reqpart"])
    ns = strict(sp, items, warns)
    dev, mp = ns.pop("device")[0], ns.pop("mntpoint")[0]
    d = new_data(sp, ns)
    d["device"], d["mount_point"] = dev, mp
    if mp.lower() != "none" and not mp.startswith("/"):
        raise Reject("mount point")
    if d["reformat"] is False and d["mkfs_opts"]:
        raise Reject("mkfsoptions requires reformat")
    if d["reformat"] and d["reformat"] is not True:
        d["format"], d["reformat"] = d["reformat"], True
    st.data.append(d)


def r_mouse(m, sp, st, cmd, items, raw, warns):
    ns, extra = known(sp, items, warns)
    if len(extra) != 1 or is_opt(extra[0]):
        raise Reject("one mouse")
    put(st.attrs, ns, sp)
    st.attrs["mouse"] = extra[0]


def r_multipath(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    name = ns["name"].split("/")[-1]
    for mp in st.data:
        if any(p["device"] == ns["device"] for p in mp["paths"]):
            raise Reject("device in use")
    path = {"device": ns["device"], "rule": ns["rule"], "mpdev": name}
    for mp in st.data:
        if mp["key"] == name:
            mp["paths"].append(path)
            return
    d = sp.fresh_data()
    d.update(name=ns["name"], paths=[path], key=name)
    st.data.append(d)


def vlan_name_ok(name):
    vid = None
    pre, dot, rest = name.partition(".")
    try:
        if dot:
            if pre == "vlan":
                return False
            vid = int(rest)
        if name.startswith("vlan"):
            vid = int(name[4:])
    except ValueError:
        return False
    return vid is None or 0 <= vid <= 4095


def r_network(m, sp, st, cmd, items, raw, warns):
    d = new_data(sp, strict(sp, items, warns))
    if sp.has("RHEL7") and not vlan_name_ok(d["interfacename"]):
        raise Reject("interfacename")
    if sp.has("F22", "RHEL7") and d["bridgeopts"]:
        if not d["bridgeslaves"]:
            raise Reject("bridgeopts")
        for o in d["bridgeopts"].split(","):
            if not re.match(r"^[^=]*=[^=]+$", o):
                raise Reject("bridgeopts format")
    if sp.has("F24") and d["noipv4"]:
        d["bootProto"] = ""
    if sp.has("F27", "RHEL7") and d["bindto"] == "mac" and d["vlanid"] and not d["bondopts"]:
        raise Reject("bindto")
    if any(e["device"] == d["device"] for e in st.data):
        warns.append("parse")
    st.data.append(d)
    if sp.has("F18"):
        hs = [e["hostname"] for e in st.data if e["hostname"]]
        st.attrs["hostname"] = hs[0] if hs else None


def r_nvdimm(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    ns["action"] = ns["action"][0]
    d = new_data(sp, ns)
    if d["namespace"] and d["blockdevs"]:
        raise Reject("namespace and blockdevs")
    if d["action"] == "reconfigure":
        if not d["namespace"] or (d["mode"] == "sector" and not d["sectorsize"]):
            raise Reject("reconfigure")
    elif not d["namespace"] and not d["blockdevs"]:
        raise Reject("use")
    if any(e["action"] == d["action"] and e["namespace"] == d["namespace"] and e["blockdevs"] == d["blockdevs"]
           for e in st.data):
        warns.append("parse")
    st.data.append(d)


def r_ostree(m, sp, st, cmd, items, raw, warns):
    a = st.attrs
    put(a, strict(sp, items, warns), sp)
    if not a["remote"]:
        a["remote"] = a["osname"]
    if not a["url"].startswith(("file:", "http:", "https:")):
        raise Reject("ostree url")


def r_partition(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    mp = ns.pop("mntpoint")[0]
    d = new_data(sp, ns)
    d["mountpoint"] = mp
    if sp.has("F17") and d["resize"] and not (d["onPart"] and d["size"]):
        raise Reject("resize")
    if sp.has("RHEL6", "F20"):
        storage_conflict(m, ["autopart"])
    if sp.has("F20"):
        storage_conflict(m, ["mount"])
        if d["fstype"] == "tmpfs" and (d["grow"] or d["maxSizeMB"] != 0):
            raise Reject("tmpfs")
    if sp.has("F23"):
        mkfs_check(d)
    if sp.has("F29"):
        pbkdf_check(d)
    if sp.has("RHEL8") and (mp.startswith("btrfs.") or d["fstype"] == "btrfs"):
        raise Reject("btrfs")
    if mp != "swap" and any(e["mountpoint"] == mp for e in st.data):
        warns.append("parse")
    st.data.append(d)


def r_raid(m, sp, st, cmd, items, raw, warns):
    ns, extra = known(sp, items, warns)
    if any(is_opt(x) for x in extra):
        raise Reject("unexpected")
    mp, parts = ns.pop("mntpoint")[0], ns.pop("partitions")
    parts = parts + extra
    d = new_data(sp, ns)
    if not d["format"]:
        d["preexist"] = True
    if bool(parts) == bool(d["preexist"]):
        raise Reject("members xor preexisting")
    if not sp.has("F19"):
        d["device"] = to_int(d["device"])
    d["mountpoint"] = mp
    if parts:
        d["members"] = parts
    if not d["preexist"] and not d["level"]:
        raise Reject("level")
    if d["preexist"] and d["device"] == "":
        raise Reject("device")
    if sp.has("RHEL6", "F20"):
        storage_conflict(m, ["autopart"])
    if sp.has("F20"):
        storage_conflict(m, ["mount"])
    if sp.has("F23"):
        mkfs_check(d)
    if sp.has("F29"):
        pbkdf_check(d)
    if sp.has("RHEL8") and d["fstype"] == "btrfs":
        raise Reject("btrfs")
    if any(e["device"] == d["device"] for e in st.data):
        warns.append("parse")
    st.data.append(d)


REALM_VAL = ("--client-software", "--server-software", "--membership-software", "--one-time-password", "--computer-ou")


def r_realm(m, sp, st, cmd, items, raw, warns):
    a = st.attrs
    if a["join_realm"]:
        raise Reject("only once")
    if not items or items[0] != ("p", "join"):
        raise Reject("join only")
    args, disc, realms = [], [], []
    for it in items[1:]:
        if it[0] == "p":
            args.append(it[1])
            realms.append(it[1])
        else:
            _k, f, v = it
            if realms:
                raise Reject("options follow the realm")     # getopt stops at the first operand
            if f in REALM_VAL:
                if v is None:
                    raise Reject("value")
                args.append("%s=%s" % (f, v))
                if f in REALM_VAL[:3]:
                    disc.append("%s=%s" % (f, v))
            elif f == "--no-password" and v is None:
                args.append(f)
            else:
                raise Reject("realm option")
    if len(realms) != 1:
        raise Reject("one realm")
    a.update(join_realm=realms[0], join_args=args, discover_options=disc)


def r_reboot(m, sp, st, cmd, items, raw, warns):
    if sp.has("FC6"):
        put(st.attrs, strict(sp, items, warns), sp)
    if cmd == "reboot":
        st.attrs["action"] = const("KS_REBOOT")
    elif cmd in ("shutdown", "poweroff"):
        st.attrs["action"] = const("KS_SHUTDOWN")
    elif cmd == "halt" and sp.has("F18"):
        st.attrs["action"] = const("KS_WAIT")


def r_repo(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    n = sum(bool(ns.get(k)) for k in ("baseurl", "mirrorlist", "metalink"))
    if n > 1 or (n == 0 and not sp.has("F15")):
        raise Reject("one url")
    d = new_data(sp, ns)
    if any(e["name"] == d["name"] for e in st.data):
        warns.append("parse")
    st.data.append(d)


def r_reqpart(m, sp, st, cmd, items, raw, warns):
    storage_conflict(m, ["autopart", "mount"])
    put(st.attrs, strict(sp, items, warns), sp)
    st.attrs["reqpart"] = True


def r_rescue(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    if ns["nomount"] and ns["romount"]:
        raise Reject("one of")
    put(st.attrs, ns, sp)
    st.attrs["rescue"] = True


def r_rhsm(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    if "" in ns["activation_keys"]:
        raise Reject("empty key")
    put(st.attrs, ns, sp)


def r_rootpw(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    if not (ns["password"] or (sp.has("F18") and ns["lock"])):
        raise Reject("password")
    put(st.attrs, ns, sp)


def r_services(m, sp, st, cmd, items, raw, warns):
    put(st.attrs, strict(sp, items, warns), sp)
    if not (st.attrs["disabled"] or st.attrs["enabled"]):
        raise Reject("one of")


def r_snapshot(m, sp, st, cmd, items, raw, warns):
    d = new_data(sp, strict(sp, items, warns))
    if any(e["name"] == d["name"] for e in st.data):
        raise Reject("duplicate snapshot")
    if not re.match(r"^[^/]+/[^/]+$", d["origin"], re.S):
        raise Reject("origin")
    st.data.append(d)


def r_sshkey(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    d = new_data(sp, ns)
    d["key"] = ns["sshkey"][0]
    if any(e["username"] == d["username"] for e in st.data):
        warns.append("parse")
    st.data.append(d)


def r_sshpw(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    if not ns["password"]:
        raise Reject("password")
    ns["password"] = " ".join(ns["password"])
    d = new_data(sp, ns)
    if any(e["username"] == d["username"] for e in st.data):
        warns.append("parse")
    st.data.append(d)


def r_timesource(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    if sum(bool(ns[k]) for k in ("ntp_server", "ntp_pool", "ntp_disable")) != 1:
        raise Reject("exactly one")
    st.data.append(new_data(sp, ns))


def r_timezone(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    tz = ns.pop("timezone")
    a = st.attrs
    put(a, ns, sp)
    if sp.has("RHEL7", "F25"):
        if not items or len(tz) > 1:
            raise Reject("timezone args")
        a["timezone"] = tz[0] if tz else UNSET
    else:
        a["timezone"] = tz[0]
    if sp.has("F18"):
        if a["ntpservers"] and a["nontp"]:
            raise Reject("nontp and ntpservers")
        if not sp.has("F23", "RHEL7"):
            a["ntpservers"] = list(dict.fromkeys(a["ntpservers"]))
    if sp.has("F32") and ("o", "--isUtc", None) in items:
        warns.append("dep")
    if sp.has("F33") and (a["ntpservers"] or a["nontp"]):
        warns.append("dep")


def r_updates(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    if sp.has("F34"):
        st.attrs["url"] = ns["url"]
    elif len(ns["updates"]) > 1:
        raise Reject("one argument")
    else:
        st.attrs["url"] = ns["updates"][0] if ns["updates"] else "floppy"


def r_url(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    put(st.attrs, ns, sp)
    if sp.has("F18") and sum(bool(ns.get(k)) for k in ("url", "mirrorlist", "metalink")) != 1:
        raise Reject("exactly one")
    if sp.has("F18"):
        for k in ("url", "mirrorlist", "metalink"):
            if k in st.attrs:
                st.attrs[k] = ns.get(k)


def r_vnc(m, sp, st, cmd, items, raw, warns):
    ns = strict(sp, items, warns)
    a = st.attrs
    a["enabled"] = True
    put(a, ns, sp)
    if ns.get("_connect"):
        parts = ns["_connect"].split(":")
        a["host"] = parts[0]
        if len(parts) > 1:
            a["port"] = parts[1]


def r_volgroup(m, sp, st, cmd, items, raw, warns):
    ns, extra = known(sp, items, warns)
    if any(is_opt(x) for x in extra):
        raise Reject("unexpected option")
    name, parts = ns.pop("name"), ns.pop("partitions")
    words = name + parts + extra
    d = new_data(sp, ns)
    if not d["format"]:
        d["preexist"] = True
    if not words:
        raise Reject("name")
    d["vgname"], parts = words[0], words[1:]
    if bool(parts) == bool(d["preexist"]):
        raise Reject("members xor preexisting")
    if parts:
        d["physvols"] = parts
    if sp.has("F16"):
        if d["reserved_space"] is not None and d["reserved_space"] < 0:
            raise Reject("reserved space")
        if d["reserved_percent"] is not None and not 0 < d["reserved_percent"] < 100:
            raise Reject("reserved percent")
        storage_conflict(m, ["autopart", "mount"])
    if any(e["vgname"] == d["vgname"] for e in st.data):
        warns.append("parse")
    st.data.append(d)


def r_zerombr(m, sp, st, cmd, items, raw, warns):
    if sp.has("F9"):
        strict(sp, items, warns)
    elif items:
        warns.append("dep")
    st.attrs["zerombr"] = True


RULES = {
    "Authconfig": r_authconfig, "Authselect": r_authselect, "AutoPart": r_autopart,
    "AutoStep": flag_rule("autostep"), "Bootloader": r_bootloader, "Lilo": r_bootloader, "BTRFS": r_btrfs,
    "Cdrom": r_noargs, "Hmc": r_noargs, "ClearPart": r_clearpart, "Device": r_device,
    "DeviceProbe": r_deviceprobe, "DisplayMode": r_displaymode, "DmRaid": r_dmraid, "DriverDisk": r_driverdisk,
    "Eula": r_eula, "Fcoe": dup_rule(["nic"]), "Firstboot": r_firstboot, "Group": dup_rule(["name"]),
    "HardDrive": r_harddrive, "IgnoreDisk": r_ignoredisk, "Install": r_upgrade, "Upgrade": r_upgrade,
    "Interactive": flag_rule("interactive"), "IscsiName": r_iscsiname, "Key": r_key, "Keyboard": r_keyboard,
    "Lang": r_lang, "LangSupport": r_langsupport, "LiloCheck": flag_rule("check"), "Logging": r_logging,
    "LogVol": r_logvol, "MediaCheck": flag_rule("mediacheck"), "Mount": r_mount, "Mouse": r_mouse,
    "MultiPath": r_multipath, "Network": r_network, "Nvdimm": r_nvdimm, "OSTreeSetup": r_ostree,
    "Partition": r_partition, "Raid": r_raid, "Realm": r_realm, "Reboot": r_reboot, "Repo": r_repo,
    "ReqPart": r_reqpart, "Rescue": r_rescue, "RHSM": r_rhsm, "RootPw": r_rootpw, "Services": r_services,
    "SkipX": flag_rule("skipx"), "Snapshot": r_snapshot, "SshKey": r_sshkey, "SshPw": r_sshpw,
    "Timesource": r_timesource, "Timezone": r_timezone,
    "UnsupportedHardware": flag_rule("unsupported_hardware"), "Updates": r_updates, "Url": r_url,
    "User": dup_rule(["name"]), "Vnc": r_vnc, "VolGroup": r_volgroup,
    "ZFCP": None, "ZeroMbr": r_zerombr,
}


def r_zfcp(m, sp, st, cmd, items, raw, warns):
    d = new_data(sp, strict(sp, items, warns))
    key = ["devnum", "wwpn", "fcplun"] + ([] if sp.has("F12") else ["scsiid", "scsilun"])
    if any(all(e[k] == d[k] for k in key) for e in st.data):
        warns.append("parse")
    st.data.append(d)


RULES["ZFCP"] = r_zfcp


# ---------------------------------------------------------------- rendering
def render_items(items):
    """The argument tokens (unquoted) of a line, in --opt=value form."""
    out = []
    for it in items:
        if it[0] == "p":
            out.append(it[1])
        elif it[2] is None:
            out.append(it[1])
        else:
            out.append("%s=%s" % (it[1], it[2]))
    return out


SAFE = re.compile(r"^[A-Za-z0-9_@%+=:,./^~!*?{}\[\]-]+$")


def quote(tok, style=0):
    if tok and SAFE.match(tok):
        if style == 0:
            return tok
    if style == 2 and "'" not in tok:
        return "'" + tok + "'"
    return '"' + tok.replace("\\", "\\\\").replace('"', '\\"') + '"'


def render(cmd, items):
    """Canonical source text of a line: --opt=value, double quotes only where needed."""
    out = [cmd]
    for it in items:
        if it[0] == "p":
            out.append(quote(it[1]))
        elif it[2] is None:
            out.append(it[1])
        else:
            out.append("%s=%s" % (it[1], quote(it[2])))
    return " ".join(out)
