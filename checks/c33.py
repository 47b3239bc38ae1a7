"""C33: entries, sources and groups compare by what identifies them."""
from kv import doc, gen, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation
from kv.real import Group

RULE = ("a case is two objects of one class, one parsed from a line, the other from the same or another line and with "
        "some settings replaced; non-trivial when at least one setting differs; distinct by (version, lines, changes)")
ASSUMPTIONS = ["only objects of one class and version are compared; the identifying settings are listed in KEYS"]

# what identifies an object, by command; the names a version does not have are left out
KEYS = {"BTRFS": ["mountpoint"], "Device": ["moduleName"], "DmRaid": ["name", "devices"], "Fcoe": ["nic"],
        "Group": ["name"], "HardDrive": ["biospart", "partition", "dir"],
        "Liveimg": ["url", "proxy", "noverifyssl", "checksum"], "LogVol": ["vgname", "name"], "Module": ["name", "stream"],
        "Mount": ["mount_point"], "NFS": ["server", "dir", "opts"], "Network": ["device"],
        "Nvdimm": ["action", "namespace", "blockdevs"], "Partition": ["mountpoint"], "Raid": ["device"], "Repo": ["name"],
        "Snapshot": ["name", "origin", "when"], "SshKey": ["username"], "SshPw": ["username"],
        "Url": ["url", "proxy", "noverifyssl", "mirrorlist", "metalink"], "User": ["name"], "VolGroup": ["vgname"],
        "ZFCP": ["devnum", "wwpn", "fcplun", "scsiid", "scsilun"]}


def key_names(sp):
    have = sp.data["attrs"] if sp.data is not None else sp.fresh_attrs()
    return [k for k in KEYS[sp.suffix] if k in have]


def objects(src, version, cmd, items):
    """A fresh object parsed from the line."""
    h = real.small_handler(version, [cmd])
    t = gen.text(version, cmd, items)
    if state.run(h, text=t + "\n").err is not None:
        raise Discard
    o = h.commands[cmd]
    return (o.dataList()[-1] if M.spec(version, cmd).data is not None else o), t


def absent(o, what):
    for x in (None, "", 0, [], False):
        if o == x or not o != x:
            raise Violation("%s equals %r" % (what, x))


def law(a, b, want, what):
    got = [a == b, b == a, not a != b, not b != a, a in [b], b in [a]]
    if any(bool(g) != want for g in got):
        raise Violation("%s: ==, reversed, not !=, reversed, in, reversed give %r, expected %r" % (what, got, want))


def near(src, v):
    """A value that is not v, but close to it."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + src.choice([1, -1, 1000])
    if isinstance(v, list):
        return src.choice([v + ["kv"], v[:-1], v[::-1], v + v, [], [str(x) + "x" for x in v]])
    if isinstance(v, str):
        return src.choice([v + "X", v.swapcase(), v + " ", " " + v, v + "/", "/" + v, v[:-1], v[::-1], "", v + v,
                           "/dev/" + v, v.lower(), "0" + v])
    return src.choice(["kv", 0, "", None])


def pairs(src, cls):
    version, cmd = doc.at(src, cls)
    sp = M.spec(version, cmd)
    names = key_names(sp)
    a, ta = objects(src, version, cmd, gen.line(src, version, cmd, valid=97, density=src.choice([10, 40]), deprecated=0)[1])
    c, tc = objects(src, version, cmd, gen.line(src, version, cmd, valid=97, density=src.choice([10, 40]), deprecated=0)[1])
    # b starts as another object parsed from a's line, and takes over some of c's settings
    h = real.small_handler(version, [cmd])
    state.run(h, text=ta + "\n")
    o = h.commands[cmd]
    b = o.dataList()[-1] if sp.data is not None else o
    law(a, b, True, "%r twice" % ta)
    attrs = [k for k in (sp.data["attrs"] if sp.data is not None else sp.fresh_attrs())
             if k not in M.NOT_DATA and k not in ("seen", "lineno", sp.listattr) and hasattr(c, k) and hasattr(b, k)]
    other = [k for k in attrs if k not in names]
    took = src.subset(other, src.choice([30, 100])) + (src.subset(names, 50) if src.chance(60) else [])
    for k in took:
        setattr(b, k, getattr(c, k))
    odd = []
    if src.chance(50):
        # a value that nothing else has
        k = src.choice(names if src.chance(60) else attrs)
        v = getattr(b, k)
        setattr(b, k, near(src, v))
        odd.append(k)
    texts = [k for k in names if isinstance(getattr(b, k), str)]
    if len(texts) > 1 and src.chance(25):
        # the same characters, shared out differently
        i = src.below(len(texts) - 1)
        p, q, r = (src.choice(["a", "vg", "x1"]) for _ in range(3))
        sep = src.choice(["-", "", "/", ".", ":", "_", " ", ",", "--"])
        for o2, v, w in ((a, p + sep + q, r), (b, p, q + sep + r)):
            setattr(o2, texts[i], v)
            setattr(o2, texts[i + 1], w)
        odd += texts[i:i + 2]
    if src.chance(50):
        b.lineno = src.int(0, 50)
    want = all(getattr(a, k) == getattr(b, k) for k in names)
    src.desc.update(version=version, line=ta, other=tc, taken=took, changed=odd)
    law(a, b, want, "%r against one with %s" % (ta, ", ".join(took + odd)))
    law(b, b, True, "the object itself")
    law(a, a, True, "the object itself")
    absent(a, ta)
    absent(b, ta)
    differ = any(getattr(a, k) != getattr(b, k) for k in attrs)
    return {"nontrivial": differ, "key": (version, ta, tc, tuple(took), tuple(odd)), "sample": [version, ta, took + odd, want],
            "labels": ["equal" if want else "different"]}


def timesources(src, version):
    """Two time sources are the same if they are of the same kind, name and protocol."""
    def one():
        k = src.below(3)
        nts = src.chance(40)
        name = src.choice(["a.org", "b.org", "a"])
        items = [("o", "--ntp-server", name), ("o", "--ntp-pool", name), ("o", "--ntp-disable", None)][k]
        ident = (k, name, nts) if k < 2 else (k,)
        return [items] + ([("o", "--nts", None)] if nts else []), ident
    (ia, ka), (ib, kb) = one(), one()
    a, ta = objects(src, version, "timesource", ia)
    b, tb = objects(src, version, "timesource", ib)
    src.desc.update(version=version, first=ta, second=tb)
    law(a, b, ka == kb, "%r and %r" % (ta, tb))
    absent(a, ta)
    return {"nontrivial": ta != tb, "key": (version, ta, tb), "sample": [ta, tb]}


def groups(src, _s):
    """Groups are equal and ordered by name, whatever their level."""
    pool = doc.GROUPS + doc.ENVS + ["", "a b", "a  b", "B", "é"]
    lv = [M.const(x) for x in ("GROUP_REQUIRED", "GROUP_DEFAULT", "GROUP_ALL")]
    gs = [Group(name=src.choice(pool) if src.chance(70) else src.text("abAB -", 0, 3), include=src.choice(lv))
          for _ in range(src.int(2, 6))]
    src.desc.update(groups=[g.name for g in gs])
    for a in gs:
        for b in gs:
            x, y = a.name, b.name
            got = (a < b, a <= b, a == b, a != b, a > b, a >= b)
            if got != (x < y, x <= y, x == y, x != y, x > y, x >= y):
                raise Violation("%r against %r: <, <=, ==, !=, >, >= are %r" % (x, y, got))
    if [g.name for g in sorted(gs)] != sorted(g.name for g in gs):
        raise Violation("sorted as %r" % [g.name for g in sorted(gs)])
    order = [gs.index(g) for g in sorted(gs)]
    if [gs.index(g) for g in sorted(gs, reverse=True)][::-1] != order and len({g.name for g in gs}) == len(gs):
        raise Violation("the reverse order differs")
    return {"nontrivial": len({g.name for g in gs}) > 1, "key": repr([(g.name, g.include) for g in gs]),
            "sample": [g.name for g in gs]}


CLS = [c for c in sorted(doc.CLASSES) if M.spec(*doc.CLASSES[c][0]).suffix in KEYS and
       (M.spec(*doc.CLASSES[c][0]).data is not None or
        M.spec(*doc.CLASSES[c][0]).suffix in ("HardDrive", "Liveimg", "NFS", "Url", "Device"))]
TS = [v for v in M.VERSIONS if "timesource" in doc.normal_commands(v)]
TESTS = [Test("pairs", pairs, CLS, n=(25, 800), weight=lambda c: 1 + doc.richness(c)),
         Test("timesources", timesources, TS, n=(80, 600)),
         Test("groups", groups, n=(500, 6000))]
