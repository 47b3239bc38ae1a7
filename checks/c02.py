"""C02: every syntax version accepts exactly its own commands and options."""
from kv import doc, gen, oracle, real
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is one command name or one (version, command, option) use; non-trivial when the name or option exists "
        "in some version; distinct by (version, source line)")
ASSUMPTIONS = ["the frozen table kv/grammar.json is the documented grammar of each version",
               "options are written in full: unambiguous abbreviations, which argparse would complete, are not used"]

ALLNAMES = sorted({c for v in M.VERSIONS for c in M.commands(v)} - doc.SKIP)
OTHER = ["nosuch", "Part", "LANG", "parts", "urls", "xlang", "net", "lan", "language", "rootpwd", "users", "diskette",
         "part/", "autopart2", "-part", "timezones"]
# options of every command over all the versions
UNION = {}
for _v in M.VERSIONS:
    for _c in M.commands(_v):
        for _o in M.spec(_v, _c).opts:
            for _f in _o["flags"]:
                UNION.setdefault(_c, {}).setdefault(_f, _o)


def names(src, version):
    """The set of names a version knows."""
    h = real.full_handler(version)
    have, want = set(h.commands), set(M.commands(version))
    if have != want:
        raise Violation("%s knows %s besides its commands, and lacks %s" % (
            version, sorted(have - want), sorted(want - have)))
    return {"key": version, "sample": "%d commands" % len(want)}


def command(src, version):
    """One name that this version may or may not know."""
    cmd = src.choice(ALLNAMES) if src.chance(85) else src.choice(OTHER)
    known = cmd in M.commands(version)
    src.desc.update(version=version, command=cmd)
    if not known:
        text = cmd + src.choice(["", " x", " --foo", " --foo=bar"]) + "\n"
        src.desc["line"] = text
        err, rw = oracle.real_run(real.full_handler(version), text)
        if not isinstance(err, real.E.KickstartParseError):
            raise Violation("%s accepts the command %r it does not have: %r" % (version, cmd, err))
        return {"nontrivial": cmd in ALLNAMES, "key": (cmd, text), "sample": text}
    _c, items = gen.line(src, version, cmd, valid=100, deprecated=0)
    h, mh = real.full_handler(version), M.ModelHandler(version)
    oracle.check_line(src, version, cmd, items, mh, h)
    return {"key": (cmd, gen.text(version, cmd, items)), "sample": gen.text(version, cmd, items)}


def obsolete(src, version):
    """Deprecated commands warn and have no effect; removed ones are errors."""
    pool = [c for c in M.commands(version) if M.spec(version, c).kind != "normal" and c not in doc.SKIP]
    if not pool:
        raise Discard
    cmd = src.choice(pool)
    kind = M.spec(version, cmd).kind
    text = cmd + src.choice(["", " foo", " --opt", " --opt=val x y", " --device=eth0"]) + "\n"
    src.desc.update(version=version, line=text)
    h = real.small_handler(version, [cmd])
    before = str(h)
    err, rw = oracle.real_run(h, text)
    if kind == "removed":
        if not isinstance(err, real.E.KickstartParseError):
            raise Violation("the removed command is accepted")
    else:
        if err is not None:
            raise Violation("a deprecated command is rejected: %s" % err)
        if rw != ["dep"]:
            raise Violation("warnings for a deprecated command: %r" % rw)
        if str(h) != before:
            raise Violation("a deprecated command has an effect on the output")
    return {"key": text, "sample": text}


def option(src, stratum):
    """One option of the command, taken from all the versions: present here or not."""
    version, cmd = stratum
    sp = M.spec(version, cmd)
    flags = sorted(UNION[cmd])
    flag = src.choice(flags)
    if flag in sp.byflag:
        o = sp.byflag[flag]
        _c, items = gen.line(src, version, cmd, valid=100, opts=[o])
    else:
        o = UNION[cmd][flag]
        _c, items = gen.line(src, version, cmd, valid=100, density=5)
        # argparse completes abbreviations: an absent option that starts a present one is not absent
        if any(f.startswith(flag) for f in sp.byflag):
            raise Discard
        it = gen.opt_item(src, sp, dict(o, flags=[flag]), 100)
        # argparse takes a word with a space in it for an operand
        items = items + [(it[0], it[1], "_".join(it[2].split()) if it[2] else it[2])]
    h, mh = real.small_handler(version, [cmd]), M.ModelHandler(version)
    ok = oracle.check_line(src, version, cmd, items, mh, h)
    return {"key": gen.text(version, cmd, items), "sample": gen.text(version, cmd, items),
            "labels": ["present" if flag in sp.byflag else "absent", "accepted" if ok else "rejected"]}


def lines(src, stratum):
    """A whole line of the command, anything the grammar allows."""
    version, cmd = stratum
    _c, items = gen.line(src, version, cmd, valid=97, density=src.choice([10, 40]), deprecated=25)
    h, mh = real.small_handler(version, [cmd]), M.ModelHandler(version)
    ok = oracle.check_line(src, version, cmd, items, mh, h)
    return {"key": gen.text(version, cmd, items), "sample": gen.text(version, cmd, items),
            "labels": ["accepted" if ok else "rejected"]}


SECTION_FLAGS = ["--erroronfail", "--interpreter", "--log", "--logfile", "--nochroot"] + doc.ALL_PKG_FLAGS + ["--nosuch", "--chroot"]


def sections(src, version):
    """One header option of a section, taken from all the versions and sections: present here or not."""
    num = M.NUM[version]
    tag = src.choice(doc.SCRIPT_TAGS + ["%packages"] * 3)
    flag = src.choice(SECTION_FLAGS)
    valued = flag in doc.PKG_VALUED or flag in ("--interpreter", "--log", "--logfile")
    text = "%s %s%s\n%s\n%%end\n" % (tag, flag, "=" + src.choice(["7", "12"]) if valued else "",
                                  src.choice(["vim", "emacs", ""]))
    src.desc.update(version=version, text=text)
    warns = []
    if tag == "%packages":
        known = flag in doc.pkg_flags(num)
        if known:
            warns = doc.PkgModel(num).header([(flag, "7" if valued else None)])
    else:
        known = flag in SECTION_FLAGS[:4] or flag == "--nochroot" and tag == "%post"
        if known and tag == "%traceback" and num >= doc.F34:
            warns = ["dep"]
    err, rw = oracle.real_run(real.full_handler(version) if src.chance(10) else real.small_handler(version, ["lang"]), text)
    if known:
        if err is not None:
            raise Violation("%s has %s %s, but rejects it: %s" % (version, tag, flag, err))
        if sorted(rw) != sorted(warns):
            raise Violation("warnings %r, expected %r" % (rw, warns))
    elif not isinstance(err, real.E.KickstartParseError) or err.lineno != 1:
        raise Violation("%s has no %s %s, but: %r" % (version, tag, flag, err))
    return {"key": (version, text), "sample": text, "labels": ["section option"]}


PAIRS = [(v, c) for v in M.VERSIONS for c in doc.normal_commands(v)]
OPTPAIRS = [(v, c) for v, c in PAIRS if UNION.get(c) and M.spec(v, c).suffix not in gen.RAW | {"Realm", "DeviceProbe"}]
TESTS = [Test("names", names, M.VERSIONS, n=(1, 1)),
         Test("command", command, M.VERSIONS, n=(50, 500)),
         Test("obsolete", obsolete, M.VERSIONS, n=(20, 100)),
         Test("option", option, OPTPAIRS, n=(25, 400)),
         Test("sections", sections, M.VERSIONS, n=(250, 2500)),
         Test("lines", lines, PAIRS, n=(5, 100))]
