"""C24: objects built from settings given as keywords equal the ones parsed from text."""
import copy

from kv import doc, gen, norm, oracle, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a command, entry, script or whole handler rebuilt from the settings of a parsed one; non-trivial when at "
        "least one setting differs from its default; distinct by (version, source lines, chosen settings)")
ASSUMPTIONS = ["settings are the documented attributes of kv/grammar.json; leftovers of the argument parser on parsed "
               "objects are not settings",
               "the comment with the old spelling of a keyboard line is not a setting"]
SKIP = {"seen", "lineno"}
# keywords a class stopped accepting: warned about, otherwise ignored
REMOVED = {"XConfig": {"F9": ["card", "hsync", "monitor", "noProbe", "server", "vsync"],
                       "F10": ["driver", "resolution", "videoRam"]},
           "Partition": {"F9": ["bytesPerInode"], "F11": ["start", "end"]},
           "LogVol": {"F9": ["bytesPerInode"]}, "Raid": {"F9": ["bytesPerInode"]}}


def settings(sp, o):
    """The documented settings of a command object."""
    return {k: getattr(o, k) for k in sp.fresh_attrs() if k not in SKIP and k not in M.NOT_DATA and hasattr(o, k)}


def data_settings(sp, d):
    return {k: getattr(d, k) for k in sp.data["attrs"] if k not in SKIP and k not in M.NOT_DATA and hasattr(d, k)}


def derived(sp, o, kw):
    """Drop what is computed from other settings."""
    if sp.suffix == "Network" and sp.has("F18"):
        kw.pop("hostname", None)
    if sp.suffix == "Keyboard" and sp.has("F18") and (o.vc_keymap or o.x_layouts):
        kw.pop("keyboard", None)


def written(o):
    """The text of an object, without the remark about the old spelling."""
    return "".join(l for l in str(o).splitlines(True) if not l.startswith(("# old format", "# new format")))


def parsed(src, version, cmd, lo=1, hi=3):
    lines, _m = doc.command_lines(src, version, lo, hi, pool=[cmd], density=src.choice([8, 20, 40, 70]), rt=True)
    if not lines:
        raise Discard
    text = "".join(t + "\n" for _c, _i, t in lines)
    h = real.small_handler(version, [cmd])
    src.desc.update(version=version, text=text)
    try:
        real.parse(h, text)
    except real.E.KickstartError as e:
        raise Violation("rejected: %s" % e)
    return h, h.commands[cmd], text


def want_attrs(o, want, what):
    for k, v in want.items():
        got = getattr(o, k, "<missing>")
        if not (got == v and isinstance(got, bool) == isinstance(v, bool)):
            raise Violation("%s: %s is %r, given %r" % (what, k, got, v))


def construct(cls, kw, what, warns=0):
    with real.catch() as rec:
        o = cls(**kw)
    if len(rec) != warns:
        raise Violation("%s: warnings %r" % (what, [str(w.message) for w in rec]))
    return o


JUNK = {"noSuchSetting": 1, "another_one": ["x"]}


def entries(src, cls):
    """A list entry from its settings: by constructor, by call, or some by each, or only some of them."""
    version, cmd = doc.at(src, cls)
    sp = M.spec(version, cmd)
    h, o, text = parsed(src, version, cmd)
    d = src.choice(o.dataList())
    T = type(d)
    kw = data_settings(sp, d)
    fresh = data_settings(sp, construct(T, {}, "empty"))
    how = src.choice(["constructor", "call", "both", "partial", "partial call", "attributes"])
    src.desc.update(settings={k: repr(v) for k, v in kw.items() if fresh.get(k) != v}, route=how)
    extra = dict(JUNK) if src.chance(30) else {}
    if how == "constructor":
        n = construct(T, dict(kw, **extra), how)
    elif how == "call":
        n = construct(T, {}, how)
        n(**dict(kw, **extra))
    elif how == "attributes":
        n = construct(T, {}, how)
        for k in src.shuffle(sorted(kw)):
            setattr(n, k, kw[k])
    elif how == "both":
        first = set(src.subset(sorted(kw)))
        n = construct(T, dict({k: v for k, v in kw.items() if k in first}, **extra), how)
        n(**{k: v for k, v in kw.items() if k not in first})
    else:
        some = set(src.subset(sorted(kw)))
        kw = {k: v if k in some else fresh[k] for k, v in kw.items()}
        part = dict({k: v for k, v in kw.items() if k in some}, **extra)
        n = construct(T, part if how == "partial" else {}, how)
        if how != "partial":
            n(**part)
    for k in extra:
        if hasattr(n, k):
            raise Violation("an unknown keyword became the attribute %s" % k)
    want_attrs(n, kw, how)
    if not how.startswith("partial"):
        if str(n) != str(d):
            raise Violation("%s: writes %r, parsed one writes %r" % (how, str(n), str(d)))
    return {"nontrivial": kw != fresh, "key": (version, text, how, repr(sorted(kw.items()))), "sample": [version, text, how]}


def commands(src, cls):
    """A command from its settings (and its list of entries)."""
    version, cmd = doc.at(src, cls)
    sp = M.spec(version, cmd)
    h, o, text = parsed(src, version, cmd)
    T = type(o)
    kw = settings(sp, o)
    f = construct(T, {}, "empty")
    f.handler = h
    fresh = settings(sp, f)
    how = src.choice(["constructor", "call", "both", "partial", "partial call", "attributes"])
    src.desc.update(settings={k: repr(v) for k, v in kw.items() if fresh.get(k) != v}, route=how)
    derived(sp, o, kw)
    if sp.listattr:
        if o.dataList() is not getattr(o, sp.listattr):
            raise Violation("dataList is not the list of entries")
        kw[sp.listattr] = list(o.dataList())
        fresh[sp.listattr] = []
    extra = dict(JUNK) if src.chance(30) else {}
    first = set(src.subset(sorted(kw)))
    some = {k: v for k, v in kw.items() if k in first}
    rest = {k: v for k, v in kw.items() if k not in first}
    part = how.startswith("partial")
    n = construct(T, dict({"constructor": kw, "both": some, "partial": some}.get(how, {}), **extra), how)
    n.handler = h
    if how == "attributes":
        for k in src.shuffle(sorted(kw)):
            setattr(n, k, kw[k])
    elif how in ("call", "both", "partial call"):
        n(**dict({"call": kw, "both": rest, "partial call": some}[how], **extra))
        if n.seen is not True:
            raise Violation("%s: a called command does not count as used" % how)
    n.seen = True
    for k in extra:
        if hasattr(n, k):
            raise Violation("an unknown keyword became the attribute %s" % k)
    if part:
        kw = dict({k: fresh[k] for k in rest if k in fresh}, **some)
        if sp.suffix == "OSTreeSetup" and "osname" in some:
            kw.pop("remote", None)      # defaults to the name
    want_attrs(n, kw, how)
    if not part and written(n) != written(o):
        raise Violation("%s: writes %r, parsed one writes %r" % (how, str(n), str(o)))
    if n.dataList() is not None and not part:
        if [id(x) for x in n.dataList()] != [id(x) for x in o.dataList()]:
            raise Violation("the list of entries reads back differently")
    return {"nontrivial": kw != fresh, "key": (version, text, how, repr(sorted(some)) if part else ""),
            "sample": [version, text, how]}


def build(version, g, h, pool, src):
    """Populate handler h with what g holds, through keywords."""
    done = set()
    for c in src.shuffle(pool):
        sp = M.spec(version, c)
        if sp.cls in done or not g.commands[c].seen:
            continue
        done.add(sp.cls)
        o, n = g.commands[c], h.commands[c]
        kw = settings(sp, o)
        if sp.listattr:
            for d in o.dataList():
                n.dataList().append(n.dataClass(**data_settings(sp, d)))
            kw.pop(sp.listattr, None)
        derived(sp, o, kw)
        n(**kw)
    for s in g.scripts:
        h.scripts.append(real.Script(s.script if src.chance(50) else s.script.splitlines(True), type=s.type,
                                     interp=s.interp, inChroot=s.inChroot, logfile=s.logfile,
                                     errorOnFail=s.errorOnFail, lineno=s.lineno))
    for k, v in real.public(g.packages).items():
        if k == "groupList":
            v = [real.Group(name=x.name, include=x.include) for x in v]
        setattr(h.packages, k, v)
    h.platform = g.platform


def handlers(src, version):
    """A whole handler populated through keywords writes the kickstart of the parsed one, which means the same."""
    pool = [c for c in doc.pool_of(version) if c != "lilo"]
    lines, _m = doc.command_lines(src, version, 1, 8, pool=pool, density=src.choice([8, 20, 40]), rt=True)
    lines = [l for l in lines if "--nolinear" not in l[2]]
    if not lines:
        raise Discard
    cmds = sorted({c for c, _i, _t in lines})
    out = [t for _c, _i, t in lines]
    if M.NUM[version] >= doc.F8:
        for _ in range(src.int(0, 2)):
            out += doc.section_lines(doc.section(src, M.NUM[version], kinds=("script", "packages")))
    text = "".join(t + "\n" for t in out)
    src.desc.update(version=version, text=text)
    full = src.chance(10)
    g, h, k = [real.full_handler(version) if full else real.small_handler(version, cmds) for _ in range(3)]
    if state.run(g, text=text).err is not None:
        raise Discard
    build(version, g, h, cmds, src)
    a, b = written(g), written(h)
    if a != b:
        raise Violation("the populated handler writes %r, the parsed one %r" % (b, a))
    r = state.run(k, text=str(h))
    if r.err is not None:
        raise Violation("the written kickstart is rejected: %s" % r.err)
    x, y = real.snapshot(g, version, cmds, M), real.snapshot(k, version, cmds, M)
    state.same(norm.snap(y, version, cmds), norm.snap(x, version, cmds), "read back versus populated")
    return {"nontrivial": bool(lines), "key": (version, text), "sample": [version, text]}


def removed(src, stratum):
    """A keyword a class no longer takes is warned about and ignored, in constructor and call."""
    version, cmd, names = stratum
    sp = M.spec(version, cmd)
    h, o, text = parsed(src, version, cmd)
    x = o.dataList()[0] if o.dataList() else o
    T, get = type(x), data_settings if o.dataList() else settings
    kw = get(sp, x)
    bad = src.subset(names, 40) or [names[0]]
    with real.catch() as rec:
        n = T(**dict(kw, **{k: "x" for k in bad}))
    ks = [w for w in real.warn_kinds(rec)]
    if ks != ["parse"] * len(bad) or not all(any("'%s'" % k in str(w.message) for w in rec) for k in bad):
        raise Violation("removed keywords %r: warnings %r" % (bad, [str(w.message) for w in rec]))
    m = T()
    m(**dict(kw, **{k: "x" for k in bad}))
    for y in (n, m):
        if any(hasattr(y, k) for k in bad):
            raise Violation("a removed keyword became a setting")
        want_attrs(y, kw, "with removed keywords")
    return {"key": (version, text, tuple(bad)), "sample": [version, text, bad]}


def scripts(src, version):
    """Script and Group objects from keywords, against the parsed ones."""
    s = doc.script(src, quotes=True)
    want = doc.script_expect(s, None)
    if want is None:
        raise Discard
    h = real.small_handler(version, ["lang"])
    text = "".join(l + "\n" for l in doc.section_lines(s))
    src.desc.update(version=version, text=text)
    r = state.run(h, text=text)
    if r.err is not None or len(h.scripts) != 1:
        raise Violation("not accepted as one script: %s" % r.err)
    kw = {k: v for k, v in want.items() if k not in ("script", "lineno")}
    for k, dflt in (("interp", "/bin/sh"), ("logfile", None), ("errorOnFail", False), ("inChroot", False)):
        if kw[k] == dflt and src.chance(50):
            del kw[k]
    if kw["type"] == M.const("KS_SCRIPT_PRE") and src.chance(50):
        del kw["type"]
    body = want["script"]
    n = real.Script(src.choice([body, body.splitlines(True), [body], tuple(body)]), **kw)
    got = doc.script_actual(n)
    if got != dict(want, lineno=None):
        raise Violation("holds %r, expected %r" % (got, want))
    if str(n) != str(h.scripts[0]):
        raise Violation("writes %r, parsed one writes %r" % (str(n), str(h.scripts[0])))
    cut = body[:-1]
    if not cut.endswith("\n") and str(real.Script(cut, **kw)) != str(n):
        raise Violation("without its last newline the script writes %r" % str(real.Script(cut, **kw)))
    return {"nontrivial": bool(kw), "key": text, "sample": text}


def removed_strata():
    out = []
    for v in M.VERSIONS:
        for c in doc.normal_commands(v):
            sp = M.spec(v, c)
            names = [n for since, ns in REMOVED.get(sp.suffix, {}).items() if sp.has(since) for n in ns]
            if names:
                out.append((v, c, names))
    return out


CLS = sorted(doc.CLASSES)
DATA = [c for c in CLS if M.spec(*doc.CLASSES[c][0]).data is not None]
F8UP = [v for v in M.VERSIONS if M.NUM[v] >= doc.F8]
TESTS = [Test("entries", entries, DATA, n=(40, 1000), weight=lambda c: 1 + doc.richness(c)),
         Test("commands", commands, CLS, n=(20, 500), weight=lambda c: 1 + doc.richness(c)),
         Test("handlers", handlers, M.VERSIONS, n=(60, 1500)),
         Test("removed", removed, removed_strata(), n=(4, 60)),
         Test("scripts", scripts, F8UP, n=(20, 300))]
