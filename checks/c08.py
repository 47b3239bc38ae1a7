"""C08: the package selection is the set the %packages lines describe, the last mention winning."""
from kv import doc, oracle, real
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is one or more %packages sections; non-trivial when at least two entries were processed; distinct by "
        "(version, text)")
ASSUMPTIONS = ["names contain no # and no line breaks"]


def check(h, m):
    got, want = doc.pkg_actual(h.packages), m.state()
    for k in want:
        if got[k] != want[k] or isinstance(got[k], bool) != isinstance(want[k], bool):
            raise Violation("%s is %r, expected %r" % (k, got[k], want[k]))
    if len(set(got["packages"])) != len(got["packages"]) or len(set(got["excluded"])) != len(got["excluded"]):
        raise Violation("a package is listed twice")


def written(h, m, version):
    """The written section, read by hand, names the same selection."""
    text = str(h.packages)
    num = M.NUM[version]
    if not m.seen:
        if text:
            raise Violation("a packages section is written although there was none")
        return text
    lines = text.split("\n")
    hdr = [l for l in lines if l.startswith("%packages")]
    if len(hdr) != 1:
        raise Violation("%d section headers written" % len(hdr))
    if (num >= doc.F8) != (lines.count("%end") == 1):
        raise Violation("%end rule not followed in the output")
    i = lines.index(hdr[0])
    body = [l for l in lines[i + 1:] if l and l != "%end"]
    st = m.state()
    want = ["@^" + m.env] if m.env and not st["default"] else []
    suffix = {M.const("GROUP_REQUIRED"): " --nodefaults", M.const("GROUP_ALL"): " --optional",
              M.const("GROUP_DEFAULT"): ""}
    want += ["@" + n + suffix[l] for n, l in st["groups"]]
    want += st["packages"]
    want += ["-@" + n for n in st["excludedGroups"]]
    want += ["-" + n for n in st["excluded"]]
    if sorted(body) != sorted(want):
        raise Violation("written entries %r, expected %r" % (body, want))
    return text


def sections(src, version):
    num = M.NUM[version]
    m = doc.PkgModel(num)
    out, n, warns = [], 0, []
    for _ in range(src.int(1, 3)):
        while True:
            s = doc.packages(src, num, 0, src.choice([3, 8, 20]))
            break
        warns += m.header(s["opts"])
        out.append(s["header"])
        for l in s["body"]:
            m.line(l)
            n += 1
            out.append(l)
        out.append("%end")
        if src.chance(20):
            out.append(src.choice(["", "# x", "cdrom"]))
    text = "\n".join(out) + "\n"
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, ["cdrom"])
    err, rw = oracle.real_run(h, text)
    if err is not None:
        raise Violation("rejected: %s" % err)
    if sorted(rw) != sorted(warns):
        raise Violation("warnings %r, expected %r" % (rw, warns))
    check(h, m)
    w = written(h, m, version)
    h2 = real.small_handler(version, ["cdrom"])
    err, _rw = oracle.real_run(h2, w)
    src.desc["written"] = w
    if err is not None:
        raise Violation("the written section is rejected: %s" % err)
    if m.a["default"]:
        m.env = None
    check(h2, m)
    return {"nontrivial": n > 1, "key": text, "sample": text}


def dense(src, version):
    """Few names, many mentions: inclusion and exclusion fight over the same entries."""
    m = doc.PkgModel(M.NUM[version])
    m.header([])
    names = src.choice([["a", "b", "@g", "@h", "@^e", "@^f", "a*"], ["a", "A", "@g", "@G", "@^e", "@^E", "a-"],
                        ["@g", "@^g", "g", "@g g"], ["a.b", "a", "aa", "@a", "@aa", "@^aa"]])
    body = [src.choice(["", "-"]) + src.choice(names) for _ in range(src.int(2, 10))]
    cut = src.below(len(body) + 1) if src.chance(40) else None
    out = ["%packages"]
    for i, l in enumerate(body):
        if i == cut:
            out += ["%end", "%packages"]
            m.header([])
        if l.startswith("@") and not l.startswith("@^") and src.chance(20):
            l += src.choice([" --nodefaults", " --optional"])
        m.line(l)
        out.append(l)
    text = "\n".join(out + ["%end"]) + "\n"
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, ["cdrom"])
    err, _rw = oracle.real_run(h, text)
    if err is not None:
        raise Violation("rejected: %s" % err)
    check(h, m)
    written(h, m, version)
    return {"key": text, "sample": text}


def bad(src, version):
    """Lines that name nothing or contradict themselves are errors."""
    body = [doc.pkg_line(src) for _ in range(src.int(0, 3))]
    body.insert(src.below(len(body) + 1), src.choice(["-", " - ", "-   # x", "@g --nodefaults --optional",
                                                      "@a b --optional --nodefaults"]))
    text = "\n".join(["%packages"] + body + ["%end"]) + "\n"
    src.desc.update(version=version, text=text)
    err, _rw = oracle.real_run(real.small_handler(version, ["cdrom"]), text)
    if not isinstance(err, real.E.KickstartParseError):
        raise Violation("accepted, or reported as %r" % err)
    return {"key": text, "sample": text}


def header(src, version):
    num = M.NUM[version]
    opts = doc.pkg_header(src, num, valid=src.chance(70), density=src.choice([5, 25]))
    fl = doc.pkg_flags(num)
    if any(f not in fl and any(g.startswith(f) for g in fl) for f, _v in opts):
        raise Discard
    m = doc.PkgModel(num)
    try:
        warns = m.header(opts)
    except M.Reject:
        warns = None
    text = doc.pkg_header_text(opts) + "\nvim\n%end\n"
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, ["cdrom"])
    err, rw = oracle.real_run(h, text)
    if (err is None) != (warns is not None):
        raise Violation("header is %s, expected the opposite: %s" % ("accepted" if err is None else "refused", err))
    if warns is not None:
        if sorted(warns) != sorted(rw):
            raise Violation("warnings %r, expected %r" % (rw, warns))
        m.line("vim")
        check(h, m)
    return {"nontrivial": bool(opts), "key": text, "sample": text,
            "labels": ["accepted" if warns is not None else "refused"]}


TESTS = [Test("sections", sections, M.VERSIONS, n=(200, 4000)),
         Test("dense", dense, M.VERSIONS, n=(150, 4000)),
         Test("bad", bad, M.VERSIONS, n=(10, 100)),
         Test("header", header, M.VERSIONS, n=(80, 1500))]
