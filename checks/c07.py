"""C07: scripts are kept verbatim, in order, with the settings of their headers; %end rules."""
from kv import doc, oracle, real
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a document with script sections; non-trivial when at least one script has a non-blank body; distinct by "
        "(version, text)")
ASSUMPTIONS = ["script lines contain no NUL and no line separators other than LF or CRLF"]


def filler(src, version):
    return src.choice(["", "# comment", "cdrom", "   ", "lang en_US"])


def compare(h, want):
    got = [doc.script_actual(x) for x in h.scripts]
    if len(got) != len(want):
        raise Violation("%d scripts, expected %d" % (len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        for k in w:
            if g[k] != w[k] or isinstance(g[k], bool) != isinstance(w[k], bool):
                raise Violation("script %d: %s is %r, expected %r" % (i + 1, k, g[k], w[k]))


def by_type(h):
    """The scripts as the installer runs them: per type, in document order."""
    d = {}
    for s in h.scripts:
        d.setdefault(s.type, []).append(s.script)
    return d


def warns_of(version, secs):
    return ["dep" for s in secs if s["tag"] == "%traceback" and M.NUM[version] >= doc.F34]


def document(src, version):
    nl = "\r\n" if src.chance(8) else "\n"
    lines, want, secs = [], [], []
    old = M.NUM[version] < doc.F8
    unclosed = old and src.chance(40)
    nsec = src.int(1, 4)
    for i in range(nsec):
        while src.chance(25) and not (unclosed and lines):
            lines.append(filler(src, version))
        s = doc.script(src, quotes=True)
        if src.chance(25):
            s["body"] = doc.script_body(src, 5, 30)
        secs.append(s)
        e = doc.script_expect(s, len(lines) + 1)
        if e is not None:
            e["script"] = e["script"].replace("\n", nl)
            want.append(e)
        lines += doc.section_lines(s, end=not unclosed)
        if not unclosed and src.chance(10):
            lines[-1] = src.choice(["%end ", "  %end", "%end # done", "\t%end"])
    tail = "" if (src.chance(15) and not (unclosed and (not lines[-1]))) else nl
    text = nl.join(lines) + tail
    if unclosed and not tail and want and secs[-1]["body"] and doc.script_expect(secs[-1]):
        want[-1]["script"] = want[-1]["script"][:-len(nl)]
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, ["cdrom", "lang"])
    err, rw = oracle.real_run(h, text)
    if err is not None:
        raise Violation("rejected: %s" % err)
    if sorted(rw) != sorted(warns_of(version, secs)):
        raise Violation("warnings %r" % rw)
    compare(h, want)
    # written out and read again
    h2 = real.small_handler(version, ["cdrom", "lang"])
    s1 = str(h)
    src.desc["written"] = s1
    err, _w = oracle.real_run(h2, s1)
    if err is not None:
        raise Violation("the written scripts are rejected: %s" % err)
    a, b = [doc.script_actual(x) for x in h.scripts], [doc.script_actual(x) for x in h2.scripts]
    for e in a + b:
        del e["lineno"]
        if old:
            e["script"] = e["script"].rstrip()
        elif not e["script"].endswith("\n"):
            e["script"] += "\n"
    if a != b:
        raise Violation("scripts changed by writing: %r -> %r" % (a, b))
    return {"nontrivial": bool(want), "key": text, "sample": text}


def ends(src, version):
    """A section that is not closed: an error from F8 on, implicitly closed before."""
    s = doc.script(src)
    body = [l for l in s["body"]] or ["echo x"]
    follow = src.choice(["eof", "script", "packages", "addon"])
    lines = [filler(src, version) for _ in range(src.int(0, 2))]
    hl = len(lines) + 1
    s["body"] = body
    lines += [s["header"]] + body
    nxt = None
    second = []
    if follow == "script":
        nxt = doc.script(src, body=["echo second"])
        second = doc.section_lines(nxt)
    elif follow == "packages":
        second = ["%packages", "vim", "%end"]
    elif follow == "addon":
        second = ["%addon x", "data", "%end"]
    text = "\n".join(lines + second) + "\n"
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, ["cdrom", "lang"])
    err, _w = oracle.real_run(h, text)
    if M.NUM[version] >= doc.F8:
        if not isinstance(err, real.E.KickstartParseError):
            raise Violation("a section without %%end is accepted (%r)" % err)
        if follow != "eof" and err.lineno != len(lines) + 1:
            raise Violation("missing %%end reported on line %r, expected %d" % (err.lineno, len(lines) + 1))
        if h.scripts:
            raise Violation("an unterminated script was kept")
        return {"key": text, "sample": text, "labels": ["error"]}
    if err is not None:
        raise Violation("rejected: %s" % err)
    want = [doc.script_expect(s, hl)]
    if nxt:
        want.append(doc.script_expect(nxt, len(lines) + 1))
    compare(h, [w for w in want if w])
    if follow == "packages" and h.packages.packageList != ["vim"]:
        raise Violation("the section after an unclosed script is lost")
    return {"key": text, "sample": text, "labels": ["implicit end"]}


def stray(src, version):
    """%end outside a section is an error; so is a section header with unknown options."""
    text = "\n".join([filler(src, version) for _ in range(src.int(0, 2))] + ["%end"]) + "\n"
    err, _w = oracle.real_run(real.small_handler(version, ["cdrom", "lang"]), text)
    src.desc.update(version=version, text=text)
    if not isinstance(err, real.E.KickstartParseError):
        raise Violation("%%end outside a section is accepted (%r)" % err)
    return {"key": text, "sample": text}


def accumulate(src, version):
    """Several documents into one handler: scripts add up, in order."""
    h = real.small_handler(version, ["cdrom", "lang"])
    p = real.KickstartParser(h)
    want = []
    for _ in range(src.int(2, 3)):
        lines = []
        for _ in range(src.int(0, 2)):
            s = doc.script(src)
            e = doc.script_expect(s, len(lines) + 1)
            if e:
                want.append(e)
            lines += doc.section_lines(s)
        text = "\n".join(lines) + "\n"
        src.desc.setdefault("texts", []).append(text)
        with real.catch():
            p.readKickstartFromString(text)
    compare(h, want)
    return {"nontrivial": bool(want), "key": src.desc["texts"], "sample": src.desc["texts"]}


TESTS = [Test("document", document, M.VERSIONS, n=(250, 5000)),
         Test("ends", ends, M.VERSIONS, n=(60, 1000)),
         Test("stray", stray, M.VERSIONS, n=(5, 30)),
         Test("accumulate", accumulate, M.VERSIONS, n=(60, 600))]
