"""C22: sections the library does not interpret are passed through or refused, as asked."""
import re
import shlex

from kv import doc, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation
from pykickstart.sections import NullSection

RULE = ("a case is a document with foreign sections between other parts, and a parser; non-trivial when a foreign section "
        "has a body; distinct by the text and the parser's settings")
ASSUMPTIONS = ["a body does not contain the tag of a known section, %end or an include as the first word of a line, except "
               "where that is what the case is about",
               "lines end with LF; the spelling of the header's quotes may change, its words may not",
               "before F8 a foreign section may also be closed by the next known section"]
NAMES = ["%foo", "%my-section", "%pre2", "%Pre", "%post_x", "%package", "%packages2", "%x", "%addons", "%endy", "%ünï", "%%",
         "%includes", "%1", "%addon.x"]
CHARS = "ab \t\"'\\#%$&;|<>(){}[]=-_@^!~*?/.,:+0é\u2603"


def body_line(src):
    k = src.below(10)
    if k < 5:
        return src.choice(doc.NULL_BODY)
    l = src.text(CHARS, 0, 12)
    first = l.split()[:1]
    if first and first[0].startswith("%"):
        l = "x" + l
    return l


def word(src):
    k = src.below(10)
    if k < 6:
        return src.choice(["com_redhat_kdump", "--enable", "--reserve-mb=128", "x=1", "a", "-", "--"])
    return src.text("ab \t'#%$&;|=-é*?(", 1, 6)


def header(src, name):
    """-> (source text of the header, its words)"""
    args = [word(src) for _ in range(src.int(0, 4))]
    out = name
    for a in args:
        q = M.quote(a)
        if q == a and src.chance(15):
            q = src.choice(["'%s'", '"%s"']) % a if "'" not in a and '"' not in a else q
        out += src.choice([" ", " ", "  ", "\t"]) + q
    return out + src.choice(["", "", "", "  ", " # a comment"]), [name] + args


def foreign(src, name):
    h, words = header(src, name)
    return {"kind": "null", "header": h, "words": words, "body": [body_line(src) for _ in range(src.int(0, 6))]}


OWN = set(doc.SCRIPT_TAGS + ["%packages"])
TAGS = set(NAMES + ["%addon", "%anaconda"])


def written(h):
    """The foreign sections in what a handler writes: [[words, body]] in order."""
    out, cur = [], None
    early = h.version < doc.F8              # scripts and packages are written without %end
    for l in str(h).split("\n"):
        tag = (l.split() or [""])[0].strip("'") if l.startswith(("%", "'%")) else ""
        if cur is not None and early and cur[0] is None and tag in OWN | TAGS:
            cur = None
        if cur is not None:
            if l == "%end":
                if cur[0] is not None:
                    out.append(cur)
                cur = None
            else:
                cur[1].append(l)
        elif tag:
            cur = [None if tag in OWN else shlex.split(l, comments=True), []]
    return out


def document(src, version, names):
    """-> units: ("cmd", text) / ("own", section) / ("null", section); commands"""
    num = M.NUM[version]
    pool = [c for c in doc.pool_of(version) if c != "lilo"]
    cl, _mh = doc.command_lines(src, version, 0, 4, pool=pool, density=10, rt=True)
    units = [("cmd", [t]) for _c, _i, t in cl]
    for _ in range(src.int(0, 2)):
        s = doc.section(src, num, kinds=("script", "packages"))
        units.insert(src.below(len(units) + 1), ("own", doc.section_lines(s)))
    for _ in range(src.int(1, 4)):
        s = foreign(src, src.choice(names))
        units.insert(src.below(len(units) + 1), ("null", s))
    return units, sorted({c for c, _i, _t in cl})


def lines_of(units):
    """-> lines, and for each foreign section its first line number"""
    out, at = [], []
    for k, u in units:
        if k == "null":
            at.append((len(out) + 1, u))
            out += doc.section_lines(u)
        else:
            out += u
    return out, at


def expect_foreign(h, at):
    got = written(h)
    want = [[s["words"], s["body"]] for _l, s in at]
    if got != want:
        raise Violation("foreign sections written as\n%r\nexpected\n%r" % (got, want))


def passed(src, version):
    """Known foreign sections, registered ones and (if so configured) unknown ones."""
    names = ["%addon", "%anaconda"]
    mode = src.choice(["known", "known", "registered", "unknown", "unknown"])
    extra = src.shuffle(NAMES)[:src.int(1, 3)] if mode != "known" else []
    units, cmds = document(src, version, names + extra * 2)
    lines, at = lines_of(units)
    text = "".join(l + "\n" for l in lines)
    rest = "".join(l + "\n" for k, u in units if k != "null" for l in u)
    # a body that happens to contain one of the names
    for _l, s in at:
        if any(b.split()[:1] and b.split()[0] in extra for b in s["body"]):
            raise Discard
    h, g = (real.small_handler(version, cmds + ["cdrom"]) for _ in range(2))
    kw = {"unknownSectionIsFatal": mode != "unknown"}
    p = real.KickstartParser(h, **kw)
    if mode == "registered":
        for n in extra:
            p.registerSection(NullSection(h, sectionOpen=n))
    src.desc.update(version=version, text=text, mode=mode, names=extra)
    r = state.run(h, text=text, parser=p)
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    q = state.run(g, text=rest)
    if q.err is not None:
        raise Violation("the rest is rejected: %s" % q.err)
    first = {}
    for l, s in at:
        if s["words"][0] in extra:
            first.setdefault(s["words"][0], l)
    if mode == "unknown":
        mine = [m for m in r.messages if "unknown section" in m]
        others = [m for m in r.messages if "unknown section" not in m]
        if len(mine) != len(first):
            raise Violation("warnings %r for the unknown sections %r" % (mine, first))
        for m, (n, l) in zip(mine, sorted(first.items(), key=lambda x: x[1])):
            if n not in m or not re.search(r"\b%d\b" % l, m):
                raise Violation("the warning %r for %s on line %d" % (m, n, l))
        if r.warns.count("parse") - q.warns.count("parse") != len(first):
            raise Violation("kinds of warnings: %r" % r.warns)
    else:
        others = r.messages
    strip = lambda m: re.sub(r"\d+", "N", m)                        # noqa: E731
    if [strip(m) for m in others] != [strip(m) for m in q.messages]:
        raise Violation("warnings %r, without the sections %r" % (others, q.messages))
    state.same(state.whole(h, version, cmds, written=False), state.whole(g, version, cmds, written=False),
               "with and without the sections")
    expect_foreign(h, at)
    # the rest of the output is what it is without them
    def others_of(t):
        out, skip = [], False
        for l in t.split("\n"):
            if not skip and l.startswith(("%", "'%")) and shlex.split(l, comments=True)[0] not in doc.SCRIPT_TAGS + ["%packages"]:
                skip = True
            if not skip and l.strip():
                out.append(l)
            if l == "%end":
                skip = False
        return out
    if M.NUM[version] >= doc.F8 and others_of(str(h)) != others_of(str(g)):
        raise Violation("the rest of the output differs:\n%s\n%s" % (h, g))
    # and it is stable
    k = real.small_handler(version, cmds + ["cdrom"])
    r2 = state.run(k, text=str(h), unknownSectionIsFatal=False)
    if r2.err is not None:
        raise Violation("what was written is rejected: %s\n%s" % (r2.err, h))
    if M.NUM[version] >= doc.F8:
        expect_foreign(k, at)
    elif mode == "known" and [x[0] for x in written(k)] != [s["words"] for _l, s in at]:
        raise Violation("written twice: %s" % k)
    return {"nontrivial": any(s["body"] for _l, s in at), "key": (mode, text), "sample": text, "labels": [mode]}


def refused(src, version):
    """An unknown section is an error on its line, whatever else the parser forgives."""
    units, cmds = document(src, version, ["%addon", "%anaconda"])
    s = foreign(src, src.choice(NAMES))
    at = src.below(len(units) + 1)
    before = units[:at]
    lines, found = lines_of(before)
    body = doc.section_lines(s)
    tail, _x = lines_of(units[at:])
    text = "".join(l + "\n" for l in lines + body + tail)
    h, g = (real.small_handler(version, cmds + ["cdrom"]) for _ in range(2))
    lenient = src.chance(50)
    src.desc.update(version=version, text=text, lenient=lenient, line=len(lines) + 1)
    r = state.run(h, text=text, errorsAreFatal=not lenient, missingIncludeIsFatal=src.chance(50))
    if not isinstance(r.err, real.E.KickstartParseError):
        raise Violation("not a parse error: %r" % r.err)
    if r.err.lineno != len(lines) + 1 or s["words"][0] not in str(r.err):
        raise Violation("reported as %s" % r.err)
    q = state.run(g, text="".join(l + "\n" for l in lines))
    if q.err is not None:
        raise Violation("the part before is rejected: %s" % q.err)
    state.same(state.whole(h, version, cmds), state.whole(g, version, cmds), "what was read before the section")
    return {"nontrivial": bool(s["body"]), "key": text, "sample": text, "labels": ["lenient"] if lenient else []}


def ends(src, version):
    """How a foreign section ends: %end, the next known section or the end of the text."""
    num = M.NUM[version]
    s = foreign(src, src.choice(["%addon", "%anaconda", "%foo"]))
    while s["body"] and not s["body"][-1].strip():
        s["body"].pop()
    lead = src.choice([[], ["cdrom"], ["# x", ""]])
    nxt = src.choice(["eof", "eof bare", "section", "null"])
    lines = lead + doc.section_lines(s, end=False)
    t = foreign(src, "%anaconda")
    if nxt == "section":
        lines += ["%pre", "echo next", "%end"]
    elif nxt == "null":
        lines += doc.section_lines(t)
    text = "".join(l + "\n" for l in lines)
    if nxt == "eof bare":
        text = text[:-1]
    for x in (s, t):
        if any(b.split()[:1] == ["%foo"] for b in x["body"]):
            raise Discard
    h = real.small_handler(version, ["cdrom"])
    src.desc.update(version=version, text=text, ends=nxt)
    r = state.run(h, text=text, unknownSectionIsFatal=False, errorsAreFatal=src.chance(70))
    if num >= doc.F8:
        if not isinstance(r.err, real.E.KickstartParseError) or s["words"][0] not in str(r.err):
            raise Violation("a section that is not closed: %r" % r.err)
        if written(h):
            raise Violation("it is written all the same: %s" % h)
    else:
        if r.err is not None:
            raise Violation("rejected: %s" % r.err)
        expect_foreign(h, [(0, s)] + ([(0, t)] if nxt == "null" else []))
        if len(h.scripts) != (nxt == "section"):
            raise Violation("%d scripts" % len(h.scripts))
    return {"nontrivial": bool(s["body"]), "key": text, "sample": text, "labels": [nxt]}


def many(src, version):
    """One parser, several texts: sections add up in order; a section that fails leaves nothing behind."""
    p, names = None, ["%addon", "%anaconda", "%foo", "%x"]
    h = real.small_handler(version, ["cdrom"])
    want, texts = [], []
    for _ in range(src.int(2, 4)):
        s = foreign(src, src.choice(names))
        if any(b.split()[:1] and b.split()[0] in names for b in s["body"]):
            raise Discard
        lines = doc.section_lines(s)
        bad = src.chance(30)
        if bad:
            how = src.below(2)
            lines = lines[:-1] + (["%include"] if how else ["%include /nonexistent/kv"]) + ["more", "%end"]
        else:
            want.append((0, s))
        texts.append("".join(l + "\n" for l in lines))
        p = p or real.KickstartParser(h, unknownSectionIsFatal=False)
        r = state.run(h, text=texts[-1], parser=p)
        src.desc.update(version=version, texts=texts)
        if (r.err is not None) != bad:
            raise Violation("%r in %r" % (r.err, texts[-1]))
        expect_foreign(h, want)
    return {"key": repr(texts), "sample": texts}


def registering(src, version):
    """A section needs a tag that starts with a percent sign."""
    p = real.KickstartParser(real.small_handler(version, ["cdrom"]))
    tag = src.choice(["", None, "foo", " %x", "end%", "#%a"])
    src.desc["tag"] = tag
    try:
        p.registerSection(NullSection(p.handler, sectionOpen=tag))
    except TypeError:
        return {"key": tag, "sample": tag}
    raise Violation("the tag %r is accepted" % tag)


def ended(src, version):
    """A section an application registered begins where another one is not closed, as any known section would."""
    num = M.NUM[version]
    tag = src.choice(["%own", "%my-section", "%packages2", "%Pre", "%prex"])
    first = src.choice(["script", "packages", "foreign", "own2"])
    lead = src.choice([[], ["cdrom"], ["# x", ""], ["", "", "cdrom"]])
    body = [src.choice(["echo x", "abc", "x y z", "-foo"]) for _ in range(src.int(1, 3))]
    hdr = {"script": src.choice(doc.SCRIPT_TAGS), "packages": "%packages", "foreign": src.choice(["%addon x", "%anaconda"]),
           "own2": "%other"}[first]
    t = foreign(src, tag)
    if any(b.split()[:1] in (["%other"], [tag]) for b in t["body"]):
        raise Discard
    lines = lead + [hdr] + body + doc.section_lines(t)
    text = "".join(l + "\n" for l in lines)
    h = real.small_handler(version, ["cdrom"])
    p = real.KickstartParser(h)
    for n in src.shuffle([tag, "%other"]):
        p.registerSection(NullSection(h, sectionOpen=n))
    src.desc.update(version=version, text=text)
    r = state.run(h, text=text, parser=p)
    if num >= doc.F8:
        e = r.err
        if not isinstance(e, real.E.KickstartParseError) or hdr.split()[0] not in str(e) or e.lineno != len(lead) + len(body) + 2:
            raise Violation("a section that is not closed: %r on line %r" % (e, getattr(e, "lineno", None)))
    else:
        if r.err is not None:
            raise Violation("rejected: %s" % r.err)
        got = [x for x in str(h).split("\n") if x.split()[:1] == [tag]]
        if len(got) != 1:
            raise Violation("%d sections %s written, expected one: %s" % (len(got), tag, h))
        if first == "script" and (len(h.scripts) != 1 or h.scripts[0].script != "".join(b + "\n" for b in body)):
            raise Violation("scripts %r" % [x.script for x in h.scripts])
        if first == "packages" and len(set(h.packages.packageList + h.packages.excludedList)) != len(
                {b.lstrip("-") for b in body}):
            raise Violation("packages %r %r" % (h.packages.packageList, h.packages.excludedList))
    return {"key": text, "sample": text, "labels": [first]}


TESTS = [Test("passed", passed, M.VERSIONS, n=(60, 2000)), Test("refused", refused, M.VERSIONS, n=(30, 600)),
         Test("ends", ends, M.VERSIONS, n=(20, 300)), Test("many", many, M.VERSIONS, n=(20, 400)),
         Test("ended", ended, M.VERSIONS, n=(15, 200)),
         Test("registering", registering, M.VERSIONS[-1:], n=(8, 20))]
