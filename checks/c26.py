"""C26: any text is either accepted or rejected with a kickstart error, and what was accepted can be written."""
import os
import shlex

from kv import doc, findings, gen, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation

KNOWN = findings.ids("C26")
known = findings.reporter("C26")
RULE = ("a case is one text in one version with one set of parser switches; non-trivial when it has at least one line that "
        "is neither blank nor a comment; distinct by (version, text, switches)")
ASSUMPTIONS = ["unbalanced quotes may be reported as ValueError (the library's documented lexer behaviour)",
               "files do not include themselves",
               "the written text is read back only for texts without quotes, empty values and operands that start with a dash, "
               "which many options cannot express in writing"]
VALS = ["", "0", "1", "-1", "-5", "99999999999999999999", "1.5", "a", "A", "a,b", ",", ",,", "a=b", "=", "==", "a b", " ",
        "none", "all", "swap", "/", "/a", "//", "/boot", "sda", "sda1,sdb", "true", "no", "%", "%s", "%d", "%(x)s", "{}",
        "$x", "\u0661", "é", "☃", "\x7f", "a:b", "a:b:c", ":", "::", "auto", "static", "dhcp", "RAID1", "raid.01", "pv.01",
        "btrfs.1", "--", "-", "---", "--x", "-x", "@", "@x", "1,2", "on", "off", "*", "?", "[a", "(", "a;b", "a@b", "a@b,c@d",
        "bond0", "vlan", "ip4", "http://x", "0x10", "1e5", "inf", "nan", "None", "True", "#x", "a#b", "mode=a;b=c", "a@'{'",
        "UUID=1", "LABEL=x", "md0", "md", "mdx", "d", "80:tcp", "80:", ":tcp", "80-81:udp", "+5", "5 ", "1_0", "٣", "1,,2"]
TAME = [v for v in VALS if v and not set(v) & set(" '\"#\\") and not v.startswith("-")]


def check(src, version, text, cmds, tame=False, full=False, **kw):
    """The law itself.  -> the verdict"""
    src.desc.update(version=version, text=text, switches=kw)
    h = real.full_handler(version) if full else real.small_handler(version, cmds)
    p = real.KickstartParser(h, **kw)
    verdict = "accepted"
    try:
        r = state.run(h, text=text, parser=p)
        if r.err is not None:
            verdict = "rejected"
            str(r.err)
    except ValueError as e:
        if unbalanced(text):
            verdict = "unbalanced"
        elif old_raid(version, text, e):
            verdict = "known"
        else:
            raise
    written = str(h)
    if verdict == "accepted" and tame and not kw:
        g = real.full_handler(version) if full else real.small_handler(version, cmds)
        try:
            r = state.run(g, text=written)
        except ValueError as e:
            raise Violation("the written text %r is not readable: %s" % (written, e))
        if r.err is not None:
            raise Violation("the written text is rejected: %s\n%s" % (r.err, written))
    return verdict


def unbalanced(text):
    for l in text.splitlines(True):
        try:
            shlex.split(l, comments=True)
        except ValueError:
            return True
    return False


def old_raid(version, text, e):
    """Known finding: raid before F19 reports a device that is not a number as a plain ValueError."""
    return "raid-device-valueerror" in KNOWN and "raid" in M.commands(version) and not M.spec(version, "raid").has("F19") \
        and "invalid literal for int()" in str(e) and any(l.split()[:1] == ["raid"] and "--d" in l
                                                          for l in text.splitlines())


def quote(t):
    if t == "" or set(t) & set(" '\"#\\;"):
        return "'" + t.replace("'", "") + "'"
    return t


def mutate(src, toks, flags, vals):
    """Disturb the words of a command line."""
    toks = list(toks)
    for _ in range(src.choice([0, 1, 1, 2, 3])):
        k = src.below(20)
        j = src.int(1, len(toks) - 1) if len(toks) > 1 else None
        if k < 7 and flags:
            toks.insert(src.int(1, len(toks)), src.choice(flags) + src.choice(["", "=", "="]).replace(
                "=", "=" + src.choice(vals)))
        elif k < 11:
            toks.insert(src.int(1, len(toks)), src.choice(vals))
        elif j is None:
            continue
        elif k < 14:
            del toks[j]
        elif k < 17:
            v = src.choice(vals)
            toks[j] = toks[j].split("=")[0] + "=" + v if "=" in toks[j] else v
        elif k < 18:
            toks.append(toks[j])
        else:
            a = src.int(1, len(toks) - 1)
            toks[a], toks[j] = toks[j], toks[a]
    return toks


def a_line(src, version, cmd, vals):
    sp = M.spec(version, cmd)
    flags = [f for o in sp.opts for f in o["flags"]]
    if src.chance(5):
        other = src.choice(doc.pool_of(version))
        flags = [f for o in M.spec(version, other).opts for f in o["flags"]]
    toks = [cmd]
    if sp.kind == "normal" and src.chance(65):
        _c, items = gen.line(src, version, cmd, valid=90, density=src.choice([5, 20]), rt=True)
        try:
            toks = shlex.split(gen.text(version, cmd, items))
        except ValueError:
            pass
    return mutate(src, toks, flags, vals)


def beyond(t):
    """Is the word something the writer cannot express?  (See ASSUMPTIONS; a raid device called md has no name.)"""
    return bool(t in ("--", "-", "md", "") or t.endswith(("=", "=md")) or t.startswith("-") and not t.startswith("--") or
                set(t) & set(" '\"#\\"))


def words(src, version):
    """Command lines with disturbed words."""
    cmds = doc.pool_of(version, ("normal", "normal", "deprecated", "removed"))
    tame = src.chance(50)
    lines, used = [], set()
    for _ in range(src.choice([1, 1, 1, 2, 4])):
        c = src.choice(cmds)
        used.add(c)
        lines.append(a_line(src, version, c, TAME if tame else VALS))
    # what the writer can express: see ASSUMPTIONS
    dash = any(beyond(t) for l in lines for t in l[1:])
    text = "".join(" ".join([l[0]] + [quote(t) for t in l[1:]]) + "\n" for l in lines)
    kw = {"errorsAreFatal": False} if src.chance(20) else {}
    v = check(src, version, text, sorted(used), tame=not dash, **kw)
    return {"key": (version, text, repr(kw)), "sample": text, "labels": [v], "known": ["raid-device-valueerror"] if
            v == "known" else ()}


def each(src, cls):
    """The same for every implementation of a command."""
    version, cmd = doc.at(src, cls)
    toks = a_line(src, version, cmd, VALS)
    text = " ".join([cmd] + [quote(t) for t in toks[1:]]) + "\n"
    if src.chance(20):
        _c, items = gen.line(src, version, cmd, valid=100, density=10)
        text = src.choice([text * 2, gen.text(version, cmd, items) + "\n" + text])
    dash = any(beyond(t) for t in toks[1:]) or "'" in text or '"' in text
    v = check(src, version, text, [cmd], tame=not dash)
    return {"key": (version, text), "sample": text, "labels": [v], "known": ["raid-device-valueerror"] if
            v == "known" else ()}


HEADS = ["%packages", "%pre", "%post", "%addon", "%anaconda", "%traceback", "%onerror", "%pre-install", "%end", "%include",
         "%ksappend", "%nosuch", "%", "%%", "% end", "%End", "\"%pre\"", "'%end'", "%include ''", "%include /nonexistent/x",
         "%include /", "%ksappend /nonexistent/x", "%packages --nosuch", "%pre --interpreter", "%pre --log=", "%pre x",
         "%packages @x -y", "%addon --x 'a", "%pre #x", "%packages --default", "%packages --multilib --nocore",
         "%packages --instLangs=a,b", "%packages --retries=x", "%packages --timeout=-1", "%post --nochroot --log=/x"]
ODDLINES = ["''", '""', "'", '"', "\\", "\\\\", "'' ''", "\"\" x", "#", "#platform=", "#platform=x y", "#version=F99", "\ufeff",
            "\x00", "\x01 x", "\x0b", "\x0c", "\r", "\x85", "\u2028", "\u00a0", "\u00a0lang en_US", "lang\u00a0en_US", "-", "--",
            "--x", "-x", "@", "@ x", "@x --optional --nodefaults", "@^", "@^x", "-@", "-@^", "- x", "-@x --optional", "@x --nosuch",
            "@x 'y", "*", "kernel #c", "vim 'x", "a b c", "{", "}", "|", "&", ";", "`x`", "$(x)", "a" * 3000, "lang " * 50,
            "Lang en_US", "LANG", "None", "__init__", "handler", "packages", "scripts", "platform", "version", "%s%s%n",
            "\u202elang", "lang \udc80"]


def a_doc(src, version):
    cmds = doc.pool_of(version, ("normal", "deprecated", "removed"))
    pool = src.shuffle(cmds)[:4]
    num = M.NUM[version]
    lines = []
    for _ in range(src.int(1, 6)):
        k = src.below(10)
        if k < 3:
            c = src.choice(pool)
            lines.append(" ".join([c] + [quote(t) for t in a_line(src, version, c, VALS)[1:]]))
        elif k < 6:
            s = doc.section_lines(doc.section(src, num))
            if src.chance(25):
                s = [l for l in s if l.strip() != "%end"]
            lines += s
        elif k < 8:
            lines.append(src.choice(HEADS))
        else:
            lines.append(src.choice(ODDLINES))
    for _ in range(src.choice([0, 0, 1, 2])):
        if not lines:
            break
        i = src.below(len(lines))
        k = src.below(7)
        if k == 0:
            del lines[i]
        elif k == 1:
            lines.insert(src.below(len(lines) + 1), lines[i])
        elif k == 2:
            lines[i] = src.choice([" ", "\t", "  "]) + lines[i]
        elif k == 3 and lines[i]:
            j = src.below(len(lines[i]))
            lines[i] = lines[i][:j] + src.choice(["", "'", '"', " ", "\\", "#", "%", "=", "-", "\x00", "é", "\t", "\x0c"]) + \
                lines[i][j + src.below(2):]
        elif k == 4:
            lines[i] = lines[i] + src.choice([" #", "#", " '", "\\", " --", " %end", "\r", " \t"])
        elif k == 5 and i + 1 < len(lines):
            lines[i] = lines[i] + lines.pop(i + 1)
        else:
            lines[i] = lines[i][:src.below(len(lines[i]) + 1)]
    text = "\n".join(lines)
    if src.chance(80):
        text += "\n"
    if src.chance(5):
        text = text.replace("\n", src.choice(["\r\n", "\r", "\n\n", "\x0c", "\u2028"]))
    if src.chance(5):
        text = text[:src.below(len(text) + 1)]
    return text, pool


def switches(src):
    kw = {}
    if src.chance(50):
        for k in ("errorsAreFatal", "followIncludes", "missingIncludeIsFatal", "unknownSectionIsFatal"):
            if src.chance(35):
                kw[k] = False
    return kw


def documents(src, version):
    """Whole kickstarts with disturbed lines, sections and headers, with all parser switches."""
    text, pool = a_doc(src, version)
    kw = switches(src)
    v = check(src, version, text, pool, **kw)
    return {"nontrivial": any(l.strip() and not l.strip().startswith("#") for l in text.splitlines()),
            "key": (version, text, repr(kw)), "sample": text[:400], "labels": [v],
            "known": ["raid-device-valueerror"] if v == "known" else ()}


def again(src, version):
    """After any text, accepted or not, the same handler and parser go on working."""
    text, pool = a_doc(src, version)
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, pool + ["lang"])
    p = real.KickstartParser(h, **switches(src))
    old = False
    try:
        state.run(h, text=text, parser=p)
    except ValueError as e:
        old = old_raid(version, text, e)
        if not unbalanced(text) and not old:
            raise
    mark = "" if M.NUM[version] < doc.F8 else "%end\n"
    before = len(h.scripts)
    same = src.chance(50)
    q = p if same else real.KickstartParser(h)
    r = state.run(h, text="lang xx_YY\n%pre\necho again\n" + mark, parser=q)
    if r.err is not None:
        raise Violation("a good kickstart is rejected afterwards: %s" % r.err)
    if h.lang.lang != "xx_YY" or len(h.scripts) != before + 1 or h.scripts[-1].script != "echo again\n":
        raise Violation("a good kickstart has no effect afterwards: lang %r, scripts %r" % (
            h.lang.lang, [x.script for x in h.scripts[before:]]))
    if "lang xx_YY" not in str(h):
        raise Violation("the good kickstart is not written afterwards")
    return {"key": (version, text), "sample": text[:400], "known": ["raid-device-valueerror"] if old else ()}


def noise(src, mode):
    """Characters and bytes without any structure, as text or in a file, alone or included or appended."""
    version = src.choice(M.VERSIONS)
    alphabet = src.choice(["ab \n'\"\\#%=-@", "%ndep\n -", "\x00\x01\x7f\x85\u2028é☃\n ab", "lang\n %packages@^-*"])
    text = src.text(alphabet, 0, 60)
    src.desc.update(version=version, text=text)
    if mode == "text":
        v = check(src, version, text, ["lang", "part"], **switches(src))
        return {"key": (version, text), "sample": text, "labels": [v]}
    raw = text.encode("utf-8")
    if src.chance(40):
        i = src.below(len(raw) + 1)
        raw = raw[:i] + bytes([src.int(128, 255)]) + raw[i:]
    with state.scratch() as d:
        f = os.path.join(d, "ks.cfg")
        state.put(f, raw)
        src.desc.update(raw=repr(raw))
        if b"\n%include" in raw or raw.startswith(b"%include") or b"%ksappend" in raw:
            raise Discard
        h = real.small_handler(version, ["lang", "part"])
        try:
            if mode == "file":
                state.run(h, path=f)
            elif mode == "included":
                state.run(h, text=src.choice(["", "%packages\n", "%pre\n"]) + "%%include %s\n" % f)
            elif mode == "appended":
                try:
                    from pykickstart.parser import preprocessFromStringToString
                    preprocessFromStringToString("lang en\n%%ksappend %s\n" % f)
                except real.E.KickstartError:
                    pass
            else:
                try:
                    real.V.versionFromFile(f)
                except real.E.KickstartError:
                    pass
        except ValueError:
            if isinstance(raw, bytes) and not unbalanced(raw.decode("utf-8", "replace")):
                raise
        str(h)
    return {"key": (mode, raw), "sample": repr(raw)}


def raid_device(src, version):
    """Known finding."""
    text = "raid / --device=%s --level=0 raid.01 raid.02\n" % src.choice(["foo", "mdx", "md", "a1"])
    v = check(src, version, text, ["raid"])
    return {"key": (version, text), "sample": text, "known": ["raid-device-valueerror"] if v == "known" else ()}


OLDRAID = [v for v in M.VERSIONS if "raid" in M.commands(v) and not M.spec(v, "raid").has("F19")]
CLS = sorted(doc.CLASSES)
TESTS = [Test("words", words, M.VERSIONS, n=(700, 30000)),
         Test("each", each, CLS, n=(50, 2500), weight=lambda c: 1 + doc.richness(c)),
         Test("documents", documents, M.VERSIONS, n=(300, 10000)),
         Test("again", again, M.VERSIONS, n=(60, 2000)),
         Test("noise", noise, ["text", "text", "file", "included", "appended", "version"], n=(700, 20000)),
         Test("raid_device", raid_device, OLDRAID, n=(2, 4))]
