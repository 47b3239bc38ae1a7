"""C12: with non-fatal errors every good line still counts and every bad one is reported and counted once."""
import contextlib
import copy
import io

from checks import c11
from kv import doc, gen, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a document with one or more bad lines; non-trivial when it also has a good command or section; "
        "distinct by (version, text)")
ASSUMPTIONS = ["settings of a command that had a rejected line are compared only as far as its list entries go",
               "a rejected storage command may still count as used, so it is not mixed with accepted ones",
               "the contents of a section whose header was rejected are not constrained",
               "errors that leave the parser without a context (unknown section, missing %end, unbalanced quotes) "
               "always raise"]
MARK = "KVMARK"
STORAGE = set(real.STORAGE)


def bad_line(src, version, pool):
    """A line rejected whatever came before.  -> (text, command or None)"""
    for _ in range(30):
        k = src.below(5)
        if k == 0:
            return src.choice(["nosuchcommand", "nosuch --a=b c", "Part /", "langx en_US", "--foo", "1 2"]), None
        cmd = src.choice(pool)
        sp = M.spec(version, cmd)
        if k == 1 and sp.suffix not in gen.RAW | {"Realm"}:
            _c, items = gen.line(src, version, cmd, valid=100, density=8, deprecated=0)
            items = items + [("o", "--nosuchoption", src.choice([None, "x"]))]
        else:
            _c, items = gen.line(src, version, cmd, valid=35, density=20, deprecated=0)
        if any(it[0] == "o" and it[2] is None and it[1] in sp.byflag and sp.byflag[it[1]]["nargs"] != 0
               for it in items):
            continue
        t = gen.text(version, cmd, items)
        try:
            M.ModelHandler(version).run(cmd, items, t)
        except M.Reject:
            return t, cmd
    raise Discard


def alone(version, cmd, line, text):
    """The error the line gives by itself on its line number."""
    h = real.small_handler(version, [cmd] if cmd else [])
    r = state.Result()
    try:
        r = state.run(h, text="\n" * (line - 1) + text + "\n")
    except ValueError:
        raise Discard
    if r.err is None:
        raise Violation("accepted: %s" % text)
    return r.err


def build(src, version, bad_sections=True):
    """-> rows [(text lines, bad text or None, cmd)], used commands"""
    num = M.NUM[version]
    pool = [c for c in doc.pool_of(version) if c != "lilo"]
    if src.chance(60):
        goodpool = src.shuffle(pool)[:src.int(1, 8)]
    else:
        goodpool = pool
    storage_good = src.chance(50)
    gp = [c for c in goodpool if c != "lang" and (storage_good or c not in STORAGE)] or ["cdrom"]
    # a rejected line may leave marks on its command: only commands that keep entries are also used by good lines
    entries = [c for c in pool if M.spec(version, c).data is not None]
    bp = [c for c in pool if (c in entries or c not in gp) and not (storage_good and c in STORAGE)]
    keep = src.choice(sorted(STORAGE & set(bp))) if STORAGE & set(bp) else None
    bp = [c for c in bp if c not in STORAGE or M.spec(version, c).cls == M.spec(version, keep).cls]
    if src.chance(50):
        bp = [c for c in bp if c in goodpool] or bp
    mh = M.ModelHandler(version)
    rows, good, bads = [], {}, {}
    n = src.int(1, 9)
    sure = src.below(n)
    for i in range(n):
        if src.chance(25):
            rows.append((src.choice(c11.FILL), None, None))
        if i == sure or src.chance(35):
            if bad_sections and src.chance(15):
                tag = src.choice(doc.SCRIPT_TAGS + ["%packages"])
                hdr = tag + src.choice([" --nosuch", " --nosuch=1 --log=/x"])
                body = [] if tag == "%packages" else [MARK + " %d" % i] if src.chance(60) else []
                rows.append((hdr, "section", body))
            else:
                t, cmd = bad_line(src, version, bp)
                rows.append((t, "command", cmd))
                if cmd:
                    bads[cmd] = 1
                    if cmd not in entries:
                        bp = [c for c in bp if M.spec(version, c).cls != M.spec(version, cmd).cls] or ["lang"]
        elif src.chance(70):
            cmd = src.choice(gp)
            _c, items = gen.line(src, version, cmd, valid=100, density=8, deprecated=0)
            t = gen.text(version, cmd, items)
            trial = copy.deepcopy(mh)
            try:
                warns = trial.run(cmd, items, t)
            except M.Reject:
                continue
            mh = trial
            good[cmd] = 1
            rows.append((t, None, "dep" if "dep" in warns else None))
        else:
            s = doc.section(src, num)
            for l in doc.section_lines(s):
                rows.append((l, "in", None))
    return rows, good, bads


def render(rows):
    """-> text, text without the bad lines, [(line, bad text, cmd)], line of the first one"""
    full, clean, at = [], [], []
    for t, kind, extra in rows:
        full.append(t)
        if kind == "command":
            at.append((len(full), t, extra))
            clean.append("")
        elif kind == "section":
            at.append((len(full), t, "section"))
            clean.append("")
            for l in extra + ["%end"]:
                full.append(l)
                clean.append("")
        else:
            clean.append(t)
    return "".join(l + "\n" for l in full), "".join(l + "\n" for l in clean), at


def summary(h, version, good, bads):
    """What is compared: everything of untouched commands, the entries of the others, scripts and packages."""
    cls = {M.spec(version, c).cls for c in bads}
    untouched = [c for c in good if M.spec(version, c).cls not in cls]
    s = state.whole(h, version, untouched, lineno=True, written=False)
    s["scripts"] = [x for x in s["scripts"] if not x["script"].startswith(MARK)]
    s["lines"] = {c: h.commands[c].lineno for c in untouched}
    s["entries"] = {}
    for c in list(good) + list(bads):
        sp = M.spec(version, c)
        if sp.kind == "normal" and sp.data is not None and c not in untouched:
            s["entries"][c] = [dict(real.data_snapshot(d, sp, M), lineno=getattr(d, "lineno", None))
                               for d in h.commands[c].dataList()]
    return s


def expect_errors(version, at, clean):
    errs = []
    for line, t, cmd in at:
        if cmd == "section":
            r = state.run(real.small_handler(version, []), text="\n" * (line - 1) + t + "\n%end\n")
            if r.err is None:
                raise Violation("accepted: %s" % t)
            errs.append(r.err)
        else:
            errs.append(alone(version, cmd, line, t))
        if errs[-1].lineno != line:
            raise Violation("reported on line %r instead of %d: %s" % (errs[-1].lineno, line, t))
    return errs


def nonfatal(src, version):
    rows, good, bads = build(src, version)
    text, clean, at = render(rows)
    src.desc.update(version=version, text=text, bad=[t for _l, t, _c in at])
    errs = expect_errors(version, at, clean)
    cmds = sorted(set(good) | set(bads)) + ["cdrom"]
    h, g = real.small_handler(version, cmds), real.small_handler(version, cmds)
    r = state.run(h, text=text, errorsAreFatal=False)
    if r.err is not None:
        raise Violation("raised although errors are not fatal: %s" % r.err)
    if r.count != len(at):
        raise Violation("%d errors counted, expected %d" % (r.count, len(at)))
    want = "".join(str(e) + "\n" for e in errs)
    if r.stderr != want:
        raise Violation("printed %r, expected %r" % (r.stderr, want))
    r2 = state.run(g, text=clean, errorsAreFatal=src.chance(50))
    if r2.err is not None or r2.count or r2.stderr:
        raise Violation("the good lines alone are rejected: %s %s" % (r2.err, r2.stderr))
    state.same(summary(h, version, good, bads), summary(g, version, good, bads), "with bad lines versus without")
    str(h)
    return {"nontrivial": bool(good) or bool(g.scripts), "key": text, "sample": text,
            "labels": ["several"] if len(at) > 1 else []}


def fatal(src, version):
    """The first bad line stops everything: what precedes it is applied, what follows is not."""
    rows, good, bads = build(src, version)
    text, clean, at = render(rows)
    first = at[0][0]
    prefix = "".join(l + "\n" for l in text.splitlines()[:first - 1])
    src.desc.update(version=version, text=text, first=first)
    want = expect_errors(version, at[:1], clean)[0]
    cmds = sorted(set(good) | set(bads)) + ["cdrom"]
    h, g = real.small_handler(version, cmds), real.small_handler(version, cmds)
    r = state.run(h, text=text)
    if r.err is None:
        raise Violation("no error although line %d is bad" % first)
    if type(r.err) is not type(want) or r.err.lineno != first or str(r.err) != str(want):
        raise Violation("%r, expected %r" % (str(r.err), str(want)))
    if r.count != 1 or r.stderr:
        raise Violation("%d errors counted, printed %r" % (r.count, r.stderr))
    if state.run(g, text=prefix).err is not None:
        raise Violation("what precedes the first bad line is rejected")
    firstbad = {at[0][2]: 1} if at[0][2] not in (None, "section") else {}
    allc = {c: 1 for c in cmds}
    state.same(summary(h, version, allc, firstbad), summary(g, version, allc, firstbad), "stopped versus prefix")
    # the parser and handler can be used again
    t2 = "".join(l + "\n" for l, k, _e in rows if k == "in")
    if t2:
        before = len(h.scripts)
        r3 = state.run(h, text=t2, parser=r.parser)
        k = real.small_handler(version, cmds)
        state.run(k, text=t2)
        if r3.err is not None:
            raise Violation("after an error the parser rejects good sections: %s" % r3.err)
        if [x["script"] for x in map(doc.script_actual, h.scripts[before:])] != [
                x["script"] for x in map(doc.script_actual, k.scripts)]:
            raise Violation("after an error the parser reads scripts differently")
    return {"nontrivial": first > 1, "key": text, "sample": text}


def across_files(src, version):
    """Bad lines in included files count in the same way."""
    rows, good, bads = build(src, version, bad_sections=False)
    flat = [(t, kind, extra) for t, kind, extra in rows]
    cuts = [i for i in range(len(flat) + 1) if not (0 < i < len(flat) and flat[i - 1][1] == "in"
                                                    and flat[i][1] == "in")]
    a = src.choice(cuts)
    b = src.choice([c for c in cuts if c >= a])
    inner, outer = flat[a:b], flat[:a] + [None] + flat[b:]
    with state.scratch() as root:
        ti, ci, ati = render(inner)
        out, clean, ato = [], [], []
        for r in outer:
            if r is None:
                out.append("%%include %s/inc.ks" % root)
                clean.append("%%include %s/inc2.ks" % root)
                ato.append(None)
                continue
            out.append(r[0])
            clean.append("" if r[1] == "command" else r[0])
            if r[1] == "command":
                ato.append((len(out), r[0], r[2]))
        text, ctext = "".join(l + "\n" for l in out), "".join(l + "\n" for l in clean)
        at = []
        for x in ato:
            at += ati if x is None else [x]
        deep = src.choice([0, 0, 1, 2, 3, 5])                   # files that only include the next one
        for name, t in (("inc", ti), ("inc2", ci)):
            for i in range(deep):
                state.put("%s/%s.ks" % (root, name + "-" * i), "# level %d\n%%include %s/%s.ks\n\n" % (
                    i, root, name + "-" * (i + 1)))
            state.put("%s/%s.ks" % (root, name + "-" * deep), t)
        src.desc.update(version=version, text=text, included=ti, deep=deep)
        errs = expect_errors(version, at, clean)
        cmds = sorted(set(good) | set(bads)) + ["cdrom"]
        h, g = real.small_handler(version, cmds), real.small_handler(version, cmds)
        fromfile = src.chance(50)
        state.put(root + "/main.ks", text)
        r = state.run(h, path=root + "/main.ks", errorsAreFatal=False) if fromfile else \
            state.run(h, text=text, errorsAreFatal=False)
        if r.err is not None:
            raise Violation("raised although errors are not fatal: %s" % r.err)
        if r.count != len(at):
            raise Violation("%d errors counted, expected %d" % (r.count, len(at)))
        want = "".join(str(e) + "\n" for e in errs)
        if r.stderr != want:
            raise Violation("printed %r, expected %r" % (r.stderr, want))
        r2 = state.run(g, text=ctext)
        if r2.err is not None:
            raise Violation("the good lines alone are rejected: %s" % r2.err)
        state.same(summary(h, version, good, bads), summary(g, version, good, bads), "with bad lines versus without")
    return {"nontrivial": bool(ati), "key": text.replace(root, "") + ti, "sample": [text.replace(root, ""), ti]}


def always(src, version):
    """A missing %end and an unknown section stop the parser even when errors are not fatal."""
    rows, good, bads = build(src, version, bad_sections=False)
    text, _clean, at = render(rows)
    n = len(text.splitlines())
    k = src.below(3)
    if k == 0 or M.NUM[version] < doc.F8:
        text += "%nosuch x\nfoo\n%end\n"
        line = n + 1
    elif k == 1:
        text += "%pre\necho\n"
        line = n + 2
    else:
        text += "%post\necho\n%packages\n%end\n"
        line = n + 3
    expect_errors(version, at, "")
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, sorted(set(good) | set(bads)) + ["cdrom"])
    r = state.run(h, text=text, errorsAreFatal=False)
    if r.err is None or r.err.lineno != line:
        raise Violation("expected an error on line %d, got %s" % (line, r.err))
    return {"key": text, "sample": text}


class Refused(Exception):
    """An error of the application's own."""


def own(src, version):
    """A command of the application's rejects its line with an exception of any kind."""
    kinds = [Refused, ValueError, KeyError, TypeError, RuntimeError, OSError, real.E.KickstartError,
             real.E.KickstartParseError, real.E.KickstartVersionError]
    cmds = [c for c in ("cdrom", "timezone", "keyboard", "reboot", "user", "group") if c in doc.normal_commands(version)]
    victims = src.shuffle(["keyboard", "timezone", "reboot"])[:src.int(1, 2)]
    rows, raised = [], {}
    for i in range(src.int(2, 10)):
        k = src.below(10)
        if k < 4:
            rows.append(("bad", src.choice(victims), src.choice(kinds), "why %d" % i))
        elif k < 7 and "user" in cmds:
            rows.append(("user", "user --name=u%d" % i, None, "u%d" % i))
        elif k < 9:
            rows.append(("fill", src.choice(c11.FILL + ["cdrom"]), None, None))
        else:
            rows.append(("fill", "%%post\n%s %d\n%%end" % (src.choice(victims), i), None, None))
    fatal_ = src.chance(40)
    lines, bad, at = [], [], 1
    for kind, t, cls, extra in rows:
        if kind == "bad":
            exc = cls(extra) if cls is not real.E.KickstartParseError else cls(extra, lineno=at)
            raised[at] = exc
            bad.append((at, exc))
            t = "%s x%d" % (t, at)
        lines.append(t)
        at += t.count("\n") + 1
    text = "".join(l + "\n" for l in lines)
    src.desc.update(version=version, text=text, fatal=fatal_, raised=[repr(e) for _l, e in bad])

    def fresh():
        h = real.small_handler(version, cmds)
        for v in victims:
            cmd = h.commands[v]
            # the application's command is a subclass instance with a parse of its own

            class Own(type(cmd)):
                def parse(self, args):
                    raise raised[self.lineno]
            mine = Own()
            h.commands[v] = mine
            mine.handler = h
        return h

    h = fresh()
    parser = real.KickstartParser(h, errorsAreFatal=fatal_)
    out = io.StringIO()
    got = None
    with real.catch(), contextlib.redirect_stderr(out):
        try:
            parser.readKickstartFromString(text)
        except Exception as e:      # pylint: disable=broad-except
            got = e
    users = [x for k, _t, _c, x in rows if k == "user"]
    if fatal_ and bad:
        if got is not bad[0][1]:
            raise Violation("%r came out instead of %r" % (got, bad[0][1]))
        want_count, want_err = 1, ""
        before = []
        for kind, t, _cls, x in rows:
            if kind == "bad":
                break
            if kind == "user":
                before.append(x)
        users = before
    else:
        if got is not None:
            raise Violation("raised although errors are not fatal: %r" % got)
        want_count, want_err = len(bad), "".join("%s\n" % e for _l, e in bad)
    if parser.errorsCount != want_count:
        raise Violation("%d errors counted, expected %d" % (parser.errorsCount, want_count))
    if out.getvalue() != want_err:
        raise Violation("printed %r, expected %r" % (out.getvalue(), want_err))
    have = [u.name for u in h.commands["user"].userList] if "user" in cmds else []
    if have != users:
        raise Violation("users %s, expected %s" % (have, users))
    if not (fatal_ and bad):
        n = sum(1 for k, t, _c, _x in rows if k == "fill" and t.startswith("%post"))
        if len(h.scripts) != n:
            raise Violation("%d scripts, expected %d" % (len(h.scripts), n))
    return {"nontrivial": bool(bad), "key": text + str(fatal_), "sample": [text, [repr(e) for _l, e in bad]]}


TESTS = [Test("nonfatal", nonfatal, M.VERSIONS, n=(100, 3000)),
         Test("fatal", fatal, M.VERSIONS, n=(60, 1500)),
         Test("across_files", across_files, M.VERSIONS, n=(40, 1000)),
         Test("own", own, M.VERSIONS, n=(30, 800)),
         Test("always", always, M.VERSIONS, n=(12, 200))]
