"""C09: including a file is the same as writing its lines in place."""
import os

from kv import doc, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a document and a way of cutting it into nested included files; non-trivial when at least one file is "
        "included; distinct by (version, main text, files)")
ASSUMPTIONS = ["a file included inside a section does not start with a blank line, and ends with a newline if the section "
               "goes on after it (the repository's tests pin what happens otherwise)",
               "files do not include themselves; no file of the same relative name exists in the current directory"]
BAD = ["nosuchcommand x", "Part", "lang", "cdrom --nosuch", "timezone --bogus=1 x"]


class Line:
    """One line: text, and the section it is inside of (None in the command part or on a header)."""
    def __init__(self, text, sec=None, header=False):
        self.text, self.sec, self.header = text, sec, header


def flat(src, version, maxcmd=6, maxsec=3, rt=False):
    """-> (lines, commands used)"""
    num = M.NUM[version]
    pool = [c for c in doc.pool_of(version) if c != "lilo"]
    cl, _mh = doc.command_lines(src, version, 0, maxcmd, pool=pool, density=12, rt=rt)
    cmds = sorted({l[0] for l in cl})
    units = [[Line(l[2])] for l in cl]
    for k in range(src.int(0, maxsec)):
        s = doc.section(src, num)
        tag = "%s%d" % (s["kind"], k)
        body = s["body"]
        u = [Line(s["header"], None, True)] + [Line(b, tag) for b in body]
        if num >= doc.F8 or src.chance(70):
            u.append(Line("%end", tag))
        else:       # closed by the next header; commands cannot follow
            u[-1].open = True
        units.insert(src.below(len(units) + 1), u) if u[-1].text == "%end" else units.append(u)
    # an unclosed section swallows what follows unless that is a header
    out = []
    for i, u in enumerate(units):
        if getattr(units[i - 1][-1] if i else u[0], "open", False) and not u[0].header:
            out.append(Line("%end", "x"))
        out += u
        if src.chance(15) and u[-1].text == "%end":
            out.append(Line(src.choice(["", "# comment", "   ", "#%include /nonexistent", "# %end"])))
    if src.chance(15):
        out.insert(0, Line("#platform=" + doc.platform(src)))
        if src.chance(50):              # the last one counts
            at = [i for i in range(1, len(out) + 1)
                  if not out[i - 1].header and (out[i - 1].sec is None or out[i - 1].text == "%end")]
            out.insert(src.choice(at), Line("#platform=" + src.choice(["ppc64", "", "AMD64 or Intel EM64T"])))
    return out, cmds


def blank(l):
    return not l.text.strip()


class Splitter:
    def __init__(self, src, root, relative):
        self.src, self.root, self.relative = src, root, relative
        self.files = {}
        self.n = 0
        self.where = {}         # id(Line) -> (path, line number)

    def cut_ok(self, lines, i, j):
        """May lines[i:j] move to a file of their own?"""
        start_in = lines[i].sec is not None
        if start_in and blank(lines[i]):
            return False
        if j < len(lines) and lines[j].sec is not None:
            # the section goes on in the outer file
            if blank(lines[j]) and not (start_in and lines[i].sec == lines[j].sec):
                return False
        return True

    def ref(self, path, cwd):
        if self.relative and self.src.chance(70):
            p = os.path.relpath(path, cwd)
            if self.src.chance(20):
                p = "./" + p
        else:
            p = path
        q = M.quote(p)
        if self.src.chance(15):
            q = '"%s"' % p
        return "%include" + self.src.choice([" ", "  ", "\t"]) + q + self.src.choice(["", "", "   ", " # why"])

    def build(self, lines, path, depth):
        """Write the lines to path, possibly moving parts of them to other files."""
        src = self.src
        cwd = os.path.dirname(path)
        parts = []
        i = 0
        want = src.int(1, 2) if depth == 0 else (src.int(0, 1) if depth < 4 else 0)
        cuts = []
        for _ in range(want):
            lo = cuts[-1][1] if cuts else 0
            if lo > len(lines):
                break
            a = src.int(lo, len(lines))
            b = src.int(a, len(lines))
            if a < len(lines) and a < b and not self.cut_ok(lines, a, b):
                continue
            if a == b and a < len(lines) and lines[a].sec is not None and blank(lines[a]):
                continue
            cuts.append((a, b))
        for a, b in cuts:
            parts += [(l.text, l) for l in lines[i:a]]
            self.n += 1
            sub = src.choice(["", "", "sub%d" % self.n, "a b", "deep/er"])
            name = src.choice(["inc%d.ks", "part-%d", "my inc %d.cfg", "x#%d"]) % self.n
            p = os.path.join(cwd, sub, name)
            if src.chance(15):
                p = os.path.join(self.root, "other", name)
            if p in self.files:
                p += "x"
            self.files[p] = None
            self.build(lines[a:b], p, depth + 1)
            parts.append((self.ref(p, cwd), None))
            i = b
        parts += [(l.text, l) for l in lines[i:]]
        for k, (_t, l) in enumerate(parts):
            if l is not None:
                self.where[id(l)] = (path, k + 1)
        text = "".join(t + "\n" for t, _l in parts)
        open_end = parts and parts[-1][1] is not None and (parts[-1][1].sec is not None and
                                                          parts[-1][1].text != "%end" or parts[-1][1].header)
        if text and not open_end and src.chance(10):
            text = text[:-1]
        self.files[path] = text
        state.put(path, text)


def text_of(lines):
    return "".join(l.text + "\n" for l in lines)


def prepare(src, version, root, lines, relative):
    sp = Splitter(src, root, relative)
    main = os.path.join(root, src.choice(["main.ks", "dir/main.ks", "sp ace/ks.cfg"]))
    sp.build(lines, main, 0)
    src.desc.update(version=version, files={os.path.relpath(p, root): t for p, t in sp.files.items()})
    return sp, main


def handlers(version, cmds):
    small = real.small_handler(version, cmds + ["cdrom"])
    return small


def transparent(src, version):
    lines, cmds = flat(src, version)
    relative = src.chance(60)
    with state.scratch() as root:
        sp, main = prepare(src, version, root, lines, relative)
        ha, hb = handlers(version, cmds), handlers(version, cmds)
        a = state.run(ha, text=text_of(lines))
        if a.err is not None:
            raise Violation("the flat text is rejected: %s\n%s" % (a.err, text_of(lines)))
        if relative or src.chance(50):
            b = state.run(hb, path=main)
        else:
            b = state.run(hb, text=sp.files[main])
        if b.err is not None:
            raise Violation("the text with includes is rejected: %s" % b.err)
        if a.warns != b.warns:
            raise Violation("warnings %r with includes, %r without" % (b.warns, a.warns))
        state.same(state.whole(ha, version, cmds), state.whole(hb, version, cmds), "flat versus included")
        # each script names the line of its own file
        heads = [l for l in lines if l.header]
        want = [sp.where[id(l)][1] for l in heads if is_script(l, lines)]
        got = [s.lineno for s in hb.scripts]
        if want != got:
            raise Violation("scripts start on lines %r of their files, reported as %r" % (want, got))
    return {"nontrivial": len(sp.files) > 1, "key": repr(sorted(sp.files.items())).replace(root, ""),
            "sample": {os.path.relpath(p, root): t for p, t in sp.files.items()},
            "labels": ["depth>1"] if len(sp.files) > 2 else []}


def expand(files, path, depth=0):
    """The flat text of a tree of files whose include lines are [INC, path] pairs."""
    out = []
    for l in files[path]:
        out += expand(files, l[1], depth + 1) if isinstance(l, tuple) else [l]
    return out


def again(src, version):
    """The same files included several times, from different files and depths."""
    with state.scratch() as root:
        pieces = {}
        user = "user" in doc.normal_commands(version)
        for n in range(src.int(2, 5)):
            sub = src.choice(["", "a", "a/b", "c"])
            pieces[os.path.join(root, sub, "f%d.ks" % n)] = []
        names = list(pieces)
        inside = src.chance(50)         # in a section
        count = 0
        for k, p in enumerate(names):
            # a file includes only later ones
            for _ in range(src.int(1, 4)):
                count += 1
                if k + 1 < len(names) and src.chance(65):
                    pieces[p].append(("inc", src.choice(names[k + 1:])))
                elif inside:
                    pieces[p].append("echo %d" % count)
                elif user and src.chance(60):
                    pieces[p].append("user --name=u%d" % count)
                else:
                    pieces[p] += src.choice([["lang l%d" % count], ["%pre", "echo %d" % count, "%end"],
                                             ["%packages", "pkg%d" % count, "-pkg%d" % (count - 1), "%end"], ["# %d" % count]])
        main = names[0]
        flat_lines = expand(pieces, main)
        if len(flat_lines) > 400:
            raise Discard
        if inside:
            head, tail = [src.choice(["%post", "%pre --log=/x", "%addon a"])], ["%end"]
        else:
            head, tail = [], []
        relative = src.chance(60)
        for p, ls in pieces.items():
            out = []
            for l in ls:
                if isinstance(l, tuple):
                    l = "%include " + (os.path.relpath(l[1], os.path.dirname(p)) if relative and src.chance(70) else l[1])
                out.append(l)
            state.put(p, "".join(l + "\n" for l in (head + out + tail if p == main else out)))
        src.desc.update(version=version, files={os.path.relpath(p, root): [l if isinstance(l, str) else
                                                                           "include " + os.path.relpath(l[1], root)
                                                                           for l in ls] for p, ls in pieces.items()},
                        around=head + tail)
        cmds = ["lang"] + (["user"] if user else [])
        ha, hb = handlers(version, cmds), handlers(version, cmds)
        text = "".join(l + "\n" for l in head + flat_lines + tail)
        a, b = state.run(ha, text=text), state.run(hb, path=main)
        if a.err is not None or b.err is not None:
            raise Violation("flat: %s, included: %s" % (a.err, b.err))
        if a.warns != b.warns:
            raise Violation("warnings %r with includes, %r without" % (b.warns, a.warns))
        state.same(state.whole(ha, version, cmds), state.whole(hb, version, cmds), "flat versus included")
        if src.chance(30):
            # text that comes from no file has no directory of its own
            r = state.run(handlers(version, cmds), text="%%include %s\n" % os.path.basename(main))
            if r.err is None or isinstance(r.err, real.E.KickstartParseError):
                raise Violation("a relative include in a text: %r" % r.err)
    incs = [l[1] for ls in pieces.values() for l in ls if isinstance(l, tuple)]
    return {"nontrivial": len(incs) > len(set(incs)), "key": (version, repr(src.desc["files"])), "sample": src.desc["files"]}


def is_script(l, lines):
    if l.text.split()[0] not in doc.SCRIPT_TAGS:
        return False
    i = lines.index(l) + 1
    body = []
    while i < len(lines) and lines[i].sec is not None and lines[i].text != "%end":
        body.append(lines[i].text)
        i += 1
    return bool("".join(body).strip())


def bad_line(src, version):
    """A bad line somewhere in the tree of files: reported with the line of its own file."""
    lines, cmds = flat(src, version, 5, 2)
    spots = [i for i in range(len(lines) + 1) if i == 0 or (lines[i - 1].sec is None and not lines[i - 1].header) or
             lines[i - 1].text == "%end"]
    # "part" without arguments etc. are wrong in any version; keep them off the commands in use
    b = Line(src.choice([x for x in BAD if x.split()[0] not in cmds]))
    at = src.choice(spots)
    if at < len(lines) and at and lines[at - 1].text != "%end" and lines[at].sec is not None:
        raise Discard
    lines = lines[:at] + [b] + lines[at:]
    fatal = src.chance(60)
    with state.scratch() as root:
        sp, main = prepare(src, version, root, lines, True)
        ha, hb = (handlers(version, cmds + ["lang", "timezone"]) for _ in range(2))
        a = state.run(ha, text=text_of(lines), errorsAreFatal=fatal)
        r = state.run(hb, path=main, errorsAreFatal=fatal)
        if fatal:
            if not isinstance(r.err, real.E.KickstartParseError):
                raise Violation("a bad line is not reported as a parse error: %r" % r.err)
            if r.err.lineno != sp.where[id(b)][1]:
                raise Violation("error on line %r of its file, reported as %r" % (sp.where[id(b)][1], r.err.lineno))
        elif r.err is not None or a.count != r.count or r.count != 1:
            raise Violation("non-fatal: error %r, %d counted, expected 1" % (r.err, r.count))
        state.same(state.whole(ha, version, cmds), state.whole(hb, version, cmds), "flat versus included")
        # the parser remains usable for another file
        extra = "cdrom\n%pre\necho\n%end\n"
        for p in (a, r):
            e = state.run(None, text=extra, parser=p.parser)
            if e.err is not None:
                raise Violation("after the error the parser rejects %r: %s" % (extra, e.err))
        state.same(state.whole(ha, version, cmds), state.whole(hb, version, cmds), "after another text")
    return {"key": repr(sorted(sp.files.items())).replace(root, ""), "labels": ["fatal" if fatal else "non-fatal"],
            "sample": {os.path.relpath(p, root): t for p, t in sp.files.items()}}


def skipped(src, version):
    """followIncludes off: the directive is ignored, wherever it is; missing and non-fatal: the same."""
    lines, cmds = flat(src, version)
    mode = src.choice(["off", "missing", "fatal"])
    out, n, first = [], src.int(1, 3), None
    at = sorted(src.below(len(lines) + 1) for _ in range(n))
    with state.scratch() as root:
        for i in range(len(lines) + 1):
            for _ in range(at.count(i)):
                # inside a section the directive must not be where a blank line is dropped
                first = first or len(out) + 1
                out.append("%include " + src.choice([os.path.join(root, "missing.ks"), "nosuch-file.ks",
                                                     "'/nonexistent/a b'", root + "/dir/none"]))
            if i < len(lines):
                out.append(lines[i].text)
        text = "".join(x + "\n" for x in out)
        src.desc.update(version=version, mode=mode, text=text)
        ha, hb = handlers(version, cmds), handlers(version, cmds)
        a = state.run(ha, text=text_of(lines))
        kw = {"off": {"followIncludes": False}, "missing": {"missingIncludeIsFatal": False},
              "fatal": {"errorsAreFatal": src.chance(50)}}[mode]
        if src.chance(50):
            state.put(root + "/m.ks", text)
            b = state.run(hb, path=root + "/m.ks", **kw)
        else:
            b = state.run(hb, text=text, **kw)
        if mode == "fatal":
            if b.err is None:
                raise Violation("a missing included file is not an error")
            if isinstance(b.err, real.E.KickstartParseError):
                raise Violation("a missing file is reported as a syntax error")
        else:
            if b.err is not None:
                raise Violation("mode %s: %s" % (mode, b.err))
            state.same(state.whole(ha, version, cmds), state.whole(hb, version, cmds), "without the directives")
    return {"key": text.replace(root, ""), "sample": text, "labels": [mode]}


def no_name(src, version):
    """The directive needs a file name."""
    lines, cmds = flat(src, version, 3, 1)
    at = src.below(len(lines) + 1)
    out = [l.text for l in lines]
    out.insert(at, src.choice(["%include", "%include   ", '%include ""', "%include ''"]))
    text = "".join(x + "\n" for x in out)
    src.desc.update(version=version, text=text)
    r = state.run(handlers(version, cmds), text=text)
    if not isinstance(r.err, real.E.KickstartParseError) or r.err.lineno != at + 1:
        raise Violation("an include without a name: %r on line %r, expected a parse error on line %d" % (
            r.err, getattr(r.err, "lineno", None), at + 1))
    return {"key": text, "sample": text}


def shared(src, version):
    """A file included several times counts several times."""
    cl, _mh = doc.command_lines(src, version, 1, 2, pool=["user", "group", "repo", "logvol"] if M.NUM[version] >=
                                M.NUM["F12"] else ["network", "device"], density=5)
    lines = [l[2] for l in cl] or ["cdrom"]
    cmds = sorted({l[0] for l in cl})
    n = src.int(2, 3)
    with state.scratch() as root:
        inc = root + "/inc.ks"
        body = "".join(l + "\n" for l in lines) + "%pre\necho again\n%end\n"
        state.put(inc, body)
        ha, hb = handlers(version, cmds), handlers(version, cmds)
        sep = src.choice(["", "\n", "# c\n"])
        a = state.run(ha, text=sep.join([body] * n))
        b = state.run(hb, text=sep.join(["%%include %s\n" % inc] * n))
        src.desc.update(version=version, times=n, body=body)
        if (a.err is None) != (b.err is None):
            raise Violation("flat: %r, included: %r" % (a.err, b.err))
        if a.warns != b.warns:
            raise Violation("warnings differ")
        state.same(state.whole(ha, version, cmds), state.whole(hb, version, cmds), "repeated versus included")
    return {"key": body + str(n), "sample": body}


TESTS = [Test("transparent", transparent, M.VERSIONS, n=(120, 3000)),
         Test("bad_line", bad_line, M.VERSIONS, n=(40, 800)),
         Test("skipped", skipped, M.VERSIONS, n=(40, 800)),
         Test("no_name", no_name, M.VERSIONS, n=(8, 100)),
         Test("again", again, M.VERSIONS, n=(40, 800)),
         Test("shared", shared, M.VERSIONS, n=(6, 60))]
