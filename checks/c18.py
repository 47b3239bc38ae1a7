"""C18: the validator's exit status and report agree with the parser."""
import contextlib
import os
import re
import tempfile

from checks import c12
from kv import doc, gen, real, state, tools, web
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a file (or a set of files), options and a version; non-trivial when the file is not empty; distinct by "
        "contents and options")
ASSUMPTIONS = ["includes are absolute paths (the validator works on a copy of the file elsewhere)",
               "a line that draws a warning is an error for the validator, as its documentation of -e says"]


@contextlib.contextmanager
def tmpdir(root):
    """All temporary files of the tool go to a directory of their own."""
    t = root + "/tmp"
    os.mkdir(t)
    old = tempfile.tempdir
    tempfile.tempdir = t
    try:
        yield t
    finally:
        tempfile.tempdir = old


def spelled(src, version):
    return src.choice([version, version.lower(), str(M.NUM[version])])


def build(src, version, root, depth=0):
    """-> lines, problems [(line, kind, file)] in processing order, used state"""
    rows, good, bads = c12.build(src, version, bad_sections=src.chance(50))
    if src.chance(40):
        rows = [r for r in rows if r[1] not in ("command", "section")]
    return rows


def warning_row(src, version):
    """A command line that is accepted with a deprecation warning whatever came before, or None."""
    dep = doc.normal_commands(version, ("deprecated",))
    if not dep:
        return None
    return src.choice(dep) + src.choice(["", " foo", " --bar=baz"])


def assemble(src, version, root, inc, top=True):
    """-> text, [(line, "error"/"warning")] (with included ones in place), fatal problem or None"""
    rows = build(src, version, root)
    out, prob = [], []
    for t, kind, extra in rows:
        if t.lstrip().startswith("%ksappend"):                # would be taken literally, wherever it stands
            t = "echo x"
        extra = ["echo x" if e.lstrip().startswith("%ksappend") else e for e in extra] if kind == "section" else extra
        if kind != "in" and src.chance(12):
            w = warning_row(src, version)
            if w:
                out.append(w)
                prob.append((len(out), "warning"))
        if top and kind is None and src.chance(12):
            name = "%s/inc%d.ks" % (root, len(out))
            sub, subprob = assemble(src, version, root, inc, top=False)
            state.put(name, sub)
            out.append("%include " + name)
            if inc:
                prob += subprob
        out.append(t)
        if kind is None and extra:
            prob.append((len(out), "warning"))
        elif kind == "command":
            prob.append((len(out), "error"))
        elif kind == "section":
            prob.append((len(out), "error"))
            out += extra + ["%end"]
    return "".join(l + "\n" for l in out), prob


def storage_clash(text):
    words = {l.split()[0] for l in text.splitlines() if l.split()}
    return len(words & set(real.STORAGE)) > 1


def shared_command(version, text, root):
    """Is a command used in more than one file?  They were made independently and may contradict each other."""
    files = [text] + [open(os.path.join(root, f), encoding="utf-8").read() for f in os.listdir(root) if f.startswith("inc")]
    used = [{M.spec(version, l.split()[0]).suffix for l in t.splitlines() if l.split() and l.split()[0] in M.commands(version) and
             M.spec(version, l.split()[0]).kind == "normal"} for t in files]
    return sum(map(len, used)) > len(set().union(*used))


ALWAYS = [("%nosuch x\nfoo\n%end\n", 1), ("%packages\nvim\n@g --optional --nodefaults\n%end\n", 1),
          ("lang 'open\n", 1), ("%include\n", 1)]


def matches(got, prob, hidden=0):
    """Is got the lines of prob in order, where warnings need not name theirs, and up to hidden errors may be
    reported as the repetition they are, too?"""
    can = {(0, 0)}
    for line, kind in prob:
        nxt = {(i + 1, h) for i, h in can if i < len(got) and got[i] == line}
        can = nxt | (can if kind == "warning" else {(i, h + 1) for i, h in can if h < hidden})
    return any(i == len(got) for i, _h in can)


def validate(src, version):
    with state.scratch() as root, tmpdir(root) as tmp:
        inc, first = src.chance(50), src.chance(35)
        text, prob = assemble(src, version, root, inc)
        everything = text + "".join(open(os.path.join(root, f), encoding="utf-8").read() for f in os.listdir(root)
                                    if f.startswith("inc"))
        if "%traceback" in everything and M.NUM[version] >= doc.F34:
            raise Discard
        if re.search(r"%packages.*--(instLangs|excludeWeakdeps|nobase|ignoredeps|resolvedeps)", everything):
            raise Discard
        if storage_clash(everything) or inc and shared_command(version, text, root):
            raise Discard
        fatal = None
        k = src.below(100)
        if k < 15:
            extra, fatal = src.choice(ALWAYS)
            text += extra
        elif k < 20 and M.NUM[version] >= doc.F8:
            text += "%post\necho\n"
            fatal = 1
        elif k < 26:
            text += "%include " + root + "/missing.ks\n"
            fatal = 1 if inc else None
        elif k < 30:
            text += "%ksappend " + root + "/missing.ks\n"
            fatal = "append"
        elif k < 36:
            state.put(root + "/app.ks", "nosuchcommand\ncdrom\n")
            text += "\n%ksappend " + root + "/app.ks\n"
            prob.append((len(text.splitlines()), "error"))
        main = root + "/in put.ks"
        state.put(main, text)
        arg = main
        if src.chance(6):
            arg = web.server() + "/ks"
            web.route("/ks", body=text.encode("utf-8"), ctype="text/plain; charset=utf-8")
        argv = [arg, src.choice(["-v", "--version"]), spelled(src, version)]
        if inc:
            argv.append(src.choice(["-i", "--followincludes"]))
        if first:
            argv.append(src.choice(["-e", "--firsterror"]))
        src.desc.update(version=version, text=text, argv=argv[1:], problems=prob, fatal=fatal,
                        files={f: open(os.path.join(root, f)).read() for f in sorted(os.listdir(root))
                               if f.startswith("inc")})
        # the real reason why a line with a wrong argument is refused may be an earlier one: the library decides
        r = tools.call("ksvalidator", argv)
        if r.error is not None or r.code is not None:
            raise Violation("the validator raised %r" % (r.error or r.code))
        rc, messages = r.value
        if (not rc and (prob or fatal)) or (rc and not prob and fatal is None and
                                           "already been" not in r.stderr + "".join(messages)):
            raise Violation("status %r although the file %s: %r %s" % (
                rc, "is good" if rc else "has errors", messages, r.stderr[-300:]))
        if first and (prob or rc):
            if not messages or rc < 1:
                raise Violation("the first error is not reported: %r %r" % (rc, messages))
            line, kind = prob[0] if prob else (0, "fatal")
            if "already been" not in "".join(messages) and kind == "error" and fatal != "append" and not re.search(r"\b%d\b" % line, "\n".join(messages)):
                raise Violation("the report %r does not name line %d" % (messages, line))
        elif fatal is None:
            # an entry repeated by another line is one more warning, without a line number
            dups = len(re.findall("already been", r.stderr))
            if not len(prob) <= rc <= len(prob) + dups:
                raise Violation("status %r for %d errors: %s" % (rc, len(prob) + dups, r.stderr))
            if messages:
                raise Violation("unexpected messages %r" % messages)
            got = [int(x) for x in re.findall(r"on line (\d+)", r.stderr)]
            if not matches(got, prob, len(prob) + dups - rc):
                raise Violation("errors reported on lines %r, expected %r" % (got, prob))
        elif not messages:
            raise Violation("a fatal error without a message")
        # agreement with the library on the preprocessed text
        if fatal != "append":
            acc = accepted_by_library(version, text, main, inc, root)
            if acc != (rc == 0):
                raise Violation("the validator says %r, the library %s" % (rc, "accepts" if acc else "refuses"))
        if os.listdir(tmp):
            raise Violation("files left behind: %r" % os.listdir(tmp))
        with open(main, encoding="utf-8") as f:
            if f.read() != text:
                raise Violation("the input file changed")
        left = sorted(f for f in os.listdir(root) if not f.startswith("inc"))
        if [f for f in left if f not in ("tmp", "in put.ks", "app.ks")]:
            raise Violation("files appeared: %r" % left)
    return {"nontrivial": bool(text), "key": text.replace(root, "") + repr(argv[1:]), "sample": text.replace(root, ""),
            "labels": (["errors"] if prob else []) + (["fatal"] if fatal else []) + (["good"] if rc == 0 else [])}


def accepted_by_library(version, text, main, inc, root):
    from pykickstart import parser as P
    h = real.full_handler(version)
    state.put(root + "/pre/x.ks", P.preprocessFromStringToString(text))
    try:
        r = state.run(h, path=root + "/pre/x.ks", followIncludes=inc)
    except ValueError:
        return False
    finally:
        import shutil
        shutil.rmtree(root + "/pre")
    return r.err is None and not r.warns


def trouble(src, _s):
    """Inputs that cannot be validated at all, and the informative options."""
    with state.scratch() as root, tmpdir(root) as tmp:
        k = src.below(9)
        state.put(root + "/good.ks", "cdrom\n")
        want = 1
        if k == 0:
            argv = [root + "/missing.ks"]
        elif k == 1:
            argv = [root]
        elif k == 2:
            state.put(root + "/bad.ks", b"lang caf\xe9\n")
            argv = [root + "/bad.ks"]
        elif k == 3:
            argv = [root + "/good.ks", "-v", src.choice(["F99", "RHEL", "nosuch", "12345", "FC7", ""])]
        elif k == 4:
            argv = []
        elif k == 5:
            argv = ["http://127.0.0.1:%d/x" % web.closed_port()]
        elif k == 6:
            argv = [src.choice(["-l", "--listversions"])] + src.choice([[], [root + "/missing.ks"]])
            want = 0
        elif k == 7:
            argv = [src.choice(["-h", "--help"])]
            want = 0
        else:
            state.put(root + "/empty.ks", src.choice(["", "\n", "# only a comment\n", "   \n\n"]))
            argv = [root + "/empty.ks"] + src.choice([[], ["-e"], ["-i"], ["-v", src.choice(M.VERSIONS)]])
            want = 0
        src.desc["argv"] = argv
        r = tools.call("ksvalidator", argv)
        if r.error is not None or r.code is not None:
            raise Violation("the validator raised %r" % (r.error or r.code))
        rc, messages = r.value
        if (rc == 0) != (want == 0):
            raise Violation("status %r, messages %r" % (rc, messages))
        if want and not messages:
            raise Violation("no message")
        if k == 6 and (set(messages) != set(M.VERSIONS) | {"DEVEL"} or len(messages) != len(set(messages))):
            raise Violation("versions listed: %r" % messages)
        if k not in (4, 7) and src.chance(12):
            q = tools.process("ksvalidator", argv, cwd=root, tmp=tmp)
            if q.code != min(rc, 255) or any(m.strip() and m.strip() not in q.stdout for m in messages):
                raise Violation("the program: status %d, %r; expected %d and %r" % (q.code, q.stdout, rc, messages))
        if os.listdir(tmp):
            raise Violation("files left behind: %r" % os.listdir(tmp))
    return {"key": (k, repr(argv).replace(root, "")), "sample": repr(argv).replace(root, "")}


def default_version(src, version):
    """Without -v the development version is assumed, whatever the file says."""
    with state.scratch() as root, tmpdir(root):
        cmds = doc.normal_commands(version)
        cmd = src.choice([c for c in cmds if c not in ("lilo",)])
        _c, items = gen.line(src, version, cmd, valid=100, density=8, deprecated=0)
        t = gen.text(version, cmd, items)
        text = src.choice(["", "#version=%s\n" % version]) + t + "\n"
        state.put(root + "/ks", text)
        src.desc.update(text=text)
        a = tools.call("ksvalidator", [root + "/ks"]).value
        b = tools.call("ksvalidator", [root + "/ks", "-v", "DEVEL"]).value
        c = tools.call("ksvalidator", [root + "/ks", "-v", version]).value
        if a[0] != b[0]:
            raise Violation("status %r without a version, %r for the development version" % (a[0], b[0]))
        mh = M.ModelHandler(version)
        try:
            want = not mh.run(cmd, items, t)
        except M.Reject:
            want = False
        if (c[0] == 0) != want:
            raise Violation("%s: status %r" % (version, c[0]))
    return {"key": (version, text), "sample": text}


def status(src, _s):
    """The exit status of the real program."""
    with state.scratch() as root:
        tmp = root + "/tmp"
        os.mkdir(tmp)
        n = src.choice([0, 1, 2, 3, 10, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 768, 1024])
        good = src.int(0, 3)
        lines = ["nosuch%d" % i for i in range(n)] + ["cdrom"] * good
        lines = src.shuffle(lines) if n < 20 else lines
        state.put(root + "/ks.cfg", "".join(l + "\n" for l in lines))
        argv = [src.choice([root + "/ks.cfg", "ks.cfg"])] + src.choice([[], ["-e"], ["--firsterror"],
                                                                                    ["-v", "F34"], ["-i"]])
        first = "-e" in argv or "--firsterror" in argv
        src.desc.update(errors=n, argv=argv)
        r = tools.process("ksvalidator", argv, cwd=root, tmp=tmp)
        if (r.code != 0) != (n > 0) or r.code < 0:
            raise Violation("exit status %d for %d errors" % (r.code, n))
        if n and r.code != (1 if first else min(n, 255)):
            raise Violation("exit status %d for %d errors" % (r.code, n))
        said = r.stdout + r.stderr
        bad = [(i + 1, l) for i, l in enumerate(lines) if l != "cdrom"]
        for i, l in bad[:1] if first else bad:
            if not re.search(r"\b%d\b[^\n]*\n+[^\n]*\b%s\b" % (i, l), said):
                raise Violation("the error on line %d (%s) is not printed: %r" % (i, l, said[-500:]))
        if first and bad[1:] and bad[1][1] + "\n" in said:
            raise Violation("more than the first error is printed: %r" % said[-500:])
        if not n and (r.stdout or r.stderr):
            raise Violation("output for a good file: %r" % (r.stdout + r.stderr))
        if os.listdir(tmp):
            raise Violation("files left behind: %r" % os.listdir(tmp))
    return {"key": (n, good, repr(argv).replace(root, "")), "sample": [n, good]}


TESTS = [Test("validate", validate, M.VERSIONS, n=(50, 1000)), Test("trouble", trouble, n=(400, 3000)),
         Test("default_version", default_version, M.VERSIONS, n=(8, 100)), Test("status", status, n=(80, 400))]
