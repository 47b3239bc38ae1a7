"""C19: flattening gives one file, without includes, that means the same."""
import os
import re

from checks import c01, c09
from kv import doc, real, state, tools
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a document cut into included files, a version and the way the tool is called; non-trivial when at least "
        "one file is included; distinct by version and files")
ASSUMPTIONS = ["the files are cut where the repository's tests do not pin something else (see C09)",
               "relative includes are relative to the including file, whatever the current directory"]
INCLUDE = re.compile(r"^\s*%include\s", re.M)


def flags(src, main, version, out=None):
    a = [[src.choice(["-c", "--config"]), main]]
    v = src.choice([version, version.lower(), str(M.NUM[version])])
    a.append([src.choice(["-v", "--version"]), v])
    if out is not None:
        a.append([src.choice(["-o", "--output"]), out])
    return sum(src.shuffle(a), [])


def flatten(src, version):
    lines, cmds = c09.flat(src, version, rt=True)
    if any("--nolinear" in l.text for l in lines):          # known not to be written, see C01
        raise Discard
    with state.scratch() as root:
        sp, main = c09.prepare(src, version, root, lines, True)
        flat = c09.text_of(lines)
        h = real.full_handler(version)
        a = state.run(h, text=flat)
        if a.err is not None:
            raise Violation("the flat text is rejected: %s\n%s" % (a.err, flat))
        want = str(h)
        out = None
        if src.chance(60):
            out = root + "/" + src.choice(["out.ks", "o ut", "dir.out/x", "old.ks"])
            if src.chance(40) or "old" in out or "/x" in out:
                state.put(out, src.choice(["", "old contents\n" * 1000, "\u0142\n"]))
        elif src.chance(8):
            out = main                                     # in place
        before = {p: open(p, "rb").read() for p in sp.files}
        argv = flags(src, main, version, out)
        src.desc.update(argv=[x.replace(root, "") for x in argv], flat=flat)
        r = tools.call("ksflatten", argv)
        if r.error is not None or r.code is not None or r.value[0] != 0:
            raise Violation("the tool fails: %r %r %r" % (r.error, r.code, r.value))
        if out is None:
            got = r.stdout
        else:
            if r.stdout:
                raise Violation("something on standard output besides the file: %r" % r.stdout)
            with open(out, encoding="utf-8", newline="") as f:
                got = f.read()
        if got != want:
            raise Violation("flattened:\n%s\nexpected:\n%s" % (got, want))
        for p, b in before.items():
            with open(p, "rb") as f:
                if p != out and f.read() != b:
                    raise Violation("the input %s changed" % p)
        if not any(s["kind"] == "null" for s in sections(lines)) and INCLUDE.search(got):
            raise Violation("an include is left:\n%s" % got)
        # the result means the same
        g = real.full_handler(version)
        b = state.run(g, text=got)
        if b.err is not None:
            raise Violation("the flattened file is rejected: %s\n%s" % (b.err, got))
        equal(h, g, version, cmds)
        # and is its own flattening
        state.put(root + "/again/ks", got)
        r2 = tools.call("ksflatten", flags(src, root + "/again/ks", version))
        if r2.value is None or r2.value[0] != 0:
            raise Violation("the flattened file cannot be flattened: %r" % (r2.error or r2.value))
        x, y = r2.stdout, got
        if c01.code_lines(x) != c01.code_lines(y):
            raise Violation("flattened again:\n%s\nthe first time:\n%s" % (r2.stdout, got))
    return {"nontrivial": len(sp.files) > 1, "key": repr(sorted(sp.files.items())).replace(root, ""),
            "sample": {os.path.relpath(p, root): t for p, t in sp.files.items()},
            "labels": (["depth>1"] if len(sp.files) > 2 else []) + (["to file"] if out else [])}


def sections(lines):
    return [{"kind": "null" if l.text.split()[0] in ("%addon", "%anaconda") else "x"} for l in lines if l.header]


def equal(h, g, version, cmds):
    state.same(c01.whole(h, version, cmds), c01.whole(g, version, cmds), "the original versus the flattened file")


BROKEN = ["nosuchcommand x\n", "%nosuch\nx\n%end\n", "%packages --nosuch\n%end\n", "%include\n",
          "%include /nonexistent/file.ks\n", "cdrom --nosuch\n", "%packages\n@g --optional --nodefaults\n%end\n"]


def fails(src, version):
    """Whatever cannot be read or parsed: a non-zero status, a message and no output."""
    lines, _cmds = c09.flat(src, version, 3, 1)
    with state.scratch() as root:
        sp, main = c09.prepare(src, version, root, lines, True)
        out = None
        if src.chance(70):
            out = root + "/out.ks"
        old = None
        if out and src.chance(60):
            old = "what was there\n"
            state.put(out, old)
        argv = flags(src, main, version, out)
        k = src.below(6)
        if k == 0:
            argv = flags(src, src.choice([root + "/missing", root, root + "/missing/ks.cfg"]), version, out)
        elif k == 1:
            argv = flags(src, main, version, out)
            for f in ("-v", "--version"):
                if f in argv:
                    argv[argv.index(f) + 1] = src.choice(["F99", "RHEL", "nosuch", "1", "fc99", ""])
        elif k == 2:
            state.put(main, b"lang caf\xe9\n")
        elif k == 3 and out:
            os.path.exists(out) and os.remove(out)
            old = None
            if src.chance(50):
                os.mkdir(out)
            else:
                out = root + "/no/such/dir/x"
            argv = flags(src, main, version, out)
        else:
            bad = src.choice(BROKEN)
            if version in M.VERSIONS and M.NUM[version] >= doc.F8 and src.chance(15):
                bad = "%post\necho\n"
            text = c09.text_of(lines)
            if lines and (lines[-1].header or lines[-1].sec is not None) and lines[-1].text != "%end":
                text += "%end\n"
            p = root + "/" + src.choice(["part.ks", "a/b/part.ks"]) if src.chance(50) else main
            if p != main:
                state.put(main, src.choice(["", "# x\n"]) + "%include " + p + "\n")
            state.put(root + "/bad.ks", bad)
            state.put(p, text + src.choice([bad, "%include " + root + "/bad.ks\n"]))
        src.desc.update(argv=[x.replace(root, "") for x in argv], main=open(main, "rb").read().decode("utf-8", "replace"))
        r = tools.call("ksflatten", argv)
        if r.error is not None:
            raise Violation("the tool raised %r" % r.error)
        code = r.code if r.code is not None else r.value[0]
        if code in (0, None, ""):
            raise Violation("success is reported")
        if r.code is None and not r.value[1]:
            raise Violation("no message")
        if "cdrom" in r.stdout or "%" in r.stdout or "# Generated" in r.stdout:
            raise Violation("output: %r" % r.stdout)
        if out and os.path.isfile(out):
            with open(out, encoding="utf-8") as f:
                if old is None or f.read() != old:
                    raise Violation("an output file was written: %r" % open(out, encoding="utf-8").read())
        elif old is not None:
            raise Violation("the output file is gone")
    return {"key": (k, repr(src.desc)), "sample": src.desc["main"], "labels": ["kind %d" % min(k, 4)]}


def program(src, _s):
    """The real program: exit status, streams, current directory."""
    version = src.choice(M.VERSIONS)
    lines, _cmds = c09.flat(src, version, 4, 2, rt=True)
    with state.scratch() as root:
        sp, main = c09.prepare(src, version, root, lines, True)
        h = real.full_handler(version)
        if state.run(h, text=c09.text_of(lines)).err is not None:
            raise Violation("the flat text is rejected")
        bad = src.chance(40)
        if bad:
            t = src.choice(["nosuch\n", "lang 'open\n", "%nosuch\n%end\n", "%include /nonexistent/x\n"])
            if lines and (lines[-1].header or lines[-1].sec is not None) and lines[-1].text != "%end":
                raise Discard
            state.put(main, sp.files[main] + ("" if sp.files[main].endswith("\n") else "\n") + t)
        out = root + "/o.ks" if src.chance(50) else None
        argv = flags(src, os.path.relpath(main, root) if src.chance(50) else main, version, out and "o.ks")
        src.desc.update(argv=argv, bad=bad)
        ascii_env = src.chance(40) and (out or str(h).isascii())
        src.desc["ascii locale"] = bool(ascii_env)
        r = tools.process("ksflatten", argv, cwd=root, extra=tools.ASCII if ascii_env else None)
        if bad:
            if r.code == 0:
                raise Violation("exit status 0 for a bad file")
            if not r.stderr.strip():
                raise Violation("nothing on standard error for a bad file")
            if r.stdout or (out and os.path.exists(out)):
                raise Violation("output for a bad file")
        else:
            if r.code != 0:
                raise Violation("exit status %d: %s" % (r.code, r.stderr))
            got = open(out, encoding="utf-8", newline="").read() if out else r.stdout
            if got != str(h):
                raise Violation("written %r, expected %r" % (got, str(h)))
    return {"key": (version, repr(sorted(sp.files.items())).replace(root, "")), "sample": src.desc["argv"]}


def newest(src, version):
    """Without a version the development version is meant."""
    lines, _cmds = c09.flat(src, version, 2, 1)
    with state.scratch() as root:
        state.put(root + "/ks", c09.text_of(lines))
        a = tools.call("ksflatten", ["-c", root + "/ks"])
        b = tools.call("ksflatten", ["-c", root + "/ks", "-v", "DEVEL"])
        if (a.value, a.code, a.stdout) != (b.value, b.code, b.stdout) or a.error or b.error:
            raise Violation("%r versus %r" % (a.stdout, b.stdout))
    return {"key": c09.text_of(lines), "sample": c09.text_of(lines)}


TESTS = [Test("flatten", flatten, M.VERSIONS, n=(25, 800)), Test("fails", fails, M.VERSIONS, n=(20, 400)),
         Test("newest", newest, M.VERSIONS, n=(2, 20)), Test("program", program, n=(40, 400))]
