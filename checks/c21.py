"""C21: the interactive shell accumulates lines as one kickstart would."""
import os
import re

from checks import c12, c18
from kv import doc, real, state, tools
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a session: an optional input file, lines, built-in commands and the way it ends; non-trivial when at "
        "least two lines are entered; distinct by everything entered")
ASSUMPTIONS = ["sections come from the input file or included files only: the shell reads each line on its own",
               "a rejected line is one that leaves no trace in the written kickstart by itself (C12 says which do)"]
PROMPT = "ks> "
REJECT = ["lang 'open", "part \"", "%nosuch", "%nosuch x y", "%include", "%include /nonexistent/file.ks", " .show", "nosuch",
          "%pre-nosuch --log=x", "Part / --size=1", "rootpw 'a' \"b"]
NOTHING = ["", "   ", "# comment", "  # another", "\t", "#version=F8"]


def harmless(version, line, cmd):
    """Does the rejected line leave the output of a fresh handler alone?"""
    h = real.small_handler(version, [cmd] if cmd else [])
    was = str(h)
    try:
        state.run(h, text=line, errorsAreFatal=False)
    except ValueError:
        pass
    return str(h) == was


def entered(src, version, root):
    """-> [(line, kind)]: good, bad, nothing, show, clear, unknown"""
    rows, good, bads = c12.build(src, version, bad_sections=False)
    out, n = [], 0
    for t, kind, cmd in rows:
        if kind == "in" or (kind is None and not t.strip()):
            continue
        if kind == "command":
            if not harmless(version, t, cmd):
                continue
            out.append((t, "bad"))
        else:
            if t.startswith(".") or t.startswith("%"):
                continue
            if src.chance(10):
                n += 1
                f = "%s/line%d.ks" % (root, n)
                extra = "" if M.NUM[version] < doc.F8 else "%%pre\nincluded %d\n%%end\n" % n
                state.put(f, t + "\n" + extra)
                out.append((["%include " + f, t + "\n" + extra], "include"))
            else:
                out.append((t, "good"))
        k = src.below(100)
        if k < 12:
            out.append((src.choice(REJECT), "bad"))
        elif k < 15 and M.NUM[version] >= doc.F8:
            out.append((src.choice(["%pre", "%post --log=/x", "%pre --nosuch", "%onerror", "%post"]), "bad"))
        elif k < 22:
            out.append((src.choice(NOTHING), "nothing"))
        elif k < 36:
            out.append((src.choice([".show", ".show", ".show now", ".show  "]), "show"))
        elif k < 43:
            out.append((src.choice([".clear", ".clear all"]), "clear"))
        elif k < 48:
            out.append((src.choice([".nosuch", ".", "..", ".Show", ".showx", ". show", ".help"]), "unknown"))
    return out


def words(version, text, before=""):
    """The error message of one line by itself, or after other lines."""
    h = real.full_handler(version)
    if before and state.run(h, text=before).err is not None:
        return None
    try:
        r = state.run(h, text=text, errorsAreFatal=True)
    except ValueError as e:
        return str(e)
    return str(r.err) if r.err is not None else None


def session(src, version):
    with state.scratch() as root, c18.tmpdir(root) as tmp:
        lines = entered(src, version, root)
        argv = [src.choice(["-v", "--version"]), c18.spelled(src, version)]
        good = ""                   # what counts, since the last .clear
        seed, warn = None, None
        k = src.below(100)
        if k < 35:
            seed = "".join("".join(l + "\n" for l in doc.section_lines(doc.section(src, M.NUM[version])))
                           for _ in range(src.int(0, 2)))
            if "%ksappend" in seed:
                seed = seed.replace("%ksappend", "%ksappen")
            good = seed
            if src.chance(50):
                # a bad command line in the basis file does not keep the rest from counting
                cl, _mh = doc.command_lines(src, version, 1, 2, density=10)
                tail = "".join(t + "\n" for _c, _i, t in cl if not t.startswith((".", "%")))
                good = seed + tail
                seed += src.choice(["nosuch x\n", "Part /\n", " .show\n", "nosuch\nnosuch\n", ""]) + tail
            if src.chance(25):
                warn = src.choice(["lang 'open\n", "%nosuch\nx\n%end\n", "%include /nonexistent/x\n"])
                seed += warn
            state.put(root + "/in.ks", seed)
            argv += [src.choice(["-i", "--input"]), root + "/in.ks"]
        elif k < 45:
            seed = warn = src.choice(["missing", "directory", "not UTF-8", "empty", "append"])
            f = root + "/in.ks"
            if seed == "directory":
                os.mkdir(f)
            elif seed == "not UTF-8":
                state.put(f, b"lang caf\xe9\n")
            elif seed == "empty":
                state.put(f, "")
                warn = None
            elif seed == "append":
                state.put(f, "cdrom\n%ksappend /nonexistent/y\n")
            argv += ["-i", f]
        out = None
        if src.chance(40):
            out = root + "/" + src.choice(["out", "o ut.ks"])
            if src.chance(40):
                state.put(out, "old\n" * 500)
            argv += [src.choice(["-o", "--output"]), out]
        end = src.choice(["eof", "eof", ".quit", ".quit now", "interrupt", "no newline"])
        typed = [l[0] if isinstance(l, list) else l for l, _k in lines]
        if end.startswith(".quit"):
            typed += [end, "this is not read", ".show"]
        src.desc.update(version=version, typed=typed, argv=argv[1:], seed=seed, end=end)
        if PROMPT in "".join(typed + [seed or ""] + [l[1] for l, _k in lines if isinstance(l, list)]):
            raise Discard               # could not be told from a prompt
        stdin = "".join(l + "\n" for l in typed)
        if end == "no newline":
            stdin = stdin[:-1]
            if typed and not typed[-1]:         # an empty last line without its newline is not there
                typed.pop()
                lines.pop()
        r = tools.call("ksshell", argv, stdin=tools.Typed(stdin, end == "interrupt"))
        if r.error is not None or r.code is not None or r.value != 0:
            raise Violation("the session ended with %r" % (r.error or r.code or r.value))
        # ---- what it should have said
        parts = r.stdout.split(PROMPT)
        pre, said = parts[0], parts[1:]
        if (warn is not None) != ("Warning:" in pre):
            raise Violation("before the first prompt: %r" % pre)
        if len(said) != len(lines) + 1:
            raise Violation("%d prompts for %d lines" % (len(said), len(lines)))

        def now():
            h = real.full_handler(version)
            e = state.run(h, text=good)
            if e.err is not None:
                raise Discard               # good only together with what was cleared
            return str(h)

        for (l, kind), s in zip(lines, said):
            if kind == "good":
                good += l + "\n"
            elif kind == "include":
                good += l[1]
            elif kind == "clear":
                good = ""
            if kind == "show":
                if s != now() + "\n":
                    raise Violation(".show printed:\n%s\nexpected:\n%s" % (s, now()))
            elif kind == "unknown":
                if l.split()[0] not in s:
                    raise Violation("%r is answered %r" % (l, s))
            elif kind in ("nothing", "clear", "good", "include"):
                if s:
                    raise Violation("%r is answered %r" % (l, s))
            elif kind == "bad":
                w = words(version, l)
                if w is None or w not in s + r.stderr:
                    w = words(version, l, good) or w or "line 1"
                if w not in s + r.stderr:
                    raise Violation("%r is answered %r, expected %r" % (l, s, w))
        last = said[-1]
        if end.startswith("interrupt"):
            last = last.lstrip("\n") if out else last
        if out is None:
            if last != "\n" + now() + "\n":
                raise Violation("at the end:\n%s\nexpected:\n%s" % (last, now()))
        else:
            if last:
                raise Violation("printed although there is an output file: %r" % last)
            with open(out, encoding="utf-8", newline="") as f:
                got = f.read()
            if got != now():
                raise Violation("written:\n%s\nexpected:\n%s" % (got, now()))
        if os.listdir(tmp):
            raise Violation("temporary files left behind: %r" % os.listdir(tmp))
    return {"nontrivial": len(typed) > 1, "key": (repr(typed), repr(argv)).__repr__().replace(root, ""),
            "sample": [argv[1], seed, typed], "labels": sorted({k for _l, k in lines}) + ["end " + end] +
            (["seeded"] if seed else [])}


def completion(src, version):
    """What is offered for a word: the names that start so, or the options of the line's command."""
    m = tools.module("ksshell")
    h = real.full_handler(version)
    internal = {".clear": m.ClearCommand(), ".quit": m.QuitCommand(), ".show": m.ShowCommand()}
    names = set(M.commands(version)) | set(internal)
    comp = m.KickstartCompleter(h, internal)
    for _ in range(src.int(1, 6)):
        lead = src.choice(["", "", "", "  ", "\t"])
        cmd = src.choice(sorted(names - doc.SKIP))
        k = src.below(10)
        flags = []
        if cmd not in internal and M.spec(version, cmd).kind == "normal":
            flags = sorted({f for o in M.spec(version, cmd).opts for f in o["flags"] if f.startswith("-")})
        if k < 4:
            word = src.choice([cmd[:src.int(0, len(cmd))], cmd, cmd + "x", "z", ".", ".s", cmd[:src.int(1, 3)].upper(), cmd.title()])
            line, begin = lead + word, len(lead)
            want = {n for n in names if n.startswith(word)}
        elif k < 9:
            f = src.choice(flags) if flags else "--x"
            word = src.choice([f[:src.int(0, len(f))], f, f + "z", "-", "--", "", f[:src.int(3, 5)].upper(),
                               f[:src.int(3, 6)].swapcase()])
            before = lead + cmd + " " + "".join(src.choice(["x ", "--foo=1 ", "  ", "part ", ".show ", "-- ", "--x= ",
                                                             src.choice(flags or ["--y"]) + " "])
                                                for _ in range(src.int(0, 4) if src.chance(60) else 0))
            line, begin = before + word, len(before)
            want = {x for x in flags if x.startswith(word)}
        else:
            word = src.choice(["-", "--", "", "a"])
            before = src.choice(["nosuch ", "Part ", "-- "])
            line, begin = before + word, len(before)
            want = set()
        end = len(line)
        if word and src.chance(20):                         # the cursor need not be at the end
            line += src.choice([" ", " --foo", " x y", "  part"])
        src.desc.update(version=version, line=line, begin=begin, word=word)
        m.readline = tools.FakeReadline(line, begin, end)
        try:
            got = []
            while len(got) < 1000:
                x = comp.complete(word, len(got))
                if x is None:
                    break
                got.append(x)
        finally:
            m.readline = tools.READLINE
        if set(got) != want or len(got) != len(set(got)):
            raise Violation("%r: offered %r, expected %r" % (line, sorted(got), sorted(want)))
    return {"key": repr(src.desc), "sample": src.desc}


def refused(src, _s):
    """An unknown version ends the shell at once."""
    v = src.choice(["F99", "RHEL", "nosuch", "12345", "FC7", ""])
    r = tools.call("ksshell", ["-v", v], stdin=tools.Typed(".show\n", False))
    if r.error is not None or (r.value if r.code is None else r.code) in (0, None):
        raise Violation("%r: %r %r %r" % (v, r.error, r.code, r.value))
    if PROMPT in r.stdout or "#version" in r.stdout:
        raise Violation("a session with an unknown version")
    return {"key": v, "sample": v}


def program(src, _s):
    """The real program over a pipe."""
    version = src.choice(M.VERSIONS)
    cl, _mh = doc.command_lines(src, version, 1, 3, density=10)
    lines = [t for _c, _i, t in cl if not t.startswith((".", "%"))]
    with state.scratch() as root:
        h = real.full_handler(version)
        r0 = state.run(h, text="".join(l + "\n" for l in lines))
        if r0.err is not None:
            raise Violation("rejected: %s" % r0.err)
        typed = list(lines)
        typed.insert(src.below(len(typed) + 1), src.choice(["nosuch", "lang 'open", "# x", "", ".nosuch", "%nosuch"]))
        out = src.chance(50)
        argv = ["-v", version] + (["-o", "out.ks"] if out else [])
        ascii_env = src.chance(50) and (out or str(h).isascii()) and "".join(typed).isascii()
        src.desc.update(typed=typed, argv=argv, ascii=bool(ascii_env))
        r = tools.process("ksshell", argv, stdin="".join(l + "\n" for l in typed), cwd=root,
                          extra=tools.ASCII if ascii_env else None)
        if r.code != 0:
            raise Violation("exit status %d: %s" % (r.code, r.stderr))
        got = open(root + "/out.ks", encoding="utf-8", newline="").read() if out else r.stdout
        if (got != str(h)) if out else (not got.endswith("\n" + str(h) + "\n")):
            raise Violation("%r instead of %r" % (got, str(h)))
    return {"key": (version, repr(typed)), "sample": typed}


TESTS = [Test("session", session, M.VERSIONS, n=(40, 1000)), Test("completion", completion, M.VERSIONS, n=(25, 400)),
         Test("refused", refused, n=(12, 40)), Test("program", program, n=(32, 300))]
