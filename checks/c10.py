"""C10: preprocessing splices appended files in and changes nothing else."""
import os

from kv import real, state, web
from kv.engine import Test, Violation
from pykickstart import parser as P

RULE = ("a case is a text and the files it appends; non-trivial when it has at least one append directive; distinct by "
        "text and files")
ASSUMPTIONS = ["lines end with LF or CRLF (other separators may occur inside them, and are kept); the location is the word after a single blank",
               "directives inside an appended file are left alone, as documented by the code"]

LINES = ["cdrom", "lang en_US", "", "   ", "# comment", "# %ksappend /x", "%pre", "echo %ksappend /x", "%end", "\tx  ",
         "%include /a/b", "naïve Łódź", "%ksappen /x", "a %ksappend b", "%packages --nobase", "@core", "trailing  ",
         "\u2603", "x" * 300, "part / --size=1", "%"]


# the characters that split lines for str.splitlines but not for a text editor: to be kept as they are
ODD = ["\x0c", "a\x0cb", "\x1c", "\x0b x", "a\x85", "\u2028", "a\rb", "\r", "\t", "\0", "\ufeff", "\x1a", "\x0c\x0c", "x\x1d"]


def plain(src, odd):
    return src.choice(ODD) if odd and src.chance(12) else src.choice(LINES)


def content(src, odd=True):
    n = src.int(0, 4)
    nl = "\r\n" if src.chance(10) else "\n"
    t = nl.join(plain(src, odd) for _ in range(n))
    if n and src.chance(75):
        t += nl
    if src.chance(8):
        t += "%ksappend /nested/is/left/alone\n"
    return t


def directive(src, loc):
    return src.choice(["", "", "", " ", "\t", "   "]) + "%ksappend " + loc + src.choice(["", "", "", "  ", " # x", " y"])


def temp_result(fn, arg):
    """Call one of the functions that make a file; -> (bytes or None)"""
    name = fn(arg)
    if name is None:
        return None
    try:
        with open(name, "rb") as f:
            return f.read()
    finally:
        os.unlink(name)


def four(text, main):
    """The four entry points."""
    state.put(main, text)
    return [("text to text", lambda: P.preprocessFromStringToString(text)),
            ("file to text", lambda: P.preprocessKickstartToString(main)),
            ("text to file", lambda: temp_result(P.preprocessFromString, text)),
            ("file to file", lambda: temp_result(P.preprocessKickstart, main))]


def build(src, root, bad=None):
    """-> (text, expected bytes or the line number of the bad directive)"""
    out, want, lineno = [], [], 0
    n = src.int(0, 7)
    at = src.below(n + 1) if bad else None
    nl = "\r\n" if src.chance(10) else "\n"
    files = []
    base = web.server() if src.chance(5) else None
    for k in range(n + 1):
        if k == at:
            lineno = k + 1
            out.append(bad)
        elif k == n and at is None:
            break
        elif src.chance(40):
            if files and src.chance(20):
                loc, body = src.choice(files)
            else:
                body = content(src, not bad)
                if base and src.chance(60):
                    loc = "%s/f%d" % (base, k)
                    web.route("/f%d" % k, body=body.encode("utf-8"), ctype=src.choice([None, "text/plain"]))
                else:
                    loc = os.path.join(root, src.choice(["f%d", "d/e/f%d.ks", "ü%d"]) % k)
                    state.put(loc, body)
                files.append((loc, body))
            out.append(directive(src, loc) + nl)
            want.append(body)
        else:
            l = plain(src, not bad) + nl
            out.append(l)
            want.append(l)
    if bad:
        out[at] = out[at] + nl
    if out and src.chance(20):
        last = out[-1]
        out[-1] = last.rstrip("\r\n")
        if want and want[-1] == last:
            want[-1] = out[-1]
    text = "".join(out)
    src.desc.update(text=text, files=files)
    return text, lineno if bad else "".join(want).encode("utf-8"), files


def splice(src, _s):
    with state.scratch() as root:
        text, want, files = build(src, root)
        main = root + "/main.ks"
        before = sorted(os.listdir(root))
        for what, fn in four(text, main):
            got = fn()
            if got is None:
                got = b""
                if "file" not in what.split(" to ")[1]:
                    raise Violation("%s returned nothing" % what)
            elif not got and "to file" in what:
                raise Violation("%s: a file for an empty result" % what)
            if not isinstance(got, bytes):
                got = got.encode("utf-8")
            if got != want:
                raise Violation("%s: %r, expected %r" % (what, got, want))
        with open(main, "rb") as f:
            if f.read() != text.encode("utf-8"):
                raise Violation("the source file was changed")
        for loc, body in files:
            if "://" not in loc and open(loc, "rb").read() != body.encode("utf-8"):
                raise Violation("an appended file was changed")
        if sorted(os.listdir(root)) != sorted(set(before) | {"main.ks"}):
            raise Violation("files appeared next to the source")
    t = text.replace(root, "")
    return {"nontrivial": bool(files), "key": t + repr(files).replace(root, ""), "sample": t,
            "labels": ["several"] if len(files) > 1 else []}


def broken(src, _s):
    with state.scratch() as root:
        os.mkdir(root + "/isdir")
        state.put(root + "/latin1", b"caf\xe9\n")
        bad, parse = src.choice([("%ksappend", True), ("  %ksappend   ", True), ("%ksappend " + root + "/missing", False),
                                 ("%ksappend " + root + "/isdir", False), ("%ksappend " + root + "/latin1", False),
                                 ("%ksappend nosuch://x/y", False),
                                 ("%%ksappend http://127.0.0.1:%d/x" % web.closed_port(), False)])
        text, line, files = build(src, root, bad)
        main = root + "/main.ks"
        for what, fn in four(text, main):
            try:
                fn()
            except real.E.KickstartError as e:
                if isinstance(e, real.E.KickstartParseError) != parse:
                    raise Violation("%s: reported as %s" % (what, type(e).__name__))
                if e.lineno != line or ("line %d " % line) not in str(e):
                    raise Violation("%s: reported on line %r, expected %d: %s" % (what, e.lineno, line, e))
                continue
            raise Violation("%s: a bad directive is ignored" % what)
        # a missing main file
        try:
            P.preprocessKickstart(root + "/no-such-main")
        except real.E.KickstartError:
            pass
        else:
            raise Violation("a missing file is not an error")
    return {"key": text.replace(root, ""), "sample": text.replace(root, ""), "labels": ["parse" if parse else "load"]}


def then_parse(src, _s):
    """What the parser sees after preprocessing is what it sees in the spliced text."""
    with state.scratch() as root:
        a, b = root + "/a", root + "/b"
        ta = src.choice(["user --name=a\n", "lang cs_CZ\n", "%pre\necho a\n%end\n", "#platform=x\n", ""])
        tb = src.choice(["%packages\nvim\n%end\n", "user --name=b\n", "# nothing\n"])
        state.put(a, ta)
        state.put(b, tb)
        mid = src.choice(["cdrom\n", "", "user --name=m\n"])
        text = "%%ksappend %s\n%s%%ksappend %s\n" % (a, mid, b)
        h, g = real.full_handler("F34"), real.full_handler("F34")
        x = state.run(h, text=P.preprocessFromStringToString(text).decode("utf-8"))
        y = state.run(g, text=ta + mid + tb)
        if x.err or y.err:
            raise Violation("rejected: %s %s" % (x.err, y.err))
        state.same(state.whole(h, "F34", ["user", "lang", "cdrom"], True), state.whole(g, "F34", ["user", "lang", "cdrom"],
                                                                                      True), "appended versus spliced")
        # the parser itself skips directives that were not preprocessed
        k = real.full_handler("F34")
        if state.run(k, text=text).err:
            raise Violation("an append directive is rejected by the parser")
        state.same(state.whole(k, "F34", ["user", "cdrom"]), state.whole(one(mid), "F34", ["user", "cdrom"]),
                   "unprocessed directives")
    return {"key": ta + mid + tb, "sample": text.replace(root, "")}


def one(text):
    h = real.full_handler("F34")
    state.run(h, text=text)
    return h


TESTS = [Test("splice", splice, n=(4000, 60000)), Test("broken", broken, n=(1200, 15000)),
         Test("then_parse", then_parse, n=(48, 200))]
