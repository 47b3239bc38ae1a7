"""C11: errors, warnings and objects carry the exact line number, errors the right type."""
import copy
import re

from kv import doc, gen, oracle, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a document, usually with one defect; non-trivial when something precedes the defect or an object is "
        "checked; distinct by (version, text)")
ASSUMPTIONS = ["a defect inside the body of a package section has no line number in this library and is not covered"]

FILL = ["", "", "   ", "\t", "# comment", "   # indented comment", "#", "#platform=x86", "# %end", "# %pre"]


def filler(src, out, most=3):
    for _ in range(src.int(0, most)):
        out.append(src.choice(FILL))


def prefix(src, version, out, mh, used, maxcmd=5, maxsec=2, pool=None):
    """Append acceptable content to out; the model runs along with true line numbers."""
    num = M.NUM[version]
    pool = pool or [c for c in doc.pool_of(version) if c != "lilo"]
    heads = []
    plan = src.shuffle(["c"] * src.int(0, maxcmd) + ["s"] * src.int(0, maxsec))
    is_open = False
    for i, k in enumerate(plan):
        if not is_open:
            filler(src, out)
        is_open = False
        if k == "c":
            cmd = src.choice(pool)
            _c, items = gen.line(src, version, cmd, valid=100, density=8, deprecated=0)
            t = gen.text(version, cmd, items)
            trial = copy.deepcopy(mh[0])
            try:
                trial.run(cmd, items, t, lineno=len(out) + 1)
            except M.Reject:
                continue
            mh[0] = trial
            out.append(t)
            used[cmd] = len(out)
        else:
            s = doc.section(src, num)
            out.append(s["header"])
            if s["kind"] == "script" and "".join(s["body"]).strip():
                heads.append(len(out))
            out += s["body"]
            # Before Fedora 8 the next header closes a section, too.
            is_open = num < doc.F8 and plan[i + 1:i + 2] == ["s"] and src.chance(50)
            if not is_open:
                out.append("%end")
    filler(src, out)
    return heads


def join(src, out):
    nl = "\r\n" if src.chance(6) else "\n"
    return "".join(l + nl for l in out)


def objects(src, version):
    """Commands, their entries and scripts know their lines."""
    out, mh, used = [], [M.ModelHandler(version)], {}
    heads = prefix(src, version, out, mh, used, 6, 3)
    text = join(src, out)
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, sorted(used) + ["cdrom"])
    r = state.run(h, text=text)
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    oracle.compare_state(h, mh[0], version, sorted(used), lineno=True)
    last = {}
    for cmd, n in used.items():
        k = M.spec(version, cmd).cls
        last[k] = max(n, last.get(k, 0))
    for cmd in used:
        if h.commands[cmd].lineno != last[M.spec(version, cmd).cls]:
            raise Violation("%s: line number %r, expected %r" % (cmd, h.commands[cmd].lineno,
                                                                last[M.spec(version, cmd).cls]))
    got = [s.lineno for s in h.scripts]
    if got != heads:
        raise Violation("scripts on lines %r, expected %r" % (got, heads))
    return {"nontrivial": bool(used or heads), "key": text, "sample": text}


def bad_command(src, version, mh, used):
    """A command line the model refuses; -> text"""
    for _ in range(20):
        k = src.below(6)
        if k == 0:
            return src.choice(["nosuchcommand", "nosuch --a=b c", "Part /", "langx en_US", "part/", "--foo"])
        cmd = src.choice([c for c in doc.pool_of(version) if c not in ("lilo", "method")])
        sp = M.spec(version, cmd)
        if k == 1:
            if sp.suffix in gen.RAW | {"Realm"}:
                continue
            _c, items = gen.line(src, version, cmd, valid=100, density=8, deprecated=0)
            items = items + [("o", "--nosuchoption", src.choice([None, "x"]))]
        elif k == 2:
            items = []
        elif k == 3 and sp.live_opts():
            o = src.choice(sp.live_opts())
            items = [gen.opt_item(src, sp, o, 0)]
            if any(it[2] is None and o["nargs"] != 0 for it in items):
                continue
        else:
            _c, items = gen.line(src, version, cmd, valid=30, density=20)
            if any(it[0] == "o" and it[2] is None and it[1] in sp.byflag and sp.byflag[it[1]]["nargs"] != 0
                   for it in items):
                continue
        t = gen.text(version, cmd, items)
        try:
            copy.deepcopy(mh[0]).run(cmd, items, t)
        except M.Reject:
            used.setdefault(cmd, 0)
            return t
    raise Discard


def check_error(err, line, text):
    if err is None:
        raise Violation("the defect on line %d is not reported" % line)
    if not isinstance(err, real.E.KickstartParseError):
        raise Violation("reported as %s: %s" % (type(err).__name__, err))
    if err.lineno != line:
        raise Violation("reported on line %r, expected %d: %s" % (err.lineno, line, err))
    if not re.search(r"\b%d\b" % line, str(err)):
        raise Violation("the text of the error does not name line %d: %s" % (line, err))
    if err.message and str(err.message) not in str(err):
        raise Violation("the text of the error lacks its message")


def command_error(src, version):
    out, mh, used = [], [M.ModelHandler(version)], {}
    prefix(src, version, out, mh, used)
    bad = src.choice(["", "", "  ", "\t"]) + bad_command(src, version, mh, used)
    out.append(bad)
    line = len(out)
    for _ in range(src.int(0, 3)):
        out.append(src.choice(["", "# after", "nosuchcommand again", "cdrom", "%pre", "%nosuchsection"]))
    text = join(src, out)
    src.desc.update(version=version, text=text, bad=bad)
    h = real.small_handler(version, sorted(used) + ["cdrom"])
    r = state.run(h, text=text)
    check_error(r.err, line, text)
    return {"nontrivial": line > 1, "key": text, "sample": text, "labels": ["command"]}


def section_error(src, version):
    num = M.NUM[version]
    out, mh, used = [], [M.ModelHandler(version)], {}
    prefix(src, version, out, mh, used, 3, 2)
    kinds = ["unknown", "script option", "packages option", "include", "include in section", "script operand"]
    if num >= doc.F8:
        kinds += ["eof", "eof", "next header"]
    kind = src.choice(kinds)
    if kind == "unknown":
        out.append(src.choice(["%nosuch", "%Pre", "%packagesx a", "%end", "%prex --log=/x", "%posts", "%", "%%pre"]))
        line = len(out)
        out += ["x", "%end"]
    elif kind == "script option":
        out.append(src.choice(doc.SCRIPT_TAGS) + src.choice([" --nosuch", " --erroronfail=1", " --interpreter",
                                                             " --nosuch=/x"]))
        line = len(out)
        out += ["echo", "%end"]
    elif kind == "script operand":
        out.append(src.choice(doc.SCRIPT_TAGS) + " --log=/x operand")
        line = len(out)
        out += ["echo", "%end"]
    elif kind == "packages option":
        out.append("%packages" + src.choice([" --nosuch", " operand", " --nosuch=1 --excludedocs"]))
        line = len(out)
        out += ["vim", "%end"]
    elif kind == "include":
        out.append(src.choice(["%include", "  %include", "%include ''", "%include  # x"]))
        line = len(out)
    else:
        s = doc.section(src, num)
        out += [s["header"]] + s["body"]
        filler(src, out)
        if kind == "include in section":
            out.append(src.choice(["%include", "%include ''"]))
            line = len(out)
            out.append("%end")
        elif kind == "eof":
            line = len(out)
        else:
            out.append(src.choice(doc.SCRIPT_TAGS + ["%packages", "%addon x", "%anaconda"]))
            line = len(out)
            out += ["%end"]
    text = join(src, out)
    if src.chance(15):
        text = text.rstrip("\r\n")
        if kind in ("eof", "include") and len(text.splitlines()) != line:
            raise Discard
    src.desc.update(version=version, text=text, kind=kind)
    h = real.small_handler(version, sorted(used) + ["cdrom"])
    r = state.run(h, text=text)
    check_error(r.err, line, text)
    return {"nontrivial": line > 1, "key": text, "sample": text, "labels": [kind]}


def warning_lines(src, version):
    """Deprecation warnings name the line they are about."""
    out, mh, used = [], [M.ModelHandler(version)], {}
    prefix(src, version, out, mh, used, 2, 2)
    dep = [c for c in doc.normal_commands(version, ("deprecated",))]
    withopt = [c for c in doc.normal_commands(version) if any(o["deprecated"] for o in M.spec(version, c).opts)
               and M.spec(version, c).suffix not in gen.RAW | {"Realm"}]
    want = []
    for _ in range(src.int(1, 3)):
        filler(src, out)
        if dep and src.chance(50):
            out.append(src.choice(dep) + src.choice(["", " x", " --y"]))
            want.append((len(out), out[-1].split()[0]))
        elif withopt:
            cmd = src.choice(withopt)
            sp = M.spec(version, cmd)
            o = src.choice([o for o in sp.opts if o["deprecated"]])
            _c, items = gen.line(src, version, cmd, valid=100, opts=[o], deprecated=0)
            t = gen.text(version, cmd, items)
            trial = copy.deepcopy(mh[0])
            try:
                trial.run(cmd, items, t)
            except M.Reject:
                continue
            mh[0] = trial
            out.append(t)
            used[cmd] = len(out)
            want.append((len(out), o["flags"][0]))
    text = join(src, out)
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, sorted(set(used) | {w[1] for w in want if w[1] in dep}) + ["cdrom"])
    r = state.run(h, text=text)
    if r.err is not None:
        raise Discard
    got = []
    for m in r.messages:
        x = re.search(r"on line (\d+)", m)
        if x:
            got.append((int(x.group(1)), m))
    for line, what in want:
        if not any(n == line and what in m for n, m in got):
            raise Violation("no warning about %s names line %d: %r" % (what, line, got))
    for n, m in got:
        if n not in [w[0] for w in want] and not out[n - 1].startswith("%"):
            raise Violation("a warning names line %d: %s" % (n, m))
    return {"nontrivial": bool(want), "key": text, "sample": text, "labels": ["warning"] * len(want)}


def unknown_section_warning(src, version):
    out, mh, used = [], [M.ModelHandler(version)], {}
    prefix(src, version, out, mh, used, 2, 2)
    out.append(src.choice(["%foo", "%bar a b", "%com.x --y"]))
    line = len(out)
    out += ["text", "%end"]
    text = join(src, out)
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, sorted(used) + ["cdrom"])
    r = state.run(h, text=text, unknownSectionIsFatal=False)
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    tag = out[line - 1].split()[0]
    m = [x for x in r.messages if tag in x]
    if len(m) != 1 or not re.search(r"\bline %d\b" % line, m[0]):
        raise Violation("expected one warning about %s on line %d: %r" % (tag, line, r.messages))
    return {"key": text, "sample": text}


def constructed(src, _s):
    """Error objects format themselves the same way however they are made."""
    cls = src.choice([real.E.KickstartError, real.E.KickstartParseError, real.E.KickstartVersionError,
                      real.E.KickstartValueError])
    msg = src.choice(["", "bad thing", "100% wrong %s", "naïve", "a\nb"])
    line = src.choice([None, 0, 1, 17, 100000])
    fmt = src.chance(70)
    e = cls(msg, lineno=line, formatting=fmt)
    src.desc.update(cls=cls.__name__, msg=msg, line=line, formatting=fmt)
    if e.message != msg or e.lineno != line or not isinstance(e, real.E.KickstartError):
        raise Violation("message %r, line %r" % (e.message, e.lineno))
    s = str(e)
    if line is None or not fmt:
        if s != msg:
            raise Violation("text %r, expected the message" % s)
    elif str(line) not in s or msg not in s:
        raise Violation("text %r lacks the line or the message" % s)
    with real.catch():
        old = cls(real.E.formatErrorMsg(line, msg))
    if line is not None and (old.lineno != line or old.message != msg or str(old) != str(cls(msg, lineno=line))):
        raise Violation("the deprecated way of making an error differs: %r" % str(old))
    return {"key": (cls.__name__, msg, line, fmt), "sample": s}


DEPR = [v for v in M.VERSIONS if doc.normal_commands(v, ("deprecated",))]
TESTS = [Test("objects", objects, M.VERSIONS, n=(80, 2500)),
         Test("command_error", command_error, M.VERSIONS, n=(120, 3000)),
         Test("section_error", section_error, M.VERSIONS, n=(100, 2500)),
         Test("warning_lines", warning_lines, DEPR, n=(30, 500)),
         Test("unknown_section_warning", unknown_section_warning, M.VERSIONS, n=(10, 100)),
         Test("constructed", constructed, n=(200, 400))]
