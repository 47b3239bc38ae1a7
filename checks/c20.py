"""C20: the version difference tool reports exactly the differences."""
import re

from kv import tools
from kv import model as M
from kv.engine import Test, Violation

RULE = ("a case is an ordered pair of versions and a way to spell them, or a bad call; all pairs are covered; non-trivial "
        "when the versions differ; distinct by the call")
ASSUMPTIONS = ["the frozen table kv/grammar.json is the documented grammar of each version",
               "an option with several spellings is known by its first one; operands are not options",
               "deprecated are the names deprecated in the target version, whether or not they were before"]


def spell(src, v):
    return src.choice([v, v, v.lower(), str(M.NUM[v])])


def first_flags(v, c, deprecated=False):
    return {o["flags"][0] for o in M.spec(v, c).opts if o["flags"] and o["flags"][0].startswith("-")
            and (o["deprecated"] or not deprecated)}


def expected(a, b):
    """-> removed, deprecated, added commands and {(kind, command): options}"""
    A, B = set(M.commands(a)), set(M.commands(b))
    kind = lambda v, c: M.spec(v, c).kind                           # noqa: E731
    removed = (A - B) | {c for c in A & B if kind(b, c) == "removed" and kind(a, c) != "removed"}
    dep = {c for c in A & B if kind(b, c) == "deprecated"}
    opts = {}
    for c in A & B:
        if kind(a, c) != "normal" or kind(b, c) != "normal" or c == "method":
            continue
        x, y = first_flags(a, c), first_flags(b, c)
        for k, s in (("added", y - x), ("deprecated", first_flags(b, c, True)), ("removed", x - y)):
            if s:
                opts[k, c] = s
    return removed, dep, B - A, opts


HEAD = re.compile(r"^The following (commands|options) were (removed|deprecated|added) (?:in|(?:to|from) the (\S+) command in) "
                  r"(\S+):$")


def read(text, to):
    """The report as data."""
    cmds, opts, order = {}, {}, []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        m = HEAD.match(l)
        if m:
            words = lines[i + 1].split() if i + 1 < len(lines) else []
            if words != lines[i + 1].split(" ") and lines[i + 1]:
                raise Violation("odd list %r" % lines[i + 1])
            if m.group(4) != to:
                raise Violation("%r is not about %s" % (l, to))
            if len(words) != len(set(words)) or words != sorted(words):
                raise Violation("not a sorted list without repetitions: %r" % words)
            k = m.group(2) if m.group(1) == "commands" else (m.group(2), m.group(3))
            d = cmds if m.group(1) == "commands" else opts
            if k in d:
                raise Violation("%r is reported twice" % (k,))
            d[k] = set(words)
            order.append(k)
            i += 2
        elif l.strip():
            raise Violation("what is %r?" % l)
        else:
            i += 1
    return cmds, opts


def pair(src, stratum):
    a, b = stratum
    x, y = spell(src, a), spell(src, b)
    argv = sum(src.shuffle([[src.choice(["-f", "--from"]), x], [src.choice(["-t", "--to"]), y]]), [])
    src.desc.update(argv=argv)
    r = tools.call("ksverdiff", argv)
    if r.error is not None or r.code is not None or r.value != 0:
        raise Violation("failed: %r %r %r %s" % (r.error, r.code, r.value, r.stdout))
    cmds, opts = read(r.stdout, y)
    removed, dep, added, want = expected(a, b)
    for k, w in (("removed", removed), ("deprecated", dep), ("added", added)):
        if cmds.get(k, set()) != w:
            raise Violation("commands %s from %s to %s: %r, expected %r" % (k, a, b, sorted(cmds.get(k, ())), sorted(w)))
    opts = {k: v for k, v in opts.items() if k[1] != "method"}
    for k in sorted(set(opts) | set(want)):
        if opts.get(k) != want.get(k):
            raise Violation("options %s of %s from %s to %s: %r, expected %r" % (
                k[0], k[1], a, b, sorted(opts.get(k, ())), sorted(want.get(k, ()))))
    return {"nontrivial": a != b, "key": repr(argv), "sample": argv, "labels": ["same"] if a == b else []}


def bad(src, _s):
    k = src.below(5)
    good = src.choice(M.VERSIONS)
    wrong = src.choice(["F99", "RHEL", "nosuch", "12345", "fc7", "F0", "-1x"])
    argv = [[], ["-f", good], ["-t", good], ["-f", wrong, "-t", good], ["-f", good, "-t", wrong]][k]
    if k < 3 and src.chance(30):
        argv = argv + src.choice([["-f", ""], ["-t", ""]])
    if src.chance(20):
        argv = src.choice([["--nosuch"], ["-f"], ["-f", good, "-t", good, "extra"]])
    src.desc["argv"] = argv
    r = tools.call("ksverdiff", argv)
    code = r.code if r.code is not None else r.value
    if r.error is not None or code in (0, None):
        raise Violation("%r: %r %r" % (argv, r.error, code))
    if "were removed" in r.stdout or not (r.stdout + r.stderr).strip():
        raise Violation("%r: %r" % (argv, r.stdout))
    return {"key": repr(argv), "sample": argv}


def listing(src, _s):
    argv = src.choice([["-l"], ["--listversions"], ["-l", "-f", "nosuch"], ["-l", "-f", src.choice(M.VERSIONS)]])
    r = tools.call("ksverdiff", argv)
    if r.error is not None or r.code is not None or r.value != 0:
        raise Violation("%r: %r %r" % (argv, r.error, r.value))
    got = r.stdout.split()
    if len(got) != len(set(got)) or set(got) != set(M.VERSIONS) | {"DEVEL"}:
        raise Violation("versions listed: %r" % got)
    return {"key": repr(argv), "sample": argv}


def devel(src, version):
    """The development version by its name."""
    import pykickstart.version as V
    newest = [v for v in M.VERSIONS if M.NUM[v] == V.DEVEL]
    if len(newest) != 1:
        raise Violation("DEVEL is none of the versions")
    outs = []
    for d in ("DEVEL", newest[0]):
        argv = ["-f", version, "-t", d] if src.desc.setdefault("to", bool(len(version) % 2)) else ["-f", d, "-t", version]
        r = tools.call("ksverdiff", argv)
        if r.value != 0:
            raise Violation("%r fails: %r" % (argv, r.error))
        outs.append(r.stdout.replace(" in DEVEL:", " in %s:" % newest[0]))
    if outs[0] != outs[1]:
        raise Violation("DEVEL differs from %s" % newest[0])
    return {"key": version, "sample": version}


def program(src, _s):
    a, b = src.choice(M.VERSIONS), src.choice(M.VERSIONS)
    argv = src.choice([["-f", a, "-t", b], ["-f", a, "-t", b], ["-l"], ["-f", a], ["-f", "F99", "-t", b]])
    r, q = tools.process("ksverdiff", argv), tools.call("ksverdiff", argv)
    if r.code != q.value or r.stdout != q.stdout:
        raise Violation("%r: the program gives %r, %r" % (argv, r.code, r.stdout))
    return {"key": repr(argv), "sample": argv}


PAIRS = [(a, b) for a in M.VERSIONS for b in M.VERSIONS]
TESTS = [Test("pair", pair, PAIRS, n=(1, 6)), Test("bad", bad, n=(80, 400)), Test("listing", listing, n=(8, 16)),
         Test("devel", devel, M.VERSIONS, n=(1, 2)), Test("program", program, n=(16, 120))]
