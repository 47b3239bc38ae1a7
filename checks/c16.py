"""C16: comments, blank lines, spacing, quoting and option spelling carry no meaning."""
import copy

from checks import c12
from kv import doc, gen, oracle, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a document and a rewriting of it; non-trivial when the two texts differ; distinct by both texts")
ASSUMPTIONS = ["a rewritten option keeps its order relative to options with the same destination",
               "lines of commands that keep their arguments verbatim (auth, authselect) are only re-indented",
               "a value that starts with a dash is always attached with ="]
COMMENTS = ["# comment", "#", "  # indented", "\t#x", "# lang en_US", "# it's unbalanced", "#'", '# "', "#!/bin/sh",
            "# %pre", "# version=F8", " #version=RHEL3", "# %include /etc/none", "#\\", "##platform=x", "#%end"]
BLANK = ["", " ", "\t", "   \t "]
SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@%+=:,./^~!*?{}[]-")


# ---------------------------------------------------------------- spelling of a word
def spell(src, tok):
    """The same word for a shell-like lexer, quoted differently."""
    if tok == "":
        return src.choice(["''", '""', "''\"\""])
    k = src.below(10)
    safe = all(c in SAFE for c in tok)
    if k < 4 and safe:
        return tok
    if k < 6 and "'" not in tok:
        return "'" + tok + "'"
    if k < 8:
        return '"' + tok.replace("\\", "\\\\").replace('"', '\\"') + '"'
    out = ""
    i = 0
    while i < len(tok):
        j = i + src.int(1, 4)
        seg = tok[i:j]
        m = src.below(4)
        if m == 0 and all(c in SAFE for c in seg):
            out += seg
        elif m == 1 and "'" not in seg:
            out += "'" + seg + "'"
        elif m == 2:
            out += "".join(c if c.isalnum() else "\\" + c for c in seg)
        else:
            out += '"' + seg.replace("\\", "\\\\").replace('"', '\\"') + '"'
        i = j
    return out


def gap(src):
    return src.choice([" ", " ", " ", "  ", "\t", " \t  "])


def tail(src):
    """What may follow the last word."""
    return src.choice(["", "", "", " ", "\t", "   # comment", " # it's", " #", "\t# 'a \"b"])


def indent(src):
    return src.choice(["", "", "", " ", "\t", "    "])


# ---------------------------------------------------------------- a line
def reorder(src, version, cmd, items, mh):
    """Permute options (operands stay together); only if the reference model says it makes no difference."""
    sp = M.spec(version, cmd)
    if sp.suffix in gen.RAW | {"Realm", "DeviceProbe"}:
        return items
    bare = [it for it in items if it[0] == "o" and it[2] is None and it[1] in sp.byflag and
            sp.byflag[it[1]]["nargs"] != 0]
    if bare:
        return items
    ops = [it for it in items if it[0] == "o"]
    pos = [it for it in items if it[0] == "p"]
    new = src.shuffle(ops)
    groups = {}
    for it in ops:
        groups.setdefault(sp.byflag[it[1]]["dest"] if it[1] in sp.byflag else it[1], []).append(it)
    new = [groups[sp.byflag[it[1]]["dest"] if it[1] in sp.byflag else it[1]].pop(0) for it in new]
    k = src.choice([0, len(new), src.below(len(new) + 1)])
    out = new[:k] + pos + new[k:]
    a, b = copy.deepcopy(mh), copy.deepcopy(mh)
    t = gen.text(version, cmd, items)
    try:
        wa = a.run(cmd, items, t, lineno=0)
        wb = b.run(cmd, out, t, lineno=0)
    except M.Reject:
        return items
    sa, sb = a.st.get(sp.cls), b.st.get(sp.cls)
    if sorted(wa) != sorted(wb) or sa and (not oracle_same(sa.attrs, sb.attrs) or not oracle_same(sa.data, sb.data)):
        return items
    return out


def oracle_same(x, y):
    if isinstance(x, dict):
        return set(x) == set(y) and all(oracle_same(x[k], y[k]) for k in x)
    if isinstance(x, list):
        return len(x) == len(y) and all(oracle_same(a, b) for a, b in zip(x, y))
    return x is M.ANY or y is M.ANY or (x == y and isinstance(x, bool) == isinstance(y, bool))


def rewrite(src, version, cmd, items):
    sp = M.spec(version, cmd) if cmd in M.commands(version) else None
    if sp is None or sp.suffix in gen.RAW:
        return indent(src) + gen.text(version, cmd, items) + src.choice(["", " ", "\t "])
    words = [spell(src, cmd) if src.chance(20) else cmd]
    for it in items:
        if it[0] == "p" or it[2] is None:
            words.append(spell(src, it[1]))
        elif it[2].startswith("-") or sp.suffix == "Realm" or src.chance(50) or \
                it[1] not in sp.byflag or sp.byflag[it[1]]["nargs"] == 0:
            words.append(it[1] + "=" + spell(src, it[2]) if src.chance(70) else spell(src, it[1] + "=" + it[2]))
        else:
            words.append(spell(src, it[1]) if src.chance(20) else it[1])
            words.append(spell(src, it[2]))
    t = indent(src) + words[0]
    for w in words[1:]:
        t += gap(src) + w
    return t + tail(src)


def fillers(src, out):
    for _ in range(src.int(0, 2)):
        out.append(src.choice(COMMENTS + BLANK))


def rewrite_section(src, s, num, out):
    """The header and the end respelled; package lines get comments and spacing."""
    if s["kind"] == "packages":
        t = "%packages"
        for f, v in s["opts"]:
            t += gap(src) + (f if v is None else f + "=" + spell(src, v) if src.chance(60) else f + gap(src) +
                             spell(src, v))
        out.append(indent(src) + t + tail(src))
        for l in s["body"]:
            fillers(src, out)
            if l.strip() and "#" not in l:
                l = indent(src) + l.strip() + src.choice(["", " ", "\t", " # why", "#why", " # it's"])
            out.append(l)
        fillers(src, out)
    else:
        words = s["words"]
        t = words[0]
        for w in words[1:]:
            t += gap(src) + spell(src, w)
        out.append(indent(src) + t + tail(src))
        out += s["body"]
    out.append(indent(src) + "%end" + tail(src))


def section(src, num):
    s = doc.section(src, num)
    if s["kind"] == "script":
        w = s["want"]
        opts = []
        if w["interp"] != "/bin/sh":
            opts.append("--interpreter=" + w["interp"])
        if w["log"] is not None:
            opts.append("--log=" + w["log"])
        if w["erroronfail"]:
            opts.append("--erroronfail")
        if w["nochroot"]:
            opts.append("--nochroot")
        s["words"] = [s["tag"]] + src.shuffle(opts)
    elif s["kind"] == "null":
        s["words"] = [s["tag"]] + s["args"]
    return s


def document(src, version):
    num = M.NUM[version]
    pool = [c for c in doc.pool_of(version) if c != "lilo"]
    if src.chance(60):
        pool = src.shuffle(pool)[:src.int(1, 5)]
    mh = M.ModelHandler(version)
    a, b, cmds = [], [], set()
    bad = src.chance(20)
    nbad = None
    n = src.int(1, 6)
    for i in range(n):
        fillers(src, b)
        if src.chance(75) or bad and i == n - 1:
            if bad and i == n - 1:
                cmd, items = bad_items(src, version, pool, mh)
                t = gen.text(version, cmd, items)
                new = items
                nbad = (len(a) + 1, len(b) + 1)
            else:
                cmd = src.choice(pool)
                _c, items = gen.line(src, version, cmd, valid=100, density=src.choice([5, 20, 45]), deprecated=3)
                t = gen.text(version, cmd, items)
                trial = copy.deepcopy(mh)
                try:
                    trial.run(cmd, items, t, lineno=0)
                except M.Reject:
                    continue
                new = reorder(src, version, cmd, items, mh) if src.chance(60) else items
                mh = trial
            cmds.add(cmd)
            a.append(t)
            b.append(rewrite(src, version, cmd, new))
        else:
            s = section(src, num)
            a += [s["header"]] + s["body"] + ["%end"]
            rewrite_section(src, s, num, b)
    fillers(src, b)
    nl = "\r\n" if src.chance(8) and not any(l.startswith("%") for l in a) else "\n"
    ta = "".join(l + "\n" for l in a)
    tb = "".join(l + nl for l in b)
    if src.chance(15):
        tb = tb[:-len(nl)]
    src.desc.update(version=version, plain=ta, rewritten=tb)
    have = [c for c in cmds if c in M.commands(version)] + ["cdrom"]
    h, g = real.small_handler(version, have), real.small_handler(version, have)
    x = state.run(h, text=ta)
    y = state.run(g, text=tb)
    if nbad:
        if x.err is None or y.err is None:
            raise Violation("accepted: %s / %s" % (x.err, y.err))
        if (x.err.lineno, y.err.lineno) != nbad or type(x.err) is not type(y.err):
            raise Violation("refused on lines %r, expected %r" % ((x.err.lineno, y.err.lineno), nbad))
        if x.err.message != y.err.message:
            raise Violation("refused with %r instead of %r" % (y.err.message, x.err.message))
    elif x.err or y.err:
        raise Violation("refused: %s / %s" % (x.err, y.err))
    if sorted(x.warns) != sorted(y.warns):
        raise Violation("warnings %r, expected %r" % (y.warns, x.warns))
    if not nbad:
        have = sorted(set(have))
        state.same(state.whole(g, version, have), state.whole(h, version, have), "rewritten versus plain")
        oracle.compare_state(g, mh, version, [c for c in have if c != "cdrom" or c in cmds])
    return {"nontrivial": ta != tb, "key": ta + tb, "sample": [ta, tb], "labels": ["refused"] if nbad else []}


def bad_items(src, version, pool, mh):
    for _ in range(30):
        if src.chance(10):
            return src.choice(["nosuch", "Lang"]), [("p", "x")]
        cmd = src.choice(pool)
        sp = M.spec(version, cmd)
        if sp.suffix in gen.RAW:
            continue
        _c, items = gen.line(src, version, cmd, valid=40, density=20, deprecated=0)
        if any(it[0] == "o" and it[2] is None and it[1] in sp.byflag and sp.byflag[it[1]]["nargs"] != 0
               for it in items):
            continue
        try:
            copy.deepcopy(mh).run(cmd, items, "")
        except M.Reject:
            return cmd, items
    raise Discard


def one_line(src, cls):
    """One densely filled line of every implementation, respelled."""
    version, cmd = doc.at(src, cls)
    mh = M.ModelHandler(version)
    _c, items = gen.line(src, version, cmd, valid=100, density=src.choice([30, 60]), deprecated=2)
    t = gen.text(version, cmd, items)
    try:
        copy.deepcopy(mh).run(cmd, items, t)
    except M.Reject:
        raise Discard
    new = reorder(src, version, cmd, items, mh)
    r = rewrite(src, version, cmd, new)
    src.desc.update(version=version, plain=t, rewritten=r)
    h, g = real.small_handler(version, [cmd]), real.small_handler(version, [cmd])
    x, y = state.run(h, text=t + "\n"), state.run(g, text=r + "\n")
    if x.err or y.err:
        raise Violation("refused: %s / %s" % (x.err, y.err))
    if sorted(x.warns) != sorted(y.warns):
        raise Violation("warnings %r, expected %r" % (y.warns, x.warns))
    state.same(state.whole(g, version, [cmd]), state.whole(h, version, [cmd]), "rewritten versus plain")
    return {"nontrivial": t != r, "key": t + "\n" + r, "sample": [t, r]}


CLS = sorted(c for c in doc.CLASSES)
TESTS = [Test("document", document, M.VERSIONS, n=(150, 4000)),
         Test("one_line", one_line, CLS, n=(25, 600), weight=lambda c: 0.5 + doc.richness(c))]
