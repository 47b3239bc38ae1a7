"""C01: write-and-reparse preserves the configuration; writing is stable."""
from kv import doc, gen, norm, real
from kv import model as M
from kv.engine import Discard, Test, Violation
from kv.findings import ids, reporter

RULE = ("a case is one accepted document; non-trivial when the written text contains at least one generated command "
        "or section; distinct by (version, source text)")
ASSUMPTIONS = [
    "option values needing shell quoting are only generated for the free-text options (gen.FREETEXT) and never "
    "contain a double quote, a backslash or a control character",
    "before F8 sections are written without %end, so trailing blank lines of a script are not delimited",
    "settings without effect in their combination (norm.py lists them) may be dropped by the writer",
]
known = reporter("C01")
KNOWN = ids("C01")


def code_lines(text):
    return [l for l in text.split("\n") if l.strip() and not l.startswith("#")]


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s only on one side" % (path, k)
            d = diff(a[k], b[k], path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != b or (isinstance(a, bool) != isinstance(b, bool)):
        return "%s: %r became %r" % (path, a, b)
    return None


def whole(h, version, cmds):
    s = {"commands": norm.snap(real.snapshot(h, version, cmds, M), version, cmds)}
    s["scripts"] = []
    for x in h.scripts:
        e = doc.script_actual(x)
        del e["lineno"]
        if M.NUM[version] < doc.F8:         # no %end in the written form: trailing blank lines are not delimited
            e["script"] = e["script"].rstrip()
        s["scripts"].append(e)
    p = doc.pkg_actual(h.packages)
    if p["default"]:
        p["environment"] = None
    s["packages"] = p
    s["platform"] = h.platform
    return s


def roundtrip(src, version, cmds, text, make):
    h = make()
    try:
        real.parse(h, text)
    except real.E.KickstartError:
        raise Discard
    src.desc["version"], src.desc["input"] = version, text
    before = whole(h, version, cmds)
    s1 = str(h)
    if str(h) != s1:
        raise Violation("writing the same object twice gives different texts")
    d = diff(before, whole(h, version, cmds))
    if d:
        raise Violation("writing changed the configuration: " + d)
    src.desc["written"] = s1
    h2 = make()
    try:
        real.parse(h2, s1)
    except real.E.KickstartError as e:
        raise Violation("the written text is rejected: %s" % e)
    d = diff(before, whole(h2, version, cmds))
    if d:
        raise Violation("not preserved: " + d)
    s2 = str(h2)
    if code_lines(s2) != code_lines(s1):
        raise Violation("the second writing differs from the first:\n" + s2)
    return s1, h2


def pick(src, version, cmd, **kw):
    _c, items = gen.line(src, version, cmd, valid=100, rt=True, **kw)
    items = [it for it in items if it[1] != "--nolinear"]
    return items


def single(src, stratum):
    version, cmd = stratum
    items = pick(src, version, cmd, deprecated=0, density=src.choice([8, 25, 50]))
    text = gen.text(version, cmd, items) + "\n"
    s1, _h2 = roundtrip(src, version, [cmd], text, lambda: real.small_handler(version, [cmd]))
    return {"nontrivial": bool(code_lines(s1)), "key": text, "sample": text}


def rich(src, cls):
    """Many options of one implementation together, sometimes on several lines."""
    version, cmd = doc.at(src, cls)
    if cmd == "lilo":
        raise Discard
    if src.chance(25):
        lines, _mh = doc.command_lines(src, version, 2, 3, pool=[cmd], rt=True, density=src.choice([20, 50]))
        lines = [l[2] for l in lines if "--nolinear" not in l[2]]
        if not lines:
            raise Discard
    else:
        lines = [gen.text(version, cmd, pick(src, version, cmd, deprecated=0, density=src.choice([20, 45, 75])))]
    text = "".join(l + "\n" for l in lines)
    s1, _h2 = roundtrip(src, version, [cmd], text, lambda: real.small_handler(version, [cmd]))
    return {"nontrivial": bool(code_lines(s1)), "key": text, "sample": text}


def repeated(src, stratum):
    """Several lines of the same command."""
    version, cmd = stratum
    lines, _mh = doc.command_lines(src, version, 2, 4, pool=[cmd], rt=True, density=src.choice([8, 30]))
    lines = [l for l in lines if "--nolinear" not in l[2]]
    if not lines:
        raise Discard
    text = "".join(l[2] + "\n" for l in lines)
    s1, _h2 = roundtrip(src, version, [cmd], text, lambda: real.small_handler(version, [cmd]))
    return {"nontrivial": len(lines) > 1, "key": text, "sample": text}


def document(src, version):
    num = M.NUM[version]
    pool = [c for c in doc.pool_of(version) if c not in ("lilo",)]
    lines, _mh = doc.command_lines(src, version, 0, 9, pool=pool, rt=True)
    lines = [l for l in lines if "--nolinear" not in l[2]]
    cmds = sorted({l[0] for l in lines})
    out = [l[2] for l in lines]
    if src.chance(30):
        out.insert(0, "#platform=" + doc.platform(src))
    nsec = src.int(0, 4)
    for _ in range(nsec):
        out += doc.section_lines(doc.section(src, num))
        if src.chance(20):
            out.append("")
    text = "\n".join(out) + "\n"
    s1, _h = roundtrip(src, version, cmds, text, lambda: real.full_handler(version))
    return {"nontrivial": bool(lines or nsec), "key": text, "sample": text}


def lilo(src, version):
    """lilo is the old name of bootloader --useLilo and is written that way."""
    items = pick(src, version, "lilo")
    text = gen.text(version, "lilo", items) + "\n"
    src.desc["input"] = text
    h = real.small_handler(version, ["lilo"])
    try:
        real.parse(h, text)
    except real.E.KickstartError:
        raise Discard
    h2 = real.small_handler(version, ["lilo"])
    s1 = str(h)
    src.desc["written"] = s1
    real.parse(h2, s1)
    a = norm.snap(real.snapshot(h, version, ["lilo"], M), version, ["lilo"])
    b = norm.snap(real.snapshot(h2, version, ["bootloader"], M), version, ["bootloader"])
    (x,), (y,) = a.values(), b.values()
    d = diff(x["attrs"], y["attrs"])
    if d:
        raise Violation("lilo not preserved as bootloader: " + d)
    return {"key": text, "sample": text}


def nolinear(src, version):
    """Known finding: --nolinear is not written."""
    text = "bootloader --nolinear\n"
    src.desc["input"] = text
    h = real.small_handler(version, ["bootloader"])
    real.parse(h, text)
    h2 = real.small_handler(version, ["bootloader"])
    real.parse(h2, str(h))
    if h.bootloader.linear != h2.bootloader.linear:
        if "bootloader-nolinear" not in KNOWN:
            raise Violation("bootloader --nolinear is lost")
        return {"known": ["bootloader-nolinear"], "key": version}
    return {"key": version}


PAIRS = [(v, c) for v in M.VERSIONS for c in doc.normal_commands(v) if c != "lilo"]
HAS_LIST = [(v, c) for v, c in PAIRS]
OLD = [v for v in M.VERSIONS if "lilo" in doc.normal_commands(v)]
NOLIN = [v for v in M.VERSIONS if "--nolinear" in M.spec(v, "bootloader").byflag
         and not M.spec(v, "bootloader").byflag["--nolinear"]["deprecated"]]
TESTS = [Test("single", single, PAIRS, n=(12, 250)),
         Test("rich", rich, sorted(doc.CLASSES), n=(30, 900), weight=doc.richness),
         Test("repeated", repeated, PAIRS, n=(3, 60)),
         Test("document", document, M.VERSIONS, n=(40, 700)),
         Test("lilo", lilo, OLD, n=(30, 300)),
         Test("nolinear", nolinear, NOLIN, n=(1, 1))]
