"""C04: missing, malformed or contradictory arguments are rejected, every documented combination is accepted."""
from kv import doc, gen, oracle, real
from kv import model as M
from kv.engine import Discard, Src, Test, Violation
from kv.findings import ids, reporter

RULE = ("a case is one command line, as generated or after mutation; every one is decided by the reference model; "
        "non-trivial when it has at least one argument; distinct by (version, source line); labels count both verdicts")
ASSUMPTIONS = ["the reference model (kv/model.py) states the documented rules of each version",
               "words that argparse itself treats specially (negative numbers, words with blanks after a dash, "
               "abbreviated options) are not generated"]
known = reporter("C04")
KNOWN = ids("C04")


def decide(src, version, cmd, items):
    h, mh = real.small_handler(version, [cmd]), M.ModelHandler(version)
    ok = oracle.check_line(src, version, cmd, items, mh, h)
    t = gen.text(version, cmd, items)
    return {"nontrivial": bool(items), "key": t, "sample": t, "labels": ["accepted" if ok else "rejected"]}


def random_line(src, stratum):
    version, cmd = stratum
    _c, items = gen.line(src, version, cmd, valid=src.choice([50, 80, 95]), density=src.choice([8, 25, 60]),
                         deprecated=10)
    return decide(src, version, cmd, items)


def ambiguous(sp, items):
    """A valueless use of a valued option directly before an operand would take it as its value."""
    for i, it in enumerate(items):
        if it[0] != "o" or it[1] not in sp.byflag:
            continue
        o = sp.byflag[it[1]]
        if it[2] is None and o["nargs"] != 0 and i + 1 < len(items) and items[i + 1][0] == "p":
            return True
    return False


def mutated(src, stratum):
    """One thing wrong (or not) with an acceptable line."""
    version, cmd = stratum
    sp = M.spec(version, cmd)
    if sp.suffix in gen.RAW:
        raise Discard
    _c, items = gen.line(src, version, cmd, valid=100, density=src.choice([0, 15, 40]), deprecated=0)
    items = list(items)
    how = src.below(8)
    opts = [i for i, it in enumerate(items) if it[0] == "o"]
    if how == 0 and items:
        items.pop(src.below(len(items)))
    elif how == 1:
        items.insert(src.below(len(items) + 1), ("p", gen.word(src, 5)))
    elif how == 2 and opts:
        i = src.choice(opts)
        f = items[i][1]
        o = sp.byflag.get(f)
        if o is None:
            raise Discard
        if o["nargs"] == 0:
            items[i] = ("o", f, src.choice(["1", "yes", "x"]))
        else:
            items.append(items.pop(i)[:2] + (None,))
    elif how == 3 and opts:
        i = src.choice(opts)
        o = sp.byflag.get(items[i][1])
        if o is None or o["nargs"] == 0:
            raise Discard
        items[i] = ("o", items[i][1], gen.value(src, sp, o, 0))
    elif how == 4 and sp.live_opts():
        o = src.choice(sp.live_opts())
        items.insert(src.below(len(items) + 1), gen.opt_item(src, sp, o, 100))
    elif how == 5:
        items.append(("o", src.choice(["--nosuchopt", "--bogus", "--zzz"]), gen.word(src, 0) if src.chance(50)
                      else None))
    elif how == 6 and opts:
        i = src.choice(opts)
        v = items[i][2]
        items[i] = ("o", items[i][1].upper() if items[i][1].upper() != items[i][1] else "--zz",
                    "_".join(v.split()) if v else v)
        if any(f.startswith(items[i][1]) for f in sp.byflag):
            raise Discard
    else:
        items = [it for it in items if it[0] == "o"]
    if ambiguous(sp, items):
        raise Discard
    return decide(src, version, cmd, items)


def pairs(src, stratum):
    """Two or three options together on an otherwise minimal line: exclusions and requirements."""
    version, cmd = stratum
    sp = M.spec(version, cmd)
    live = sp.live_opts()
    n = min(len(live), src.int(2, 4))
    chosen = src.shuffle(live)[:n]
    _c, items = gen.line(src, version, cmd, valid=100, opts=[], deprecated=0)
    have = {it[1] for it in items if it[0] == "o"}
    for o in chosen:
        if not have & set(o["flags"]):
            items.append(gen.opt_item(src, sp, o, 90))
    if src.chance(20):
        items = [it for it in items if it[0] == "o"]
    if ambiguous(sp, items):
        raise Discard
    return decide(src, version, cmd, items)


_cores = {}


def cores(version, cmd):
    """The smallest sets of options (up to two) that make an otherwise minimal line unacceptable."""
    k = M.spec(version, cmd).cls
    if k in _cores:
        return _cores[k]
    sp = M.spec(version, cmd)
    z = Src()
    _c, base = gen.line(z, version, cmd, valid=100, opts=[], deprecated=0)

    def ok(opts):
        have = {it[1] for it in base if it[0] == "o"}
        items = base + [gen.opt_item(z, sp, o, 100) for o in opts if not have & set(o["flags"])]
        try:
            M.ModelHandler(version).run(cmd, items, gen.text(version, cmd, items))
            return True
        except M.Reject:
            return False
    live = sp.live_opts()
    out = []
    good = ok([])
    single = {o["dest"] + o["flags"][0]: ok([o]) for o in live}
    for o in live:
        if single[o["dest"] + o["flags"][0]] != good:
            out.append([o])
    for i, a in enumerate(live):
        for b in live[i + 1:]:
            if all(single[o["dest"] + o["flags"][0]] for o in (a, b)) and not ok([a, b]):
                out.append([a, b])
    _cores[k] = out
    return out


def baggage(src, cls):
    """A contradictory or incomplete core with other options around it: still wrong."""
    version, cmd = doc.at(src, cls)
    sp = M.spec(version, cmd)
    cs = cores(version, cmd)
    if not cs:
        raise Discard
    core = src.choice(cs)
    _c, items = gen.line(src, version, cmd, valid=100, opts=[], deprecated=0)
    have = {it[1] for it in items if it[0] == "o"}
    d = src.choice([8, 25, 60])
    for o in core + [o for o in sp.live_opts() if o not in core and src.chance(d)]:
        if not have & set(o["flags"]):
            it = gen.opt_item(src, sp, o, 97)
            items.append(it)
            have |= set(o["flags"])
    pos, ops = [it for it in items if it[0] == "p"], [it for it in items if it[0] == "o"]
    items = pos + src.shuffle(ops)
    return decide(src, version, cmd, items)


def dense(src, cls):
    """Many compatible options together."""
    version, cmd = doc.at(src, cls)
    _c, items = gen.line(src, version, cmd, valid=100, density=src.choice([30, 60, 85]), deprecated=0)
    return decide(src, version, cmd, items)


def bare(src, stratum):
    """The command without any argument."""
    version, cmd = stratum
    return decide(src, version, cmd, [])


def blank_value(src, version):
    """Known finding: an unknown option whose value contains a blank passes for an operand."""
    text = 'raid / raid.01 --nosuch="a b" --device=0 --level=0'
    src.desc["line"] = text
    err, _rw = oracle.real_run(real.small_handler(version, ["raid"]), text + "\n")
    if err is None:
        if "unknown-option-with-blank" not in KNOWN:
            raise Violation("an unknown option is accepted")
        return {"known": ["unknown-option-with-blank"], "key": version}
    return {"key": version}


def header(src, version):
    """Options of section headers."""
    num = M.NUM[version]
    if src.chance(50):
        opts = doc.pkg_header(src, num, valid=False, density=src.choice([5, 15]))
        opts = [(f, v if not src.chance(4) or f not in ("--timeout", "--retries") else "abc") for f, v in opts]
        extra = src.choice(["foo", "--nosuch"]) if src.chance(8) else None
        fl = doc.pkg_flags(num)
        if any(f not in fl and any(g.startswith(f) for g in fl) for f, _v in opts):
            raise Discard
        m = doc.PkgModel(num)
        try:
            warns = m.header(opts)
            ok = extra is None
        except M.Reject:
            ok = False
        text = doc.pkg_header_text(opts) + (" " + extra if extra else "") + "\n%end\n"
    else:
        s = doc.script(src)
        extra = src.choice([" extra", " --nosuch", " --nosuch=1", " --erroronfail=yes", " --interpreter", ""])
        if src.chance(40):
            extra = ""
        ok, warns = not extra, ["dep"] if s["tag"] == "%traceback" and num >= doc.F34 else []
        hdr = s["header"] + extra
        if not extra and s["tag"] != "%post" and src.chance(20):
            hdr += " --nochroot"
            ok = False
        text = hdr + "\necho\n%end\n"
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, [])
    err, rw = oracle.real_run(h, text)
    if ok and err is not None:
        raise Violation("an acceptable section header is rejected: %s" % err)
    if not ok and not isinstance(err, real.E.KickstartParseError):
        raise Violation("an unacceptable section header is accepted (%r)" % err)
    if ok and sorted(rw) != sorted(warns):
        raise Violation("warnings %r, expected %r" % (rw, warns))
    return {"key": text, "sample": text, "labels": ["header accepted" if ok else "header rejected"]}


PAIRS = [(v, c) for v in M.VERSIONS for c in doc.normal_commands(v)]
OPTS = [(v, c) for v, c in PAIRS if len(M.spec(v, c).live_opts()) > 1 and M.spec(v, c).suffix not in
        gen.RAW | {"Realm", "DeviceProbe"}]
CLS = [k for k, v in doc.CLASSES.items() if doc.nopts(k) > 1 and M.spec(*v[0]).suffix not in
       gen.RAW | {"Realm", "DeviceProbe"}]
TESTS = [Test("bare", bare, PAIRS, n=(1, 1)),
         Test("random_line", random_line, PAIRS, n=(8, 200)),
         Test("mutated", mutated, PAIRS, n=(10, 250)),
         Test("pairs", pairs, OPTS, n=(14, 300)),
         Test("baggage", baggage, CLS, n=(25, 600), weight=doc.richness),
         Test("dense", dense, CLS, n=(12, 300), weight=doc.richness),
         Test("blank_value", blank_value, ["F14"], n=(1, 1)),
         Test("header", header, M.VERSIONS, n=(60, 1000))]
