"""C05: storage commands that exclude each other are refused together, in either order, only where documented."""
from kv import doc, gen, oracle, real
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a sequence of individually valid lines; non-trivial when at least two different storage commands "
        "occur; distinct by (version, text)")
ASSUMPTIONS = ["the table of exclusions per version is the one in kv/model.py"]

NAMES = ["autopart", "part", "partition", "raid", "volgroup", "logvol", "mount", "reqpart", "btrfs", "clearpart",
         "ignoredisk", "zerombr", "snapshot", "bootloader"]
CORE = ["autopart", "part", "partition", "raid", "volgroup", "logvol", "mount", "reqpart"]


def good_line(src, version, cmd, density=8):
    for _ in range(6):
        _c, items = gen.line(src, version, cmd, valid=100, density=density, deprecated=0)
        try:
            M.ModelHandler(version).run(cmd, items, gen.text(version, cmd, items))
            return items
        except M.Reject:
            continue
    raise Discard


def avail(version, names):
    cs = doc.normal_commands(version)
    return [n for n in names if n in cs]


def pair(src, stratum):
    """Both orders of two commands."""
    version, a, b = stratum
    la, lb = (gen.text(version, c, good_line(src, version, c)) for c in (a, b))
    ia = [(a, la), (b, lb)]
    out = []
    for seq in (ia, ia[::-1]):
        text = "".join(l + "\n" for _c, l in seq)
        src.desc[text] = ""
        err, _w = oracle.real_run(real.small_handler(version, CORE), text)
        if err is not None:
            if not isinstance(err, real.E.KickstartParseError):
                raise Violation("conflict reported as %s" % type(err).__name__)
            if err.lineno != 2:
                raise Violation("conflict reported on line %r instead of 2" % err.lineno)
        out.append(err is None)
    want = not conflict(version, a, b)
    src.desc["version"] = version
    if out[0] != out[1]:
        raise Violation("%s and %s are accepted in one order only" % (a, b))
    if out[0] != want:
        raise Violation("%s with %s is %s, expected the opposite" % (a, b, "accepted" if out[0] else "refused"))
    return {"key": (la, lb), "sample": [la, lb], "labels": ["compatible" if want else "conflict"]}


_conf = {}


def conflict(version, a, b):
    """Does the model refuse b after a (or a after b)?"""
    k = (version, a, b)
    if k not in _conf:
        mh = M.ModelHandler(version)
        mh.state(a).attrs["seen"] = True
        lines = {"autopart": [], "reqpart": [], "part": [("p", "/x"), ("o", "--size", "1")],
                 "partition": [("p", "/x"), ("o", "--size", "1")],
                 "raid": [("p", "/x"), ("o", "--level", "1"), ("o", "--device", "0"), ("p", "raid.01")],
                 "volgroup": [("p", "vg"), ("p", "pv.01")],
                 "logvol": [("p", "/x"), ("o", "--vgname", "vg"), ("o", "--name", "n"), ("o", "--size", "1")],
                 "mount": [("p", "sda1"), ("p", "/x")]}
        try:
            mh.run(b, lines[b], b)
            _conf[k] = False
        except M.Reject as e:
            _conf[k] = str(e).startswith("conflicts")
            assert _conf[k], (k, e)
    return _conf[k]


def sequence(src, version):
    """Longer sequences: the first conflicting line is the one reported."""
    pool = avail(version, NAMES)
    h, mh = real.small_handler(version, pool), M.ModelHandler(version)
    texts, used, want = [], [], None
    for _ in range(src.int(2, 6)):
        cmd = src.choice(pool)
        items = good_line(src, version, cmd)
        t = gen.text(version, cmd, items)
        texts.append(t)
        used.append(cmd)
        try:
            mh.run(cmd, items, t)
        except M.Reject:
            want = len(texts)
            break
    if src.chance(50) and want:
        texts.append(gen.text(version, used[0], good_line(src, version, used[0])))
    text = "".join(t + "\n" for t in texts)
    src.desc.update(version=version, text=text)
    err, _w = oracle.real_run(h, text)
    if (err is None) != (want is None):
        raise Violation("the sequence is %s, expected the opposite: %s" % ("accepted" if err is None else "refused",
                                                                           err))
    if want and err.lineno != want:
        raise Violation("refused on line %r, expected %r" % (err.lineno, want))
    if want is None:
        oracle.compare_state(h, mh, version, sorted(set(used)))
    return {"nontrivial": len(set(used) & set(CORE)) > 1, "key": text, "sample": text,
            "labels": ["refused" if want else "accepted"]}


TRIPLES = [(v, a, b) for v in M.VERSIONS for a in avail(v, CORE) for b in avail(v, CORE) if a < b]
TESTS = [Test("pair", pair, TRIPLES, n=(12, 150)),
         Test("sequence", sequence, M.VERSIONS, n=(120, 2500))]
