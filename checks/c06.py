"""C06: what a repeated command does: lists keep every entry in order, single settings follow the last line."""
import copy

from kv import doc, gen, oracle, real
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a sequence of lines of one command (under any of its names); non-trivial when at least two lines were "
        "accepted; distinct by (version, text)")
ASSUMPTIONS = ["the reference model (kv/model.py) says what a second occurrence keeps and when it warns"]

# all the names of a command object
NAMES = {}
for _v in M.VERSIONS:
    for _c in doc.normal_commands(_v):
        NAMES.setdefault((_v, M.spec(_v, _c).cls), []).append(_c)


def history(src, stratum):
    """Lines processed by one document, state compared after every line."""
    version, cls = stratum
    names = NAMES[(version, cls)]
    h, mh = real.small_handler(version, names), M.ModelHandler(version)
    texts = []
    density = src.choice([5, 25])
    prev = None
    for _ in range(src.int(2, 5)):
        cmd = src.choice(names)
        if prev is not None and prev[0] in names and src.chance(25):
            cmd, items = prev
            items = tweak(src, version, cmd, items)
        else:
            _c, items = gen.line(src, version, cmd, valid=100, density=density, deprecated=0)
        t = gen.text(version, cmd, items)
        trial = copy.deepcopy(mh)
        try:
            trial.run(cmd, items, t)
        except M.Reject:
            continue
        prev = (cmd, items)
        texts.append(t)
        oracle.check_line(src, version, cmd, items, mh, h, t)
    if not texts:
        raise Discard
    return {"nontrivial": len(texts) > 1, "key": texts, "sample": texts}


def tweak(src, version, cmd, items):
    """The same entry again, with one option changed or not."""
    sp = M.spec(version, cmd)
    items = list(items)
    if sp.suffix in gen.RAW or not items or src.chance(40):
        return items
    i = src.below(len(items))
    it = items[i]
    if it[0] == "o" and src.chance(12):                          # the same option twice in one line
        items.insert(src.below(len(items) + 1), it)
        return items
    val = it[2] if it[0] == "o" else it[1]
    if isinstance(val, str) and val and src.chance(40):          # nearly the same value
        val = src.choice([val.swapcase(), val.upper(), val + "1", val[:-1] or "x", val.replace("-", "_"), "x" + val, val + "-", val + "_"])
        if it[0] != "o":
            if val[0] != "-":
                items[i] = (it[0], val) + tuple(it[2:])
        elif it[1] in sp.byflag and sp.byflag[it[1]]["type"] == "str" and sp.byflag[it[1]]["choices"] is None:
            items[i] = ("o", it[1], val)
    elif it[0] == "o" and it[1] in sp.byflag and it[2] is not None:
        items[i] = ("o", it[1], gen.value(src, sp, sp.byflag[it[1]], 100))
    elif it[0] == "o" and it[2] is None and not (it[1] in sp.byflag and sp.byflag[it[1]]["required"]):
        del items[i]
    return items


def document(src, version):
    """Interleaved commands in one text: order inside each list, entry line numbers, one warning per duplicate."""
    pool = [c for c in doc.pool_of(version) if M.spec(version, c).data is not None]
    pool = src.shuffle(pool)[:src.int(1, 3)]
    mh = M.ModelHandler(version)
    out, warns, cmds = [], [], set()
    for _ in range(src.int(3, 9)):
        if src.chance(10):
            out.append("")
        cmd = src.choice(pool)
        _c, items = gen.line(src, version, cmd, valid=100, density=6, deprecated=0)
        t = gen.text(version, cmd, items)
        trial = copy.deepcopy(mh)
        try:
            w = trial.run(cmd, items, t, lineno=len(out) + 1)
        except M.Reject:
            continue
        mh = trial
        warns += w
        out.append(t)
        cmds.add(cmd)
    if not cmds:
        raise Discard
    text = "\n".join(out) + "\n"
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, pool)
    err, rw = oracle.real_run(h, text)
    if err is not None:
        raise Violation("rejected: %s" % err)
    if sorted(rw) != sorted(warns):
        raise Violation("warnings %r, expected %r" % (sorted(rw), sorted(warns)))
    oracle.compare_state(h, mh, version, sorted(cmds), lineno=True)
    return {"nontrivial": len(out) > 1, "key": text, "sample": text,
            "labels": ["duplicates"] if "parse" in warns else []}


STR = sorted(NAMES, key=lambda k: (M.NUM[k[0]], k[1]))
TESTS = [Test("history", history, STR, n=(10, 250)),
         Test("document", document, M.VERSIONS, n=(80, 2000))]
