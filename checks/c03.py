"""C03: every option sets exactly its documented setting, with its value converted; all else keeps its default."""
from kv import doc, gen, oracle, real
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is one accepted command line; non-trivial when it carries at least one option or operand; distinct by "
        "(version, source line)")
ASSUMPTIONS = ["the reference model (kv/model.py over kv/grammar.json) says which setting an option controls"]


def run(src, version, cmd, items, h=None, others=()):
    h = h or real.small_handler(version, [cmd])
    mh = M.ModelHandler(version)
    if not oracle.check_line(src, version, cmd, items, mh, h):
        raise Discard
    if others:
        oracle.compare_state(h, mh, version, others)
    t = gen.text(version, cmd, items)
    return {"nontrivial": bool(items), "key": t, "sample": t}


def one(src, stratum):
    """A single optional option on an otherwise minimal line."""
    version, cmd = stratum
    sp = M.spec(version, cmd)
    opts = sp.live_opts()
    o = src.choice(opts)
    _c, items = gen.line(src, version, cmd, valid=100, opts=[o], deprecated=0)
    return run(src, version, cmd, items)


def many(src, stratum):
    version, cmd = stratum
    _c, items = gen.line(src, version, cmd, valid=100, density=src.choice([15, 40, 70]), deprecated=0)
    return run(src, version, cmd, items)


def rich(src, cls):
    version, cmd = doc.at(src, cls)
    _c, items = gen.line(src, version, cmd, valid=100, density=src.choice([10, 30, 50, 80]), deprecated=0)
    return run(src, version, cmd, items)


def repeated_option(src, stratum):
    """The same option twice on a line: the last value wins, list options accumulate."""
    version, cmd = stratum
    sp = M.spec(version, cmd)
    o = src.choice(sp.live_opts())
    _c, items = gen.line(src, version, cmd, valid=100, opts=[o], deprecated=0)
    for _ in range(src.int(1, 2)):
        items.insert(src.below(len(items) + 1), gen.opt_item(src, sp, o, 100))
    # a valueless use of an option with an optional value must not swallow an operand
    for i, it in enumerate(items[:-1]):
        if it[0] == "o" and it[2] is None and it[1] in sp.byflag and sp.byflag[it[1]]["nargs"] != 0 and \
                items[i + 1][0] == "p":
            raise Discard
    return run(src, version, cmd, items)


def isolated(src, version):
    """On a full handler, one line touches no other command."""
    cmd = src.choice(doc.pool_of(version))
    _c, items = gen.line(src, version, cmd, valid=100, density=30, deprecated=0)
    others = [c for c in doc.normal_commands(version)
              if M.spec(version, c).cls != M.spec(version, cmd).cls and {c, cmd} != {"lilo", "bootloader"}]
    return run(src, version, cmd, items, real.full_handler(version), others)


def fresh(src, version):
    """The defaults of every command of a new handler."""
    h = real.full_handler(version)
    oracle.compare_state(h, M.ModelHandler(version), version, doc.normal_commands(version))
    return {"key": version, "sample": version}


def constructed(src, stratum):
    """A data object made without arguments carries the defaults of an empty entry."""
    version, cmd = stratum
    sp = M.spec(version, cmd)
    d = real.small_handler(version, [cmd]).commands[cmd].dataClass()
    got = real.data_snapshot(d, sp, M)
    for k, v in sp.fresh_data().items():
        if k in ("lineno",) or k in M.NOT_DATA:
            continue
        if not oracle.same(v, got.get(k)):
            raise Violation("%s: default of %s is %r, expected %r" % (cmd, k, got.get(k), v))
    return {"key": stratum, "sample": list(stratum)}


PAIRS = [(v, c) for v in M.VERSIONS for c in doc.normal_commands(v)]
OPTS = [(v, c) for v, c in PAIRS if M.spec(v, c).live_opts() and M.spec(v, c).suffix not in
        gen.RAW | {"Realm", "DeviceProbe"}]
DATA = [(v, c) for v, c in PAIRS if M.spec(v, c).data is not None]
TESTS = [Test("fresh", fresh, M.VERSIONS, n=(1, 1)),
         Test("constructed", constructed, DATA, n=(1, 1)),
         Test("one", one, OPTS, n=(14, 250)),
         Test("many", many, PAIRS, n=(10, 250)),
         Test("rich", rich, sorted(doc.CLASSES), n=(30, 700), weight=doc.richness),
         Test("repeated_option", repeated_option, OPTS, n=(5, 100)),
         Test("isolated", isolated, M.VERSIONS, n=(15, 200))]
