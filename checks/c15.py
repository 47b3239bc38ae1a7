"""C15: resetting a command restores its pristine state and nothing else; masking ignores the others."""
import copy

from checks import c13
from kv import doc, gen, oracle, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a history of lines with resets or a mask; non-trivial when a command that was used is reset, or a line "
        "of a masked command occurs; distinct by (version, history)")
ASSUMPTIONS = ["a masked command is not reset, and was not used before it is masked",
               "writing a masked handler is not covered"]

# commands whose effect reaches into another command's settings
PAIRS = {"lilo"}


def names_of(version, cmd):
    return [c for c in M.commands(version) if M.spec(version, c).cls == M.spec(version, cmd).cls]


def own_attr(version, cmd):
    """The handler's attribute for the command (RHEL7's install and upgrade compete for one)."""
    sp = M.spec(version, cmd)
    return sp.suffix.lower() if all(M.spec(version, c).cls == sp.cls for c in M.commands(version)
                                    if M.spec(version, c).suffix == sp.suffix) else None


def say(version, cmd, items):
    return gen.text(version, cmd, items)


def pool_of(src, version):
    pool = [c for c in doc.pool_of(version) if c not in PAIRS]
    if src.chance(25):
        st = [c for c in real.STORAGE + ["btrfs", "clearpart", "ignoredisk"] if c in pool]
        return src.shuffle(st)[:src.int(2, 4)] + src.shuffle(pool)[:2]
    return src.shuffle(pool)[:src.int(2, 7)]


def more_lines(src, version, mh, pool, focus, lo, hi):
    """Lines the model accepts; -> [(cmd, text)], mh"""
    out = []
    for _ in range(src.int(lo, hi)):
        cmd = focus if focus and src.chance(30) else src.choice(pool)
        _c, items = gen.line(src, version, cmd, valid=100, density=src.choice([4, 12, 35]), deprecated=0)
        t = say(version, cmd, items)
        trial = copy.deepcopy(mh)
        try:
            trial.run(cmd, items, t)
        except M.Reject:
            continue
        mh = trial
        out.append((cmd, t))
    return out, mh


def pristine_command(version, cmd):
    if (version, cmd) not in _fresh:
        h = real.small_handler(version, [cmd])
        _fresh[(version, cmd)] = c13.plain(vals(h.commands[cmd])), str(h.commands[cmd])
    return _fresh[(version, cmd)]


_fresh = {}


def vals(o):
    return {k: v for k, v in vars(o).items() if k not in c13.real_skip(o)}


def resets(src, version):
    """Histories of lines and resets: the model forgets what was reset."""
    pool = pool_of(src, version)
    h, mh = real.small_handler(version, pool), M.ModelHandler(version)
    p = real.KickstartParser(h)
    lines, hist, used = [], [], False
    extra = src.choice(["", "", "%packages\nvim\n%end\n%pre\necho\n%end\n"])
    if extra:
        state.run(h, text=extra, parser=p)
    for _ in range(src.int(1, 4)):
        new, mh = more_lines(src, version, mh, pool, None, 0, 5)
        if new:
            text = "".join(t + "\n" for _c, t in new)
            hist.append(text)
            src.desc.update(version=version, history=hist)
            r = state.run(h, text=text, parser=p)
            if r.err is not None:
                raise Violation("rejected: %s" % r.err)
            lines += new
        if src.chance(15):
            str(h)
        target = src.choice(pool)
        others = {n: h.commands[n] for n in h.commands
                  if M.spec(version, n).cls != M.spec(version, target).cls}
        name = src.choice([n for n in names_of(version, target) if n in h.commands])
        hist.append("reset " + name)
        src.desc.update(version=version, history=hist)
        used = used or any(M.spec(version, c).cls == M.spec(version, target).cls for c, _t in lines)
        h.resetCommand(name)
        mh.st.pop(M.spec(version, target).cls, None)
        lines = [(c, t) for c, t in lines if M.spec(version, c).cls != M.spec(version, target).cls]
        o = h.commands[name]
        if any(h.commands[n] is not o for n in names_of(version, target) if n in h.commands):
            raise Violation("the names of %s no longer mean one command" % name)
        if (c13.plain(vals(o)), str(o)) != pristine_command(version, target):
            raise Violation("%s after the reset: %s" % (name, state.diff(c13.plain(vals(o)),
                                                                        pristine_command(version, target)[0])))
        a = own_attr(version, target)
        if o.handler is not h or a and getattr(h, a) is not o:
            raise Violation("the handler does not hold the new %s" % name)
        if any(h.commands[n] is not x for n, x in others.items()):
            raise Violation("another command was replaced")
        oracle.compare_state(h, mh, version, pool)
    # the whole kickstart is the one without the lines of what was reset
    g = real.small_handler(version, pool)
    r = state.run(g, text=extra + "".join(t + "\n" for _c, t in lines))
    if r.err is not None:
        raise Violation("the remaining lines alone are rejected: %s" % r.err)
    state.same(state.whole(h, version, pool), state.whole(g, version, pool), "reset versus never used")
    return {"nontrivial": used, "key": (version, repr(hist)), "sample": hist}


def every_command(src, stratum):
    """Each command, richly used, then reset under one of its names in a complete handler, then used again."""
    cls = stratum
    version, cmd = doc.at(src, cls)
    sp = M.spec(version, cmd)
    names = names_of(version, cmd)
    mh = M.ModelHandler(version)
    first, mh = more_lines(src, version, mh, names, None, 1, 3)
    if not first:
        raise Discard
    second, mh2 = more_lines(src, version, M.ModelHandler(version), names, None, 0, 2)
    h = real.small_handler(version, [cmd])
    name = src.choice([n for n in names_of(version, cmd) if n in h.commands])
    how = src.choice(["lines", "lines", "settings", "call"])
    src.desc.update(version=version, first=[t for _c, t in first], how=how, reset=name, second=[t for _c, t in second])
    user = h if how == "lines" else real.small_handler(version, [cmd])
    r = state.run(user, text="".join(t + "\n" for _c, t in first))
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    old = h.commands[cmd]
    if how != "lines":
        # the same settings made by a program
        given = {k: copy.copy(getattr(user.commands[cmd], k)) for k in sp.attrs
                 if k != "seen" and hasattr(user.commands[cmd], k)}
        if how == "call":
            old(**given)
        else:
            for k, v in given.items():
                setattr(old, k, v)
            if src.chance(30):
                old.seen = True
    entries = old.dataList()
    n = len(entries) if entries is not None else None
    h.resetCommand(name)
    o = h.commands[cmd]
    if o is old:
        # allowed, as long as it is pristine
        pass
    if (c13.plain(vals(o)), str(o)) != pristine_command(version, cmd):
        raise Violation("%s after the reset: %s" % (name, state.diff(c13.plain(vals(o)), pristine_command(version, cmd)[0])))
    if str(h) != str(real.small_handler(version, [cmd])):
        raise Violation("the written kickstart is %r" % str(h))
    text2 = "".join(t + "\n" for _c, t in second)
    r2 = state.run(h, text=text2)
    g = real.small_handler(version, [cmd])
    r3 = state.run(g, text=text2)
    if r2.err is not None or r3.err is not None or r2.warns != r3.warns:
        raise Violation("used again after the reset: %s %r, expected %r" % (r2.err, r2.warns, r3.warns))
    oracle.compare_state(h, mh2, version, names)
    if str(h) != str(g):
        raise Violation("used again after the reset it writes %r, expected %r" % (str(h), str(g)))
    if n is not None and o is not old and len(entries) != n:
        raise Violation("entries of the discarded command changed")
    try:
        h.resetCommand("no" + name)
    except KeyError:
        pass
    else:
        raise Violation("an unknown command is reset")
    return {"nontrivial": sp.kind == "normal", "key": (version, repr(first), repr(second)),
            "sample": [[t for _c, t in first], [t for _c, t in second]]}


def masks(src, version):
    """Masked commands are ignored whatever their arguments; the others work as before."""
    pool = pool_of(src, version)
    normal = [c for c in doc.normal_commands(version) if c not in PAIRS]
    keep = src.subset(pool, 60)
    if src.chance(20):
        keep = keep + ["nosuchcommand"]
    h = real.full_handler(version)
    mh = M.ModelHandler(version)
    kept = [c for c in pool if c in keep]
    hist, warns = [], []
    before, mh = more_lines(src, version, mh, kept, None, 0, 2) if kept else ([], mh)
    if before:
        state.run(h, text="".join(t + "\n" for _c, t in before))
    h.maskAllExcept(keep)
    out, masked, nbefore = [], 0, len(before)
    for _ in range(src.int(1, 7)):
        if kept and src.chance(55):
            new, mh2 = more_lines(src, version, mh, kept, None, 1, 1)
            for c, t in new:
                trial = mh2
                out.append(t)
            mh = mh2
        else:
            cmd = src.choice(normal if src.chance(40) else pool)
            if cmd in keep:
                continue
            k = src.below(4)
            if k == 0:
                t = cmd + src.choice(["", " --nosuch", " a b c", " --x=y z", " 'a b'"])
            else:
                _c, items = gen.line(src, version, cmd, valid=60, density=10)
                t = say(version, cmd, items)
            out.append(t)
            masked += 1
    src.desc.update(version=version, keep=keep, before=[t for _c, t in before], lines=out)
    text = "".join(t + "\n" for t in out)
    sec = src.choice(["", "%packages\n@core\n%end\n%post\necho\n%end\n"])
    r = state.run(h, text=text + sec)
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    oracle.compare_state(h, mh, version, kept)
    g = real.full_handler(version)
    kept_cls = {M.spec(version, c).cls for c in kept}
    for c in normal:
        if M.spec(version, c).cls in kept_cls:
            continue
        if h.commands[c] is not None:
            raise Violation("%s is not masked" % c)
        a = own_attr(version, c)
        o = getattr(h, a, None) if a else None
        if o is not None and c13.plain(vals(o)) != c13.plain(vals(g.commands[c])):
            raise Violation("the masked command %s changed" % c)
    if sec and (len(h.scripts) != 1 or [x.name for x in h.packages.groupList] != ["core"]):
        raise Violation("sections of a masked handler are lost")
    bad = src.choice(["nosuchcommand", "Lang en_US"])
    if state.run(h, text=bad + "\n").err is None:
        raise Violation("an unknown command is ignored after masking")
    return {"nontrivial": masked > 0, "key": (version, tuple(keep), text), "sample": {"keep": keep, "text": text}}


CLS = sorted(doc.CLASSES)
TESTS = [Test("resets", resets, M.VERSIONS, n=(60, 1500)),
         Test("every_command", every_command, CLS, n=(12, 400), weight=lambda c: 1 + doc.richness(c)),
         Test("masks", masks, M.VERSIONS, n=(40, 800))]
