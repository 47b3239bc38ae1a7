"""C30: a deep copy of a handler, command or entry is the same and independent."""
import copy

from checks import c09, c13
from kv import doc, real, state
from kv import model as M
from kv.engine import Test, Violation

RULE = ("a case is a handler after some documents, a copy of it or of a part of it, and what is done to either afterwards; "
        "non-trivial when the handler holds a command or section; distinct by (version, documents, later changes)")
ASSUMPTIONS = ["copies are made with copy.deepcopy; shallow copies of a handler share its commands by nature"]


def observe(h, version):
    return {"state": c13.plain(c13.everything_live(h, version)), "written": str(h)}


def a_text(src, version, avoid=()):
    lines, cmds = c09.flat(src, version)
    return c09.text_of(lines), cmds


def feed(h, text):
    r = state.run(h, text=text)
    return [str(r.err), r.warns, r.messages]


def storage(cmds):
    return bool(set(cmds) & set(real.STORAGE))


def later(src, version, pool):
    """Something that happens to a handler afterwards."""
    k = src.below(6)
    if k < 3:
        return ["read", a_text(src, version)[0]]
    if k == 3:
        return ["reset", src.choice(pool)]
    if k == 4:
        return ["mutate", src.below(1000)]
    if src.chance(50):
        return ["edit", src.below(1000)]
    return ["pkgadd", src.choice(["vim", "@core", "-emacs"])]


def edit(h, n):
    """Change one thing the handler holds: a group, a script, an entry, a list of packages."""
    h.packages.groupList.sort()                                    # as writing does
    h.packages.excludedGroupList.sort()
    things = list(h.packages.groupList) + list(h.packages.excludedGroupList) + list(h.scripts)
    for c in sorted(h.commands):
        things += list(h.commands[c].dataList() or [])
    things += [h.packages.packageList, h.packages.excludedList, h.packages.groupList, h.scripts]
    x = things[n % len(things)]
    if isinstance(x, list):
        del x[-1:]
    elif hasattr(x, "script"):
        x.script, x.errorOnFail = x.script + "# edited\n", True
    elif hasattr(x, "include"):
        x.name, x.include = x.name + "-edited", M.const("GROUP_REQUIRED")
    else:
        x.lineno = (x.lineno or 0) + 1000


def do(h, op):
    if op[0] == "read":
        return feed(h, op[1])
    if op[0] == "reset":
        h.resetCommand(op[1])
    elif op[0] == "mutate":
        c13.mutate(h, op[1])
    elif op[0] == "edit":
        edit(h, op[1])
    else:
        h.packages.add([op[1]])
    return None


def handlers(src, version):
    """Copy, go on with original and copy separately: each as if alone."""
    pool = [c for c in doc.pool_of(version) if c != "lilo"]
    texts = [a_text(src, version)[0] for _ in range(src.choice([1, 1, 2]))]
    opsa = src.list(0, 2, lambda: later(src, version, pool))
    opsb = src.list(0, 2, lambda: later(src, version, pool))
    src.desc.update(version=version, texts=texts, original=opsa, copy=opsb)

    def made():
        h = real.full_handler(version)
        for t in texts:
            feed(h, t)
        return h
    h = made()
    first = observe(h, version)
    g = copy.deepcopy(h)
    state.same(first, observe(h, version), "the original before and after copying")
    state.same(first, observe(g, version), "original versus copy")
    steps = src.shuffle([0] * len(opsa) + [1] * len(opsb))
    ia = ib = 0
    loga, logb = [], []
    for s in steps:
        if s == 0:
            loga.append(do(h, opsa[ia]))
            ia += 1
        else:
            logb.append(do(g, opsb[ib]))
            ib += 1
    for what, x, ops, log in (("original", h, opsa, loga), ("copy", g, opsb, logb)):
        alone = made()
        want = [do(alone, op) for op in ops]
        if want != log:
            raise Violation("the %s answers %r, a handler without copies %r" % (what, log, want))
        state.same(observe(alone, version), observe(x, version), "a handler alone versus the %s" % what)
    return {"nontrivial": any(t.strip() for t in texts), "key": (version, repr(texts), repr(opsa), repr(opsb)),
            "sample": [texts, opsa, opsb]}


def parts(src, version):
    """Commands, entries, scripts and package selections by themselves."""
    text, cmds = a_text(src, version)
    h = real.small_handler(version, cmds)
    src.desc.update(version=version, text=text)
    if state.run(h, text=text).err is not None:
        return {"nontrivial": False}
    n = 0
    for c in cmds:
        o = h.commands[c]
        before, w = c13.plain(vals(o)), str(o)
        k = copy.deepcopy(o)
        if str(k) != w or c13.plain(vals(k)) != before:
            raise Violation("copy of %s differs: %r versus %r" % (c, str(k), w))
        sp = M.spec(version, c)
        if sp.data is None:
            continue
        if len(k.dataList()) != len(o.dataList()):
            raise Violation("copy of %s has %d entries instead of %d" % (c, len(k.dataList()), len(o.dataList())))
        for d, kd in zip(o.dataList(), k.dataList()):
            if kd is d:
                raise Violation("copy of %s shares an entry with the original" % c)
        for d in list(o.dataList()):
            e = src.choice([copy.deepcopy, copy.copy])(d)
            n += 1
            if str(e) != str(d) or c13.plain(vals(e)) != c13.plain(vals(d)):
                raise Violation("copy of an entry of %s differs: %r versus %r" % (c, str(e), str(d)))
            if type(d).__eq__ is not object.__eq__:
                if not e == d or not d == e or e != d or d != e or e not in o.dataList():
                    raise Violation("copy of an entry of %s is not equal to it" % c)
        k.dataList().clear()
        if str(o) != w or c13.plain(vals(o)) != before:
            raise Violation("emptying a copy of %s changed the original" % c)
    for s in h.scripts:
        e = copy.deepcopy(s)
        if str(e) != str(s) or doc.script_actual(e) != doc.script_actual(s):
            raise Violation("copy of a script differs")
        e.script, e.interp, e.logfile = "kv\n", "kv", "kv"
        if str(e) == str(s) or "kv" in (s.script, s.interp, s.logfile):
            raise Violation("changing the copy of a script changed the original")
        n += 1
    p = copy.deepcopy(h.packages)
    w = str(h.packages)
    if str(p) != w or doc.pkg_actual(p) != doc.pkg_actual(h.packages):
        raise Violation("copy of the package selection differs")
    for x in p.groupList + p.excludedGroupList:
        x.name, x.include = x.name + "-kv", M.const("GROUP_ALL")
    for x in (p.packageList, p.excludedList, p.groupList):
        del x[:1]
    p.add(["kv-new", "@kv-group", "-kv-out"])
    if str(h.packages) != w:
        raise Violation("adding to a copy of the package selection changed the original")
    return {"nontrivial": n > 0, "key": (version, text), "sample": text}


def vals(o):
    return {k: v for k, v in vars(o).items() if k not in c13.real_skip(o)}


TESTS = [Test("handlers", handlers, M.VERSIONS, n=(12, 300)), Test("parts", parts, M.VERSIONS, n=(60, 1500))]
