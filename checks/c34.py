"""C34: writing, asking, comparing and copying change nothing."""
import copy

from checks import c09, c13, c28, c30
from kv import doc, real, state
from kv import model as M
from kv.engine import Test, Violation

RULE = ("a case is a series of kickstarts with looks at the handler between or inside them; non-trivial when something was "
        "held when it was looked at; distinct by (version, texts, looks)")
ASSUMPTIONS = ["writing may put the lists of packages and groups into the order they are written in",
               "looks: writing the handler or a part, comparing entries, groups and scripts, reading settings, entry "
               "lists, entry classes and help texts, asking for commands, copying, making further handlers"]
LOOKS = ["write", "write", "commands", "entries", "scripts", "packages", "groups", "ask", "copy", "other", "help", "fail",
         "source"]


def look(h, version, what, seen=None):
    """Look at the handler in one way; -> what was seen."""
    out = []
    cmds = sorted(c for c in h.commands if h.commands[c] is not None)
    if what == "write":
        out.append(str(h))
    elif what == "commands":
        out += [str(h.commands[c]) for c in cmds]
    elif what == "entries":
        for c in cmds:
            lst = h.commands[c].dataList() or []
            out += [str(d) for d in lst]
            for d in lst:
                out += [[bool(d == e), bool(d != e)] for e in lst] + [d in lst, d == None]      # noqa: E711
    elif what == "scripts":
        out += [str(s) for s in h.scripts] + [[a == b for b in h.scripts] for a in h.scripts]
    elif what == "packages":
        out += [str(h.packages), doc.pkg_actual(h.packages)]
    elif what == "groups":
        gs = list(h.packages.groupList) + list(h.packages.excludedGroupList)
        out += sorted(str(g) for g in gs)
        for a in gs:
            for b in gs:
                _x = (a < b, a <= b, a == b, a != b, a > b, a >= b)
        out.append([g.name for g in sorted(gs)])
    elif what == "ask":
        for c in cmds:
            o = h.commands[c]
            out += [c, bool(o.seen), o.lineno, len(o.dataList() or []), str(o.dataClass), bool(h.hasCommand(c))]
        out += [h.hasCommand("nosuchcommand"), h.platform, h.version, "cdrom" in h.commands]
    elif what == "source":
        for c in cmds:
            for n in sorted(k for k in vars(h.commands[c]) if not k.startswith("_")):
                if n not in ("op", "handler"):
                    out.append([c, n, repr(type(getattr(h.commands[c], n)))])
            for n in ("method", "dir", "url", "mirrorlist", "partition", "server", "nosuchsetting"):
                try:
                    out.append([c, n, str(type(getattr(h.commands[c], n)))])
                except AttributeError:
                    pass
    elif what == "copy":
        g = copy.deepcopy(h)
        out += [str(g)]
        state.run(g, text="%pre\ncopy\n%end\n")
    elif what == "other":
        g = type(h)()
        out += [len(str(g)) > 0]
        state.run(g, text="%post\nother\n%end\nlang en_US\n")
    elif what == "help":
        for c in cmds:
            op = getattr(h.commands[c], "op", None)
            if op is not None:
                out.append(op.format_help())
    else:       # asking for what there is not
        for f in (lambda: h.commands["nosuchcommand"], lambda: h.resetCommand("nosuchcommand"), lambda: h.nosuchcommand):
            try:
                f()
            except (KeyError, AttributeError):
                continue
            raise Violation("something absent was found")
    return out


def check_look(h, version, what):
    before = c13.plain(c13.everything_live(h, version))
    x = look(h, version, what)
    y = look(h, version, what)
    if x != y:
        raise Violation("looking twice (%s) shows different things: %r then %r" % (
            what, [a for a, b in zip(x, y) if a != b][:3], [b for a, b in zip(x, y) if a != b][:3]))
    state.same(before, c13.plain(c13.everything_live(h, version)), "before versus after a look (%s)" % what)


def between(src, version):
    """Looks between kickstarts, resets and changes."""
    pool = [c for c in doc.pool_of(version) if c != "lilo"]
    steps = []
    for _ in range(src.int(1, 4)):
        k = src.below(10)
        if k < 6:
            steps.append(["read", c30.a_text(src, version)[0]])
        elif k == 6:
            steps.append(["read", c30.a_text(src, version)[0] + src.choice(["nosuch\n", "part\n", "%packages\nvim\n"])])
        else:
            steps.append(c30.later(src, version, pool))
    looks = [src.list(0, 3, lambda: src.choice(LOOKS)) for _ in steps]
    first = src.list(0, 2, lambda: src.choice(LOOKS))
    src.desc.update(version=version, steps=steps, looks=looks, first=first)
    h, alone = real.full_handler(version), real.full_handler(version)
    for w in first:
        check_look(h, version, w)
    held = False
    for s, ws in zip(steps, looks):
        a, b = c30.do(h, s), c30.do(alone, s)
        if a != b:
            raise Violation("%r gives %r, and %r if it was not looked at" % (s, a, b))
        for w in ws:
            held = True
            check_look(h, version, w)
    state.same(c30.observe(alone, version), c30.observe(h, version), "never looked at versus looked at")
    return {"nontrivial": held, "key": (version, repr(steps), repr(looks)), "sample": [steps, looks],
            "labels": sorted({w for ws in looks for w in ws})}


TAG = "%kvlook"


def section_class(version, looks):
    from pykickstart import sections

    class Looker(sections.Section):
        sectionOpen = TAG

        def finalize(self):
            if looks:
                check_look(self.handler, version, looks.pop(0))
    return Looker


def inside(src, version):
    """Looks taken by a section of the application's in the middle of a kickstart."""
    lines, cmds = c09.flat(src, version)
    pieces = c28.cut(src, lines)
    text = (TAG + "\n%end\n").join(c09.text_of(p) if not p or c09.text_of(p).endswith("\n") else c09.text_of(p) + "\n"
                                  for p in pieces)
    looks = [src.choice(LOOKS) for _ in pieces]
    fatal = src.chance(60)
    src.desc.update(version=version, text=text, looks=looks)
    res, hs = [], []
    for ls in (list(looks), []):
        h = real.small_handler(version, cmds + ["lang"])
        p = real.KickstartParser(h, errorsAreFatal=fatal)
        p.registerSection(section_class(version, ls)(h))
        r = state.run(h, text=text, parser=p)
        hs.append(h)
        res.append([str(r.err), r.warns, r.messages, r.count, r.stderr])
    if res[0] != res[1]:
        raise Violation("reading gives %r, and %r if nobody looks" % (res[0], res[1]))
    state.same(c30.observe(hs[1], version), c30.observe(hs[0], version), "never looked at versus looked at")
    return {"nontrivial": len(pieces) > 1, "key": (version, text, repr(looks)), "sample": [text, looks],
            "labels": sorted(set(looks[:len(pieces) - 1]))}


TESTS = [Test("between", between, M.VERSIONS, n=(24, 500)), Test("inside", inside, M.VERSIONS, n=(30, 800))]
