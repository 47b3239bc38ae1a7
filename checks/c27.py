"""C27: replaced or added commands, data and sections are used for exactly their names; all else stays as it was."""
import collections
import shlex

from kv import doc, gen, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation

from pykickstart import base, sections

RULE = ("a case is a choice of substitutions with a document that uses some of them; non-trivial when a substituted command, "
        "data object or section occurs in the document; distinct by (version, substitutions, text)")
ASSUMPTIONS = ["all names of one command are substituted together, by one class",
               "a handler made with a mapping has all storage commands or none of them",
               "the substituting classes behave like the originals, apart from recording how they are used"]


def groups(version, skip=("lilo",)):
    """The commands of a version, each as the list of its names."""
    out = {}
    for c in doc.normal_commands(version):
        if c not in skip:
            out.setdefault(M.spec(version, c).cls, []).append(c)
    return [out[k] for k in sorted(out)]


def recorder(T, log, style, tag):
    """A subclass of command class T that records its calls."""
    class Rec(T):
        removedKeywords = T.removedKeywords
        removedAttrs = T.removedAttrs

        def parse(self, args):
            log.append((tag, list(args), self.lineno, self.currentCmd, self.currentLine, self.handler))
            return T.parse(self, args)
    n = T.__name__
    Rec.__name__ = {"same": n, "bare": n.split("_", 1)[1], "own": "My_" + n.split("_", 1)[1]}[style]
    return Rec


def sub_data(T, style):
    class Sub(T):
        removedKeywords = T.removedKeywords
        removedAttrs = T.removedAttrs
        made = 0

        def __init__(self, *a, **kw):
            Sub.made += 1
            T.__init__(self, *a, **kw)
    Sub.__name__ = {"same": T.__name__, "bare": T.__name__.split("_", 1)[-1], "own": "My_" + T.__name__}[style]
    return Sub


def a_document(src, version, pool, lo=1, hi=7, kinds=("script", "packages", "null")):
    """-> list of ("c", cmd, text) / ("s", section) in document order."""
    lines, _m = doc.command_lines(src, version, lo, hi, pool=pool, density=src.choice([5, 15, 30]))
    out = [("c", c, t) for c, _i, t in lines]
    for _ in range(src.choice([0, 0, 1, 2])):
        out.insert(src.below(len(out) + 1), ("s", doc.section(src, M.NUM[version], kinds=kinds)))
    return out


def render(items):
    """-> text, line number of each item"""
    out, at = [], []
    for it in items:
        at.append(len(out) + 1)
        if it[0] == "c":
            out.append(it[2])
        elif it[0] == "b":
            out.append(it[1])
        else:
            out += doc.section_lines(it[1])
    return "".join(l + "\n" for l in out), at


def gaps(src, items):
    out = []
    for it in items:
        if src.chance(15):
            out.append(("b", src.choice(["", "# comment", "   "])))
        out.append(it)
    return out


def blocks(text):
    return sorted(l for l in text.splitlines())


def commands(src, version):
    """Command classes substituted by constructor arguments."""
    gs = groups(version)
    pool_groups = src.shuffle(gs)[:src.int(2, 6)]
    if src.chance(30):
        pool_groups += [g for g in gs if set(g) & set(real.STORAGE) and g not in pool_groups][:4]
    pool = [c for g in pool_groups for c in g]
    chosen = [g for g in pool_groups if src.chance(50)] or [pool_groups[0]]
    if src.chance(20):
        chosen += [g for g in src.shuffle(gs)[:3] if g not in chosen]
    full = src.chance(15)
    style = src.choice(["same", "bare", "own"])
    via = src.choice(["commandUpdates", "mapping", "subclass", "split"])
    items = gaps(src, a_document(src, version, pool))
    text, at = render(items)
    src.desc.update(version=version, substituted=chosen, style=style, via=via, text=text)
    mk = real.full_handler if full else lambda v: real.small_handler(v, pool + [c for g in chosen for c in g])
    plain = mk(version)
    cls = type(plain)
    cmap = {n: type(o) for n, o in plain.commands.items()}
    # commands sharing names beyond the documented ones stay together
    log, updates = [], {}
    for g in chosen:
        T = cmap[g[0]]
        R = recorder(T, log, style, tuple(g))
        for n, t in cmap.items():
            if t is T:
                updates[n] = R
    given = src.choice([dict, dict, collections.OrderedDict])(cmap)
    updates = src.choice([dict, dict, collections.OrderedDict])(updates)
    if via == "split":
        # some in the mapping, some as updates; an update beats the mapping
        first = [g for g in chosen if src.chance(50)]
        given.update({n: updates[n] for g in first for n in updates if updates[n] is updates[g[0]]})
        upd = {n: R for n, R in updates.items() if n not in given or given[n] is not R}
        if upd and src.chance(40):
            T = src.choice(sorted({R.__name__ for R in upd.values()}))
            given.update({n: recorder(cmap[n], [], style, ()) for n, R in upd.items() if R.__name__ == T})
        given0 = dict(given)
        h = cls(mapping=given, commandUpdates=upd)
        if given != given0:
            raise Violation("the mapping passed in was changed")
        given = cmap
    elif via == "commandUpdates":
        h = cls(mapping=given, commandUpdates=updates) if not full or src.chance(50) else cls(commandUpdates=updates)
    elif via == "mapping":
        h = cls(mapping=dict(given, **updates))
    else:
        class Mine(cls):
            def __init__(self, mapping=None):
                cls.__init__(self, mapping=dict(given, **updates))
                self.skipSteps = []
        h = Mine()
    if given != cmap:
        raise Violation("the mapping passed in was changed")
    if set(h.commands) != set(plain.commands):
        raise Violation("commands %r, expected %r" % (sorted(h.commands), sorted(plain.commands)))
    seen_objs = {}
    for n, o in h.commands.items():
        want = updates.get(n, cmap[n])
        if type(o) is not want:
            raise Violation("%s is handled by %s, expected %s" % (n, type(o).__name__, want.__name__))
        if o.handler is not h:
            raise Violation("%s does not know its handler" % n)
        if seen_objs.setdefault(want, o) is not o:
            raise Violation("the names of %s are handled by several objects" % n)
        a = cmap[n].__name__.split("_", 1)[1].lower()
        if sum(1 for t in set(cmap.values()) if t.__name__.split("_", 1)[1].lower() == a) == 1 and \
                getattr(h, a, None) is not o:
            raise Violation("the handler's attribute %s is not its %s command" % (a, n))
    ra, rb = state.run(plain, text=text), state.run(h, text=text)
    if str(ra.err) != str(rb.err) or sorted(ra.warns) != sorted(rb.warns):
        raise Violation("verdict %s %r, without substitution %s %r" % (rb.err, rb.warns, ra.err, ra.warns))
    if ra.err is None:
        want = [(tuple(g), shlex.split(it[2], comments=True)[1:], ln, it[1], it[2] + "\n") for it, ln in zip(items, at)
                if it[0] == "c" for g in chosen if it[1] in g]
        if [x[:5] for x in log] != want or any(x[5] is not h for x in log):
            raise Violation("the substituted commands saw %r, expected %r" % ([x[:5] for x in log], want))
    cmds = sorted(c for c in set(pool) if M.spec(version, c).kind == "normal")
    a, b = state.whole(plain, version, cmds), state.whole(h, version, cmds)
    a["written"], b["written"] = (a["written"], b["written"]) if style == "same" else (blocks(a["written"]),
                                                                                     blocks(b["written"]))
    state.same(b, a, "substituted versus plain")
    n = mk(version)
    if any(type(o) is not cmap[x] for x, o in n.commands.items()):
        raise Violation("a new handler has the substituted command")
    used = any(it[0] == "c" and any(it[1] in g for g in chosen) for it in items)
    return {"nontrivial": used, "key": (version, repr(chosen), via, style, text), "sample": [version, chosen, text]}


_first = {}


def pristine(version):
    """The data classes of the first handler of a version made in this process."""
    if version not in _first:
        _first[version] = {k: v for k, v in vars(real.small_handler(version, ["lang"])).items()
                           if isinstance(v, type) and issubclass(v, base.BaseData)}
    return _first[version]


def data(src, version):
    """Data classes substituted by constructor arguments: entries are of that class, of no other."""
    listy = [g for g in groups(version) if M.spec(version, g[0]).data is not None]
    pool_groups = src.shuffle(listy)[:src.int(1, 4)]
    pool = [c for g in pool_groups for c in g] + src.shuffle([g[0] for g in groups(version)])[:1]
    items = gaps(src, a_document(src, version, pool, 1, 6, kinds=("packages",)))
    text, _at = render(items)
    style = src.choice(["same", "bare", "own"])
    plain = real.small_handler(version, pool)
    cls, cmap = type(plain), {n: type(o) for n, o in plain.commands.items()}
    chosen = [g for g in pool_groups if src.chance(60)] or [pool_groups[0]]
    names = {M.spec(version, g[0]).data["name"].split("_", 1)[1]: g for g in chosen}
    updates = {n: sub_data(getattr(plain, n), style) for n in names}
    before = {n: getattr(plain, n) for n in names}
    src.desc.update(version=version, substituted=sorted(names), text=text)
    first = pristine(version)
    dmap = {k: v for k, v in vars(plain).items() if isinstance(v, type) and issubclass(v, base.BaseData)}
    if {k: v for k, v in first.items() if dmap.get(k) is not v}:
        raise Violation("a new handler has other data classes than the first one made")
    via = src.choice(["dataUpdates", "dataMapping", "both", "split", "nothing else"])
    src.desc["via"] = via
    kind = src.choice([dict, dict, collections.OrderedDict])
    given, gcmap, gup = kind(dmap), kind(cmap), kind(updates)
    # data classes under names that are new
    fresh = {n: sub_data(src.choice([base.BaseData] + list(updates.values())), style)
             for n in src.subset(["FooData", "My_ExtraData", "userdata2"], 30)}
    gup.update(fresh)
    gup0 = dict(gup)
    if via == "dataUpdates":
        h = cls(mapping=gcmap, dataUpdates=gup)
    elif via == "both":
        h = cls(mapping=gcmap, dataMapping=given, dataUpdates=gup)
    elif via == "split":
        # some in the mapping, some as updates; an update beats the mapping
        for n in list(updates):
            k = src.int(0, 2)
            if k == 0:
                given[n] = gup.pop(n)
            elif k == 1:
                given[n] = sub_data(updates[n], style)
        given0, gup1 = dict(given), dict(gup)
        h = cls(mapping=gcmap, dataMapping=given, dataUpdates=gup)
        if given != given0 or gup != gup1:
            raise Violation("a mapping passed in was changed")
        given, gup = kind(dmap), kind(gup0)
    elif via == "dataMapping":
        h = cls(mapping=gcmap, dataMapping=dict(dmap, **updates))
    else:
        h = cls(dataUpdates=gup)
        plain = cls()
    if given != dmap or gcmap != cmap or gup != gup0:
        raise Violation("a mapping passed in was changed")
    if via == "dataMapping":
        for n, T in fresh.items():
            h.registerData(n, T)
    for n, T in fresh.items():
        if getattr(h, n, None) is not T:
            raise Violation("the handler's new %s is %r" % (n, getattr(h, n, None)))
        if hasattr(plain, n):
            raise Violation("another handler got %s, too" % n)
    for n, T in updates.items():
        if getattr(h, n) is not T:
            raise Violation("the handler's %s is not the substituted class" % n)
    other = {k: v for k, v in vars(plain).items() if isinstance(v, type) and k not in updates}
    for k, v in other.items():
        if getattr(h, k, None) is not v:
            raise Violation("the handler's %s changed" % k)
    ra, rb = state.run(plain, text=text), state.run(h, text=text)
    if str(ra.err) != str(rb.err) or ra.warns != rb.warns:
        raise Violation("verdict %s %r, without substitution %s %r" % (rb.err, rb.warns, ra.err, ra.warns))
    used = False
    for g in pool_groups:
        n = M.spec(version, g[0]).data["name"].split("_", 1)[1]
        T = updates.get(n, getattr(plain, n))
        if h.commands[g[0]].dataClass is not T:
            raise Violation("dataClass of %s is %r" % (g[0], h.commands[g[0]].dataClass))
        for d in h.commands[g[0]].dataList():
            if type(d) is not T:
                raise Violation("an entry of %s is a %s, expected %s" % (g[0], type(d).__name__, T.__name__))
            used = used or n in updates
    cmds = sorted(c for c in set(pool) if M.spec(version, c).kind == "normal")
    state.same(state.whole(h, version, cmds), state.whole(plain, version, cmds), "substituted versus plain")
    k = real.small_handler(version, pool)
    if any(getattr(k, n) is not before[n] or before[n] is not first[n] for n in names):
        raise Violation("a new handler has the substituted data class")
    return {"nontrivial": used, "key": (version, repr(sorted(names)), text), "sample": [version, sorted(names), text]}


NEWNAMES = ["confirm", "frobnicate", "my-cmd", "x1", "Lang", "extra_step"]


def added(src, version):
    """New commands: they get exactly their lines, their entries are collected, their text is written in its place."""
    names = src.shuffle(NEWNAMES)[:src.int(1, 3)]
    twins = src.chance(30) and len(names) > 1        # two names for one command
    log = []

    def make(i):
        prio = src.choice([0, 0, 1, 50, 130, 1000, None])
        listy = src.chance(40)

        class Data(base.BaseData):
            def __init__(self, *a, **kw):
                base.BaseData.__init__(self, *a, **kw)
                self.words = kw.get("words", [])

            def __str__(self):
                return "%s %s\n" % (names[i], " ".join(self.words))

        class Cmd(base.KickstartCommand):
            def __init__(self, writePriority=prio, *a, **kw):
                base.KickstartCommand.__init__(self, writePriority, *a, **kw)
                self.entries = []

            def __str__(self):
                return "".join(str(d) for d in self.entries)

            def parse(self, args):
                log.append((i, self.currentCmd, list(args), self.lineno))
                d = Data(words=list(args))
                if listy:
                    return d
                self.entries.append(d)
                return self

            def dataList(self):
                return self.entries if listy else None
        Cmd.__name__ = "My_New%d" % i
        return Cmd, prio
    classes = {}
    for i, n in enumerate(names):
        classes[n] = classes[names[0]] if twins and i == 1 else make(i)
    pool = [g[0] for g in src.shuffle(groups(version))[:3]]
    rest = [it for it in a_document(src, version, pool) if it[0] == "s" or it[1] not in names]
    items = list(rest)
    extra = []
    for _ in range(src.int(1, 4)):
        n = src.choice(names)
        args = [src.choice(["a", "--opt=1", "two words", "--", "-x", "#hash", "é", "it's"]) for _ in range(src.int(0, 3))]
        it = ("c", n, " ".join([n] + [M.quote(a) for a in args]), args)
        items.insert(src.below(len(items) + 1), it)
        extra.append(it)
    text, at = render(gaps(src, items))
    src.desc.update(version=version, new=names, text=text, twins=twins)
    items = []
    h = real.small_handler(version, pool)
    if src.chance(50):
        h = type(h)(mapping={n: type(o) for n, o in h.commands.items()}, commandUpdates={n: c[0] for n, c in classes.items()})
    else:
        for n in names:
            h.registerCommand(n, classes[n][0])
    plain = real.small_handler(version, pool)
    r = state.run(h, text=text)
    r2 = state.run(plain, text=render(rest)[0])
    if r2.err is not None:
        raise Discard
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    want = []
    for ln, l in enumerate(text.splitlines(), 1):
        pass
    flat = [(names.index(n) if not (twins and n == names[1]) else 0, n, args) for n, args in
            ((it[1], it[3]) for it in all_new(text, names, extra))]
    if [(i, n, a) for i, n, a, _l in log] != flat:
        raise Violation("the new commands saw %r, expected %r" % (log, flat))
    src_lines = text.splitlines()
    for _i, n, _a, ln in log:
        if src_lines[ln - 1].split()[0] != n:
            raise Violation("%s reports line %d, which is %r" % (n, ln, src_lines[ln - 1]))
    for n in names:
        c = h.commands[n]
        mine = [a for i, m, a, _l in log if type(c) is classes[m][0]]
        if [d.words for d in c.entries] != mine:
            raise Violation("%s holds %r, expected %r" % (n, [d.words for d in c.entries], mine))
        if any(h.commands[x] is c for x in h.commands if classes.get(x, (None,))[0] is not type(c)):
            raise Violation("%s is mixed up with another command" % n)
        if bool(c.seen) != bool(mine):
            raise Violation("%s: seen is %r" % (n, c.seen))
    cmds = [c for c in pool if M.spec(version, c).kind == "normal"]
    state.same(state.whole(h, version, cmds, written=False), state.whole(plain, version, cmds, written=False),
               "with new commands versus without")
    # every new command's text appears exactly once, unless it asked not to be written
    w = str(h)
    rest_text = str(plain)
    for n in set(names[:1] if twins else names) | set(names[2:] if twins else []):
        c = h.commands[n]
        t = str(c)
        prio = classes[n][1]
        if prio is None:
            continue
        if t and t not in w:
            raise Violation("the text %r of %s is not written: %r" % (t, n, w))
        if t:
            w = w.replace(t, "", 1)
    if sorted(w.splitlines()) != sorted(rest_text.splitlines()):
        raise Violation("the remaining text is %r, expected %r" % (w, rest_text))
    order = [(classes[n][1], str(h).find(str(h.commands[n]))) for n in names if classes[n][1] is not None and
             str(h.commands[n])]
    for pa, xa in order:
        for pb, xb in order:
            if pa < pb and xa > xb:
                raise Violation("priority %d is written after %d" % (pa, pb))
    return {"key": (version, text), "sample": [version, names, text]}


def all_new(text, names, extra):
    """The new-command items in document order."""
    left, out = list(extra), []
    for l in text.splitlines():
        for it in left:
            if it[2] == l:
                out.append(it)
                left.remove(it)
                break
    return out


TAGS = ["%raw", "%my-section", "%x", "%packages2", "%Custom"]


def new_section(src, version):
    """A registered section gets its header words, its line number and its lines, once per occurrence."""
    log = []
    tags = src.shuffle(TAGS)[:src.int(1, 2)]
    replace = src.chance(25)
    if replace:
        tags[0] = src.choice(["%addon", "%post", "%traceback", "%packages"])
    every = {t: src.chance(50) for t in tags}

    def make(t):
        class Sec(sections.Section):
            allLines = every[t]
            sectionOpen = t

            def handleHeader(self, lineno, args):
                sections.Section.handleHeader(self, lineno, args)
                log.append(["head", self.sectionOpen, lineno, list(args)])

            def handleLine(self, line):
                log.append(["line", self.sectionOpen, line])

            def finalize(self):
                log.append(["done", self.sectionOpen])
        return Sec
    common = make(tags[0]) if src.chance(40) else None              # one class for all of them

    def created(t):
        o = (common or make(t))(h)
        o.sectionOpen, o.allLines = t, every[t]
        return o
    pool = [g[0] for g in src.shuffle(groups(version))[:3]]
    items = a_document(src, version, pool)
    items = [it for it in items if it[0] == "c" or it[1]["header"].split()[0] not in tags]
    rest = list(items)
    for _ in range(src.int(1, 4)):
        t = src.choice(tags)
        args = [src.choice(["a", "--opt=1", "two words", "--", "#hash", "é"]) for _ in range(src.int(0, 3))]
        body = [l for l in doc.script_body(src, 0, 5, doc.NULL_BODY) if not l.startswith(tuple(TAGS))]
        s = {"header": " ".join([t] + [M.quote(a) for a in args]) + src.choice(["", "", "  # comment"]), "body": body,
             "args": args, "tag": t}
        items.insert(src.below(len(items) + 1), ("s", s))
    items = gaps(src, items)
    text, at = render(items)
    src.desc.update(version=version, tags=tags, all_lines=every, text=text)
    h, plain = real.small_handler(version, pool), real.small_handler(version, pool)
    p = real.KickstartParser(h)
    q = real.KickstartParser(plain)
    objs = {t: created(t) for t in tags}
    for t in tags:
        p.registerSection(objs[t])
        if p.getSection(t) is not objs[t]:
            raise Violation("getSection does not return the registered section")
    if any(o.seen or o.timesSeen for o in objs.values()):
        raise Violation("a new section counts as seen")
    r = state.run(h, text=text, parser=p)
    r2 = state.run(plain, text=render(rest)[0], parser=q)
    if r2.err is not None:
        raise Discard
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    want = []
    for it, ln in zip(items, at):
        if it[0] != "s" or it[1].get("tag") not in tags:
            continue
        s = it[1]
        want.append(["head", s["tag"], ln, [s["tag"]] + s["args"]])
        for l in s["body"]:
            if every[s["tag"]] or l.strip() and not l.strip().startswith("#"):
                want.append(["line", s["tag"], l + "\n"])
        want.append(["done", s["tag"]])
    if log != want:
        raise Violation("the sections saw %r, expected %r" % (log, want))
    for t in tags:
        n = sum(1 for x in want if x[:2] == ["head", t])
        if objs[t].timesSeen != n or objs[t].seen != (n > 0):
            raise Violation("%s was seen %r times, expected %d" % (t, objs[t].timesSeen, n))
    cmds = [c for c in pool if M.spec(version, c).kind == "normal"]
    state.same(state.whole(h, version, cmds), state.whole(plain, version, cmds), "with new sections versus without")
    # another parser on the same handler does not know them
    other = real.KickstartParser(h)
    for t in tags:
        if t in TAGS:
            err = state.run(h, text="%s\n%%end\n" % t, parser=other).err
            if err is None:
                raise Violation("%s is known to another parser" % t)
    return {"key": (version, repr(tags), text), "sample": [version, tags, text]}


def refused(src, mode):
    """A section without a proper opening tag is refused at once and changes nothing."""
    version = src.choice(M.VERSIONS)
    h = real.small_handler(version, ["lang"])
    p = real.KickstartParser(h)
    known = ["%pre", "%post", "%traceback", "%packages", "%addon", "%anaconda"]
    before = [p.getSection(t) for t in known]

    class Sec(sections.Section):
        pass
    Sec.sectionOpen = "" if mode == "empty" else src.choice(["raw", "#raw", " %raw", "end%", "-"])
    src.desc.update(version=version, tag=Sec.sectionOpen)
    try:
        p.registerSection(Sec(h))
    except TypeError:
        pass
    else:
        raise Violation("a section opened by %r is accepted" % Sec.sectionOpen)
    try:
        p.getSection(Sec.sectionOpen)
    except KeyError:
        pass
    else:
        raise Violation("a refused section is registered")
    if [p.getSection(t) for t in known] != before:
        raise Violation("a refused section is registered")
    return {"key": (version, Sec.sectionOpen), "sample": Sec.sectionOpen}


def dispatch(src, version):
    """handleCommand sees every command line once; what it drops has no effect; Script classes are used as given."""
    log = []
    pool = [g[0] for g in src.shuffle(groups(version))[:4]]
    items = gaps(src, a_document(src, version, pool))
    text, at = render(items)
    # drop all lines of some commands
    drop = src.subset(pool, 35)

    class MyScript(real.Script):
        def run(self):
            return self.script

    class Parser(real.KickstartParser):
        def handleCommand(self, lineno, args):
            if args[0] in drop:
                log.append((lineno, list(args), log))
                return None
            r = real.KickstartParser.handleCommand(self, lineno, args)
            log.append((lineno, list(args), r))
            return r

        def setupSections(self):
            real.KickstartParser.setupSections(self)
            for T in (sections.PreScriptSection, sections.PostScriptSection):
                self.registerSection(T(self.handler, dataObj=MyScript))
    src.desc.update(version=version, dropped=drop, text=text)
    h, plain = real.small_handler(version, pool), real.small_handler(version, pool)
    kept = [("b", "") if it[0] == "c" and it[1] in drop else it for it in items]
    r2 = state.run(plain, text=render(kept)[0])
    if r2.err is not None:
        raise Discard
    r = state.run(h, text=text, parser=Parser(h))
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    want = [(ln, shlex.split(it[2], comments=True)) for it, ln in zip(items, at) if it[0] == "c"]
    if [x[:2] for x in log] != want:
        raise Violation("handleCommand saw %r, expected %r" % ([x[:2] for x in log], want))
    for _ln, args, r in log:
        if r is log:
            continue
        o = h.commands[args[0]]
        if r is not None and r is not o and not any(r is d for d in (o.dataList() or [])):
            raise Violation("%s: the dispatcher returned neither the command nor one of its entries: %r" % (args[0], r))
    for s in h.scripts:
        mine = s.type in (M.const("KS_SCRIPT_PRE"), M.const("KS_SCRIPT_POST"))
        if (type(s) is MyScript) != mine:
            raise Violation("a script of type %d is a %s" % (s.type, type(s).__name__))
    cmds = [c for c in pool if M.spec(version, c).kind == "normal"]
    state.same(state.whole(h, version, cmds, lineno=True), state.whole(plain, version, cmds, lineno=True),
               "own parser versus plain")
    return {"nontrivial": bool(log), "key": (version, repr(drop), text), "sample": [version, drop, text]}


def exactly(src, version):
    """A handler made with a mapping knows exactly the names in it."""
    gs = groups(version)
    chosen = [g for g in src.shuffle(gs)[:src.int(1, 6)]]
    full = real.full_handler(version)
    names = [n for g in chosen for n in src.subset(g, 80) or [g[0]]]
    mapping = {n: type(full.commands[n]) for n in names}
    h = type(full)(mapping=mapping)
    src.desc.update(version=version, names=names)
    if sorted(h.commands) != sorted(names):
        raise Violation("the handler knows %r, expected %r" % (sorted(h.commands), sorted(names)))
    name = src.choice(names + [src.choice(M.commands(version)) for _ in range(3)])
    if src.chance(30):
        name = name + src.choice(["x", "X"])
    if name in names and name in real.STORAGE + ["lilo", "bootloader"]:
        raise Discard                   # these look at each other
    ok, _m = doc.command_lines(src, version, 1, 1, pool=[name]) if name in names else ([], None)
    text = ok[0][2] if ok else name
    r = state.run(h, text=text + "\n")
    if ok:
        if r.err is not None:
            raise Violation("%r is rejected: %s" % (text, r.err))
    elif name not in names and not isinstance(r.err, real.E.KickstartParseError):
        raise Violation("%r is not rejected: %r" % (text, r.err))
    if len(type(full)().commands) != len(full.commands):
        raise Violation("a new handler knows other commands")
    return {"key": (version, tuple(names), text), "sample": [names, text]}


TESTS = [Test("commands", commands, M.VERSIONS, n=(120, 2500)),
         Test("data", data, M.VERSIONS, n=(120, 2500)),
         Test("added", added, M.VERSIONS, n=(100, 2000)),
         Test("new_section", new_section, M.VERSIONS, n=(120, 2500)),
         Test("refused", refused, ["empty", "other"], n=(20, 100)),
         Test("dispatch", dispatch, M.VERSIONS, n=(100, 2000)),
         Test("exactly", exactly, M.VERSIONS, n=(60, 600))]
