"""C13: handlers and parsers do not influence each other."""
import copy
import os
import sys
import warnings

from checks import c12
from kv import doc, gen, real, state
from kv import model as M
from kv.engine import Test, Violation

RULE = ("a case is two to four handlers with their own histories and one interleaving of these; non-trivial when at least "
        "two histories contain parsing; distinct by all histories and the interleaving")
ASSUMPTIONS = ["one thread; histories are parsing, writing, resetting, masking and in-place changes of settings"]

_pristine = {}


def everything(h, version):
    """All public values of all commands, by name, without help objects."""
    out = {}
    for n, o in h.commands.items():
        if M.spec(version, n).kind == "normal":
            out[n] = {k: v for k, v in vars(o).items() if k not in real_skip(o)}
    out["%packages"] = doc.pkg_actual(h.packages)
    out["%scripts"] = len(h.scripts)
    out["%platform"] = h.platform
    return out


def real_skip(o):
    return {"op", "handler", "_handler", "dataClass"} | {k for k in vars(o) if k.startswith("_")}


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, set):
        return sorted(map(str, v))
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    return {k: plain(x) for k, x in vars(v).items() if k not in ("op", "handler") and not k.startswith("_")} \
        if hasattr(v, "__dict__") else repr(v)


def pristine(version):
    """What a handler made before anything else in this process holds."""
    if version not in _pristine:
        h = real.full_handler(version)
        _pristine[version] = (plain(everything(h, version)), str(h))
    return _pristine[version]


# ---------------------------------------------------------------- histories
def history(src, version):
    """A list of operations, all decided beforehand."""
    pool = [c for c in doc.pool_of(version) if c != "lilo"]
    if src.chance(60):
        pool = src.shuffle(pool)[:src.int(1, 6)]
    ops = []
    for _ in range(src.int(1, 6)):
        k = src.below(100)
        if k < 55:
            lines, _mh = doc.command_lines(src, version, 0, 4, pool, density=12)
            text = "".join(t + "\n" for _c, _i, t in lines)
            for _ in range(src.int(0, 2)):
                s = doc.section(src, M.NUM[version])
                text += "".join(l + "\n" for l in doc.section_lines(s))
            if src.chance(20):
                text += src.choice(["nosuchcommand\n", "%pre\nunclosed\n", "%nosuch\n%end\n", "%packages --nosuch\n%end\n",
                                    c12.bad_line(src, version, pool)[0] + "\n", "%post --log=/a\n%include /no/such\n"])
                text += src.choice(["", "cdrom\n"])
            ops.append(["parse", src.choice(["same", "same", "new", "lenient", "unknown ok"]), text])
        elif k < 70:
            ops.append(["write"])
        elif k < 80:
            ops.append(["reset", src.choice(pool)])
        elif k < 84:
            ops.append(["mask", src.subset(pool)])
        elif k < 92:
            ops.append(["mutate", src.below(1000)])
        else:
            ops.append(["pkgadd", src.list(1, 3, lambda: src.choice(["vim", "@core", "-emacs", "@^kde"]))])
    return ops


class Runner:
    """Executes one history, recording everything observable."""
    def __init__(self, version, ops, root):
        self.version, self.ops = version, ops
        self.h = real.full_handler(version)
        self.parser = real.KickstartParser(self.h)
        self.log, self.i, self.dead = [], 0, set()

    def step(self):
        op = self.ops[self.i]
        self.i += 1
        h = self.h
        if op[0] == "parse":
            if op[1] == "same":
                r = state.run(h, text=op[2], parser=self.parser)
            elif op[1] == "lenient":
                r = state.run(h, text=op[2], errorsAreFatal=False)
            elif op[1] == "unknown ok":
                r = state.run(h, text=op[2], unknownSectionIsFatal=False)
            else:
                r = state.run(h, text=op[2])
            self.log.append([str(r.err), r.warns, r.messages, r.count, r.stderr])
        elif op[0] == "write":
            self.log.append(str(h))
        elif op[0] == "reset":
            if op[1] not in self.dead:
                h.resetCommand(op[1])
        elif op[0] == "mask":
            h.maskAllExcept(op[1])
            self.dead |= set(h.commands) - set(op[1])
        elif op[0] == "mutate":
            mutate(h, op[1])
        elif op[0] == "pkgadd":
            h.packages.add(list(op[1]))
        return self.i < len(self.ops)

    def result(self):
        return {"log": self.log, "state": plain(everything_live(self.h, self.version)), "seen": seen(self.parser)}


def seen(parser):
    """How often each section was seen by a parser."""
    return {t: [parser.getSection(t).timesSeen, parser.getSection(t).seen]
            for t in doc.SCRIPT_TAGS + ["%packages", "%addon", "%anaconda"]}


def everything_live(h, version):
    out = {}
    for n, o in h.commands.items():
        if o is not None and M.spec(version, n).kind == "normal":
            out[n] = {k: v for k, v in vars(o).items() if k not in real_skip(o)}
    out["%packages"] = doc.pkg_actual(h.packages)
    out["%scripts"] = [doc.script_actual(s) for s in h.scripts]
    out["%platform"] = h.platform
    return out


MARKER = "kv-changed-in-place"


def containers(o, depth=0):
    for k in sorted(vars(o)):
        if k.startswith("_") or k in ("op", "handler"):
            continue
        v = vars(o)[k]
        if isinstance(v, (list, dict, set)):
            yield v


def change(v):
    if isinstance(v, list):
        v.append(MARKER)
    elif isinstance(v, set):
        v.add(MARKER)
    else:
        v[MARKER] = MARKER


def mutate(h, n):
    """Change one container of one command that is not its list of entries in place."""
    cand = [(c, k) for c in sorted(h.commands) if h.commands[c] is not None
            for k, v in sorted(vars(h.commands[c]).items())
            if isinstance(v, (list, dict, set)) and not k.startswith("_") and k not in ("op", "handler")
            and not is_entries(h.commands[c], v)]
    if cand:
        c, k = cand[n % len(cand)]
        v = getattr(h.commands[c], k)
        if isinstance(v, list):
            v.reverse()
            del v[:1]
        elif isinstance(v, dict):
            v.pop(MARKER, None)
        else:
            v.discard(MARKER)


def is_entries(o, v):
    d = o.dataList()
    return d is not None and d is v


def interleave(src, _s):
    n = src.int(2, 4)
    vs = []
    for _ in range(n):
        vs.append(src.choice(vs) if vs and src.chance(35) else src.choice(M.VERSIONS))
    hist = [history(src, v) for v in vs]
    before = {v: pristine(v) for v in vs}
    env, cwd, filters = dict(os.environ), os.getcwd(), list(warnings.filters)
    out, err = sys.stdout, sys.stderr
    alone = []
    for v, ops in zip(vs, hist):
        r = Runner(v, ops, None)
        while r.step():
            pass
        alone.append(r.result())
    run, order = {}, []
    live = list(range(n))
    early = src.chance(50)
    if early:
        run = {i: Runner(vs[i], hist[i], None) for i in live}
    while live:
        i = src.choice(live)
        order.append(i)
        if i not in run:
            run[i] = Runner(vs[i], hist[i], None)
        if not run[i].step():
            live.remove(i)
    src.desc.update(versions=vs, histories=hist, order=order, made_first=early)
    for i in range(n):
        state.same(run[i].result(), alone[i], "handler %d (%s), interleaved versus alone" % (i, vs[i]))
    i = src.below(n)
    r = Runner(vs[i], hist[i], None)
    while r.step():
        pass
    state.same(r.result(), alone[i], "handler %d (%s), a second time versus the first" % (i, vs[i]))
    for v in vs:
        h = real.full_handler(v)
        if (plain(everything(h, v)), str(h)) != before[v]:
            raise Violation("a new %s handler is not pristine: %s" % (v, state.diff(plain(everything(h, v)),
                                                                                  before[v][0])))
    if dict(os.environ) != env or os.getcwd() != cwd or list(warnings.filters) != filters or \
       sys.stdout is not out or sys.stderr is not err:
        raise Violation("the process's environment, directory, warning filters or streams changed")
    k = repr((vs, hist, order))
    return {"nontrivial": sum(any(o[0] == "parse" for o in ops) for ops in hist) > 1, "key": k,
            "sample": {"versions": vs, "histories": hist, "order": order},
            "labels": ["same version"] if len(set(vs)) < n else []}


def containers_unshared(src, version):
    """No container inside a handler, its entries or its packages belongs to another handler too."""
    pristine(version)
    h, g = real.full_handler(version), real.full_handler(version)
    want = plain(everything(g, version))
    objs = [h.commands[c] for c in sorted(h.commands)] + [h.packages]
    entries, twins = [], []
    for c in doc.normal_commands(version):
        o = h.commands[c]
        if o.dataClass is not None:
            entries.append(o.dataClass())
            twins.append((c, g.commands[c].dataClass(), o.dataClass()))
    was = [(plain(a), plain(b)) for _c, a, b in twins]
    src.desc.update(version=version)
    done = 0
    for o in objs + entries:
        for v in containers(o):
            change(v)
            done += 1
    h.scripts.append("x")
    state.same(plain(everything(g, version)), want, "another handler made before")
    state.same(plain(everything(real.full_handler(version), version)), want, "another handler made after")
    for (c, a, b), (wa, wb) in zip(twins, was):
        state.same(plain(a), wa, "an entry of %s in another handler" % c)
        state.same(plain(b), wb, "another entry of %s" % c)
    others = src.shuffle(M.VERSIONS)[:2]
    for v in others:
        h2 = real.full_handler(v)
        if (plain(everything(h2, v)), str(h2)) != pristine(v):
            raise Violation("a new %s handler is not pristine" % v)
    return {"key": (version, tuple(others)), "sample": {"version": version, "containers changed": done}}


def two_parsers(src, version):
    """Two parsers on one handler keep their own reading state; two handlers in one parser type too."""
    lines, mh = doc.command_lines(src, version, 1, 4, density=8)
    a = "".join(t + "\n" for _c, _i, t in lines)
    sec = [doc.section(src, M.NUM[version]) for _ in range(src.int(1, 3))]
    b = "".join(l + "\n" for s in sec for l in doc.section_lines(s))
    broken = src.choice(["%pre --log=/tmp/x\nleft open\n", "%packages --nosuch\nvim\n%end\n", "%post\n%include\n",
                         "nosuchcommand\n", "%nosuch a\n%end\n"])
    src.desc.update(version=version, first=broken, then=a + b)
    cmds = sorted({c for c, _i, _t in lines}) + ["cdrom"]
    h, g, k = (real.small_handler(version, cmds) for _ in range(3))
    p, q = real.KickstartParser(h), real.KickstartParser(g)
    ph, qh = real.KickstartParser(h), real.KickstartParser(h)
    r0 = state.run(k, text=broken, parser=None)
    r1 = state.run(h, text=broken, parser=ph)
    if str(r0.err) != str(r1.err):
        raise Violation("%s versus %s" % (r0.err, r1.err))
    r2 = state.run(g, text=a + b, parser=q)
    r3 = state.run(real.small_handler(version, cmds), text=a + b)
    if r2.err or r3.err or r2.warns != r3.warns:
        raise Violation("rejected: %s %s" % (r2.err, r3.err))
    w = state.whole(g, version, cmds, True)
    state.same(w, state.whole(r3.parser.handler, version, cmds, True), "after another parser failed")
    # another parser on the handler that failed
    n = len(h.scripts)
    r4 = state.run(h, text=b, parser=qh)
    if r4.err:
        raise Violation("another parser on the same handler: %s" % r4.err)
    if [doc.script_actual(x) for x in h.scripts[n:]] != [dict(x, lineno=x["lineno"] - len(lines)) for x in
                                                        map(doc.script_actual, g.scripts)]:
        raise Violation("another parser on the same handler reads other scripts")
    if p.errorsCount or q.errorsCount or qh.errorsCount:
        raise Violation("errors counted by a parser that saw none")
    if any(n for n, _s in seen(p).values()) or any(s for _n, s in seen(p).values()):
        raise Violation("sections seen by a parser that read nothing: %r" % seen(p))
    # the second handler is unchanged by all this
    state.same(state.whole(g, version, cmds, True), w, "a handler that was not touched")
    return {"key": (version, broken, a, b), "sample": [broken, a + b]}


def tree(src, version, root, name):
    """A kickstart of a main file and two relative ones; the same names in every tree."""
    lines, mh = doc.command_lines(src, version, 1, 5, density=8)
    secs = [doc.section_lines(doc.section(src, M.NUM[version])) for _ in range(src.int(0, 2))]
    parts = [[t] for _c, _i, t in lines] + secs
    parts.insert(src.below(len(parts) + 1), ["cdrom"])
    d = os.path.join(root, name)
    files = {"main.ks": [], "x.ks": [], "sub/y.ks": []}
    for p in parts:
        files[src.choice(sorted(files))] += p
    where = src.choice(["main.ks", "main.ks", "x.ks"])
    files["main.ks"].insert(0 if src.chance(50) else len(files["main.ks"]), "%include x.ks")
    files[where].append("%include " + src.choice(["sub/y.ks", "./sub/y.ks"]))
    for f, ls in files.items():
        state.put(os.path.join(d, f), "".join(l + "\n" for l in ls))
    cmds = sorted({c for c, _i, _t in lines} | {"cdrom"})
    return os.path.join(d, "main.ks"), cmds, {f: list(ls) for f, ls in files.items()}


def nested(src, version):
    """While one parser reads, another one starts and reads another kickstart, with files of the same names."""
    other = src.choice(M.VERSIONS)
    with state.scratch() as root:
        a, ca, fa = tree(src, version, root, "one")
        b, cb, fb = tree(src, other, root, "two/deep")
        src.desc.update(version=version, other=other, one=fa, two=fb)
        ha, hb, ga, gb = (real.small_handler(v, c) for v, c in ((version, ca), (other, cb)) * 2)
        broken = src.chance(30)         # the inner one fails
        bad = "%include sub/none.ks\n" if src.chance(50) else "nosuchcommand\n"
        if broken:
            with open(b, "a", encoding="utf-8") as f:
                f.write(bad)
        qb = real.KickstartParser(gb) if src.chance(50) else None
        ra, rb = state.run(ha, path=a), state.run(hb, path=b)
        if ra.err or bool(rb.err) != broken:
            raise Violation("alone: %s, %s" % (ra.err, rb.err))
        inner = []
        cmd = src.choice([c for c in ca])
        old = ga.commands[cmd].parse

        def parse(args):
            if not inner or src_again:
                inner.append(None)
                inner[-1] = state.run(gb if len(inner) == 1 else real.small_handler(other, cb), path=b,
                                      parser=qb if len(inner) == 1 else None)
            return old(args)

        src_again = src.chance(30)
        ga.commands[cmd].parse = parse
        late = src.chance(30)
        sa = state.run(ga, path=a)
        del ga.commands[cmd].parse
        if late or not inner:
            inner.append(state.run(gb if not inner else real.small_handler(other, cb), path=b))
        if sa.err:
            raise Violation("with another parser in between: %s" % sa.err)
        for r in inner:
            if str(r.err) != str(rb.err) or r.warns != rb.warns:
                raise Violation("the inner parser: %s, %r, alone %s, %r" % (r.err, r.warns, rb.err, rb.warns))
            state.same(state.whole(r.parser.handler, other, cb, True), state.whole(hb, other, cb, True), "the inner kickstart")
        if sa.count or ra.count:
            raise Violation("errors counted by the outer parser")
        state.same(state.whole(ga, version, ca, True), state.whole(ha, version, ca, True), "the outer kickstart")
        # a parser that has read no file knows no directory
        r = state.run(real.small_handler(version, ca), text="%include x.ks\n")
        if not r.err:
            raise Violation("a new parser finds another one's files")
    return {"key": (version, other, repr(fa), repr(fb)), "sample": [fa, fb],
            "labels": ["inner fails" if broken else "inner fine"]}


TESTS = [Test("nested", nested, M.VERSIONS, n=(25, 500)),
         Test("interleave", interleave, n=(1600, 40000)),
         Test("containers_unshared", containers_unshared, M.VERSIONS, n=(3, 12)),
         Test("two_parsers", two_parsers, M.VERSIONS, n=(25, 600))]
