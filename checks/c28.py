"""C28: reading a kickstart in pieces is the same as reading it in one go."""
import os

from checks import c09, c12
from kv import doc, real, state
from kv import model as M
from kv.engine import Test, Violation

RULE = ("a case is a document, a way of cutting it into texts or files that are read one after the other, and a way of "
        "reading each; non-trivial when there are at least two pieces with something in them; distinct by (version, pieces)")
ASSUMPTIONS = ["the cuts are between command lines and sections, never inside a section",
               "line numbers count from the beginning of each piece"]
FAIL = ["nosuchcommand x\ncdrom\n", "--x\n", "%nosuch\nlang en_US\n%end\n", "%end\nlang en_US\n", "%packages --nosuch\n@x\n%end\n",
        "%pre --nosuch\necho lost\n%end\n", "%include\n", "%include /no/such/file\nlang xx\n", "lang \"en\n"]
FAIL_F8 = ["%pre\necho lost\n", "%post --log=/lost\n%pre\n%end\n", "%addon lost\nlost\n",
           "%traceback\n\n\nlost"]


def cut(src, lines):
    """-> pieces, each a list of lines"""
    cuts = [i for i in range(1, len(lines)) if lines[i].sec is None]
    at = sorted(src.subset(cuts, src.choice([20, 40, 100])))
    out, last = [], 0
    for i in at + [len(lines)]:
        out.append(lines[last:i])
        last = i
    return out


class Reader:
    """Reads pieces into one handler."""
    def __init__(self, src, h, root, **kw):
        self.src, self.h, self.root, self.kw = src, h, root, kw
        self.parser = real.KickstartParser(h, **kw)
        self.mode = src.choice(["one parser", "one parser", "new parsers", "mixed"])
        self.n = 0
        self.total = 0

    def read(self, text):
        if self.mode == "new parsers" or self.mode == "mixed" and self.src.chance(50):
            self.parser = real.KickstartParser(self.h, **self.kw)
        before = self.parser.errorsCount
        if self.src.chance(40):
            self.n += 1
            path = os.path.join(self.root, "p%d" % self.n, "ks.cfg")
            state.put(path, text)
            r = state.run(self.h, path=path, parser=self.parser)
        else:
            r = state.run(self.h, text=text, parser=self.parser)
        r.delta = self.parser.errorsCount - before
        self.total += r.delta
        return r


def numbered(pieces):
    """-> the text of each piece, and for every header its line number in its piece"""
    texts, at = [], {}
    for p in pieces:
        texts.append(c09.text_of(p))
        for k, l in enumerate(p):
            at[id(l)] = k + 1
    return texts, at


def good(src, version):
    """The pieces of an acceptable document, with texts that cannot be read between them."""
    lines, cmds = c09.flat(src, version)
    pieces = cut(src, lines)
    texts, at = numbered(pieces)
    if texts and texts[-1] and src.chance(20):
        texts[-1] = texts[-1][:-1]
    fails = FAIL + (FAIL_F8 if M.NUM[version] >= doc.F8 else [])
    todo = [(t, True) for t in texts]
    for _ in range(src.choice([0, 0, 1, 2])):
        todo.insert(src.below(len(todo) + 1), (src.choice(fails), False))
    for _ in range(src.int(0, 2)):      # texts without contents change nothing
        todo.insert(src.below(len(todo) + 1), (src.choice(["", "\n", "# x\n\n", "   ", "#version=F99\n", "\n\n#"]), True))
    src.desc.update(version=version, pieces=todo)
    one, many = c09.handlers(version, cmds + ["lang"]), c09.handlers(version, cmds + ["lang"])
    a = state.run(one, text="".join(texts))
    if a.err is not None:
        raise Violation("the whole text is rejected: %s" % a.err)
    warns = []
    with state.scratch() as root:
        rd = Reader(src, many, root)
        for t, ok in todo:
            if ok:
                r = rd.read(t)
                if r.err is not None:
                    raise Violation("a piece is rejected: %s\n%s" % (r.err, t))
                warns += r.warns
            else:
                try:
                    r = rd.read(t)
                except ValueError:      # unbalanced quotes
                    continue
                if r.err is None:
                    raise Violation("accepted: %r" % t)
    if a.warns != warns:
        raise Violation("warnings %r in pieces, %r in one go" % (warns, a.warns))
    state.same(state.whole(one, version, cmds), state.whole(many, version, cmds), "in one go versus in pieces")
    heads = [l for l in lines if l.header and c09.is_script(l, lines)]
    got = [s.lineno for s in many.scripts]
    if got != [at[id(l)] for l in heads]:
        raise Violation("scripts start on lines %r of their pieces, reported as %r" % ([at[id(l)] for l in heads], got))
    if rd.mode == "one parser" and not [1 for _t, ok in todo if not ok]:
        for tag in doc.SCRIPT_TAGS + ["%packages"]:
            s, w = rd.parser.getSection(tag), a.parser.getSection(tag)
            if (s.timesSeen, bool(s.seen)) != (w.timesSeen, bool(w.seen)):
                raise Violation("%s seen %r times, %r in one go" % (tag, s.timesSeen, w.timesSeen))
    full = [t for t, ok in todo if ok and t.strip()]
    return {"nontrivial": len(full) > 1, "key": repr(todo), "sample": todo,
            "labels": [rd.mode] + (["with failures"] if len(todo) > len(texts) else [])}


def lenient(src, version):
    """Bad lines in the pieces: reported with the line of their piece, counted once."""
    rows, goods, badc = c12.build(src, version, bad_sections=False)
    used = set(goods) | set(badc)
    parts, cur = [], []
    for r in rows:
        if cur and r[1] != "in" and src.chance(35):
            parts.append(cur)
            cur = []
        cur.append(r)
    parts.append(cur)
    h1, h2 = real.small_handler(version, sorted(used)), real.small_handler(version, sorted(used))
    text, _good, bads = c12.render(rows)
    src.desc.update(version=version, text=text, pieces=[c12.render(p)[0] for p in parts])
    a = state.run(h1, text=text, errorsAreFatal=False)
    if a.err is not None:
        raise Violation("rejected with non-fatal errors: %s" % a.err)
    warns = []
    with state.scratch() as root:
        rd = Reader(src, h2, root, errorsAreFatal=False)
        for p in parts:
            t, _g, b = c12.render(p)
            r = rd.read(t)
            if r.err is not None:
                raise Violation("a piece is rejected with non-fatal errors: %s" % r.err)
            if r.delta != len(b):
                raise Violation("%d errors counted for a piece with %d bad lines" % (r.delta, len(b)))
            warns += r.warns
    if rd.total != a.count or a.count != len(bads):
        raise Violation("%d errors in pieces, %d in one go, %d bad lines" % (rd.total, a.count, len(bads)))
    if a.warns != warns:
        raise Violation("warnings %r in pieces, %r in one go" % (warns, a.warns))
    cmds = sorted(used)
    state.same(state.whole(h1, version, cmds, written=False), state.whole(h2, version, cmds, written=False),
               "in one go versus in pieces")
    return {"nontrivial": len(parts) > 1 and bool(bads), "key": repr(src.desc["pieces"]), "sample": src.desc["pieces"]}


TESTS = [Test("good", good, M.VERSIONS, n=(120, 3000)),
         Test("lenient", lenient, M.VERSIONS, n=(60, 1500))]
