"""C17: the written kickstart is complete, ordered and headed."""
import copy

from kv import doc, gen, real, state
from kv import model as M
from kv.engine import Discard, Test, Violation

RULE = ("a case is a document; non-trivial when it uses two or more commands or has a section; distinct by (version, "
        "text)")
ASSUMPTIONS = ["what one command alone writes is covered by C01 and C03; here only how the pieces are put together",
               "commands of one kind (same documented write priority) may come in any order among themselves"]
TAGS = set(doc.SCRIPT_TAGS) | {"%packages", "%addon", "%anaconda"}


def group(version, cmd):
    """Commands that are written by one object."""
    if cmd in ("lilo", "bootloader"):
        return "bootloader"
    return M.spec(version, cmd).cls


def prio(version, g, cmds):
    if g == "bootloader":
        return 10
    p = M.G["classes"][M.spec(version, cmds[0]).cls]["prio"]
    return 0 if p is None else p


def read(text):
    """Independent reader: (header comment lines, command lines, sections [(header, body)])"""
    head, cmds, secs, cur = [], [], [], None
    for l in text.splitlines():
        w = l.split()[:1]
        if w and w[0] in TAGS and l.startswith("%"):
            cur = [l, []]
            secs.append(cur)
        elif cur is not None and w == ["%end"]:
            cur = None
        elif cur is not None:
            cur[1].append(l)
        elif l.startswith(("#version=", "#platform=", "# Generated by")):
            head.append(l)
        elif l.strip() and not l.lstrip().startswith("#"):
            if secs:
                raise Violation("a command line after the sections: %r" % l)
            cmds.append(l)
    return head, cmds, secs


def alone(version, cmds, lines):
    """The command lines that a handler with only these commands writes."""
    h = real.small_handler(version, cmds)
    r = state.run(h, text="".join(t + "\n" for t in lines))
    if r.err is not None:
        raise Violation("lines of one command alone are rejected: %s" % r.err)
    return read(str(h))[1]


_base = {}


def base(version, g, cmds):
    k = (version, g)
    if k not in _base:
        _base[k] = alone(version, cmds, [])
    return _base[k]


def arrange(lines, groups):
    """Do the lines consist of the pieces of one priority after the other?  groups: {prio: {g: [lines]}}"""
    i = 0
    for p in sorted(groups):
        left = dict(groups[p])
        while left:
            for g, piece in sorted(left.items(), key=lambda kv: -len(kv[1])):
                if lines[i:i + len(piece)] == piece:
                    i += len(piece)
                    del left[g]
                    break
            else:
                return i, p, left
    return (i, None, {}) if i < len(lines) else None


def build(src, version):
    """-> blocks [(kind, group, lines, section)]"""
    num = M.NUM[version]
    pool = [c for c in doc.pool_of(version)]
    if src.chance(60):
        pool = src.shuffle(pool)[:src.int(2, 8)]
    if src.chance(30):
        pool = [c for c in ["clearpart", "part", "raid", "volgroup", "logvol", "zerombr", "bootloader", "fcoe", "iscsi",
                            "iscsiname", "zfcp", "dmraid", "multipath", "btrfs", "snapshot", "nvdimm", "autopart",
                            "reqpart", "lang", "zipl", "mount"] if c in doc.normal_commands(version)]
    mh, blocks = M.ModelHandler(version), []
    for _ in range(src.int(1, 10)):
        if src.chance(75):
            cmd = src.choice(pool)
            _c, items = gen.line(src, version, cmd, valid=100, density=10, deprecated=0, rt=True)
            t = gen.text(version, cmd, items)
            trial = copy.deepcopy(mh)
            try:
                trial.run(cmd, items, t)
            except M.Reject:
                continue
            mh = trial
            blocks.append(("c", group(version, cmd), (cmd, items, t), None))
        else:
            old = [b[3] for b in blocks if b[3] and b[1] != "packages"]
            s = copy.deepcopy(src.choice(old)) if old and src.chance(20) else doc.section(src, num)
            blocks.append(("s", s["kind"], doc.section_lines(s), s))
    return blocks, pool


def text_of(blocks):
    out = []
    for k, _g, x, _s in blocks:
        out += [x[2]] if k == "c" else x
    return "".join(l + "\n" for l in out)


def names(version, g):
    """All command names of a group."""
    return [c for c in M.commands(version) if c not in doc.SKIP and M.spec(version, c).kind == "normal" and
            group(version, c) == g]


def composition(src, version):
    blocks, pool = build(src, version)
    used = {}
    for k, g, x, _s in blocks:
        if k == "c":
            used.setdefault(g, []).append(x[2])
    # the plain body text must be readable by the simple reader
    full = src.chance(15)
    if full:
        h = real.full_handler(version)
        allg = {group(version, c) for c in doc.normal_commands(version)}
    else:
        cmds = [c for g in used for c in names(version, g)] + ["bootloader"]
        h = real.small_handler(version, cmds)
        allg = {group(version, c) for c in h.commands
                if c not in doc.SKIP and M.spec(version, c).kind == "normal"}
    text = text_of(blocks)
    if src.chance(40):
        plat = doc.platform(src)
        text = "#platform=%s\n" % plat + text
    else:
        plat = None
    src.desc.update(version=version, text=text)
    r = state.run(h, text=text)
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    out = str(h)
    src.desc["written"] = out
    head, lines, secs = read(out)
    want = ["#version=" + ("DEVEL" if version == "F34" else version)]
    if plat:
        want.insert(0, "#platform=" + plat)
    if not head or not head[0].startswith("# Generated by pykickstart") or head[1:] != want:
        raise Violation("the heading is %r, expected %r" % (head, want))
    if out.splitlines()[:len(head)] != head:
        raise Violation("the heading is not at the top")
    groups = {}
    for g in allg:
        nn = names(version, g)
        piece = alone(version, nn, used[g]) if g in used else base(version, g, nn)
        if piece:
            groups.setdefault(prio(version, g, nn), {})[g] = piece
    bad = arrange(lines, groups)
    if bad:
        raise Violation("command lines %r do not consist of %r (stuck at line %d, kind %r)" % (lines, groups, bad[0] + 1,
                                                                                         bad[1]))
    # sections: scripts, then pass-through sections, then packages, each in document order
    order = []
    for k, kind in (("s", "script"), ("s", "null")):
        for b in blocks:
            if b[0] == k and b[1] == kind:
                s = b[3]
                if kind == "script" and not "".join(s["body"]).strip():
                    continue
                order.append((s["tag"], [l for l in s["body"]]))
    got = [(hd.split()[0], body) for hd, body in secs]
    packages = any(b[0] == "s" and b[1] == "packages" for b in blocks)
    if packages != (bool(got) and got[-1][0] == "%packages") or \
       [t for t, _b in got].count("%packages") != int(packages):
        raise Violation("packages sections written: %r" % [t for t, _b in got])
    if packages:
        got = got[:-1]
    norm = lambda ss: [(t, "\n".join(b).rstrip()) for t, b in ss]      # noqa: E731
    if norm(got) != norm(order):
        raise Violation("sections %r, expected %r" % (norm(got), norm(order)))
    if str(h) != out:
        raise Violation("written differently the second time")
    return {"nontrivial": len(used) > 1 or bool(secs), "key": text, "sample": text,
            "labels": ["full handler"] if full else []}


def order_free(src, version):
    """Moving unrelated lines around does not change what is written."""
    blocks, pool = build(src, version)
    if len(blocks) < 2:
        raise Discard
    idx = src.shuffle(list(range(len(blocks))))
    # keep the order inside every group
    slots = {}
    for b in blocks:
        slots.setdefault((b[0], b[1]), []).append(b)
    take = {k: iter(v) for k, v in slots.items()}
    new = [next(take[(blocks[i][0], blocks[i][1])]) for i in idx]
    mh = M.ModelHandler(version)
    for k, _g, x, _s in new:
        if k == "c":
            try:
                mh.run(*x)
            except M.Reject:
                raise Discard
    a, b = text_of(blocks), text_of(new)
    src.desc.update(version=version, one=a, other=b)
    cmds = sorted({x[0] for k, _g, x, _s in blocks if k == "c"}) + ["cdrom"]
    h, g = real.small_handler(version, cmds), real.small_handler(version, cmds)
    r, q = state.run(h, text=a), state.run(g, text=b)
    if r.err or q.err:
        raise Violation("rejected: %s / %s" % (r.err, q.err))
    x, y = str(h), str(g)
    if x != y:
        raise Violation("written as %r and as %r" % (x, y))
    if sorted(r.warns) != sorted(q.warns):
        raise Violation("warnings %r and %r" % (r.warns, q.warns))
    return {"nontrivial": a != b, "key": a + b, "sample": [a, b]}


TESTS = [Test("composition", composition, M.VERSIONS, n=(150, 4000)),
         Test("order_free", order_free, M.VERSIONS, n=(80, 2000))]
