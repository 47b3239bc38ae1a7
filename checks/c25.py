"""C25: the option parser accepts, converts, rejects and warns as its declarations say."""
from kv import real
from kv.engine import Discard, Test, Violation

from pykickstart import options as O
from pykickstart.errors import KickstartParseError

RULE = ("a case is a history of declarations and one or more lines for the resulting parser; non-trivial when a line "
        "carries an option; distinct by (declarations, lines)")
ASSUMPTIONS = ["the parser is Python's argparse underneath: unique prefixes of an option name are accepted, an option with "
               "an optional value takes the following word, words that are not options are operands",
               "operands are written next to each other"]
VERS = [real.V.FC3, real.V.F8, real.V.F18, real.V.F29, real.V.F34]
NAMES = ["--alpha", "--alphabet", "--beta", "--be", "--gamma-ray", "--gamma", "--delta", "--x", "--noalpha"]
WORDS = ["a", "foo", "a,b", " b , ,c ", ",", "", "1", "-5", "yes", "off", "TRUE", "/", "/a//b/", "none", "/x/../y", "a b",
         "08", "2.5", "=", "a=b", "/a/./"]
NONE = "<none>"


class Bad(Exception):
    pass


# ------------------------------------------------------------- types
def m_comma(v):
    out, cur = [], ""
    for ch in v + ",":
        if ch == ",":
            cur = cur.strip()
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += ch
    return out


def m_bool(v):
    if v.lower() in ("1", "on", "yes", "true"):
        return True
    if v.lower() in ("0", "off", "no", "false"):
        return False
    raise Bad("boolean")


def m_mount(v):
    if not v.startswith("/"):
        return v
    parts = []
    for p in v.split("/"):
        if p in ("", "."):
            continue
        if p == "..":
            parts[-1:] = []
        else:
            parts.append(p)
    # POSIX: exactly two leading slashes are kept
    lead = "//" if v.startswith("//") and not v.startswith("///") else "/"
    return lead + "/".join(parts)


def m_int(v):
    try:
        return int(v)
    except ValueError:
        raise Bad("int")


def m_float(v):
    try:
        return float(v)
    except ValueError:
        raise Bad("float")


TYPES = {"str": (None, str), "int": (int, m_int), "float": (float, m_float), "comma": (O.commaSplit, m_comma),
         "bool": (O.ksboolean, m_bool), "mount": (O.mountpoint, m_mount)}


# ------------------------------------------------------------- declarations
def declaration(src, pool):
    d = {"flags": src.shuffle(pool)[:src.choice([1, 1, 1, 2])], "action": src.choice(
        ["store", "store", "store", "true", "false", "const", "append", "extend", "extend const", "maybe"])}
    d["type"] = {"extend": "comma", "true": "str", "false": "str", "const": "str", "extend const": "str"}.get(
        d["action"]) or src.choice(["str", "str", "int", "float", "comma", "bool", "mount"])
    d["required"] = src.chance(12) and d["action"] in ("store", "append", "extend")
    d["deprecated"] = src.choice(VERS) if src.chance(20) else None
    d["dest"] = src.choice([None, None, None, "list" if d["action"] in ("append", "extend", "extend const") else "shared"])
    d["default"] = None
    a = d["action"]
    if a in ("store", "maybe") and src.chance(40):
        d["default"] = src.choice([7, False, None, 0])
    elif a in ("append", "extend", "extend const") and src.chance(40):
        d["default"] = src.choice([[], ["dflt"]])
    elif a == "true":
        d["default"] = False
    elif a == "false":
        d["default"] = True
    d["const"] = {"const": "the const", "extend const": ["c1", "c2"], "maybe": src.choice([None, 5, False])}.get(a)
    d["choices"] = None
    if a in ("store", "append") and src.chance(25):
        d["choices"] = {"str": ["a", "foo", "yes", "none"], "int": [1, 2, 8], "bool": [True],
                        "mount": ["/", "none", "/y"]}.get(d["type"])
    d["version"] = src.choice(VERS)
    return d


def real_add(op, d):
    kw = {"help": "some help"}
    a = d["action"]
    kw["action"] = {"true": "store_true", "false": "store_false", "const": "store_const", "append": "append",
                    "extend": O.ExtendAction, "extend const": O.ExtendConstAction}.get(a, "store")
    if a in ("store", "append", "extend", "maybe"):
        if TYPES[d["type"]][0] is not None:
            kw["type"] = TYPES[d["type"]][0]
    if a == "maybe":
        kw["nargs"] = "?"
    if a == "extend const":
        kw["nargs"] = 0
    if d["const"] is not None:
        kw["const"] = d["const"]
    if d["choices"]:
        kw["choices"] = d["choices"]
    if d["required"]:
        kw["required"] = True
    if d["dest"]:
        kw["dest"] = d["dest"]
    if a not in ("true", "false"):
        kw["default"] = list(d["default"]) if isinstance(d["default"], list) else d["default"]
    kw["deprecated" if d["deprecated"] else "version"] = d["deprecated"] or d["version"]
    op.add_argument(*d["flags"], **kw)


class Parser:
    """The declarations in force."""
    def __init__(self, pos):
        self.opts, self.pos = [], pos

    def add(self, d):
        d = dict(d, flags=list(d["flags"]))
        d["dest"] = d["dest"] or d["flags"][0][2:].replace("-", "_")
        for o in list(self.opts):
            o["flags"] = [f for f in o["flags"] if f not in d["flags"]]
            if not o["flags"]:
                self.opts.remove(o)
        self.opts.append(d)

    def remove(self, flag):
        self.opts = [o for o in self.opts if flag not in o["flags"]]

    def find(self, name):
        """The option meant by a (possibly shortened) name, or None."""
        for o in self.opts:
            if name in o["flags"]:
                return o
        hits = [o for o in self.opts for f in o["flags"] if f.startswith(name)]
        if len(hits) > 1:
            raise Bad("ambiguous")
        return hits[0] if hits else None

    def parse(self, items, known):
        """items: ("o", name, value or None, separate) / ("p", word) -> (settings, leftover, warned options)"""
        ns, warned, left, words, seen = {}, [], [], [], set()
        if self.pos:
            ns[self.pos["dest"]] = None
        for o in self.opts:
            ns.setdefault(o["dest"], list(o["default"]) if isinstance(o["default"], list) else o["default"])
        for it in items:
            if it[0] == "p":
                words.append(it[1])
                continue
            _k, name, value, separate = it
            o = self.find(name)
            if o is None:
                left.append(name if value is None or separate else name + "=" + value)
                if separate and value is not None:
                    words.append(value)
                continue
            if o["deprecated"]:
                warned.append(o["flags"][0])
            seen.add(id(o))
            a = o["action"]
            if a in ("true", "false", "const", "extend const"):
                if value is not None:
                    raise Bad("takes no value")
                if a == "extend const":
                    ns[o["dest"]] = o["const"] if ns[o["dest"]] is None else self.plus(ns[o["dest"]], o["const"])
                else:
                    ns[o["dest"]] = {"true": True, "false": False, "const": o["const"]}[a]
                continue
            if value is None:
                if a != "maybe":
                    raise Bad("needs a value")
                ns[o["dest"]] = o["const"]
                continue
            v = TYPES[o["type"]][1](value)
            if o["choices"] and v not in o["choices"]:
                raise Bad("choice")
            if a in ("store", "maybe"):
                ns[o["dest"]] = v
            elif a == "append":
                ns[o["dest"]] = [v] if ns[o["dest"]] is None else self.plus(ns[o["dest"]], [v])
            else:
                ns[o["dest"]] = v if ns[o["dest"]] is None else self.plus(ns[o["dest"]], v)
        p = self.pos
        if p:
            conv = TYPES[p["type"]][1]
            n = p["nargs"]
            if n in (None, "+") and not words:
                raise Bad("operand missing")
            if n is None or n == "?":
                if words:
                    ns[p["dest"]] = conv(words[0])
                    words = words[1:]
            else:
                ns[p["dest"]] = [conv(w) for w in words]
                words = []
        if any(o["required"] and id(o) not in seen for o in self.opts):
            raise Bad("required")
        if not known and (left or words):
            raise Bad("unknown")
        return ns, left + words, warned

    @staticmethod
    def plus(a, b):
        if not isinstance(a, list):
            raise Discard               # options of different kinds sharing a setting
        return a + b


# ------------------------------------------------------------- lines
def a_line(src, m, names, pos):
    items = []
    good = src.chance(60)
    for _ in range(src.choice([0, 1, 1, 2, 3, 4])):
        if good and m.opts:
            o = src.choice(m.opts)
            name = src.choice(o["flags"])
        else:
            name = src.choice(names)
            o = None
            for x in m.opts:
                if name in x["flags"]:
                    o = x
        if src.chance(10):
            name = name[:src.int(3, len(name))]
        flag = o is not None and o["action"] in ("true", "false", "const", "extend const")
        value = None
        if not flag if src.chance(95) else flag:
            value = src.choice(WORDS)
            if o and (good or src.chance(60)):
                value = {"int": ["1", "8", "-5", "2"], "float": ["1", "2.5"], "bool": ["yes", "TRUE", "1", "on"],
                         "mount": ["/", "none", "/x/../y", "/a//b/", "/a/./"],
                         "comma": ["a,b", "a", " b , ,c ", ""]}.get(o["type"], ["a", "foo", "yes", "none", ""])[
                             src.below(4) if o["type"] == "mount" else src.below(2)]
            if o and o["action"] == "maybe" and src.chance(40):
                value = None
        elif not flag and src.chance(50):
            value = None
        separate = value is not None and src.chance(40)
        items.append(("o", name, value, separate))
    nwords = src.choice([0, 1, 1, 2]) if pos else (1 if src.chance(5) else 0)
    ws = [("p", src.choice(["a", "w", "1", "/x/", "yes", "-5", "2,3"])) for _ in range(nwords)]
    at = src.below(len(items) + 1) if items and src.chance(50) else len(items)
    items[at:at] = ws
    return items


def tokens(items):
    out = []
    for it in items:
        if it[0] == "p":
            out.append(it[1])
        elif it[2] is None:
            out.append(it[1])
        elif it[3]:
            out += [it[1], it[2]]
        else:
            out.append(it[1] + "=" + it[2])
    return out


def unclear(m, items):
    """Lines whose reading depends on how words and options follow each other."""
    for i, it in enumerate(items):
        if it[0] != "o":
            continue
        try:
            o = m.find(it[1])
        except Bad:
            continue
        nxt = items[i + 1] if i + 1 < len(items) else None
        if o is not None and it[2] is None and o["action"] not in ("true", "false", "const", "extend const"):
            if nxt is not None and nxt[0] == "p":
                return True             # the word becomes the value
        if it[2] is not None and it[3]:
            if o is None or o["action"] in ("true", "false", "const", "extend const"):
                return True             # the value becomes an operand
        if o is None and it[2] is not None and " " in it[2]:
            return True                 # unknown option with a blank in it: an operand
    return False


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and isinstance(a, bool) == isinstance(b, bool) and (a is None) == (b is None)


def history(src, mode):
    """Declarations as a chain of versions makes them: added, redefined, deprecated, removed."""
    names = src.shuffle(NAMES)[:src.int(2, 6)]
    pos = None
    if src.chance(50):
        pos = {"nargs": src.choice([None, "?", "*", "+"]), "type": src.choice(["str", "str", "int", "mount", "bool"]),
               "dest": "operand"}
    op = O.KSOptionParser(prog="thing", description="A thing.", version=src.choice(VERS))
    m = Parser(pos)
    if pos:
        kw = {"help": "h", "version": VERS[0]}
        if pos["nargs"]:
            kw["nargs"] = pos["nargs"]
        if TYPES[pos["type"]][0] is not None:
            kw["type"] = TYPES[pos["type"]][0]
        op.add_argument("operand", **kw)
    log = []
    for _ in range(src.choice([1, 2, 3, 5, 8])):
        k = src.below(8)
        if k < 6 or not m.opts:
            d = declaration(src, names)
            real_add(op, d)
            m.add(d)
            log.append({k: v for k, v in d.items() if v})
        else:
            f = src.choice(names)
            op.remove_argument(f, version=src.choice(VERS))
            m.remove(f)
            log.append("remove " + f)
    src.desc.update(declarations=log, operand=pos)
    lines, nontrivial = [], False
    for _ in range(src.choice([1, 1, 2, 3])):
        items = a_line(src, m, names + ["--nosuch"], pos)
        if unclear(m, items):
            continue
        args = tokens(items)
        known = src.chance(30)
        lineno = src.choice([1, 17, 4711])
        lines.append((args, known))
        src.desc.update(lines=lines)
        nontrivial = nontrivial or any(it[0] == "o" for it in items)
        try:
            want = m.parse(items, known)
        except Bad as e:
            want = e
        given = list(args)
        with real.catch() as rec:
            try:
                got = op.parse_known_args(args=given, lineno=lineno) if known else \
                    (op.parse_args(args=given, lineno=lineno), [])
            except KickstartParseError as e:
                got = e
        if given != args:
            raise Violation("the argument list was changed")
        if isinstance(want, Bad):
            if not isinstance(got, KickstartParseError):
                raise Violation("%r is accepted as %r; it should be rejected (%s)" % (args, got[0], want))
            if got.lineno != lineno:
                raise Violation("the rejection carries line %r instead of %d" % (got.lineno, lineno))
            continue
        if isinstance(got, KickstartParseError):
            raise Violation("%r is rejected: %s" % (args, got))
        ns, left, warned = want
        have = vars(got[0])
        for k in sorted(set(ns) | set(have)):
            if k == "operand" and ns.get(k) is None and have.get(k) in (None, []):
                continue
            if k not in have or k not in ns or not same(have[k], ns[k]):
                raise Violation("%r sets %s to %r, expected %r" % (args, k, have.get(k, NONE), ns.get(k, NONE)))
        if known and sorted(got[1]) != sorted(left):
            raise Violation("%r leaves %r, expected %r" % (args, got[1], left))
        msgs = [str(w.message) for w in rec]
        if real.warn_kinds(rec) != ["dep"] * len(warned):
            raise Violation("%r warns %r, expected deprecations of %r" % (args, msgs, warned))
        for w in warned:
            if not any("line %d:" % lineno in x and "The %s option" % w in x for x in msgs):
                raise Violation("%r warns %r, expected one of %s on line %d" % (args, msgs, w, lineno))
    if not lines:
        raise Discard
    return {"nontrivial": nontrivial, "key": (repr(log), repr(pos), repr(lines)), "sample": {"decl": log, "lines": lines}}


ALPHA = "ab ,\t/.=x1-é"


def types(src, mode):
    """The conversion functions on their own."""
    from argparse import ArgumentTypeError
    if mode == "comma":
        s = src.text(ALPHA + ",,, ", 0, 12)
        src.desc.update(value=s)
        got = O.commaSplit(s)
        if got != m_comma(s):
            raise Violation("commaSplit(%r) is %r" % (s, got))
        if O.commaSplit(",".join(got)) != got or O.commaSplit(" , ".join(got)) != got:
            raise Violation("splitting %r does not read back" % got)
    elif mode == "bool":
        s = src.choice([src.choice(["on", "off", "yes", "no", "true", "false", "0", "1"]), src.text("onyest10f ", 0, 5)])
        s = "".join(c.upper() if src.chance(40) else c for c in s)
        src.desc.update(value=s)
        try:
            want = m_bool(s)
        except Bad:
            want = NONE
        try:
            got = O.ksboolean(s)
        except ArgumentTypeError:
            got = NONE
        if not same(want, got):
            raise Violation("ksboolean(%r) is %r, expected %r" % (s, got, want))
    else:
        s = src.choice(["", "/"]) + src.text("ab/./", 0, 10)
        src.desc.update(value=s)
        got = O.mountpoint(s)
        if got != m_mount(s):
            raise Violation("mountpoint(%r) is %r, expected %r" % (s, got, m_mount(s)))
        if O.mountpoint(got) != got:
            raise Violation("mountpoint is not stable on %r" % got)
    return {"key": (mode, s), "sample": [mode, s]}


TESTS = [Test("history", history, list(range(8)), n=(30000, 600000)),
         Test("types", types, ["comma", "bool", "mount"], n=(6000, 200000))]
