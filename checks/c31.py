"""C31: the generated reference describes exactly the commands and options of a version."""
import os
import re
import subprocess
import sys

from checks import c25
from kv import real
from kv import model as M
from kv.engine import Discard, Test, Violation
from pykickstart import options as O

RULE = ("a case is the reference generated for one version, or the help of an option parser after a history of "
        "declarations; non-trivial when at least one option is described; distinct by version, or by declarations")
ASSUMPTIONS = ["the frozen table kv/grammar.json is the documented grammar of each version",
               "the reference is read by its headings: underlined titles, and one literal heading per option",
               "method, a collective name for other commands, is not compared"]
PREFIX = re.compile(r"^(RHEL|FC|F)(\d+)_")


def long_name(v):
    m = re.match(r"(RHEL|FC|F)(\d+)$", v)
    return ("RedHatEnterpriseLinux" if m.group(1) == "RHEL" else "Fedora") + m.group(2)


def origin(cls):
    """The version that brought an implementation."""
    m = PREFIX.match(cls)
    return m.group(1) + m.group(2)


def has(version, cmd, flag):
    return any(flag in o["flags"] for o in M.spec(version, cmd).opts)


FIRST = {}          # (command, first spelling of an option) -> {family: first version that has it}
for _v in M.VERSIONS:
    for _c in M.commands(_v):
        for _o in M.spec(_v, _c).opts:
            if _o["flags"] and _o["flags"][0].startswith("-"):
                fam = "RHEL" if _v.startswith("RHEL") else "F"
                FIRST.setdefault((_c, _o["flags"][0]), {}).setdefault(fam, long_name(_v))


def expected(target):
    """-> {implementation: (version that uses it, names)}, each command in its latest form up to the target"""
    best = {}
    for v in M.VERSIONS:
        for c in M.commands(v):
            cls = M.spec(v, c).cls
            o = origin(cls)
            if o not in M.NUM or (o.startswith("RHEL") and not target.startswith("RHEL")) or M.NUM[o] > M.NUM[target]:
                continue
            if c not in best or M.NUM[o] > M.NUM[origin(best[c][0])]:
                best[c] = (cls, v)
    out = {}
    for c, (cls, v) in best.items():
        out.setdefault(cls, (v, []))[1].append(c)
    return out


def read(text):
    """-> {title: [(option spellings, notes)]}"""
    lines = text.split("\n")
    out, cur, opt = {}, None, None
    for i, l in enumerate(lines):
        if i + 1 < len(lines) and l and set(lines[i + 1]) == {"-"} and len(lines[i + 1]) == len(l) and \
                (i == 0 or not lines[i - 1]):
            if l in out:
                raise Violation("%s is described twice" % l)
            cur = out[l] = []
            opt = None
        elif cur is not None and re.match(r"``--?[A-Za-z].*``$", l):
            opt = tuple(p.split()[0].split("=")[0] for p in l.strip("`").split(", "))
            cur.append((opt, []))
        elif opt is not None:
            m = re.match(r" +\.\. (version\w+|deprecated):: (\S+)$", l)
            if m:
                cur[-1][1].append((m.group(1), m.group(2)))
    return out


def generate(program, args, cwd):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=real.REPO, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, os.path.join(real.REPO, "docs", program)] + args, capture_output=True, text=True,
                       env=env, cwd=cwd, check=False)
    if r.returncode:
        raise Violation("%s %s failed: %s" % (program, args, r.stderr[-800:]))
    return r.stdout


def reference(src, target):
    spelled = src.choice([target, target.lower()])
    src.desc.update(version=spelled)
    got = read(generate("gen_commands_docs", [spelled], os.path.join(real.REPO, "docs")))
    want = expected(target)
    byname = {}
    for t, opts in got.items():
        for n in t.split(" or "):
            byname.setdefault(n, []).append((t, opts))
    n = 0
    used = set()
    for cls, (v, names) in want.items():
        if "method" in names:
            used.add("method")
            continue
        hits = {t: o for nm in names for t, o in byname.get(nm, [])}
        if not hits:
            raise Violation("%s is not described for %s" % (names[0], target))
        used |= set(hits)
        if M.spec(v, names[0]).kind != "normal":
            continue
        ok = None
        for t, opts in hits.items():
            ok = compare(target, v, names, opts)
            if ok is None:
                break
        if ok is not None:
            raise Violation("%s for %s: %s" % (names[0], target, ok))
        n += len(opts)
    for t in got:
        if t not in used:
            raise Violation("%s is described for %s, which knows nothing of it" % (t, target))
    return {"nontrivial": n > 0, "key": target, "sample": "%d commands, %d options" % (len(got), n)}


def compare(target, v, names, opts):
    """What is wrong with the description of an implementation, or None."""
    sp = M.spec(v, names[0])
    want = {o["flags"][0]: o for o in sp.opts if o["flags"] and o["flags"][0].startswith("-")}
    gone = [(f, notes) for f, notes in opts if notes and notes[-1][0] == "versionremoved"]
    opts = [x for x in opts if x not in gone]
    have = {f[0]: (f, notes) for f, notes in opts}
    if len(have) != len(opts):
        return "an option is described twice"
    if set(want) != set(have):
        return "options %s are missing, %s are not options" % (sorted(set(want) - set(have)), sorted(set(have) - set(want)))
    for f, o in want.items():
        flags, notes = have[f]
        if list(flags) != list(o["flags"]):
            return "spellings of %s are %r, not %r" % (f, flags, o["flags"])
        added = [x for k, x in notes if k == "versionadded"]
        okay = {x for c in names for x in FIRST.get((c, f), {}).values()}
        if len(added) != 1 or added[0] not in okay:
            return "%s was added in %s, described as %s" % (f, sorted(okay), added)
        if bool([1 for k, _x in notes if k == "deprecated"]) != bool(o.get("deprecated")):
            return "%s is %sdeprecated" % (f, "" if o.get("deprecated") else "not ")
        if [1 for k, _x in notes if k == "versionremoved"]:
            return "%s is described as removed" % f
    for fl, notes in gone:
        for f in fl:
            last = [x for x in M.VERSIONS for c in names if c in M.commands(x) and has(x, c, f)]
            if not last:
                return "%s is described as removed, but never was an option" % f
            if f in {y for o in want.values() for y in o["flags"]}:
                return "%s is described as removed, but is an option" % f
    return None


# ------------------------------------------------------------- option histories
def declared(src, mode):
    """The help of a parser lists the options in force, with their history."""
    names = src.shuffle(c25.NAMES)[:src.int(2, 6)]
    first = src.choice(M.VERSIONS)
    op = O.KSOptionParser(prog="thing", description="A thing.", version=M.NUM[first])
    opts, gone, log = [], [], []          # opts, gone: [flags, notes]
    for i in range(src.choice([1, 2, 3, 5, 8])):
        ver = src.choice(M.VERSIONS)
        if src.below(8) < 6 or not opts:
            d = c25.declaration(src, names)
            d["deprecated"] = M.NUM[ver] if src.chance(25) else None
            d["version"] = M.NUM[ver]
            hits = [o for o in opts if set(o[0]) & set(d["flags"])]
            if len(hits) > 1:
                raise Discard           # joins two options: what becomes of their histories is not specified
            log.append(["add", d["flags"], ver, "deprecated" if d["deprecated"] else ""])
            if d["deprecated"] and hits:
                notes = hits[0][1] + [("deprecated", long_name(ver))]
            elif hits:
                notes = hits[0][1] + [("versionchanged", long_name(ver))]
            else:
                notes = [("versionadded", long_name(ver))] + ([("deprecated", long_name(ver))] if d["deprecated"] else [])
            c25.real_add(op, d)
            for o in list(opts):
                o[0] = [f for f in o[0] if f not in d["flags"]]
                if not o[0]:
                    opts.remove(o)
            opts.append([list(d["flags"]), notes])
        else:
            f = src.choice(names)
            log.append(["remove", f, ver])
            op.remove_argument(f, version=M.NUM[ver])
            gone += [[o[0], o[1] + [("versionremoved", long_name(ver))]] for o in opts if f in o[0]]
            opts = [o for o in opts if f not in o[0]]
    src.desc.update(declarations=log)
    text = op.format_help()
    if not re.search(r"\.\. versionadded:: %s$" % long_name(first), text, re.M):
        raise Violation("the version %s of the command is not named:\n%s" % (first, text))
    got = read("\nthing\n-----\n" + text)["thing"]
    want = [(tuple(f), n) for f, n in opts + gone]
    if sorted(got) != sorted(want):
        raise Violation("described: %r, expected: %r\n%s" % (sorted(got), sorted(want), text))
    return {"nontrivial": bool(opts), "key": repr(log), "sample": log}


TESTS = [Test("reference", reference, M.VERSIONS, n=(1, 3)), Test("declared", declared, list(range(8)), n=(1500, 60000))]
