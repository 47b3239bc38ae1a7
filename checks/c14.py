"""C14: version names, numbers and files identify one syntax version consistently."""
import os
import subprocess
import sys

from kv import doc, gen, oracle, real, state, web
from kv import model as M
from kv.engine import Discard, Test, Violation

V, E = real.V, real.E
RULE = ("a case is one spelling, number or file; all cases are non-trivial; distinct by spelling, number or contents")
ASSUMPTIONS = ["the set of versions and their numbers is the frozen one; lines end with LF or CRLF",
               "no module of the program or its directory has the name of a syntax handler (f34, rhel8, ...)"]
LATEST = max((v for v in M.VERSIONS if not v.startswith("RHEL")), key=lambda v: M.NUM[v])


def case(src, s):
    k = src.below(4)
    if k == 0:
        return s
    if k == 1:
        return s.lower()
    if k == 2:
        return s.upper()
    return "".join(c.upper() if src.chance(50) else c.lower() for c in s)


def release(v):
    """-> (family, number)"""
    for p in ("RHEL", "FC", "F"):
        if v.startswith(p):
            return ("RHEL" if p == "RHEL" else "F"), int(v[len(p):])


def spelling(src, v):
    """An accepted spelling of a version."""
    fam, n = release(v)
    if src.chance(35):
        return case(src, v)
    if fam == "F":
        s = "Fedora" + src.choice(["", " Core", " release", " Linux", " Core release"]) + " %d" % n
    else:
        s = "Red Hat Enterprise Linux" + src.choice(["", " AS", " ES", " WS", " Desktop", " Server release"]) + \
            " %d" % n + src.choice(["", "", ".%d" % src.int(0, 12), ".%d.%d" % (src.int(0, 9), src.int(0, 9))])
    return case(src, s)


def unknown(src):
    """A spelling of no version."""
    fed = {release(v)[1] for v in M.VERSIONS if release(v)[0] == "F"}
    k = src.below(9)
    if k == 8:
        return spelling(src, src.choice(M.VERSIONS)) + src.choice([" Server", " (Core)", " x", ".x", " 99x", "-beta", ":", " foo bar", " ", "\t", "  "])
    if k == 0:
        n = src.int(0, 99)
        return case(src, "Fedora %d" % n) if n not in fed else "Fedora %d0%d" % (n, n)
    if k == 1:
        n = src.int(7, 60)
        return case(src, "FC%d" % n)
    if k == 2:
        return case(src, "F%d" % src.choice([0, 1, 2, 3, 4, 5, 6, 35, 36, 99, 100, 3000, 340]))
    if k == 3:
        return case(src, "RHEL%s" % src.choice([0, 1, 2, 9, 10, 33, "", "8.1", "-7", " 8"]))
    if k == 4:
        return case(src, "red hat enterprise linux %s" % src.choice([0, 1, 2, 9, 10, 77, "", "x", "beta", "-7"]))
    if k == 5:
        v = src.choice(M.VERSIONS)
        return src.choice([" %s", "%s ", "x%s", "%sx", "%s.1", "%s 1", "#%s", "%s\t", "'%s'", "version=%s", "%s #", "%s # x", "%s#x", "%s,", "%s;"]) % v
    if k == 6:
        return src.choice(["", " ", "fedora", "RHEL", "F", "DEVELX", "rawhide", "latest", "F-34", "Fedora34", "Fedora-34",
                           "redhat 7", "CentOS 7", "None", "0", "-1", "34", "3.4", "Fedora\u0663", "F\uff13\uff14"])
    return src.text("abcFCRHEL 0123456789.", 1, 8) + "?"


def accepted(src, v):
    s = spelling(src, v)
    src.desc.update(version=v, spelling=s)
    n = V.stringToVersion(s)
    if n != M.NUM[v]:
        raise Violation("%r means %r, expected %r" % (s, n, M.NUM[v]))
    for arg in (s, n):
        cls = V.returnClassForVersion(arg)
        h = V.makeVersion(arg)
        if cls.version != n or h.version != n or type(h) is not cls:
            raise Violation("the handler for %r speaks %r" % (arg, h.version))
    p = real.KickstartParser(h)
    if p.version != n:
        raise Violation("the parser speaks %r" % p.version)
    if set(h.commands) != set(M.commands(v)):
        raise Violation("the handler for %r has other commands" % s)
    cmd = src.choice([c for c in doc.pool_of(v) if c != "lilo"])
    _c, items = gen.line(src, v, cmd, valid=95, density=12)
    oracle.check_line(src, v, cmd, items, M.ModelHandler(v), h)
    return {"key": (v, s), "sample": s}


def refused(src, _s):
    s = unknown(src)
    if s.upper() in M.NUM or s.upper() == "DEVEL":
        raise Discard
    src.desc["spelling"] = s
    fns = [V.stringToVersion]
    try:
        int(s)
    except ValueError:
        fns += [V.returnClassForVersion, V.makeVersion]
    for fn in fns:
        try:
            r = fn(s)
        except E.KickstartVersionError:
            continue
        raise Violation("%s(%r) gives %r" % (fn.__name__, s, r))
    return {"key": s, "sample": s}


def numbers(src, _s):
    """Numbers map back to names of the same version, and only the known ones."""
    known_n = {n: v for v, n in M.NUM.items()}
    if src.chance(50):
        n = src.choice(sorted(known_n))
    else:
        n = src.choice([src.int(-5, 40000), src.int(0, 400) * 100, src.choice(sorted(known_n)) + src.choice([-100, -1, 1,
                                                                                                          100])])
    src.desc["number"] = n
    if n in known_n:
        v = known_n[n]
        short, full = V.versionToString(n), V.versionToString(n, skipDevel=True)
        if full != v or short != ("DEVEL" if v == LATEST else v):
            raise Violation("%d is called %r and %r, expected %r" % (n, short, full, v))
        for s in (short, full, case(src, short)):
            if V.stringToVersion(s) != n:
                raise Violation("%r means %r, expected %d" % (s, V.stringToVersion(s), n))
        if getattr(V, v) != n or V.DEVEL != M.NUM[LATEST] or V.versionMap[v] != n:
            raise Violation("the constants disagree about %s" % v)
        fam, k = release(v)
        want = ("RedHatEnterpriseLinux%d" if fam == "RHEL" else "Fedora%d") % k
        if V.versionToLongString(n) != want:
            raise Violation("the long name of %s is %r" % (v, V.versionToLongString(n)))
        if V.makeVersion(n).version != n:
            raise Violation("makeVersion(%d)" % n)
        # the version a written kickstart declares
        h = V.makeVersion(n)
        for plat in ("", "x86_64"):
            h.platform = plat
            said = [l for l in str(h).splitlines() if l.startswith("#version=")]
            if len(said) != (1 if plat else 0) and said[1:] or any(V.stringToVersion(l[9:]) != n for l in said):
                raise Violation("a written %s kickstart says %r" % (v, said))
        others = [m for m in known_n if (m < n) != (known_n[m] in before(v)) and m != n]
        if others:
            raise Violation("the order of versions is wrong around %s" % v)
    else:
        for fn in (V.versionToString, V.versionToLongString, V.returnClassForVersion, V.makeVersion):
            try:
                r = fn(n)
            except E.KickstartVersionError:
                continue
            raise Violation("%s(%d) gives %r" % (fn.__name__, n, r))
    return {"key": n, "sample": n}


def before(v):
    return set(M.VERSIONS[:M.VERSIONS.index(v)])


def default(src, _s):
    n = M.NUM[LATEST]
    if V.makeVersion().version != n or V.returnClassForVersion().version != n or V.DEVEL != n or \
       V.stringToVersion(case(src, "devel")) != n:
        raise Violation("the default version is not %s" % LATEST)
    if set(V.versionMap) != set(M.VERSIONS) | {"DEVEL"}:
        raise Violation("the set of versions differs: %s" % sorted(set(V.versionMap) ^ (set(M.VERSIONS) | {"DEVEL"})))
    return {"key": "default", "sample": n}


LINES = ["", "   ", "# a comment", "lang en_US", "# version=F8", " #version=F9", "#Version=F9", "#platform=x86", "%pre",
         "echo", "%end", "#versions=F9", "version=F9", "##version=F9", "nosuchcommand x", "#version F9", "echo 'open"]


def from_file(src, _s):
    """The first version comment decides; without one it is the latest version."""
    out = [src.choice(LINES) for _ in range(src.int(0, 6))]
    k = src.below(100)
    if k < 65:
        v = src.choice(M.VERSIONS)
        name, want = spelling(src, v), M.NUM[v]
    elif k < 75:
        name, want = case(src, "DEVEL"), M.NUM[LATEST]
    elif k < 88:
        name, want = None, M.NUM[LATEST]
    else:
        raw = unknown(src)
        name, want = raw.strip("\t "), "error"
        if raw != name and " " in name:         # blanks at the end are not part of the name here
            raise Discard
        if name.upper() in M.NUM or name.upper() == "DEVEL":
            raise Discard
    if name is not None:
        out.append("#version=" + name + src.choice(["", "", "", "  ", "\t"]))
        for _ in range(src.int(0, 3)):
            out.append(src.choice(LINES + ["#version=" + src.choice(M.VERSIONS), "#version=nosuch"]))
    nl = "\r\n" if src.chance(15) else "\n"
    text = nl.join(out) + ("" if src.chance(15) else nl)
    src.desc.update(text=text)
    with state.scratch() as root:
        if src.chance(10):
            loc = web.server() + "/ks.cfg"
            web.route("/ks.cfg", body=text.encode("utf-8"), ctype="text/plain; charset=utf-8")
        else:
            loc = root + "/ks.cfg"
            state.put(loc, text)
        try:
            got = V.versionFromFile(loc)
        except E.KickstartVersionError:
            got = "error"
        if got != want:
            raise Violation("the file's version is %r, expected %r" % (got, want))
        if src.chance(5):
            try:
                V.versionFromFile(root + "/missing")
            except E.KickstartError:
                pass
            else:
                raise Violation("the version of a missing file")
    return {"key": text, "sample": text}


def fresh_process(src, version):
    """The handlers of a version do not depend on which were loaded before, or on the current directory."""
    others = src.shuffle(M.VERSIONS)[:src.int(0, 3)]
    prog = ("import sys, json\nsys.path.insert(0, %r)\nsys.dont_write_bytecode = True\n"
            "import pykickstart.version as V\n"
            "for o in %r: V.makeVersion(o)\n"
            "h = V.makeVersion(%r)\nprint(json.dumps([h.version, sorted(h.commands), type(h).__name__.lower()]))\n" % (
                real.REPO, others, version))
    src.desc.update(version=version, before=others)
    with state.scratch() as root:
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        r = subprocess.run([sys.executable, "-c", prog], cwd=root if src.chance(50) else "/", env=env, text=True,
                           capture_output=True, check=False)
    if r.returncode:
        raise Violation("failed: %s" % r.stderr[-500:])
    import json
    n, cmds, name = json.loads(r.stdout)
    if n != M.NUM[version] or set(cmds) != set(M.commands(version)):
        raise Violation("%s after %s speaks %r" % (version, others, n))
    return {"key": (version, tuple(others)), "sample": [version, others]}


TESTS = [Test("accepted", accepted, M.VERSIONS, n=(40, 1000)), Test("refused", refused, n=(1500, 20000)),
         Test("numbers", numbers, n=(1200, 20000)), Test("default", default, n=(4, 20)),
         Test("from_file", from_file, n=(2500, 40000)),
         Test("fresh_process", fresh_process, M.VERSIONS, n=(1, 10))]
