"""Whole kickstart documents: generators plus the expected contents (commands, scripts, packages,
pass-through sections), all independent of the code under test."""
import copy

from . import focus, gen
from . import model as M

F7, F8, F9, F18, F21, F22, F24, F32, F34 = (M.NUM[v] for v in ("F7", "F8", "F9", "F18", "F21", "F22", "F24", "F32",
                                                               "F34"))
RHEL6, RHEL7 = M.NUM["RHEL6"], M.NUM["RHEL7"]

# commands never generated: "method" is not a command users write
SKIP = {"method"}


def normal_commands(version, kinds=("normal",)):
    return [c for c in M.commands(version) if c not in SKIP and M.spec(version, c).kind in kinds]


def pool_of(version, kinds=("normal",)):
    """The commands lines are made from: all, or in a directed case those with new code (see focus.py)."""
    out = normal_commands(version, kinds)
    return focus.pool(version, out) if focus.PAIRS else out


# every implementation of a command, with the (version, name) pairs it serves
CLASSES = {}
for _v in M.VERSIONS:
    for _c in normal_commands(_v):
        CLASSES.setdefault(M.spec(_v, _c).cls, []).append((_v, _c))


def at(src, cls):
    return src.choice(CLASSES[cls])


def nopts(cls):
    return len(M.spec(*CLASSES[cls][0]).live_opts())


def richness(cls):
    """Weight of a class: the number of pairs of its options."""
    n = nopts(cls)
    return 0.3 + n * n / 60.0


def command_lines(src, version, lo, hi, pool=None, valid=100, rt=False, density=25, deprecated=0, mh=None):
    """Lines the model accepts one after the other.  -> ([(cmd, items, text)], ModelHandler)"""
    pool = pool or pool_of(version)
    mh = mh or M.ModelHandler(version)
    out = []
    for _ in range(src.int(lo, hi)):
        cmd = src.choice(pool)
        _c, items = gen.line(src, version, cmd, valid=valid, density=density, rt=rt, deprecated=deprecated)
        t = gen.text(version, cmd, items)
        trial = copy.deepcopy(mh)
        try:
            trial.run(cmd, items, t, lineno=0)
        except M.Reject:
            continue
        mh = trial
        out.append((cmd, items, t))
    return out, mh


def platform(src):
    """What a #platform comment may say: any text on the line."""
    if src.chance(60):
        return src.choice(["x86", "AMD64 or Intel EM64T", "s390x", "x86_64", "ppc64", "ppc64, s390x"])
    if focus.words() and src.chance(40):
        return src.choice(focus.words())
    return src.text("abXY019 _-./#='%,é\\\"", 1, 12).strip() or "64"


# ---------------------------------------------------------------- scripts
SCRIPT_TAGS = ["%pre", "%post", "%traceback", "%pre-install", "%onerror"]
TYPE_CONST = {"%pre": "KS_SCRIPT_PRE", "%post": "KS_SCRIPT_POST", "%traceback": "KS_SCRIPT_TRACEBACK",
              "%pre-install": "KS_SCRIPT_PREINSTALL", "%onerror": "KS_SCRIPT_ONERROR"}
INTERPS = ["/usr/bin/python", "/bin/bash", "/usr/libexec/platform-python", "/bin/sh", "/usr/bin/perl", "/usr/bin/sh", "sh", "/bin/sh5", "/BIN/SH"]

BODY = ["echo hello", "ls /tmp", "\tindented", "  two spaces  ", "", "   ", "# a comment", "#!/bin/sh", "  # x",
        "echo it's", "echo \"unbalanced", "a=`b`", "%notasection foo", "%ksappend /x", "%%end", "%endx",
        "echo %end", "%preinstall", "lang en_US", "part / --size=1", "@group", "-pkg", "cat <<EOF", "EOF", "x \\",
        "naïve Łódź", "trailing\\", "%", "% end", "$(foo) && bar || baz", "if [ 1 ]; then", "fi",
        "#version=F8", "a\ttab", "%includex", "%packagesx"]


def script_body(src, lo=0, hi=6, lines=None):
    new = focus.lines()
    return [src.choice(new) if new and src.chance(20) else src.choice(lines or BODY) for _ in range(src.int(lo, hi))]


def script(src, tag=None, body=None, quotes=False):
    """A script section: dict with tag, header options and body lines."""
    tag = tag or src.choice(SCRIPT_TAGS)
    opts = []
    want = {"interp": "/bin/sh", "log": None, "erroronfail": False, "nochroot": False}
    if src.chance(40):
        want["interp"] = src.choice(INTERPS + (["/usr/bin/env python", "/bin/sh -x"] if quotes else []))
        opts.append(("--interpreter", want["interp"]))
        if focus.words() and src.chance(25):
            want["interp"] = src.choice(["", "/bin/"]) + src.choice(focus.words())
            opts[-1] = ("--interpreter", want["interp"])
    if src.chance(30):
        want["log"] = src.choice(["/tmp/log", "/root/x.log", "/tmp/log", "/root/x.log", ""] + (["/tmp/a log", "/tmp/#1"] if quotes else []))
        if focus.words() and src.chance(25):
            want["log"] = src.choice(["", "/tmp/"]) + src.choice(focus.words())
        opts.append((src.choice(["--log", "--logfile"]), want["log"]))
    if src.chance(30):
        want["erroronfail"] = True
        opts.append(("--erroronfail", None))
    if tag == "%post" and src.chance(40):
        want["nochroot"] = True
        opts.append(("--nochroot", None))
    opts = src.shuffle(opts)
    hdr = tag
    for f, v in opts:
        if v is None:
            hdr += " " + f
        elif src.chance(25):
            hdr += " %s %s" % (f, M.quote(v))
        else:
            hdr += " %s=%s" % (f, M.quote(v))
    if body is None:
        body = script_body(src)
    return {"kind": "script", "tag": tag, "header": hdr, "body": body, "want": want}


def script_expect(s, lineno=None):
    """What the library must hold for the script, or None if it is empty (dropped)."""
    text = "".join(l + "\n" for l in s["body"])
    if not text.strip():
        return None
    w = s["want"]
    return {"type": M.const(TYPE_CONST[s["tag"]]), "interp": w["interp"], "logfile": w["log"],
            "errorOnFail": w["erroronfail"], "inChroot": s["tag"] == "%post" and not w["nochroot"],
            "script": text, "lineno": lineno}


def script_actual(o):
    return {k: getattr(o, k, "<missing>") for k in ("type", "interp", "logfile", "errorOnFail", "inChroot", "script",
                                                    "lineno")}


# ---------------------------------------------------------------- packages
def pkg_flags(num):
    """header option -> attribute, for a syntax version number"""
    f = {"--excludedocs": "excludeDocs", "--ignoremissing": "ignoremissing"}
    if num >= F7:
        f["--default"] = "default"
    if num < F9:
        f["--ignoredeps"] = f["--resolvedeps"] = None
    if num >= F9:
        f["--instLangs"] = f["--inst-langs"] = "instLangs"
    if RHEL6 <= num < F22:
        f["--nobase"] = "nobase"
    if num >= F18:
        f["--multilib"] = "multiLib"
    if num >= F21:
        f["--nocore"] = "nocore"
    if num >= RHEL7:
        f["--timeout"], f["--retries"] = "timeout", "retries"
    if num >= F24:
        f["--excludeWeakdeps"] = f["--exclude-weakdeps"] = "excludeWeakdeps"
    if num >= F32:
        f["--ignorebroken"] = "ignorebroken"
    return f


ALL_PKG_FLAGS = ["--excludedocs", "--ignoremissing", "--default", "--ignoredeps", "--resolvedeps", "--instLangs",
                 "--inst-langs", "--nobase", "--multilib", "--nocore", "--timeout", "--retries", "--excludeWeakdeps",
                 "--exclude-weakdeps", "--ignorebroken"]
PKG_VALUED = {"--instLangs", "--inst-langs", "--timeout", "--retries"}


class PkgModel:
    """Expected state of the package selection."""
    def __init__(self, num):
        self.num = num
        self.a = {"excludeDocs": False, "ignoremissing": False, "default": False, "instLangs": None, "nobase": False,
                  "multiLib": False, "nocore": False, "timeout": None, "retries": None, "excludeWeakdeps": False,
                  "ignorebroken": False}
        self.env = None
        self.groups = {}            # name -> level
        self.xgroups = []           # excluded group names, with repeats
        self.pkgs, self.xpkgs = set(), set()
        self.seen = False

    def header(self, opts):
        """opts: [(flag, value)].  Raises Reject if not allowed in this version.  -> warning kinds"""
        fl = pkg_flags(self.num)
        given, warns = {}, []
        for f, v in opts:
            if f not in fl:
                raise M.Reject("packages option " + f)
            if f in ("--ignoredeps", "--resolvedeps") or (f == "--nobase" and self.num >= F18):
                warns.append("dep")
            if fl[f] is None:
                continue
            if f in ("--timeout", "--retries"):
                v = M.to_int(v)
            given[fl[f]] = v if f in PKG_VALUED else True
        if given.get("default") and (given.get("nobase") or given.get("nocore")):
            raise M.Reject("--default with --nobase/--nocore")
        self.seen = True
        for k in self.a:
            if k in ("default", "instLangs"):
                if k in given:
                    self.a[k] = given[k]
            else:
                self.a[k] = given.get(k, None if k in ("timeout", "retries") else False)
        if self.a["nobase"] or self.a["nocore"]:
            self.a["default"] = False
        if self.num >= F32:
            warns += ["dep"] * len({f for f, _v in opts if f in ("--instLangs", "--excludeWeakdeps")})
        return warns

    def line(self, text):
        t = text.partition("#")[0].strip()
        if not t:
            return
        if t.startswith("@^"):
            self.env = t[2:]
            self.xgroups = [g for g in self.xgroups if g != t[1:]]
        elif t.startswith("@"):
            toks = t[1:].split()
            nd, op = "--nodefaults" in toks, "--optional" in toks
            if nd and op:
                raise M.Reject("group levels")
            name = " ".join(x for x in toks if x not in ("--nodefaults", "--optional"))
            self.xgroups = [g for g in self.xgroups if g != name]
            if name not in self.groups:
                self.groups[name] = "GROUP_REQUIRED" if nd else "GROUP_ALL" if op else "GROUP_DEFAULT"
        elif t.startswith("-"):
            if t == "-":
                raise M.Reject("nothing to exclude")
            if t.startswith("-@^") and self.env == t[3:]:
                self.env = None
            elif t.startswith("-@"):
                self.groups.pop(t[2:], None)
                self.xgroups.append(t[2:])
            else:
                self.pkgs.discard(t[1:])
                self.xpkgs.add(t[1:])
        else:
            self.xpkgs.discard(t)
            self.pkgs.add(t)

    def state(self):
        a = self.a
        return {"excludeDocs": a["excludeDocs"],
                "handleMissing": M.const("KS_MISSING_IGNORE" if a["ignoremissing"] else "KS_MISSING_PROMPT"),
                "handleBroken": M.const("KS_BROKEN_IGNORE" if a["ignorebroken"] else "KS_BROKEN_REPORT"),
                "default": a["default"], "instLangs": a["instLangs"], "addBase": not a["nobase"],
                "multiLib": a["multiLib"], "nocore": a["nocore"], "timeout": a["timeout"], "retries": a["retries"],
                "excludeWeakdeps": a["excludeWeakdeps"], "seen": self.seen, "environment": self.env,
                "packages": sorted(self.pkgs), "excluded": sorted(self.xpkgs),
                "groups": sorted((n, M.const(l)) for n, l in self.groups.items()),
                "excludedGroups": sorted(self.xgroups)}


def pkg_actual(p):
    r = {k: getattr(p, k, "<missing>") for k in (
        "excludeDocs", "handleMissing", "handleBroken", "default", "instLangs", "addBase", "multiLib", "nocore",
        "timeout", "retries", "excludeWeakdeps", "seen", "environment")}
    r["packages"] = sorted(p.packageList)
    r["excluded"] = sorted(p.excludedList)
    r["groups"] = sorted((g.name, g.include) for g in p.groupList)
    r["excludedGroups"] = sorted(g.name for g in p.excludedGroupList)
    return r


PKGS = ["vim", "emacs", "kernel*", "glibc.i686", "foo-devel", "a+b", "python3-lib2to3", "zsh", "Vim", "vi", "vim-", "x@y", "a-@b"]
GROUPS = ["core", "base-x", "GNOME Desktop", "nodejs:10/dev", "a", "Web Server", "Core", "A", "web server", "core-", "c-development tools And a Few libraries"]
ENVS = ["Fedora Server Edition", "minimal-env", "kde", "KDE", "kde-x"]


def pkg_line(src, comments=True, bad=0):
    k = src.below(100)
    if k < (10 if focus.words() else 4):
        if focus.words() and src.chance(70):
            return src.choice(["", "-", "@", "-@"]) + src.choice(focus.words())
        t = src.choice(["", "-"]) + src.choice("abAB1") + src.text("abAB1-+.*?_:/@^=[]~,é", 0, 4)
    elif k < 32:
        t = src.choice(PKGS)
    elif k < 50:
        t = "-" + src.choice(PKGS)
    elif k < 66:
        t = "@" + (" " if src.chance(10) else "") + src.choice(GROUPS) + src.choice(
            ["", "", " --nodefaults", " --optional"])
    elif k < 76:
        t = "-@" + src.choice(GROUPS)
    elif k < 84:
        t = "@^" + src.choice(ENVS)
    elif k < 90:
        t = "-@^" + src.choice(ENVS)
    elif k < 93 and bad:
        t = src.choice(["-", "@g --nodefaults --optional"])
    else:
        t = src.choice(PKGS)
    if comments:
        if src.chance(12):
            t = src.choice(["  ", "\t"]) + t
        if src.chance(12):
            t += src.choice([" # why", "#c", "   ", " # @x -y"])
        if src.chance(8):
            t = src.choice(["# just a comment", "", "   ", "  # -vim"])
    return t


def pkg_header(src, num, valid=True, density=20):
    opts = []
    fl = [f for f in ALL_PKG_FLAGS if f in pkg_flags(num)] if valid else ALL_PKG_FLAGS
    for f in fl:
        if f in ("--ignoredeps", "--resolvedeps") and not src.chance(30):
            continue
        if src.chance(density):
            if f in PKG_VALUED:
                v = str(src.int(0, 60)) if f in ("--timeout", "--retries") else src.choice(["en_US", "en,cs", "none", "en_US", "en,cs", ""])
                opts.append((f, v))
            else:
                opts.append((f, None))
    return src.shuffle(opts)


def pkg_header_text(opts):
    return "%packages" + "".join(" " + f if v is None else " %s=%s" % (f, M.quote(v)) for f, v in opts)


def packages(src, num, lo=0, hi=8, **kw):
    """A %packages section with an acceptable header."""
    opts = pkg_header(src, num)
    try:
        PkgModel(num).header(opts)
    except M.Reject:
        opts = [o for o in opts if o[0] != "--default"]
    return {"kind": "packages", "opts": opts, "header": pkg_header_text(opts),
            "body": [pkg_line(src, **kw) for _ in range(src.int(lo, hi))]}


# ---------------------------------------------------------------- pass-through sections
NULL_BODY = BODY + ["key = value", "[table]", "pwpolicy root --minlen=6"]


def null_section(src, tag=None, quotes=True):
    tag = tag or src.choice(["%addon", "%anaconda"])
    args = [src.choice(focus.words()) if focus.words() and src.chance(25) else src.choice(["com_redhat_kdump", "org_fedora_oscap", "--disable", "--reserve-mb=128", "x=1"])
            for _ in range(src.int(0, 3))]
    if quotes and src.chance(15):
        args.append(src.choice(["two words", "has#hash", "a;b"]))
    return {"kind": "null", "tag": tag, "args": args, "header": " ".join([tag] + [M.quote(a) for a in args]),
            "body": script_body(src, 0, 5, NULL_BODY)}


def section_lines(s, end=True):
    return [s["header"]] + list(s["body"]) + (["%end"] if end else [])


def section(src, num, kinds=("script", "script", "packages", "null")):
    k = src.choice(kinds)
    if k == "script":
        return script(src, quotes=True)
    if k == "packages":
        return packages(src, num)
    return null_section(src)


def unclosed_ok(s):
    """Can the section be left without %end before F8 without changing its meaning?"""
    return True
