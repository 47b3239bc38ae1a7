"""Where to look harder.

kv/focus.json holds, for every source file of the library and its tools, a fingerprint of its code (comments and
docstrings left out), of each of its classes, and the constants in it.  Where the tree under test differs, the
generators use the constants that are new as raw material (as fuzzers use a dictionary), and after the usual cases
the engine spends as many again on the commands and versions whose code is new.  This only steers the search:
what is a violation is decided by the same oracles, and on the unchanged tree nothing is steered.
"""
import ast
import hashlib
import json
import os
import random
import re

from . import model as M

REPO = os.environ.get("VERIF_REPO", "/repo")
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "focus.json")
PLAIN = re.compile(r"^[A-Za-z0-9_.+:=@/^~%-]{1,40}$")
NOT_VALUES = {"help", "description", "epilog", "version", "metavar", "prog", "introduced"}

PAIRS = {}          # version -> commands whose code differs, while the directed cases run
SALT = [0]


def strip(tree):
    """Leave out docstrings and statements without effect."""
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, [x for x in b if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))
                               and not isinstance(x, ast.Pass)] or ([ast.Pass()] if b and f == "body" else []))
    return tree


def digest(node):
    return hashlib.sha256(ast.dump(node).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def constants(tree):
    out = {}

    def walk(n, name=None):
        if isinstance(n, ast.keyword) and n.arg in NOT_VALUES:
            return
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, int)) and not isinstance(n.value, bool):
            if len(repr(n.value)) < 60:
                k = json.dumps(n.value)
                out[k] = out.get(k, 0) + 1
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(tree)
    return out


def raw(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()[:16]


def describe(path):
    with open(path, encoding="utf-8") as f:
        tree = strip(ast.parse(f.read()))
    return {"raw": raw(path), "all": digest(tree), "constants": constants(tree),
            "classes": {n.name: digest(n) for n in tree.body if isinstance(n, ast.ClassDef)},
            "bases": {n.name: [b.id for b in n.bases if isinstance(b, ast.Name)] for n in tree.body
                      if isinstance(n, ast.ClassDef)}}


def files(repo):
    for top in ("pykickstart", "tools"):
        for d, _ds, fs in sorted(os.walk(os.path.join(repo, top))):
            for f in sorted(fs):
                if f.endswith(".py"):
                    yield os.path.relpath(os.path.join(d, f), repo)


_found = []


def find():
    """-> (any difference?, {version: [commands]}, class names, new strings, new numbers)"""
    if _found:
        return _found[0]
    try:
        with open(TABLE) as f:
            table = json.load(f)
        r = _find(table)
    except (OSError, ValueError, SyntaxError, RecursionError):
        r = (False, {}, set(), [], [])
    _found.append(r)
    return r


def _find(table):
    changed, names, versions, strings, numbers = False, set(), set(), set(), set()
    for f in files(REPO):
        old = table.get(f)
        if old and old["raw"] == raw(os.path.join(REPO, f)):
            continue
        now = describe(os.path.join(REPO, f))
        if old and now["all"] == old["all"]:
            continue
        changed = True
        old = old or {"constants": {}, "classes": {}}
        for k, n in now["constants"].items():
            if n > old["constants"].get(k, 0):
                v = json.loads(k)
                (strings if isinstance(v, str) else numbers).add(v)
        if "/commands/" in f:
            new = {c for c, d in now["classes"].items() if old["classes"].get(c) != d}
            if not new:
                new = set(now["classes"])
            size = -1
            while size != len(new):
                size = len(new)
                new |= {c for c, bs in now["bases"].items() if set(bs) & new}
            if any(c.endswith("Data") for c in new):
                # the commands that keep such entries
                heads = {c.split("_")[0] for c in new}
                new |= {c for c in now["classes"] if c.split("_")[0] in heads or not c.endswith("Data")}
            names |= new
        elif "/handlers/" in f:
            v = os.path.basename(f)[:-3].upper()
            versions |= {v} & set(M.VERSIONS)
    pairs = {}
    for v in M.VERSIONS:
        cs = [c for c in M.commands(v) if M.spec(v, c).cls in names and c != "method"]
        if cs:
            pairs[v] = cs
        elif v in versions:
            pairs[v] = []
    return changed, pairs, names, sorted(strings), sorted(numbers)


# ---------------------------------------------------------------- the dictionary
_words = []


def words():
    if not _words:
        _c, _p, _n, strings, numbers = find()
        out = []
        for s in strings:
            s = s.strip()
            if s == "" or not PLAIN.match(s):
                continue
            out.append("a" + s + "b")
            if s[0].isalnum():
                out += [s, s + "x"] + ([s.upper()] if s.upper() != s else [])
                if s[-1].isalnum():
                    out.append("x" + s)
        for n in numbers:
            if 1 < n <= 260:
                out += ["y" * n, "y" * (n + 1)]
            if n >= 0:
                out.append(str(n))
        _words.append(sorted(set(out)))
    return _words[0]


_ints, _lines = [], []


def ints():
    if not _ints:
        _ints.append(sorted({n + d for n in find()[4] for d in (-1, 0, 1) if n + d >= 0}))
    return _ints[0]


def lines():
    """Lines for the bodies of sections."""
    if not _lines:
        out = []
        for s in find()[3]:
            if s.strip() and s.isprintable() and not s.lstrip().startswith("%"):
                out += [s, "echo " + s, s + " x"]
        _lines.append(out)
    return _lines[0]


# ---------------------------------------------------------------- the directed cases
def pool(version, cmds):
    """The commands to choose from in a directed case: those with new code, alone or with some others."""
    want = PAIRS.get(version)
    if not want:
        return cmds
    mine = [c for c in cmds if c in want]
    if not mine or SALT[0] % 4 == 3:
        return cmds
    if SALT[0] % 4 == 0:
        return mine
    rest = [c for c in cmds if c not in want]
    k = 3 if SALT[0] % 4 == 1 else 8
    pick = set(random.Random(SALT[0]).sample(rest, min(k, len(rest))))
    return [c for c in cmds if c in want or c in pick]


def keep(stratum, pairs, names):
    """Is the stratum one to look at harder?"""
    if not pairs:
        return True
    if isinstance(stratum, str):
        if stratum in M.NUM:
            return stratum in pairs
        if re.match(r"^(FC|F|RHEL)\d+_", stratum):
            return stratum in names
        return True
    if isinstance(stratum, (list, tuple)) and stratum and isinstance(stratum[0], str) and stratum[0] in M.NUM:
        if len(stratum) > 1 and isinstance(stratum[1], str) and stratum[0] in pairs and pairs[stratum[0]]:
            return bool(set(pairs[stratum[0]]) & set(x for x in stratum[1:] if isinstance(x, str))) \
                or stratum[1] in M.NUM
        return stratum[0] in pairs
    return True
