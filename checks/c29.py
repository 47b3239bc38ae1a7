"""C29: the same kickstart gives the same result in every process, whatever the environment."""
import json
import os
import subprocess
import sys

from checks import c09, c26
from kv import doc, gen, observe, real, state, tools
from kv import model as M
from kv.engine import VERIF, Test, Violation

RULE = ("a case is some documents, accepted or not, read in this process and in a new one with another environment; "
        "non-trivial when at least one document has a command or section; distinct by documents and environment")
ASSUMPTIONS = ["one Python version; no translations are installed",
               "files and relative includes of the documents are the same (the current directory holds no file of the "
               "same name)"]
ODD = ["naïve Łódź ☃", "日本語", "ß", "İıſ", "\u00e9 = e\u0301"]


def a_document(src, version, root, n):
    """-> [version, text, path or None, parser switches]"""
    kw = c26.switches(src)
    if src.chance(35):
        # many lines, right and wrong, each with a verdict of its own
        pool = doc.pool_of(version)
        text = ""
        for _ in range(src.int(8, 40)):
            c = src.choice(pool)
            text += gen.text(version, c, gen.line(src, version, c, valid=src.choice([60, 85]), density=src.choice([5, 25]))[1])
            text += "\n"
        kw["errorsAreFatal"] = False
    elif src.chance(60):
        lines, _c = c09.flat(src, version, maxcmd=9)
        text = c09.text_of(lines)
        if src.chance(15):
            text += "%s\n%%end\n" % src.choice(["%pre", "%post --log=/x", "%packages", "%addon a b", "%nosuch"])
        if src.chance(15):
            text += "nosuchcommand\n"
    else:
        text, _p = c26.a_doc(src, version)
    if src.chance(30):
        text += "%%post\necho %s\n%%end\n" % src.choice(ODD)
    text = text.encode("utf-8", "replace").decode("utf-8")
    path = None
    if src.chance(60):
        path = os.path.join(root, "d%d" % n, "ks.cfg")
        if src.chance(30):
            state.put(os.path.join(root, "d%d" % n, "inc.cfg"), text)
            text = "%include inc.cfg\n"
        state.put(path, text)
    return [version, text, path, kw]


def environment(src, root):
    """-> (interpreter flags, environment, current directory)"""
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin")} if src.chance(25) else \
        {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = str(src.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 4294967295]))
    env.update(src.choice([{}, {"LC_ALL": "C.UTF-8"}, {"LANG": "C"}, dict(tools.ASCII), {"LC_ALL": "tr_TR.UTF-8"},
                           {"LANGUAGE": "de:fr", "LANG": "de_DE.UTF-8"}]))
    env.update(src.choice([{}, {}, {"TZ": "Pacific/Kiritimati"}, {"COLUMNS": "12"}, {"HOME": "/nonexistent"},
                           {"VERSION": "F7", "KSVERSION": "F7"}]))
    flags = src.choice([[], [], ["-O"], ["-OO"], ["-W", "ignore"], ["-W", "always"], ["-B", "-s"]])
    cwd = src.choice([None, "/", root])
    return flags, env, cwd


def elsewhere(src, _s):
    with state.scratch() as root:
        vs = src.list(1, 3, lambda: src.choice(M.VERSIONS))
        jobs = [a_document(src, src.choice(vs), root, n) for n in range(src.int(1, 14))]
        flags, env, cwd = environment(src, root)
        src.desc.update(documents=[j[:2] + [j[3]] for j in jobs], flags=flags, env=env, cwd=cwd)
        order = src.shuffle(range(len(jobs)))
        here = observe.observe(jobs)
        r = subprocess.run([sys.executable] + flags + [os.path.join(VERIF, "kv", "observe.py"), VERIF],
                           input=json.dumps([jobs[i] for i in order]).encode("ascii"), capture_output=True,
                           env=dict(env, VERIF_REPO=real.REPO), cwd=cwd, check=False)
        if r.returncode:
            raise Violation("the other process failed: %s" % r.stderr.decode("utf-8", "replace")[-1500:])
        there = json.loads(r.stdout.decode("ascii"))
    for k, i in enumerate(order):
        d = state.diff(here[i], there[k])
        if d:
            raise Violation("document %d here versus there: %s" % (i + 1, d))
    key = repr([j[:2] for j in jobs]) + repr((flags, sorted(env.items())))
    return {"nontrivial": any(j[1].strip() for j in jobs), "key": key.replace(root, ""), "sample": [j[:2] for j in jobs][:3],
            "labels": ["accepted" if here[i]["err"] is None else "rejected" for i in range(len(jobs))]}


def twice(src, version):
    """The same again in the same process."""
    with state.scratch() as root:
        j = a_document(src, version, root, 0)
        src.desc.update(version=version, text=j[1], switches=j[3])
        a = observe.observe([j])[0]
        others = [a_document(src, src.choice(M.VERSIONS), root, n + 1) for n in range(src.int(0, 2))]
        observe.observe(others)
        b = observe.observe([j])[0]
    d = state.diff(a, b)
    if d:
        raise Violation("first versus second time: %s" % d)
    return {"nontrivial": bool(j[1].strip()), "key": (version, j[1], repr(j[3])), "sample": j[1]}


TESTS = [Test("elsewhere", elsewhere, n=(320, 12000)), Test("twice", twice, M.VERSIONS, n=(12, 300))]
