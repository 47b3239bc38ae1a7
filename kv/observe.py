"""Everything observable about parsing and writing some documents; run in process or as a program (JSON in, JSON out)."""
import contextlib
import io
import json
import sys

if __name__ == "__main__":
    sys.path.insert(0, sys.argv[1])

from kv import doc, real                                            # noqa: E402
from kv import model as M                                           # noqa: E402

SKIP = {"op", "handler", "dataClass"}


def plain(v, depth=0):
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x, depth) for x in v), key=repr)
    if isinstance(v, (list, tuple)):
        return [plain(x, depth) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x, depth) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, type) or depth > 4 or not hasattr(v, "__dict__"):
        return type(v).__name__
    return {k: plain(x, depth + 1) for k, x in vars(v).items() if not k.startswith("_") and k not in SKIP}


def one(version, text, path, kw):
    h = real.full_handler(version)
    out = {"err": None}
    err = io.StringIO()
    with real.catch() as rec, contextlib.redirect_stderr(err):
        p = real.KickstartParser(h, **kw)
        try:
            if path is None:
                p.readKickstartFromString(text)
            else:
                p.readKickstart(path)
        except Exception as e:                                      # pylint: disable=broad-except
            out["err"] = [type(e).__name__, str(e), getattr(e, "lineno", None)]
    out["warnings"] = [[w.category.__name__, str(w.message)] for w in rec]
    out["stderr"], out["count"] = err.getvalue(), p.errorsCount
    out["commands"] = {n: plain(o) for n, o in h.commands.items() if M.spec(version, n).kind == "normal"}
    out["scripts"] = [plain(s) for s in h.scripts]
    out["packages"] = plain(doc.pkg_actual(h.packages))
    pk = h.packages
    out["package order"] = [list(pk.packageList), list(pk.excludedList), [g.name for g in pk.groupList],
                            [g.name for g in pk.excludedGroupList]]
    try:
        out["written"] = str(h)
    except Exception as e:                                          # pylint: disable=broad-except
        out["written"] = "cannot be written: " + type(e).__name__
    return out


def observe(jobs):
    return json.loads(json.dumps([one(*j) for j in jobs]))


if __name__ == "__main__":
    data = json.loads(sys.stdin.buffer.read().decode("ascii"))
    res = observe(data)
    sys.stdout.buffer.write(json.dumps(res).encode("ascii"))
