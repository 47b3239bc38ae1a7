"""Everything a handler holds, as plain data, and running a parser over text or a file."""
import contextlib
import io
import os
import shutil
import tempfile

from . import doc, real
from . import model as M
from .engine import Violation


def whole(h, version, cmds, lineno=False, written=True):
    s = {"commands": real.snapshot(h, version, cmds, M),
         "seen": {c: bool(h.commands[c].seen) for c in cmds},
         "scripts": [doc.script_actual(x) for x in h.scripts],
         "packages": doc.pkg_actual(h.packages), "platform": h.platform}
    for x in s["scripts"]:
        if not lineno:
            del x["lineno"]
    if written:
        s["written"] = str(h)
    return s


def diff(a, b, path=""):
    """The first difference between two plain values, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s only on one side" % (path, k)
            d = diff(a[k], b[k], path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != b or (isinstance(a, bool) != isinstance(b, bool)):
        return "%s: %r versus %r" % (path, a, b)
    return None


def same(a, b, what):
    d = diff(a, b)
    if d:
        raise Violation("%s: %s" % (what, d))


class Result:
    pass


def run(h, text=None, path=None, parser=None, **kw):
    """Parse; -> Result with err (a KickstartError or None), warns, count, stderr, parser."""
    r = Result()
    out = io.StringIO()
    r.parser = parser or real.KickstartParser(h, **kw)
    r.err = None
    with real.catch() as rec, contextlib.redirect_stderr(out):
        try:
            if path is not None:
                r.parser.readKickstart(path)
            else:
                r.parser.readKickstartFromString(text)
        except real.E.KickstartError as e:
            r.err = e
    r.warns = real.warn_kinds(rec)
    r.messages = [str(w.message) for w in rec]
    r.count = r.parser.errorsCount
    r.stderr = out.getvalue()
    return r


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="kv-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
