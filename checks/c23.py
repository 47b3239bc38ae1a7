"""C23: loading returns exactly the file's text, or a kickstart error."""
import gzip
import os
import zlib

from kv import doc, real, state, web
from kv import model as M
from kv.engine import Test, Violation
from pykickstart import load
from pykickstart import parser as P

RULE = ("a case is a content, a location and, for the failing ones, what goes wrong; non-trivial when the content is not "
        "empty or something goes wrong; distinct by all of these")
ASSUMPTIONS = ["a file that is not valid UTF-8 can be copied but not read as text",
               "what a server declares as the encoding counts; without a declaration it is UTF-8",
               "HTTP over the loopback interface; a server that never answers is not covered (there is no time limit)"]
KErr = real.E.KickstartError

PIECES = ["cdrom\n", "lang en_US\n", "\n", "   \n", "# c\n", "naïve Łódź\n", "\u2603", "x", "\t", "\r\n", "a\r\n", "\rb", "\ufeff", "%include /x\n",
          "%ksappend http://x/y\n", "\x00", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\U0001f600", "'\"", "é" * 50, "\n\n\n",
          "\x1a", "end", "a" * 5000 + "\n"]
LATIN = ["cdrom\n", "caf\xe9\n", "\xdf", "x\r\n", "\n", "\xa0y", "# c\n"]


def content(src, pieces=None):
    return "".join(src.choice(pieces or PIECES) for _ in range(src.int(0, 8)))


def expect_error(fn, what):
    try:
        r = fn()
    except KErr as e:
        if not str(e):
            raise Violation("%s: an empty error message" % what)
        return e
    raise Violation("%s: no error but %r" % (what, r if r is None or len(r) < 200 else r[:200]))


def read(path):
    with open(path, "rb") as f:
        return f.read()


def target(src, root):
    """A destination that does or does not exist already."""
    dest = root + "/" + src.choice(["dest", "d e s t", "sub/dest.ks", "ü"])
    old = None
    if src.chance(50) or "sub" in dest:
        old = src.choice([b"", b"old\n", b"old line\n" * 3000])
        state.put(dest, old)
    return dest, old


def untouched(dest, old):
    if (read(dest) if os.path.exists(dest) else None) != old:
        raise Violation("the destination changed although loading failed")


def files(src, _s):
    text = content(src)
    data = text.encode("utf-8")
    with state.scratch() as root:
        name = root + "/" + src.choice(["in", "in put.ks", "ü.cfg", "a:b", "http:", "%41", "x#y?z", "d/e/f"])
        if src.chance(12):
            data = data[:src.int(0, len(data))] + src.choice([b"\xff", b"\xe9", b"\xc3", b"\xed\xa0\x80", b"\xc0\x80"])
            text = None
        state.put(name, data)
        dest, old = target(src, root)
        src.desc.update(name=name.replace(root, ""), data=data)
        if text is None:
            expect_error(lambda: load.load_to_str(name), "not UTF-8")
            e = expect_error(lambda: P.preprocessKickstartToString(name), "not UTF-8, preprocessed")
            h = real.small_handler("F34", ["cdrom"])
            r = state.run(h, path=name)
            if r.err is None:
                raise Violation("not UTF-8: parsed")
        else:
            got = load.load_to_str(name)
            if got != text:
                raise Violation("%r loaded as %r" % (text, got))
        where = name
        if src.chance(30):
            cwd = os.getcwd()
            os.chdir(root)
            try:
                r = load.load_to_file(os.path.relpath(name, root), os.path.relpath(dest, root))
                r = os.path.join(root, r)
            finally:
                os.chdir(cwd)
        else:
            r = load.load_to_file(where, dest)
        if r != dest:
            raise Violation("returned %r instead of the destination" % r)
        if read(dest) != data:
            raise Violation("%r stored as %r" % (data, read(dest)))
        if read(name) != data:
            raise Violation("the file itself changed")
    return {"nontrivial": bool(data), "key": (name.replace(root, ""), data, old is None), "sample": repr(data)[:300],
            "labels": ["not UTF-8"] if text is None else []}


BAD_NAMES = ["missing", "missing/x", "dir", "file/x", "loop", "dangling", "long", "nul", "", "file/"]


def bad_files(src, _s):
    """Everything that can be wrong with a path, or with the destination."""
    kind = src.choice(BAD_NAMES)
    with state.scratch() as root:
        os.mkdir(root + "/dir")
        state.put(root + "/file", b"cdrom\n")
        os.symlink("loop", root + "/loop")
        os.symlink("nowhere", root + "/dangling")
        name = {"long": root + "/" + "x" * 300, "nul": root + "/a\x00b", "": ""}.get(kind, root + "/" + kind)
        src.desc.update(kind=kind)
        dest, old = target(src, root)
        expect_error(lambda: load.load_to_str(name), "load_to_str of " + kind)
        expect_error(lambda: load.load_to_file(name, dest), "load_to_file of " + kind)
        untouched(dest, old)
        e = expect_error(lambda: P.preprocessKickstartToString(name), "preprocessing " + kind)
        expect_error(lambda: P.preprocessKickstart(name), "preprocessing " + kind)
        if kind not in ("nul", ""):
            r = state.run(real.small_handler("F34", ["cdrom"]), path=name)
            if r.err is None:
                raise Violation("reading %s succeeded" % kind)
            r = state.run(real.small_handler("F34", ["cdrom"]), text="%%include '%s'\n" % name)
            if r.err is None:
                raise Violation("including %s succeeded" % kind)
        # destinations
        bad = src.choice(["dir", "file/x", "nodir/x", "loop", "long", "nul", "same"])
        d = {"long": root + "/" + "x" * 300, "nul": root + "/a\x00b", "same": root + "/file"}.get(bad, root + "/" + bad)
        src.desc["destination"] = bad
        expect_error(lambda: load.load_to_file(root + "/file", d), "storing to " + bad)
        if bad != "same":
            web.route("/ok", body=b"lang en_US\n") if web.server() else None
            expect_error(lambda: load.load_to_file(web._state["base"] + "/ok", d), "storing from a server to " + bad)
        if read(root + "/file") != b"cdrom\n":
            raise Violation("a file changed")
    return {"key": (kind, bad, old is None), "sample": [kind, bad]}


CTYPES = [None, "text/plain", "text/plain; charset=utf-8", "text/plain; charset=UTF-8", 'text/plain; charset="utf-8"',
          "application/octet-stream", "text/html", "text/x-kickstart", "", "text/plain; format=flowed"]


def served(src, body, enc=None):
    """Puts a body on the server, maybe behind redirections; -> URL"""
    kw = {"body": body, "ctype": src.choice(CTYPES) if enc is None else "text/plain; charset=" + enc}
    z = src.below(10)
    if z == 0:
        kw["body"], kw["headers"] = gzip.compress(body), [("Content-Encoding", "gzip")]
    elif z == 1:
        kw["body"], kw["headers"] = zlib.compress(body), [("Content-Encoding", "deflate")]
    base = web.tls_server() if src.chance(4) else web.server()
    path = src.choice(["/ks", "/a/b/ks.cfg", "/x%20y", "/~user/ks"])
    web.route(path, **kw)
    url = path
    for k in range(src.choice([0, 0, 0, 1, 2, 3])):
        r = "/redirect%d" % k
        web.route(r, status=src.choice([301, 302, 303, 307, 308]), body=src.choice([b"", b"moved\n"]), ctype="text/html",
                  headers=[("Location", src.choice([url, base + url]))])
        url = r
    src.desc.update(url=url, headers=str(kw.get("headers")), ctype=kw["ctype"])
    return base + url + src.choice(["", "", "", "?", "?a=b&c=d", "#frag"])


class trusting:
    """For the test server's own certificate."""
    def __init__(self, url):
        self.tls = url.startswith("https")

    def __enter__(self):
        self.was = load.SSL_VERIFY
        if self.tls:
            load.SSL_VERIFY = False

    def __exit__(self, *a):
        load.SSL_VERIFY = self.was


def urls(src, _s):
    if src.chance(20):
        text = content(src, LATIN)
        enc = src.choice(["iso-8859-1", "ISO-8859-1", "latin-1"])
        body = text.encode("latin-1")
    else:
        text = content(src)
        enc = None
        body = text.encode("utf-8")
    src.desc.update(body=body)
    url = served(src, body, enc)
    with state.scratch() as root, trusting(url), real.catch():
        got = load.load_to_str(url)
        if got != text:
            raise Violation("%r loaded as %r" % (text, got))
        dest, old = target(src, root)
        if load.load_to_file(url, dest) != dest:
            raise Violation("another destination is returned")
        if read(dest) != text.encode("utf-8"):
            raise Violation("%r stored as %r" % (text, read(dest)))
    return {"nontrivial": bool(body), "key": repr(src.desc), "sample": repr(text)[:300],
            "labels": [k for k in ("redirect", "headers") if "redirect" in url and k == "redirect" or
                       k == "headers" and src.desc["headers"] != "None"] + (["tls"] if url.startswith("https") else [])}


def fault(src):
    """-> URL that cannot be loaded, what it is"""
    base = web.server()
    k = src.below(13)
    body = src.choice([b"", b"cdrom\n", b"<html>error</html>\n"])
    if k < 4:
        st = src.choice([400, 401, 403, 404, 405, 410, 418, 429, 500, 501, 502, 503, 504, 599])
        web.route("/f", status=st, body=body, ctype="text/html")
        return base + "/f", "status %d" % st
    if k == 4:
        st = src.choice([201, 202, 203, 206, 226])
        web.route("/f", status=st, body=body, ctype="text/plain")
        return base + "/f", "status %d" % st
    if k == 5:
        st = src.choice([300, 301, 302, 304])
        web.route("/f", status=st, body=b"" if st == 304 else body, ctype="text/plain")
        return base + "/f", "status %d without a location" % st
    if k == 6:
        web.route("/f", status=302, headers=[("Location", "/g")], ctype=None)
        web.route("/g", status=src.choice([301, 307]), headers=[("Location", "/f")], ctype=None)
        return base + "/f", "circular redirection"
    if k == 7:
        web.route("/f", status=302, headers=[("Location", src.choice([
            "/missing", "http://127.0.0.1:%d/" % web.closed_port(), "http://[broken/", "ftp://127.0.0.1/x"]))], ctype=None)
        return base + "/f", "redirection to nowhere"
    if k == 8:
        return "http://127.0.0.1:%d/ks" % web.closed_port(), "nobody listening"
    if k == 9:
        web.route("/f", drop=True)
        return base + "/f", "connection dropped"
    if k == 10:
        web.route("/f", body=b"cdrom\nlang en", missing=src.int(1, 5000), ctype="text/plain")
        return base + "/f", "truncated answer"
    if k == 11:
        web.route("/f", body=src.choice([b"cdrom\n", b"\x1f\x8b\x08" + b"junk" * 9]), ctype="text/plain",
                  headers=[("Content-Encoding", "gzip")])
        return base + "/f", "broken compression"
    if k == 12 and src.chance(40):
        t = web.tls_server()
        web.route("/f", body=b"cdrom\n")
        return t + "/f", "untrusted certificate"
    bad = src.choice(["://", "http://", "nosuch://x/y", "ftp://127.0.0.1:1/x", "file:///etc/hostname", "http://[::1",
                      "http://127.0.0.1:99999/", "http://127.0.0.1:port/", "http://a../x", "x://", "http:// /", "http://:80/",
                      "http://%s/" % ("y" * 70), "http://*.example/", "HTTPS://127.0.0.1:%d/" % web.closed_port(),
                      "http://user@/", "a://b://c", "http://\x00/", "http://127.0.0.1:%d\n/x" % web.closed_port()])
    return bad, "not a usable URL"


def faults(src, _s):
    url, what = fault(src)
    src.desc.update(url=url, fault=what)
    with state.scratch() as root, real.catch():
        dest, old = target(src, root)
        expect_error(lambda: load.load_to_str(url), what)
        expect_error(lambda: load.load_to_file(url, dest), what)
        untouched(dest, old)
        if "\x00" not in url and "\n" not in url and " " not in url:
            expect_error(lambda: P.preprocessFromStringToString("cdrom\n%ksappend " + url + "\nskipx\n"), what)
            h = real.small_handler("F34", ["cdrom"])
            r = state.run(h, text="%%include '%s'\n" % url)
            if r.err is None:
                raise Violation("%s: including it succeeds" % what)
            if h.cdrom.seen:
                raise Violation("%s: parts of it were read" % what)
            h = real.small_handler("F34", ["cdrom"])
            r = state.run(h, text="%%include '%s'\ncdrom\n" % url, missingIncludeIsFatal=False)
            if r.err is not None or not h.cdrom.seen:
                raise Violation("%s: not skipped when asked to: %s" % (what, r.err))
    return {"key": (what, url.split(":")[0], repr(src.desc["fault"])), "sample": [url, what], "labels": [what]}


def documents(src, version):
    """A kickstart read by name, over HTTP, through an include of either, or as text is the same."""
    pool = [c for c in doc.pool_of(version) if c != "lilo"]
    cl, _mh = doc.command_lines(src, version, 0, 4, pool=pool, density=10)
    text = "".join(t + "\n" for _c, _i, t in cl)
    cmds = sorted({c for c, _i, _t in cl}) + ["cdrom"]
    for _ in range(src.int(0, 2)):
        text += "".join(l + "\n" for l in doc.section_lines(doc.section(src, M.NUM[version])))
    src.desc.update(version=version, text=text)
    h = real.small_handler(version, cmds)
    r = state.run(h, text=text)
    if r.err is not None:
        raise Violation("rejected: %s" % r.err)
    want = state.whole(h, version, cmds, True)
    with state.scratch() as root:
        state.put(root + "/ks", text)
        url = served(src, text.encode("utf-8"))
        with trusting(url), real.catch():
            for how, kw in (("file", {"path": root + "/ks"}), ("URL", {"path": url}),
                            ("included file", {"text": "%%include %s/ks\n" % root}),
                            ("included URL", {"text": "%%include '%s'\n" % url})):
                g = real.small_handler(version, cmds)
                q = state.run(g, **kw)
                if q.err is not None:
                    raise Violation("%s: rejected: %s" % (how, q.err))
                state.same(state.whole(g, version, cmds, True), want, how)
                if [w for w in q.warns if "InsecureRequest" not in w] != r.warns:
                    raise Violation("%s: warnings %r instead of %r" % (how, q.warns, r.warns))
    return {"nontrivial": bool(text), "key": text, "sample": text}


TESTS = [Test("files", files, n=(4000, 60000)), Test("bad_files", bad_files, n=(300, 3000)), Test("urls", urls, n=(2000, 30000)),
         Test("faults", faults, n=(1500, 20000)), Test("documents", documents, M.VERSIONS, n=(15, 200))]
