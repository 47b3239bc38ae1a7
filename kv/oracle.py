"""Comparison of the library with the reference model on sequences of command lines."""
from . import gen, real
from . import model as M
from .engine import Violation


def same(x, y):
    """Model value x against the library's y: equal, and a flag is not a number."""
    if x is M.ANY:
        return True
    if isinstance(x, list) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if not x == y:
        return False
    if isinstance(x, (bool, int, float)) and isinstance(y, (bool, int, float)):
        return isinstance(x, bool) == isinstance(y, bool) or isinstance(x, M.Unset)
    return True


def compare_state(h, mh, version, cmds, lineno=False):
    """Everything the library holds for these commands is what the model says; returns nothing."""
    for cmd in cmds:
        sp = M.spec(version, cmd)
        if sp.kind != "normal":
            continue
        st = mh.st.get(sp.cls)
        attrs = st.attrs if st else sp.fresh_attrs()
        o = h.commands[cmd]
        for k, x in attrs.items():
            if k == sp.listattr:
                continue
            y = getattr(o, k, "<missing>")
            if k == "seen":
                x = bool(x)
            if not same(x, y):
                raise Violation("%s: attribute %s is %r, expected %r" % (cmd, k, y, x))
        if sp.data is None:
            continue
        want = st.data if st else []
        have = o.dataList()
        if len(have) != len(want):
            raise Violation("%s: %d entries, expected %d" % (cmd, len(have), len(want)))
        for i, (x, y) in enumerate(zip(want, have)):
            got = real.data_snapshot(y, sp, M)
            for k, v in x.items():
                if k in ("key", "lineno") or k in M.NOT_DATA:
                    continue
                if not same(v, got.get(k, "<missing>")):
                    raise Violation("%s entry %d: %s is %r, expected %r" % (cmd, i + 1, k, got.get(k), v))
            if lineno and "lineno" in x and getattr(y, "lineno", None) != x["lineno"]:
                raise Violation("%s entry %d: line number is %r, expected %r" % (
                    cmd, i + 1, getattr(y, "lineno", None), x["lineno"]))


def model_run(mh, cmd, items, text, lineno=1):
    """-> (accepted, warnings)"""
    try:
        return True, mh.run(cmd, items, text, lineno=lineno)
    except M.Reject:
        return False, None


def real_run(h, text):
    """-> (error or None, warnings)"""
    with real.catch() as rec:
        try:
            real.KickstartParser(h).readKickstartFromString(text)
            err = None
        except real.E.KickstartError as e:
            err = e
    return err, real.warn_kinds(rec)


def check_line(src, version, cmd, items, mh, h, text=None):
    """One line against the model.  -> accepted.  The caller must stop after a rejected line."""
    text = text or gen.text(version, cmd, items)
    src.desc.setdefault("lines", []).append(text)
    src.desc["version"] = version
    ok, mw = model_run(mh, cmd, items, text)
    err, rw = real_run(h, text + "\n")
    if ok and err is not None:
        raise Violation("%s rejects a line it should accept: %s" % (version, err))
    if not ok:
        if err is None:
            raise Violation("%s accepts a line it should reject" % version)
        if not isinstance(err, real.E.KickstartParseError):
            raise Violation("a syntax error is reported as %s" % type(err).__name__)
        return False
    if sorted(mw) != sorted(rw):
        raise Violation("warnings %r, expected %r" % (sorted(rw), sorted(mw)))
    compare_state(h, mh, version, [cmd])
    return True
