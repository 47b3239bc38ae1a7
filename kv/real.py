"""Adapter to the code under test: handlers, parsing, snapshots."""
import importlib
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import pykickstart                                                  # noqa: E402
import pykickstart.version as V                                     # noqa: E402
import pykickstart.errors as E                                      # noqa: E402
from pykickstart.parser import Group, KickstartParser, Script   # noqa: E402

if not os.path.abspath(pykickstart.__file__).startswith(REPO + "/"):
    raise SystemExit("pykickstart was not imported from " + REPO)

STORAGE = ["autopart", "part", "partition", "raid", "volgroup", "logvol", "mount", "reqpart"]
_full = {}


def handler_class(version):
    if version not in _full:
        cls = V.returnClassForVersion(version)
        h = cls()
        _full[version] = (cls, {n: type(o) for n, o in h.commands.items()})
    return _full[version][0]


def full_handler(version):
    return handler_class(version)()


def small_handler(version, cmds):
    """A handler of the version with only the given commands (and whatever they interact with)."""
    cls = handler_class(version)
    cmap = _full[version][1]
    want = set(cmds)
    if want & set(STORAGE):
        want |= set(STORAGE)
    if "lilo" in want:
        want.add("bootloader")
    classes = {cmap[c] for c in want if c in cmap}
    # all the names of these commands, in the order of the version's own map
    mapping = {n: c for n, c in cmap.items() if c in classes}
    if not mapping:
        mapping = {"cdrom": cmap["cdrom"]}
    return cls(mapping=mapping)


def warn_kinds(rec):
    out = []
    for w in rec:
        if issubclass(w.category, E.KickstartDeprecationWarning):
            out.append("dep")
        elif issubclass(w.category, E.KickstartParseWarning):
            out.append("parse")
        elif issubclass(w.category, E.KickstartWarning):
            out.append("ks")
        else:
            out.append("other:" + w.category.__name__)
    return out


class catch:
    """Capture warnings."""
    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.rec = self.cm.__enter__()
        warnings.simplefilter("always")
        return self.rec

    def __exit__(self, *a):
        return self.cm.__exit__(*a)


def parse(handler, text, **kw):
    """Parse text; returns the list of warning kinds.  Exceptions propagate."""
    with catch() as rec:
        KickstartParser(handler, **kw).readKickstartFromString(text)
    return warn_kinds(rec)


def cmd_obj(handler, cmd):
    return handler.commands[cmd]


def public(obj):
    return {k: v for k, v in vars(obj).items() if not k.startswith("_")}


def snapshot(handler, version, cmds, model):
    """Values of the documented attributes of the given commands (names in the frozen table)."""
    out = {}
    for cmd in cmds:
        sp = model.spec(version, cmd)
        if sp.kind != "normal":
            continue
        o = handler.commands[cmd]
        at = {}
        for k in sp.fresh_attrs():
            if k in ("seen", sp.listattr):
                continue
            at[k] = getattr(o, k, "<missing>")
        ent = {"attrs": at}
        if sp.data is not None:
            ent["data"] = [data_snapshot(d, sp, model) for d in o.dataList()]
        out[sp.cls] = ent
    return out


def data_snapshot(d, sp, model):
    r = {}
    for k in sp.data["attrs"]:
        if k in model.NOT_DATA or k == "lineno":
            continue
        v = getattr(d, k, "<missing>")
        if k == "paths" and isinstance(v, list):
            v = [{a: getattr(p, a, "<missing>") for a in ("device", "rule", "mpdev")} for p in v]
        r[k] = v
    return r
