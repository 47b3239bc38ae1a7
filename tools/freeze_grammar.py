"""One-off: extract the command grammar of every syntax version from a /repo checkout.

The result (kv/grammar.json) is committed and is NOT regenerated by any check: released
syntax versions are fixed, so the table is the specification the checks compare against.
"""
import json, sys, argparse
sys.path.insert(0, sys.argv[1] if len(sys.argv) > 1 else "/repo")
import warnings; warnings.simplefilter("ignore")
from pykickstart import version as V
from pykickstart.base import DeprecatedCommand, RemovedCommand
from pykickstart.options import commaSplit, ksboolean, mountpoint, ExtendAction, ExtendConstAction

SKIP = {"handler", "op", "currentCmd", "currentLine", "lineno", "writePriority"}
def js(v):
    if isinstance(v, (str, int, float, bool, type(None))): return v
    if isinstance(v, (list, tuple)): return [js(x) for x in v]
    if isinstance(v, (set,)): return {"__set__": sorted(js(x) for x in v)}
    if isinstance(v, dict): return {"__dict__": {str(k): js(x) for k, x in v.items()}}
    return {"__obj__": type(v).__name__}
def tname(t):
    if t is None: return "str"
    return {int: "int", str: "str", commaSplit: "commaSplit", ksboolean: "ksboolean", mountpoint: "mountpoint"}.get(t) or "cb:" + getattr(t, "__name__", type(t).__name__)
ANAMES = {argparse._StoreAction: "store", argparse._StoreTrueAction: "store_true", argparse._StoreFalseAction: "store_false",
  argparse._StoreConstAction: "store_const", argparse._AppendAction: "append", argparse._AppendConstAction: "append_const", ExtendAction: "extend", ExtendConstAction: "extend_const"}
def prefixes(cls):
    out = []
    for c in cls.__mro__:
        if "_" in c.__name__:
            out.append(c.__name__.split("_")[0])
    return out

classes, versions = {}, {}
def describe(obj, h):
    cls = type(obj)
    d = {"name": cls.__name__, "lineage": prefixes(cls)}
    d["kind"] = "removed" if isinstance(obj, RemovedCommand) else "deprecated" if isinstance(obj, DeprecatedCommand) else "normal"
    d["prio"] = obj.writePriority
    d["attrs"] = {k: js(v) for k, v in vars(obj).items() if k not in SKIP and not k.startswith("_")}
    opts, pos = [], []
    op = obj.op if hasattr(obj, "op") else obj._getParser()
    for a in op._actions:
        e = {"flags": list(a.option_strings), "dest": a.dest, "action": ANAMES[type(a)] if type(a) in ANAMES else type(a).__name__,
             "type": tname(a.type), "nargs": a.nargs, "const": js(a.const), "default": js(a.default), "choices": js(a.choices) if a.choices is not None else None,
             "required": a.required, "deprecated": bool(a.deprecated)}
        (opts if a.option_strings else pos).append(e)
    d["opts"], d["pos"] = opts, pos
    d["data"] = None
    if d["kind"] == "normal":
        dc = obj.dataClass
        if dc is not None:
            d["data"] = {"name": dc.__name__, "attrs": {k: js(v) for k, v in vars(dc()).items() if k != "lineno"}}
            lst = obj.dataList()
            d["listattr"] = [k for k, v in vars(obj).items() if v is lst]
    return d
for name, num in sorted(V.versionMap.items(), key=lambda x: x[1]):
    if name == "DEVEL": continue
    h = V.makeVersion(name)
    cmds = {}
    for c, obj in sorted(h.commands.items()):
        cn = type(obj).__name__
        cmds[c] = cn
        key = cn
        if key not in classes: classes[key] = describe(obj, h)
        else:
            d = describe(obj, h)
            if d != classes[key]:
                # same class described differently in another version (data class changed)
                classes[key].setdefault("variants", {})[name] = {"data": d["data"]}
                d2 = dict(d); d2["data"] = classes[key]["data"]; d2.pop("variants", None)
                c2 = dict(classes[key]); c2.pop("variants", None)
                if c2 != d2: print("DIFF", name, key, file=sys.stderr)
    versions[name] = {"num": num, "commands": cmds}
json.dump({"versions": versions, "classes": classes}, open(sys.argv[2] if len(sys.argv) > 2 else "/verif/kv/grammar.json", "w"), indent=0, sort_keys=True)
