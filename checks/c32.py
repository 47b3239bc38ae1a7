"""C32: the method command is a view of the installation source in use."""
import copy

from checks import c13
from kv import gen, real, state
from kv import model as M
from kv.engine import Test, Violation

RULE = ("a case is a history of source lines and of changes made through the method view; non-trivial when at least one "
        "change goes through the view while a source is in use; distinct by (version, history)")
ASSUMPTIONS = ["assigning an unknown source name is not claimed beyond its AttributeError",
               "seen, lineno, writePriority, currentCmd, currentLine and handler of the view are its own"]

SOURCES = ["cdrom", "harddrive", "nfs", "url", "liveimg", "hmc"]
OWN = {"method", "writePriority", "currentCmd", "currentLine", "handler", "lineno", "seen", "errors"}


def sources(version):
    """The sources of a version in the order the view looks at them."""
    return [n for n in SOURCES if n in M.commands(version)]


def fields(version, name):
    """The settings of a source: what its options and arguments are stored in."""
    sp = M.spec(version, name)
    return sorted(k for k in sp.attrs if k in {o["dest"] for o in sp.opts} and k not in OWN)


def view(h, names, version):
    return {"in use": h.method.method,
            "sources": {n: dict(c13.plain({k: getattr(h.commands[n], k) for k in fields(version, n)}),
                                seen=h.commands[n].seen) for n in names},
            "written": str(h)}


def histories(src, version):
    names = sources(version)
    a, b = real.small_handler(version, names + ["method"]), real.small_handler(version, names + ["method"])
    used = []          # the sources in use, by the model
    log = []
    src.desc.update(version=version, history=log)
    through = 0

    def current():
        return next((n for n in names if n in used), None)

    for _ in range(src.int(1, 8)):
        k = src.below(10)
        cur = current()
        target = cur or "url"
        if k < 3:
            n = src.choice(names)
            t = gen.text(version, n, gen.line(src, version, n, valid=92)[1])
            log.append(["line", t])
            r = state.run(a, text=t + "\n")
            state.run(b, text=t + "\n")
            for m in names:
                if b.commands[m].seen and m not in used:
                    used.append(m)
            if r.err is None and n not in used:
                raise Violation("after %r the source is not in use" % t)
        elif k < 5:
            n = src.choice(names + [None])
            log.append(["use", n])
            a.method.method = n
            for m in names:
                b.commands[m].seen = m == n
            used = [n] if n else []
        elif k < 8:
            fs = fields(version, target)
            if not fs:
                continue
            f, v = src.choice(fs), src.choice(["kv-one", "kv two", "", None, 7])
            how = src.choice(["attribute", "call"]) if k > 5 else "attribute"
            log.append([how, f, v])
            if how == "call":
                a.method(**{f: v})
            else:
                setattr(a.method, f, v)
            setattr(b.commands[target], f, v)
            through += cur is not None
            got = getattr(a.method, f)
            if got != v:
                raise Violation("%s set to %r through the view reads back %r" % (f, v, got))
        elif k == 8:
            # a name none of the source's attributes has
            others = [f for n in names for f in fields(version, n)] + ["kvnosuch"]
            f = src.choice([f for f in others if not hasattr(b.commands[target], f)])
            how = src.choice(["get", "set"])
            log.append(["unknown " + how, f])
            try:
                if how == "get":
                    v = getattr(a.method, f)
                else:
                    setattr(a.method, f, "x")
                    v = "x"
            except AttributeError:
                pass
            else:
                raise Violation("%s %r through the view of %s, which has no such attribute: %r" % (how, f, target, v))
        else:
            n = src.choice(names)
            fs = fields(version, n)
            if not fs:
                continue
            f, v = src.choice(fs), src.choice(["kv-three", None])
            log.append(["direct", n, f, v])
            setattr(a.commands[n], f, v)
            setattr(b.commands[n], f, v)
        cur = current()
        if a.method.method != cur:
            raise Violation("in use is %r, the view says %r" % (cur, a.method.method))
        m = copy.copy(a.method) if src.chance(15) else a.method
        if m.method != cur:
            raise Violation("in use is %r, a copy of the view says %r" % (cur, m.method))
        o = b.commands[cur or "url"]
        for f in fields(version, cur or "url"):
            if c13.plain(getattr(m, f)) != c13.plain(getattr(o, f)):
                raise Violation("%s of %s is %r, through the view %r" % (f, cur, getattr(o, f), getattr(m, f)))
        try:
            w = {"in use": cur, **{k: v for k, v in view(b, names, version).items() if k != "in use"}}
        except Exception as e:  # values no source line gives need not be writable
            w = type(e)
        try:
            g = view(a, names, version)
        except Exception as e:
            g = type(e)
        if isinstance(w, type) or isinstance(g, type):
            if w != g:
                raise Violation("writing: %r by hand, %r through the view" % (w, g))
            continue
        state.same(w, g, "sources changed by hand versus through the view")
    return {"nontrivial": through > 0, "key": (version, repr(log)), "sample": log}


VERSIONS = [v for v in M.VERSIONS if "method" in M.commands(v) and M.spec(v, "method").kind == "normal"]
TESTS = [Test("histories", histories, VERSIONS, n=(150, 4000))]
