"""A small property-testing engine: choice-sequence generation, integrated shrinking, replay.

Every random decision of a case is an integer drawn from a Src.  A case is therefore a pure
function of (test, stratum, choice list): re-running with the recorded choices reproduces it, and
shrinking edits the choice list (delete, zero, halve, decrement) while the violation persists.
The choices of a fresh case come from a generator seeded with (VERIF_SEED, test, stratum, index),
so a run does not depend on how the cases are spread over processes.
"""
import argparse
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import focus

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property is violated by this case."""


class Discard(Exception):
    """The generator made a case outside the domain."""


class Src:
    """Source of choices: recorded ones first, then random (or zero when replaying)."""
    def __init__(self, prefix=(), rng=None):
        self.prefix, self.rng = list(prefix), rng
        self.rec = []
        self.desc = {}

    def below(self, n):
        if n <= 1:
            return 0
        i = len(self.rec)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = n - 1
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def chance(self, num, den=100):
        """True with probability num/den; shrinks towards False."""
        return self.below(den) >= den - num

    def subset(self, seq, num=50, den=100):
        return [x for x in seq if self.chance(num, den)]

    def list(self, lo, hi, fn):
        return [fn() for _ in range(self.int(lo, hi))]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def text(self, alphabet, lo, hi):
        return "".join(self.choice(alphabet) for _ in range(self.int(lo, hi)))


class Test:
    """fn(src, stratum) -> dict with optional keys: nontrivial (bool), key (hashable repr for
    distinctness), sample (anything JSON).  Raises Violation if the property fails.
    strata: list of JSON-able values; n: (quick, thorough) cases per stratum, times weight(stratum)."""
    def __init__(self, name, fn, strata=(None,), n=(100, 1000), weight=None):
        self.name, self.fn, self.strata = name, fn, list(strata)
        self.n = n
        self.weight = weight

    def count(self, stratum, ti):
        return max(1, int(self.n[ti] * self.weight(stratum))) if self.weight else self.n[ti]


def seed_of(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def in_repo(tb):
    for fs in traceback.extract_tb(tb):
        if os.path.abspath(fs.filename).startswith(REPO + "/"):
            return True
    return False


class Hang(BaseException):
    """A case does not come to an end."""


CASE_SECONDS = 90


def _hang(_s, _f):
    raise Hang("no answer within %d seconds" % CASE_SECONDS)


def run_case(test, stratum, src):
    """-> ("ok", info) | ("discard",) | ("violation", message)"""
    signal.signal(signal.SIGALRM, _hang)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS, 5)
    try:
        return _run_case(test, stratum, src)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run_case(test, stratum, src):
    try:
        return ("ok", test.fn(src, stratum) or {})
    except Hang as e:
        where = [f for f in traceback.extract_tb(e.__traceback__) if os.path.abspath(f.filename).startswith(REPO + "/")]
        return ("violation", "%s%s" % (e, " in %s line %d" % (where[-1].filename, where[-1].lineno) if where else ""))
    except Discard:
        return ("discard", None)
    except Violation as e:
        return ("violation", str(e))
    except MemoryError as e:
        if in_repo(e.__traceback__):
            return ("violation", "memory exhausted by the library")
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:      # the code under test leaked something no caller expects
        if in_repo(e.__traceback__):
            return ("violation", "unexpected %s escaped from the library: %s\n%s" % (
                type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:])))
        raise


def shrink(test, stratum, choices, msg, budget=1500, seconds=40):
    """Smallest choice list found that still violates."""
    best, bmsg = list(choices), msg
    runs = [0]
    t0 = time.time()

    def attempt(c):
        nonlocal best, bmsg
        if runs[0] >= budget or time.time() - t0 > seconds:
            return False
        runs[0] += 1
        src = Src(c)
        try:
            r = run_case(test, stratum, src)
        except Exception:
            return False
        if r[0] != "violation":
            return False
        rec = list(src.rec)
        while rec and rec[-1] == 0:
            rec.pop()
        if (len(rec), sum(rec), rec) < (len(best), sum(best), best):
            best, bmsg = rec, r[1]
            return True
        return False

    attempt(best)
    improved = True
    while improved and runs[0] < budget and time.time() - t0 < seconds:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += max(1, size // 2)
            size //= 2
        for i in range(len(best) - 1, -1, -1):
            if i >= len(best) or best[i] == 0:
                continue
            for v in (0, best[i] // 2, best[i] - 1):
                if i < len(best) and v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                    improved = True
                    break
    return best, bmsg


def _limit_memory():
    """A case that eats memory without end must not take the machine down."""
    size = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (size, resource.getrlimit(resource.RLIMIT_AS)[1]))


def directed(tests, tier, scale_to):
    """The tests and strata concerned by what is new in the code, with about as many cases as usual."""
    _any, pairs, names, _s, _n = focus.find()
    ti = 1 if tier == "thorough" else 0
    out = []
    for t in tests:
        strata = [s for s in t.strata if focus.keep(s, pairs, names)]
        if not strata:
            continue
        usual = sum(t.count(s, ti) for s in t.strata)
        now = sum(t.count(s, ti) for s in strata)
        f = min(usual / now, 12.0)
        n = list(t.n)
        if n[ti] > 1:                   # a single case per stratum is an enumeration
            n[ti] = max(1, int(n[ti] * f * scale_to))
        out.append(Test(t.name, t.fn, strata, n=tuple(n), weight=t.weight))
    return out


def _shard(job):
    tests, tier, seed, k, nshards, limit = job[:6]
    extra = len(job) > 6
    if extra:
        focus.PAIRS.clear()
        focus.PAIRS.update(focus.find()[1])
    out = {"evaluations": 0, "discards": 0, "keys": set(), "samples": [], "labels": {}, "violation": None,
           "error": None, "per_test": {}, "known": set()}
    _limit_memory()
    t0 = time.time()
    ti = 1 if tier == "thorough" else 0
    try:
        for t in tests:
            j = 0
            for stratum in t.strata:
                for i in range(t.count(stratum, ti)):
                    j += 1
                    if j % nshards != k:
                        continue
                    if time.time() - t0 > limit:
                        if extra:
                            return out
                        raise TimeoutError("shard exceeded its time limit")
                    rng = random.Random(seed_of(seed, t.name, json.dumps(stratum, sort_keys=True), i, *job[6:]))
                    src = Src(rng=rng)
                    focus.SALT[0] = i
                    try:
                        r = run_case(t, stratum, src)
                    except Exception:
                        if not extra:
                            raise
                        r = ("discard", None)       # a generator that cannot do with so few commands
                    out["evaluations"] += 1
                    out["per_test"][t.name] = out["per_test"].get(t.name, 0) + 1
                    if r[0] == "discard":
                        out["discards"] += 1
                        continue
                    if r[0] == "violation":
                        if r[1].startswith(("no answer within", "memory exhausted")):
                            out["violation"] = {"test": t.name, "stratum": stratum, "choices": list(src.rec),
                                                "directed": [dict(focus.PAIRS), i], "message": r[1], "original_choices": len(src.rec), "desc": src.desc}
                            return out
                        choices, msg = shrink(t, stratum, src.rec, r[1])
                        s2 = Src(choices)
                        try:
                            run_case(t, stratum, s2)
                        except Exception:
                            pass
                        out["violation"] = {"test": t.name, "stratum": stratum, "choices": choices,
                                            "directed": [dict(focus.PAIRS), i], "message": msg, "original_choices": len(src.rec), "desc": s2.desc}
                        return out
                    info = r[1]
                    for lab in info.get("labels", ()):
                        out["labels"][lab] = out["labels"].get(lab, 0) + 1
                    for kf in info.get("known", ()):
                        out["known"].add(kf)
                    if info.get("nontrivial", True):
                        key = info.get("key")
                        out["keys"].add(hashlib.sha256(repr((t.name, stratum, key if key is not None else src.rec))
                                                       .encode("utf-8", "surrogateescape")).digest()[:8])
                        if "sample" in info and (len(out["samples"]) < 2 or rng.random() < 0.002):
                            out["samples"].append({"test": t.name, "stratum": stratum, "case": info["sample"]})
    except BaseException:
        out["error"] = traceback.format_exc()
    return out


def main(prop, tests, rule, assumptions=(), level="exploration", known=None, setup=None):
    """Entry point of every check.  known: callable(set of finding ids hit) -> list of lines."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--directed", type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        t = [x for x in tests if x.name == rp["test"]][0]
        if setup:
            setup()
        pairs, focus.SALT[0] = rp.get("directed", [{}, 0])
        focus.PAIRS.update(pairs)
        r = run_case(t, rp["stratum"], Src(rp["choices"]))
        print(r[0], "" if r[0] != "violation" else r[1])
        if r[0] == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0
    if a.only:
        tests = [t for t in tests if t.name in a.only.split(",")]
    if a.scale != 1.0:
        for t in tests:
            t.n = tuple(max(1, int(x * a.scale)) for x in t.n)
    if setup:
        setup()
    limit = 780 if a.tier == "quick" else 6 * 3600
    jobs = [(tests, a.tier, a.seed, k, a.jobs, limit) for k in range(a.jobs)]
    new = focus.find()[0]

    def run(jobs):
        global _JOBS
        if a.jobs == 1:
            return [_shard(jobs[0])]
        _JOBS = jobs
        with multiprocessing.get_context("fork").Pool(a.jobs) as pool:
            return pool.map(_shard_i, range(a.jobs), chunksize=1)
    outs = run(jobs)
    if new and not any(o["violation"] or o["error"] for o in outs):
        spent = time.time() - t0
        more = directed(tests, a.tier, a.directed)
        outs += run([(more, a.tier, a.seed, k, a.jobs, max(10, min(2 * spent, 790 - spent, 240 if a.tier == "quick" else 7200)),
                      "directed") for k in range(a.jobs)])
    vio = [o["violation"] for o in outs if o["violation"]]
    err = [o["error"] for o in outs if o["error"]]
    keys = set().union(*[o["keys"] for o in outs])
    labels, per = {}, {}
    for o in outs:
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in o["per_test"].items():
            per[k] = per.get(k, 0) + v
    samples = [s for o in outs for s in o["samples"]][:12]
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": level,
          "coverage": {"evaluations": sum(o["evaluations"] for o in outs), "distinct_nontrivial": len(keys),
                       "discarded": sum(o["discards"] for o in outs), "rule": rule, "per_test": per,
                       "labels": labels, "samples": samples or [{"none": True}]},
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(vio)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    hit = set().union(*[o["known"] for o in outs])
    if known:
        for line in known(hit):
            print(line)
    if vio:
        vio.sort(key=lambda v: (len(v["choices"]), sum(v["choices"]), v["test"]))
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay", "%s.json" % prop)
        v = dict(vio[0], property=prop, seed=a.seed, tier=a.tier, others=[
            {k: x[k] for k in ("test", "stratum", "message")} for x in vio[1:]])
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
            f.write("\n")
        print("test %s, stratum %r" % (v["test"], v["stratum"]))
        print(json.dumps(v["desc"], indent=1, default=str))
        print(v["message"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if err:
        sys.stderr.write(err[0])
        return 3
    print("%s: held on %d cases (%d distinct non-trivial) in %.1fs" % (
        prop, ev["coverage"]["evaluations"], len(keys), ev["wall_s"]))
    return 0


def import_failure(prop, e):
    """The code under test fails while being imported."""
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", "replay", "%s.json" % prop)
    with open(path, "w") as f:
        json.dump({"property": prop, "import": "".join(traceback.format_exception(e))}, f, indent=1)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"),
                   "seed": int(os.environ.get("VERIF_SEED", "1") or "1"), "level": "exploration",
                   "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "import of the library",
                                "samples": [{"import": "failed"}]}, "wall_s": 0.0, "violations": 1}, f, indent=1)
    traceback.print_exception(e)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


_JOBS = None


def _shard_i(i):
    return _shard(_JOBS[i])
