"""Objects of queries that are used again and again."""
import pickle

from vt import forks, harness as H
from vt import planets
from vt.core import attempt
from vt.props.A02 import facts

LEVEL = "model_checking"
RULE = ("the reachable states of one query object under changes of the "
        "depth, the distance, the phases and the added depths, some of them "
        "invalid, each followed by a calculation, up to a number of changes "
        "(states met before are not explored again): every state against a "
        "new object with these settings; non-trivial: the object was used "
        "before")
KINDS = ("TauP_Time", "TauP_Pierce", "TauP_Path")
FEW = ["P", "S", "Pdiff", "pP"]
SETS = {
    "quick": {
        "depth": [10., 410., -5.],
        "degrees": [30., 101.],
        "phaseList": [FEW, [], ["S", "nonsense", "P"]],
        "addDepth": [[], [50., 1000.], [50.], [-1.]],
    },
    "thorough": {
        "depth": [10., 0., 410., 35., -5.],
        "degrees": [30., 101., 0.],
        "phaseList": [FEW, ["S", "PKIKP"], [], ["S", "nonsense", "P"]],
        "addDepth": [[], [50., 1000.], [50.], [35., 410.], [-1.]],
    }}
SET = SETS["quick"]


def jobs(tier):
    ps = ["n-lvz-n-n-n"] if tier == "quick" else [
        "n-lvz-n-n-n", "step-disc-slow-n-n", "lvz-const-grad0-solid-fluid"]
    return [{"planet": p, "kind": k, "way": way, "start": i, "set": tier,
             "n": (4 if tier == "thorough" else 3) + (k != KINDS[1])}
            for p in ps for k in KINDS[1:] + KINDS[:1]
            for way in ("run", "calculate")
            for i in ((0, 2) if k == KINDS[1] else (0,))
            + ((1,) if tier == "thorough" else ())]


def make(kind):
    import importlib
    return getattr(importlib.import_module("taupy." + kind), kind)


def settings(kind, i):
    """Where a history starts."""
    s = {k: v[i % len(v)] for k, v in SET.items()}
    if s["depth"] < 0:
        s["depth"] = SET["depth"][0]
    if -1. in s["addDepth"]:
        s["addDepth"] = []
    if kind != "TauP_Pierce":
        del s["addDepth"]
    return s


def new(kind, m, s):
    t = make(kind)(m, list(s["phaseList"]), s["depth"], s["degrees"])
    if "addDepth" in s:
        t.addDepth = list(s["addDepth"])
    return t


def go(t, s, way):
    """What the object gives with the settings s."""
    def whole():
        if way == "run":
            t.depth, t.degrees = s["depth"], s["degrees"]
            t.run()
        else:
            # As a program does that asks for many distances.
            t.depth = s["depth"]
            t.depthCorrect(s["depth"])
            t.calculate(s["degrees"])
        return facts(t.arrivals)
    r, e = attempt(whole)
    return type(e).__name__ if e is not None else r


def put(t, name, value, way):
    from taupy.TauP_Time import parsePhaseList
    setattr(t, name, list(value) if isinstance(value, list) else value)
    if name == "phaseList" and way != "run":
        t.phaseNames = parsePhaseList(value)


def state(t, s):
    """The settings, and everything the object holds but its results."""
    parts = [repr(sorted(s.items()))]
    for k, v in sorted(vars(t).items()):
        if k != "arrivals":
            # One by one: which objects are shared does not matter.
            for x in v if isinstance(v, list) else [v]:
                forks.put(parts, k, x)
    return forks.digest(repr(parts).encode() + forks.state())


def run(job, rec):
    global SET
    SET = SETS[job["set"]]
    forks.load_code()
    m = planets.build(rec, job["planet"], "coarse")
    kind, way = job["kind"], job["way"]
    fresh = {}

    def want(s):
        k = repr(sorted(s.items()))
        if k not in fresh:
            t = new(kind, m, s)
            fresh[k] = go(t, s, "run")
        return fresh[k]

    s0 = settings(kind, job["start"])
    tag = "%s/%s/%s" % (job["planet"], kind, way)
    t = new(kind, m, s0)
    attempt(t.run)
    rec.state((tag, state(t, s0)))
    rec.validated += 1
    todo = [([], s0, pickle.dumps(t, -1))]
    for depth in range(job["n"]):
        nxt = []
        for path, s, was in todo:
            for k in sorted(s):
                for v in SET[k]:
                    if v == s[k]:
                        continue
                    key = "%s/%r" % (tag, [s0] + path + [(k, v)])
                    t, now = pickle.loads(was), dict(s)
                    now[k] = v
                    put(t, k, v, way)
                    got = go(t, now, way)
                    rec.case(key, True, sample=key)
                    rec.transitions += 1
                    rec.validated += 1
                    bad = forks.difference(got, want(now))
                    if bad:
                        rec.bad(key, bad)
                        continue
                    t.arrivals = []
                    if rec.state((tag, state(t, now))):
                        nxt.append((path + [(k, v)], now,
                                    pickle.dumps(t, -1)))
        rec.biggest("depth", depth + 1)
        todo = nxt
        if not todo:
            rec.count("closed")
            break
    else:
        rec.count("states not explored further", len(todo))
