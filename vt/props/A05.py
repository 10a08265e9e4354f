"""Calculations that are interrupted at any point."""
import os
import pickle

from vt import forks, planets, steps
from vt.core import attempt, call, quiet
from vt.props.A02 import facts

LEVEL = "fault_enumeration"
RULE = ("queries and constructions x all lines of the code they visit x "
        "first and last visit: an exception at this point has to reach the "
        "caller, and everything calculated afterwards has to be as if the "
        "interrupted call had not been made; non-trivial: the point was "
        "reached")
FEW = ["P", "PcS", "Pdiff", "2kmps"]
CALLS = ["times", "surface", "pierce", "path", "added", "save", "build"]
ERRORS = [KeyboardInterrupt, MemoryError]


def jobs(tier):
    out = []
    ps = ["n-lvz-n-n-n"] if tier == "quick" else [
        "n-lvz-n-n-n", "step-disc-slow-n-fluid"]
    for p in ps:
        for c in CALLS:
            if tier == "quick" and c in ("surface", "path"):
                continue
            k = 4 if c != "build" else 8
            for i in range(k):
                out.append({"planet": p, "call": c, "part": [i, k],
                            "visits": ["first"] if tier == "quick"
                            else ["first", "second", "last"]})
    out.sort(key=lambda j: j["call"] != "build")
    return out


class World(object):
    def __init__(self, rec, planet):
        self.rec = rec
        m = planets.build(rec, planet, "crude")
        self.bytes = call(pickle.dumps, m, -1)
        self.path = planets.write(rec, planets.text_of(planet), "p")
        self.fresh()

    def fresh(self):
        self.m = pickle.loads(self.bytes)

    def interface(self):
        from taupy.tau import TauPyModel
        t = TauPyModel.__new__(TauPyModel)
        t.model, t.verbose = self.m, False
        return t

    def do(self, name):
        m = self.interface()
        if name == "times":
            return facts(m.get_travel_times(100., 60., FEW))
        if name == "surface":
            return facts(m.get_travel_times(0., 101., FEW))
        if name == "pierce":
            return facts(m.get_pierce_points(100., 60., FEW))
        if name == "path":
            return facts(m.get_ray_paths(35., 60., FEW))
        if name == "added":
            from taupy.TauP_Pierce import TauP_Pierce
            tp = TauP_Pierce(self.m, FEW[:2], 100., 60.)
            tp.addDepth = [50.]
            tp.run()
            return facts(tp.arrivals)
        if name == "save":
            out = os.path.join(self.rec.tmp(), "vm_x.pickle")
            self.m.writeModel(out)
            from taupy.TauModelLoader import load
            t = load(out)
            return [tuple(t.rayParams), tuple(
                tuple(b.dist) for w in t.tauBranches for b in w)]
        if name == "build":
            t = planets.create(self.path, max_delta_p=100,
                               max_depth_interval=2000,
                               max_range_interval=20, max_interp_error=5.)
            return [tuple(t.rayParams), tuple(
                tuple(b.dist) for w in t.tauBranches for b in w)]


def run(job, rec):
    forks.load_code()
    w = World(rec, job["planet"])
    name = job["call"]

    def do():
        with quiet():
            return w.do(name)

    def after(q):
        """What queries give then."""
        r, e = attempt(w.do, q)
        return r if e is None else repr(e)

    again = ["times", "added", "pierce"] + (
        [name] if name in ("build", "save") else [])
    should = do()
    later = {q: after(q) for q in again}
    seen = steps.profile(do)
    todo = []
    for n, (point, visits) in enumerate(seen.items()):
        if n % job["part"][1] != job["part"][0]:
            continue
        which = {"first": 1, "second": 2, "last": visits}
        for v in sorted({which[k] for k in job["visits"]}):
            if v <= visits:
                todo.append((point, v))
    w.fresh()
    clean = forks.state(w.m)
    for n, (point, visit) in enumerate(todo):
        for error in ERRORS if len(job["visits"]) > 1 else [
                ERRORS[n % len(ERRORS)]]:
            key = "%s/%s/%s:%d/%d/%s" % (
                job["planet"], name, os.path.basename(point[0]), point[1],
                visit, error.__name__)
            r, e, reached = steps.interrupted(do, point, visit, error())
            rec.case(key, reached, sample=key)
            if reached and not isinstance(e, error) and (
                    e is not None or forks.difference(r, should)):
                rec.bad(key, "the exception got lost, result %r" % (r,)
                        if e is None else "became %r" % e)
            changed = forks.state(w.m) != clean
            # Something that is not seen in the state is looked for at some
            # of the points.
            for q in again if changed or n % 8 == 0 else (
                    again[:1] if n % 2 else []):
                bad = forks.difference(after(q), later[q])
                if bad:
                    rec.bad(key, "afterwards %s: %s" % (q, bad))
            if changed:
                rec.count("changes of the state")
                w.fresh()
