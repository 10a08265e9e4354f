"""Queries in several threads that share a model."""
import os
import pickle

from vt import branches, forks, planets, steps
from vt.core import call, quiet
from vt.props.A02 import facts

LEVEL = "model_checking"
RULE = ("pairs of calls on one model in two threads under a scheduler: all "
        "schedules with one preemption at any line of the code that is "
        "visited (first, in the thorough tier also last visit; quick: only "
        "beginnings of functions for calls that take long), and all with "
        "two preemptions at the beginnings of functions (quick: of those "
        "for whole queries); both calls have to give what they give alone; "
        "states are those of the shared model and the modules where a "
        "thread is preempted; non-trivial: the point was reached")
FEW = ["P", "PcS", "Pdiff", "2kmps"]
PAIRS = [("path", "other path"), ("read", "other read"), ("times", "times"), ("times", "other"), ("pierce", "path"),
         ("added", "times"), ("other", "added"), ("build", "times"),
         ("read", "times"), ("save", "load"),
         ("times", "surface"), ("build", "other build")]
# Where whole queries are coordinated.
OUTER = ("tau.py", "TauP_Time.py", "TauP_Pierce.py", "TauP_Path.py",
         "TauModel.py", "TauP_Create.py", "TauModelLoader.py", "Arrival.py")


def jobs(tier):
    out = []
    ps = ["n-lvz-n-n-n"] if tier == "quick" else [
        "n-lvz-n-n-n", "step-disc-slow-n-fluid"]
    for p in ps:
        for i, pair in enumerate(PAIRS):
            if tier == "quick" and i > 9:
                continue
            k = 6 if tier == "quick" else 12
            for j in range(k):
                out.append({"planet": p, "pair": pair, "part": [j, k],
                            "tier": tier})
    out.sort(key=lambda j: "build" not in j["pair"])
    return out


class World(object):
    def __init__(self, rec, planet):
        m = planets.build(rec, planet, "crude")
        self.bytes = pickle.dumps(m, -1)
        self.paths = [planets.write(rec, planets.text_of(n), n)
                      for n in (planet, "none-disc-slow-n-fluid")]
        # A small planet.
        self.small = planets.write(rec, planets.tvel_text(
            [(0., 40., 5., 5.5, 2.9, 3.), (40., 1300., 7.7, 8., 4.4, 4.5),
             (1300., 1737.4, 4., 5., 0., 0.)]), "vm_small")
        self.saved = os.path.join(rec.tmp(), "vm_saved.taup")
        m.writeModel(self.saved)
        self.other = call(m.depthCorrect, 300.)
        self.fresh()

    def fresh(self):
        from taupy.tau import TauPyModel
        self.t = TauPyModel.__new__(TauPyModel)
        self.t.model, self.t.verbose = pickle.loads(self.bytes), False

    def do(self, name):
        from taupy.TauModelLoader import load
        from taupy.VelocityModel import VelocityModel
        m = self.t
        if name == "times":
            return facts(m.get_travel_times(100., 60., ["P", "PcS"]))
        if name == "other":
            return facts(m.get_travel_times(410., 33., ["P", "sS"]))
        if name == "surface":
            return facts(m.get_travel_times(0., 101., FEW))
        if name == "pierce":
            return facts(m.get_pierce_points(100., 60., FEW[1:]))
        if name == "path":
            return facts(m.get_ray_paths(35., 101., FEW[::2]))
        if name == "other path":
            return facts(m.get_ray_paths(200., 60., ["S"]))
        if name in ("read", "other read"):
            v = VelocityModel.readVelocityFile(
                self.small if name == "read" else self.paths[0])
            return (v.radiusOfEarth, v.maxRadius, v.modelName, tuple(
                v.getDisconDepths()), repr(
                    [sorted(vars(x).items()) for x in v.layers]),
                v.mohoDepth, v.cmbDepth, v.iocbDepth)
        if name == "save":
            path = os.path.join(os.path.dirname(self.saved), "vm_o.taup")
            self.other.writeModel(path)
            return repr(branches.snapshot(load(path)))
        if name == "load":
            return repr(branches.snapshot(load(self.saved)))
        if name == "added":
            from taupy.TauP_Pierce import TauP_Pierce
            tp = TauP_Pierce(m.model, FEW[:1], 100., 60.)
            tp.addDepth = [50.]
            tp.run()
            return facts(tp.arrivals)
        i = int(name == "other build")
        c = dict(max_delta_p=100, max_depth_interval=2000,
                 max_range_interval=20, max_interp_error=5.) if i else dict(
                     max_delta_p=80, max_depth_interval=1500,
                     max_range_interval=15, max_interp_error=3.,
                     allow_inner_core_s=False)
        t = planets.create(self.paths[i], **c)
        return [tuple(t.rayParams), tuple(
            tuple(b.dist) for w in t.tauBranches for b in w)]


def run(job, rec):
    forks.load_code()
    w = World(rec, job["planet"])
    one, two = job["pair"]
    i, k = job["part"]
    with quiet():
        should = [w.do(one), w.do(two)]
        seen = [steps.profile(lambda: w.do(one)),
                steps.profile(lambda: w.do(two))]
        w.fresh()
        clean = forks.state(w.t.model)
        rec.state(clean)
        todo = []
        for point, visits in seen[0].items():
            for v in {1} if job["tier"] == "quick" else {1, visits}:
                todo.append((point, v, None))
        heads = [steps.entries(s) for s in seen]
        if job["tier"] == "quick" and {"build", "added"} & {one, two}:
            # These take long.
            todo = [t for t in todo if t[0] in heads[0] or os.path.basename(
                t[0][0]) in OUTER]
            heads = [[], []]
        elif job["tier"] == "quick":
            heads = [[p for p in h if os.path.basename(p[0]) in OUTER]
                     for h in heads]
        todo += [(a, 1, b) for a in heads[0] for b in heads[1]]
        if one != two:
            todo += [(p, 1, False) for p in seen[1]]
        for n, (a, visit, b) in enumerate(todo):
            if n % k != i:
                continue
            f, g = (lambda: w.do(one)), (lambda: w.do(two))
            want = should
            if b is False:
                # The second call is the one that is preempted.
                f, g, want, b = g, f, should[::-1], None
            key = "%s/%s/%s/%d/%s" % (
                job["planet"], "+".join(job["pair"]), show(a), visit,
                show(b) + ("/second" if want is not should else ""))
            r = steps.schedule(f, g, a, visit, b)
            if r is None:
                rec.bad(key, "never ends")
                return
            rec.case(key, r[0].reached, sample=key)
            rec.transitions += 2 + (b is not None)
            rec.validated += 1
            for t, x, which in zip(r, want, ("first", "second")):
                bad = repr(t.error) if t.error is not None else \
                    forks.difference(t.result, x)
                if bad:
                    rec.bad(key, "the %s thread: %s" % (which, bad))
            s = forks.state(w.t.model)
            rec.state(s)
            if s != clean:
                rec.count("changes of the state")
                w.fresh()


def show(p):
    return "-" if p is None else "%s:%d" % (os.path.basename(p[0]), p[1])
