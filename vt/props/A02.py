"""Histories of queries of one model."""
import io
import os
import pickle

from vt import forks, harness as H
from vt import planets
from vt.core import attempt, call, quiet

LEVEL = "model_checking"
RULE = ("all histories of up to 2 (thorough 3) operations on one model out "
        "of queries of all kinds, failing ones, changes to results, other "
        "models and files; states are those of the model and of all modules; "
        "every operation has to give what it gives as the first one, and "
        "earlier results must stay as they are; non-trivial: not the first "
        "operation")
FEW = ["P", "S", "PcP", "PKIKP", "Pn", "Pdiff", "SKS", "pP", "P410s", "2kmps"]
OPS = ["ttall", "times", "deep", "pierce", "path", "added", "printed",
       "printed pierce", "coordinates", "negative depth", "no distance",
       "unknown phases", "long", "change results", "pierce again",
       "other model", "save"]


def jobs(tier):
    ps = ["n-lvz-n-n-n", "iasp91"] if tier == "quick" else [
        "n-lvz-n-n-n", "iasp91", "step-disc-slow-solid-fluid",
        "none-const-grad0-n-n", "lvz-lvz-slow-n-fluid"]
    k = 4 if tier == "quick" else len(OPS)
    return [{"planet": p, "first": list(range(i, len(OPS), k)),
             "n": 2 if tier == "quick" else 3} for p in ps for i in range(k)]


def facts(arrivals):
    """All values of arrivals; those at the same time may be in any order."""
    return sorted((a.time, a.name, a.puristName, a.dist, a.rayParam,
                   float(a.takeoffAngle), float(a.incidentAngle),
                   a.sourceDepth,
                   tuple((q.p, q.time, q.distRadian, q.depth)
                         for q in a.pierce),
                   tuple((q.p, q.time, q.distRadian, q.depth)
                         for q in a.path)) for a in arrivals)


class World(object):
    """What a history acts on."""

    def __init__(self, rec, planet):
        m = planets.build(rec, planet, "coarse")
        self.model = H.interface(rec, m, "hist")
        self.dir = rec.tmp()
        self.other = planets.write(
            rec, planets.text_of("none-disc-slow-n-fluid"), "other")
        self.kept = []

    def do(self, name):
        """(kind, value): what the user sees of an operation."""
        m = self.model
        ask = {
            "ttall": lambda: m.get_travel_times(10., 35.),
            "times": lambda: m.get_travel_times(100., 60., FEW),
            "deep": lambda: m.get_travel_times(600., 101., FEW),
            "pierce": lambda: m.get_pierce_points(100., 60., FEW),
            "path": lambda: m.get_ray_paths(35., 101., FEW),
            "added": self.added,
            "printed": lambda: m.get_travel_times(
                10., 60., FEW, None, True),
            "printed pierce": lambda: m.get_pierce_points(
                10., 60., FEW, None, True),
            "coordinates": lambda: m.get_travel_times(
                0., None, FEW, [10., 20., -30., 40.]),
            "negative depth": lambda: m.get_travel_times(-5., 30., FEW),
            "no distance": lambda: m.get_pierce_points(5., None, FEW),
            "unknown phases": lambda: m.get_ray_paths(
                5., 30., ["Pxy", "", "P^cP^", "kmps"]),
            "long": lambda: m.get_travel_times(
                0., 200., ["PKIKPPKIKPPKIKP", "SKSSKS", "ScSScSScS"]),
            "change results": self.change,
            "pierce again": self.again,
            "other model": self.build,
            "save": self.save,
        }[name]
        with quiet() as out:
            r, e = attempt(ask)
        # What is printed of failures is of no interest.
        if e is not None:
            return "raised", type(e).__name__
        if r is None:
            return "printed", out.getvalue()
        if isinstance(r, list) and name != "change results":
            self.kept.append((r, facts(r)))
            return "arrivals", facts(r)
        return "value", r

    def added(self):
        from taupy.TauP_Pierce import TauP_Pierce
        tp = TauP_Pierce(self.model.model, FEW, 100., 60.)
        tp.addDepth = [50., 1000.]
        tp.run()
        return list(tp.arrivals)

    def change(self):
        """A user does what she likes with the arrivals she got."""
        m = self.model
        for f in (m.get_travel_times, m.get_pierce_points, m.get_ray_paths):
            r = f(100., 60., FEW)
            for a in r:
                a.time, a.name, a.rayParam = -1., "x", 0.
                for l in (a.pierce, a.path):
                    for q in l:
                        q.depth = q.time = -7.
                    del l[:]
            del r[:]
        return "changed"

    def again(self):
        """Points of arrivals that are calculated when asked for."""
        r = self.model.get_travel_times(410., 35., FEW)
        for a in r:
            a.getPierce()
            a.getPath()
        return r

    def build(self):
        from taupy.TauP_Create import TauP_Create
        c = TauP_Create(self.other, os.path.join(self.dir, "o.pickle"),
                        allow_inner_core_s=False, max_delta_p=60,
                        max_depth_interval=700., max_range_interval=15,
                        max_interp_error=2.)
        c.loadVMod()
        t = c.createTauModel(c.vMod)
        return tuple(facts(H.times(t, FEW, 100., 60.)))

    def save(self):
        path = os.path.join(self.dir, "vm_again_%d.pickle" % os.getpid())
        self.model.model.writeModel(path)
        try:
            from taupy.tau import TauPyModel
            return tuple(facts(TauPyModel(path).get_travel_times(
                100., 60., FEW)))
        finally:
            os.remove(path)

    def state(self):
        return forks.state(self.model.model)


def walk(world, history, ops, n, want):
    """Records of all histories that begin with the one that was run."""
    out = []
    for name in ops:
        def one():
            got = world.do(name)
            bad = forks.difference(got, want[name])
            if not bad:
                for r, was in world.kept:
                    bad = bad or forks.difference(facts(r), was)
                if bad:
                    bad = "an earlier result changed: " + bad
            h = history + [name]
            recs = [(h, world.state(), bad)]
            if len(h) < n and not bad:
                recs += walk(world, h, OPS, n, want)
            return recs
        out += forks.child(one)
    return out


def run(job, rec):
    forks.load_code()
    world = World(rec, job["planet"])
    want = {n: forks.child(lambda: world.do(n)) for n in OPS}
    first = world.state()
    rec.state(first)
    for name in OPS:
        rec.validated += 1
        kind = want[name][0]
        should = "raised" if name in ("negative depth", "no distance") else \
            "printed" if name.startswith("printed") else kind
        if kind != should or kind == "arrivals" and not want[name][1] and \
                name != "unknown phases":
            rec.bad("%s/%s" % (job["planet"], name), "gives %r" % (
                want[name],))
    for h, s, bad in walk(world, [], [OPS[i] for i in job["first"]],
                          job["n"], want):
        key = job["planet"] + "/" + " > ".join(h)
        rec.case(key, len(h) > 1)
        rec.transitions += 1
        rec.validated += 1
        if rec.state(s):
            rec.count("states other than the first")
        if bad:
            rec.bad(key, bad)
