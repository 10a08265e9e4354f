"""Every arrival, and nothing else."""
import collections
import math

from vt import harness as H
from vt import phases, planets, ref
from vt.core import call

LEVEL = "exploration"
RULE = ("planets x source depths x phases x distances: arrivals against the "
        "reference tracer, which decides by looking at every layer on the "
        "way; non-trivial: there is an arrival, or one would exist but for a "
        "shadow zone")

DEPTHS = (0., 10., 35., 100., 410., 600.)
DISTANCES = (0., 0.5, 7., 21., 33., 60., 95., 123., 151., 179., 180.)
MORE = tuple(float(d) + .25 for d in range(0, 180, 4))


def jobs(tier):
    out = []
    for i, n in enumerate(planets.names()):
        ds = DEPTHS if tier == "thorough" else (
            DEPTHS[i % 6], DEPTHS[(i + 2) % 6])
        out += [{"planet": n, "config": "coarse", "depth": h} for h in ds]
    for i, n in enumerate(planets.ODD):
        ds = DEPTHS if tier == "thorough" else (
            DEPTHS[i % 6], DEPTHS[(i + 3) % 6])
        out += [{"planet": n, "config": "coarse", "depth": h} for h in ds]
    for i, n in enumerate(planets.stacks(3)):
        # A source in a P zone: only the example below.
        for j, h in enumerate((600., 0., 10.)):
            if tier == "thorough" or (i + 5 * j) % 18 == 0:
                out.append({"planet": n, "config": "coarse", "depth": h})
    for h in (0., 100.):
        out.append({"planet": "ball", "config": "coarse", "depth": h})
    out.append({"planet": "stack-nL", "config": "coarse", "depth": 100.,
                "phases": ["P660S"], "distances": [33.]})
    for n in ("iasp91", "ak135"):
        for c in ("coarse", "noics") + ("default", "fine") * (
                tier == "thorough"):
            for h in ((0., 33., 210., 700.) if tier == "quick" else
                      (0., 1., 10., 33., 35., 100., 210., 410., 520., 700.,
                       2000., 2800.)):
                out.append({"planet": n, "config": c, "depth": h})
    if tier == "thorough":
        out += [{"planet": n, "config": "mid", "depth": h}
                for i, n in enumerate(planets.names())
                for h in (DEPTHS[i % 6],)]
    return out


def match(want, got):
    """(missing, extra) of the certain ones."""
    got = list(got)
    missing = []
    for q in sorted(want, key=lambda q: not q[3]):
        k = [x for x in got if abs(x[0] - q[0]) < 1e-7
             and abs(x[1] - q[1]) < 1e-5 * (1 + q[1])
             and abs(x[2] - q[2]) < 1e-4 * (1 + q[2])]
        if k:
            got.remove(k[0])
        elif q[3]:
            missing.append(q)
    return missing, got


def paths(planet, discons, names):
    """{name: pieces of the travel time curve} of the names understood."""
    out = {}
    for n in names:
        try:
            legs = phases.legs(n, planet, discons)
        except phases.BadName:
            continue
        out[n] = ref.curve(planet, legs) if legs is not None else []
    return out


def hits(x):
    """A distance in degrees that is x radians to the last bit, or None."""
    way = x % (2 * math.pi)
    d = math.degrees(min(way, 2 * math.pi - way))
    for k in range(-4, 5):
        e = d
        for _ in range(abs(k)):
            e = math.nextafter(e, math.copysign(999., k))
        r = e * math.pi / 180
        n = int(x // (2 * math.pi))
        if n * 2 * math.pi + r == x or (n + 1) * 2 * math.pi - r == x:
            return e


def exact(rec, made, curves, tag):
    """Exactly at the distances of sampled rays."""
    for i, phase in enumerate(made):
        if phase.name not in curves or (i + len(tag)) % 4:
            continue
        X = [float(x) for x in phase.dist]
        for j in range(1, len(X) - 1, 1 + len(X) // 8):
            d = hits(X[j])
            if d is None or min(abs(X[j] - X[j - 1]),
                                abs(X[j] - X[j + 1])) < 1e-6:
                # Or the same up to rounding.
                continue
            want = ref.arrivals(curves[phase.name], d)
            got = [(a.dist, a.time, a.rayParam)
                   for a in call(phase.calcTime, d)]
            key = "%s/%s/sample %r" % (tag, phase.name, d)
            rec.case(key)
            rec.count("distances of sampled rays")
            missing, extra = match(want, got)
            if missing or extra:
                rec.bad(key, "missing %r, extra %r" % (missing, extra))


def run(job, rec):
    m = planets.build(rec, job["planet"], job["config"])
    planet = ref.Planet.of(m).at_source(job["depth"])
    discons = [b.topDepth for b in m.tauBranches[0]]
    curves = paths(planet, discons, job.get("phases", H.ALL))
    if job["planet"] == "ball":
        # What they mean without a discontinuity is open.
        for n in H.DEPTHS:
            curves.pop(n, None)
            H.session(m, [n], job["depth"])(180.)
    at = H.session(m, list(curves), job["depth"])
    tag = "%s/%s/%r" % (job["planet"], job["config"], job["depth"])
    for d in job.get("distances", DISTANCES + MORE[
            ::5 if job["config"] == "coarse" else 2]):
        got = collections.defaultdict(list)
        for a in at(d):
            got[a.name].append((a.dist, a.time, a.rayParam))
        for n, pieces in curves.items():
            want = ref.arrivals(pieces, d)
            key = "%s/%s/%r" % (tag, n, d)
            rec.case(key, bool(want) or len(pieces) > 1)
            missing, extra = match(want, got[n])
            if missing:
                rec.bad(key, "missing %r of %r" % (missing, got[n]))
            if extra:
                rec.bad(key, "extra %r, should be %r" % (extra, want))
            rec.count("arrivals", len(got[n]))
        if d == 0.:
            exact(rec, at.tt.phases, curves, tag)
        odd = set(got) - set(curves)
        if odd:
            rec.bad(tag, "arrivals of phases not asked for: %r" % odd)
