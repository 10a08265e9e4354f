"""Pierce points."""
import math

from vt import harness as H
from vt import phases, planets, rays, ref
from vt.core import call

LEVEL = "exploration"
RULE = ("planets x source depths x phases x distances: every pierce point of "
        "every arrival against the way of the ray through the zones between "
        "discontinuities; non-trivial: at least three points")
DEPTHS = (0., 10., 35., 100., 410., 600.)
DISTANCES = (0., 1., 8.3, 19., 27., 48., 74., 101., 124., 143.5, 156., 178., 180.)


def jobs(tier):
    out = []
    for i, n in enumerate(planets.every()):
        if tier == "thorough" or i % 4 == 0 or n in planets.ODD:
            for h in DEPTHS if tier == "thorough" else (
                    DEPTHS[i // 4 % 6],):
                out.append({"planet": n, "config": "coarse", "depth": h})
    for i, n in enumerate(planets.stacks(3)):
        if tier == "thorough" or i % 12 == 5:
            out.append({"planet": n, "config": "coarse",
                        "depth": (0., 600.)[i % 2]})
    for n in ("iasp91", "ak135"):
        for h in (0., 33., 210., 700.):
            out.append({"planet": n, "config": "coarse", "depth": h})
        if tier == "thorough":
            for h in DEPTHS:
                out.append({"planet": n, "config": "default", "depth": h})
                out.append({"planet": n, "config": "noics", "depth": h})
    return out


def known(job, rec):
    """The model, the planet for the source, discontinuities, legs by name."""
    m = planets.build(rec, job["planet"], job["config"])
    planet = ref.Planet.of(m)
    for d in job.get("add", []):
        # Depths to calculate pierce points at.
        planet = planet.at_source(d)
    planet = planet.at_source(job["depth"])
    discons = [b.topDepth for b in m.tauBranches[0]]
    legs = {}
    for n in H.ALL:
        try:
            l = phases.legs(n, planet, discons)
        except phases.BadName:
            continue
        if isinstance(l, list):
            legs[n] = l
    for n in H.DIFFRACTED + H.HEAD:
        l = phases.head_legs(n, planet)
        if l is not None:
            legs[n] = l
    return m, planet, discons, legs


def alike(got, want, put_in, tt=1e-4, tx=1e-7, td=1e-3):
    """None, or what is different; points without increment are dropped."""
    def clean(pts):
        out = []
        for q in pts:
            if out and abs(q[0] - out[-1][0]) < tt and \
                    abs(q[1] - out[-1][1]) < 1e-6:
                # Nothing happens: but the ray may get to the other side of
                # a thin layer.
                if abs(q[2] - out[-1][2]) > 1e-3:
                    out[-1] = (q[0], q[1], q[2])
                continue
            out.append(q)
        return out
    g, w = clean(got), clean(want)
    if len(g) != len(w):
        return "%d points, should be %d: %r, %r" % (len(g), len(w), g, w)
    for a, b in zip(g, w):
        if not (abs(a[0] - b[0]) < tt + 1e-6 * b[0]
                and abs(a[1] - b[1]) < tx + 1e-6 * b[1]
                and (abs(a[2] - b[2]) < td or
                     # Turns next to a depth put in, where the slowness is
                     # interpolated in two ways.
                     any(max(abs(a[2] - s), abs(b[2] - s)) < .4
                         for s in put_in))):
            return "point %r, should be %r" % (a, b)
    return None


def run(job, rec):
    from taupy.TauP_Pierce import TauP_Pierce
    m, planet, discons, legs = known(job, rec)
    cuts = sorted(set(discons + [job["depth"], planet.R]))
    tag = "%s/%s/%r" % (job["planet"], job["config"], job["depth"])
    segs = planets.segs(job["planet"])
    sampled = [float(p) for p in planet.rays]
    tp = TauP_Pierce(m, list(legs) + H.SURFACE, job["depth"], 0.)
    call(tp.run)
    for d in DISTANCES:
        tp.arrivals = []
        call(tp.calcPierce, d)
        compare(rec, job, tag, tp.arrivals, d, planet, legs, cuts, segs,
                sampled)


def compare(rec, job, tag, arrivals, d, planet, legs, cuts, segs, sampled):
    """Pierce points of all arrivals."""
    for a in arrivals:
        key = "%s/%s/%r/%d" % (tag, a.name, d, a.time)
        pts = [(float(q.time), float(q.distRadian), float(q.depth))
               for q in a.pierce]
        rec.case(key, len(pts) > 2)
        rec.count("points", len(pts))
        if any(abs(q.p - a.rayParam) > 1e-6 * (1 + a.rayParam)
               for q in a.pierce):
            rec.bad(key, "ray parameter changes on the way")
        if pts[0] != (0., 0., job["depth"]) or pts[-1][2] != 0. or \
                abs(pts[-1][0] - a.time) > 1e-5 * (1 + a.time) or \
                abs(pts[-1][1] - a.dist) > 1e-7:
            rec.bad(key, "from %r to %r, arrival after %r s at %r" % (
                pts[0], pts[-1], a.time, a.dist))
            continue
        if any(q[0] < p[0] or q[1] < p[1] - 1e-12
               for p, q in zip(pts[:-1], pts[1:])):
            rec.bad(key, "goes backwards: %r" % pts)
            continue
        if a.name in H.SURFACE:
            if len(pts) != 2:
                rec.bad(key, "pierce points of a surface wave: %r" % pts)
            continue
        p = a.rayParam
        if a.name in H.DIFFRACTED + H.HEAD:
            c = rays.crossings(planet, legs[a.name], [p])
            if c is None:
                rec.bad(key, "no such ray: %r" % p)
                continue
            n = sum(1 for l in legs[a.name] if l[0] == "along")
            x = sum(float(q[3][0]) for q in c if q[3][0] == q[3][0])
            want = rays.pierce(planet, legs[a.name], cuts, p, p, p, 0.,
                               (a.dist - x) / n, segs)
        else:
            pa = min(q for q in sampled if q >= p - 1e-9)
            below = [q for q in sampled if q < pa]
            if not below:
                continue
            pb = below[0] if below[0] > below[-1] else max(below)
            f = (p - pa) / (pb - pa)
            want = rays.pierce(planet, legs[a.name], cuts, p, pa, pb, f,
                               segs=segs)
        if want is None:
            rec.bad(key, "no such ray: %r" % p)
            continue
        e = alike(pts, want, [job["depth"]] + job.get("add", []))
        if e:
            rec.bad(key, e)
