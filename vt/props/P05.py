"""Angles of the ray at the source and at the surface."""
import math

from vt import harness as H
from vt import planets

LEVEL = "exploration"
RULE = ("planets (some of other radii) x source depths on and between "
        "discontinuities x all phases x distances: both angles against "
        "Snell's law with the velocities of the file; non-trivial: the ray "
        "is not vertical")
DEPTHS = (0., 10., 15., 20., 35., 100., 410., 600., 660., 1500.)
DISTANCES = [0., 0.7, 2., 5., 11., 17., 25., 41., 66., 88., 99., 107.,
             119., 141., 145., 152., 163., 175., 180.]
PHASES = H.ALL + H.DIFFRACTED + H.HEAD + H.SURFACE


def jobs(tier):
    out = []
    for i, n in enumerate(planets.every()):
        if tier == "thorough" or i % 6 == 1 or n in planets.WHOLE:
            for h in DEPTHS if tier == "thorough" else (
                    DEPTHS[i % 10], DEPTHS[(i + 3) % 10]):
                out.append({"planet": n, "depth": h})
    for n in ("iasp91", "ak135"):
        for h in (0., 35., 120., 410.):
            out.append({"planet": n, "depth": h})
    for k in (.25, 2.):
        for h in (0., 35., 100., 410.):
            out.append({"planet": "lvz-disc-n-n-n", "depth": h * k,
                        "scale": k})
    return out


def velocity(segs, depth, wave, up):
    """Just above or below the depth."""
    o = 2 if wave == "P" else 4
    for s in segs:
        if (s[0] < depth <= s[1]) if up else (s[0] <= depth < s[1]):
            f = (depth - s[0]) / (s[1] - s[0])
            return s[o] + f * (s[o + 1] - s[o])


def run(job, rec):
    segs = planets.segs(job["planet"])
    k = job.get("scale", 1.)
    segs = [(a * k, b * k) + tuple(s) for a, b, *s in segs]
    R = segs[-1][1]
    path = planets.write(rec, planets.tvel_text(segs), "scaled")
    m = planets.call(planets.create, path, **planets.CONFIGS["coarse"])
    h = job["depth"]
    if h >= m.cmbDepth:
        return
    at = H.session(m, PHASES, h)
    for d in DISTANCES:
        for a in at(d):
            key = "%s/%r/%r/%s/%r/%d" % (job["planet"], k, h, a.name, d,
                                         a.time)
            rec.case(key, a.rayParam > 1)
            if a.name in H.SURFACE:
                if a.takeoffAngle != 0 or a.incidentAngle != 0:
                    rec.bad(key, "angles of a surface wave")
                continue
            up = a.name[0] in "ps"
            legs = [c for c in a.name.replace("diff", "") if c in "PSps"]
            v = velocity(segs, h, a.name[0].upper(), up)
            w = velocity(segs, 0., legs[-1].upper(), False)
            for what, angle, sine in (
                    ("takeoff", -a.takeoffAngle if up else a.takeoffAngle,
                     v * a.rayParam / (R - h)),
                    ("incident", a.incidentAngle, w * a.rayParam / R)):
                if not 0 <= angle <= 90 + 1e-9 or \
                        abs(math.sin(math.radians(angle)) -
                            min(1., sine)) > 1e-6 or sine > 1 + 1e-3:
                    rec.bad(key, "%s angle %r, its sine should be %r" % (
                        what, angle, sine))
