"""The ray parameter is the slope of the travel time curve."""
import math

from vt import harness as H
from vt import planets

LEVEL = "exploration"
RULE = ("planets x source depths x all phases x distances and distances "
        "1e-4 degrees next to them: the slope between the arrivals of one "
        "part of the curve is a slowness between the two sampled rays next "
        "to the arrival; non-trivial: the same arrival exists at all three "
        "distances")
DEPTHS = (0., 10., 35., 100., 410., 600.)
DISTANCES = [0.4 + 3.7 * i for i in range(49)]
STEP = 1e-4
# How far the curve may turn back, in radians; it may no more than what makes
# this many times the limit of the interpolation error for each leg.
BACK = .15
ERRORS = 1.5
PHASES = H.ALL + H.DIFFRACTED + H.HEAD + H.SURFACE


def jobs(tier):
    out = []
    for i, n in enumerate(planets.every()):
        ds = DEPTHS if tier == "thorough" else (DEPTHS[(i // 3) % 6],)
        if tier == "thorough" or i % 3 == 0 or n in planets.ODD:
            out += [{"planet": n, "config": "coarse", "depth": h}
                    for h in ds]
    for i, n in enumerate(planets.stacks(3)):
        # Sources in zones have rays that the model has not.
        for j, h in enumerate((600., 0.)):
            if tier == "thorough" or (i + 20 * j) % 40 == 0:
                out.append({"planet": n, "config": "coarse", "depth": h})
    for n in ("iasp91", "ak135"):
        for h in (0., 33., 210., 700.):
            out.append({"planet": n, "config": "coarse", "depth": h})
        if tier == "thorough":
            for h in (0., 50., 410., 600.):
                out.append({"planet": n, "config": "default", "depth": h})
    return out


def run(job, rec):
    m = planets.build(rec, job["planet"], job["config"])
    at = H.session(m, PHASES, job["depth"])
    error = planets.CONFIGS[job["config"]].get("max_interp_error", .05)
    rays = None
    for d in DISTANCES:
        three = []
        for x in (d - STEP, d, d + STEP):
            byname = {}
            for a in at(x):
                byname.setdefault(a.name, []).append(a)
            three.append(byname)
        rays = sorted(set(float(x) for x in at.tt.tModDepth.rayParams))
        for name, arrivals in three[1].items():
            for a in arrivals:
                key = "%s/%s/%r/%s/%r/%r" % (
                    job["planet"], job["config"], job["depth"], name, d,
                    round(a.time))
                # The same ray family a little further and nearer.
                near = [[b for b in t.get(name, [])
                         if abs(abs(b.dist - a.dist) - math.radians(STEP))
                         < 1e-12 and abs(b.time - a.time) < 1.5 *
                         max(a.rayParam, 1e-3) * math.radians(STEP) + 1e-6
                         and abs(b.rayParam - a.rayParam) < 5.]
                        for t in (three[0], three[2])]
                ok = len(near[0]) == 1 and len(near[1]) == 1
                rec.case(key, ok)
                if not ok:
                    continue
                lo, hi = near[0][0], near[1][0]
                if abs(lo.dist - hi.dist) < 1e-9:
                    continue
                slope = (hi.time - lo.time) / (hi.dist - lo.dist)
                below = [x for x in rays if x <= min(
                    lo.rayParam, hi.rayParam, a.rayParam) + 1e-9]
                above = [x for x in rays if x >= max(
                    lo.rayParam, hi.rayParam, a.rayParam) - 1e-9]
                if name in H.SURFACE:
                    below = above = [a.rayParam]
                if name in H.DIFFRACTED + H.HEAD and abs(
                        slope - a.rayParam) > 1e-3:
                    rec.bad(key, "slope %r, ray parameter %r" % (
                        slope, a.rayParam))
                if not below or not above:
                    rec.bad(key, "ray parameter %r is none of the model" %
                            a.rayParam)
                    continue
                # The curve may turn back between two samples, near a
                # caustic: then the chord is steeper than the rays. It spans
                # few distances there.
                gap = above[0] - below[-1]
                dp = abs(hi.rayParam - lo.rayParam)
                span = gap * abs(hi.dist - lo.dist) / dp if dp > 0 else 1.
                turn = min(gap / 2 * BACK, ERRORS * error * sum(
                    c in 'PSpsKIJ' for c in name))
                slack = turn / max(span, 1e-6) + 2e-3
                rec.biggest("slack in slope", max(
                    below[-1] - slope, slope - above[0], 0.) / (
                    gap / 2 / span + 1e-9) if gap > 1e-6 else 0.)
                if not below[-1] - slack <= slope <= above[0] + slack:
                    rec.bad(key, "slope %r, ray parameter %r, sampled rays "
                            "%r and %r, span %r" % (
                                float(slope), float(a.rayParam), below[-1],
                                above[0], float(span)))
