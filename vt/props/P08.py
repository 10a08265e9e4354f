"""Ray paths."""
import math

from vt import harness as H
from vt import planets, rays, ref
from vt.core import call
from vt.props.P07 import DEPTHS, known, alike

LEVEL = "exploration"
RULE = ("planets x source depths x phases x distances: every point of the "
        "path of every arrival against the way of its ray through the "
        "slowness layers; non-trivial: at least three points")
DISTANCES = (0., 1., 8.3, 19., 33., 60., 85., 104., 124., 156., 178., 180.)


def jobs(tier):
    out = []
    for i, n in enumerate(planets.every()):
        if tier == "thorough" or i % 8 == 3 or n in planets.ODD[::2]:
            for h in DEPTHS if tier == "thorough" else (
                    DEPTHS[i // 8 % 6],):
                out.append({"planet": n, "config": "coarse", "depth": h})
    for n in ("iasp91", "ak135"):
        for h in (0., 33., 210., 700.)[:4 if tier == "thorough" else 2]:
            out.append({"planet": n, "config": "coarse", "depth": h})
        if tier == "thorough":
            for h in DEPTHS:
                out.append({"planet": n, "config": "mid", "depth": h})
                out.append({"planet": n, "config": "noics", "depth": h})
    return out


def run(job, rec):
    from taupy.TauP_Path import TauP_Path
    m, planet, discons, legs = known(job, rec)
    tag = "%s/%s/%r" % (job["planet"], job["config"], job["depth"])
    tp = TauP_Path(m, list(legs) + H.SURFACE, job["depth"], 0.)
    call(tp.run)
    # The depth correction may sample more depths (see T02).
    mine = ref.Planet.of(tp.tModDepth)
    mine.source = job["depth"]
    for d in DISTANCES:
        tp.arrivals = []
        call(tp.calcPath, d)
        for a in tp.arrivals:
            key = "%s/%s/%r/%d" % (tag, a.name, d, a.time)
            pts = [(float(q.time), float(q.distRadian), float(q.depth))
                   for q in a.path]
            rec.case(key, len(pts) > 2)
            rec.count("points", len(pts))
            if pts[0] != (0., 0., job["depth"]) or pts[-1][2] != 0.:
                rec.bad(key, "from %r to %r" % (pts[0], pts[-1]))
                continue
            if any(q[0] < p[0] or q[1] < p[1] - 1e-12
                   for p, q in zip(pts[:-1], pts[1:])):
                rec.bad(key, "goes backwards")
                continue
            if any(q.p != a.rayParam for q in a.path):
                rec.bad(key, "ray parameter changes on the way")
            if a.name in H.SURFACE:
                if len(pts) != 2 or abs(pts[1][0] - a.time) > 1e-6 or \
                        abs(pts[1][1] - a.dist) > 1e-9:
                    rec.bad(key, "path of a surface wave: %r" % pts)
                continue
            p = float(a.rayParam)
            along = 0.
            if a.name in H.DIFFRACTED + H.HEAD:
                c = rays.crossings(mine, legs[a.name], [p])
                if c is None:
                    rec.bad(key, "no such ray: %r" % p)
                    continue
                along = a.dist - sum(float(q[3][0]) for q in c
                                     if q[3][0] == q[3][0])
                if abs(pts[-1][0] - a.time) > 1e-4 or \
                        abs(pts[-1][1] - a.dist) > 1e-6:
                    rec.bad(key, "path does not end at the arrival")
            want = rays.path(mine, legs[a.name], p, along)
            if want is None:
                rec.bad(key, "no such ray: %r" % p)
                continue
            e = alike(pts, want, [job["depth"]], tt=1e-3, tx=1e-5)
            if e:
                rec.bad(key, e)
            # The distance is interpolated, the ray is not.
            rec.biggest("degrees beside the receiver", abs(
                math.degrees(pts[-1][1] - a.dist)))
