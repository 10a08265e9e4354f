"""The integrals of one slowness layer."""
import itertools
import math

import numpy as np

from vt import planets, ref
from vt.core import call, attempt

LEVEL = "exploration"
RULE = ("radii x depth intervals x slownesses at both ends x ray parameters "
        "from vertical to turning at the bottom, and every layer of a model "
        "with every sampled ray; non-trivial: the ray is not vertical")

NODES, WEIGHTS = np.polynomial.legendre.leggauss(80)


def quadrature(R, t, b, p0, p1, p):
    """
    Distance and time of one crossing of a layer with slowness A r^B: the
    integrals over the radius, with a substitution that makes the turning
    point (at the end with the smaller slowness) smooth.
    """
    rt, rb = R - t, R - b
    B = math.log(p0 / p1) / math.log(rt / rb)
    x = (NODES + 1) / 2
    w = WEIGHTS / 2
    if p1 <= p0:
        r0, span, pe = rb, rt - rb, p1
    else:
        r0, span, pe = rt, rb - rt, p0
    r = r0 + span * x * x
    dr = 2 * abs(span) * x
    lr = np.log1p(span * x * x / r0)
    u = pe * np.exp(B * lr)
    # u^2 - p^2 without cancellation near the turning point.
    d = pe * pe * np.expm1(2 * B * lr) + (pe - p) * (pe + p)
    q = np.sqrt(np.maximum(d, 1e-300))
    return (float((w * dr * p / (r * q)).sum()),
            float((w * dr * u * u / (r * q)).sum()))


RADII = (6371., 1737.4)
DEPTHS = ((0., 60.), (0., 35.), (10., 40.), (100., 600.), (900., 1600.),
          (1500., 1730.), (100., 100.0009), (700., 700.05))
SPEEDS = ((6., 6.), (6., 6.5), (8., 8.8), (8., 7.9), (8., 8.0004), (5., 4.),
          (3., 2.2))
FRACTIONS = (0., .001, .3, .7, .95, .999, .9999999, 1.)


def jobs(tier):
    out = [{"R": R, "depths": list(d)} for R in RADII for d in DEPTHS]
    ns = ["iasp91", "n-lvz-n-n-n", "step-const-grad0-solid-fluid",
          "lvz-disc-slow-n-n"]
    if tier == "thorough":
        ns += ["ak135"] + planets.names()
    return out + [{"planet": n} for n in ns]


def close(a, b, rel=1e-6, ab=1e-9):
    return abs(a - b) <= ab + rel * abs(b)


def run(job, rec):
    if "planet" in job:
        return whole(job, rec)
    from taupy.SlownessLayer import SlownessLayer, create_from_vlayer
    from taupy.VelocityLayer import VelocityLayer
    from taupy.helper_classes import SlownessModelError
    R = job["R"]
    t, b = job["depths"]
    for v0, v1 in SPEEDS:
        p0, p1 = (R - t) / v0, (R - b) / v1
        tag = "%r/%r-%r/%r-%r" % (R, t, b, v0, v1)
        l = call(SlownessLayer, p0, t, p1, b)
        if v1 > 2.5:
            for isP in (True, False):
                f = 1 if isP else .5
                c = call(create_from_vlayer, VelocityLayer(
                    0, t, b, v0, v1, v0 * .5, v1 * .5), isP, R)
                rec.case("%s/vlayer/%s" % (tag, isP))
                if (c.topDepth, c.botDepth) != (t, b) or \
                        abs(c.topP - p0 / f) > 1e-9 * p0 or \
                        abs(c.botP - p1 / f) > 1e-9 * p1:
                    rec.bad(tag, "slowness of a velocity layer: %s" % c)
        low = min(p0, p1)
        for f in FRACTIONS:
            p = low * f
            key = "%s/p%r" % (tag, f)
            td = call(l.bullenRadialSlowness, p, R)
            x, T = quadrature(R, t, b, p0, p1, p)
            rec.case(key, p > 0, {"p": p, "time": td.time})
            # The quadrature resolves rays near the turning ray worst.
            rel = 1e-6 if f <= .999 or f == 1. else 2e-3
            if not (close(td.distRadian, x, rel) and close(td.time, T, rel,
                                                            1e-7)):
                rec.bad(key, "%r %r, quadrature %r %r" % (
                    td.distRadian, td.time, x, T))
            rec.biggest("difference of times", abs(td.time - T))
            # Cut in two at a depth within: the parts add up.
            for cut in (.25, .5, .9):
                d = t + (b - t) * cut
                u = call(l.evaluateAtBullen, d, R)
                want = ref.bullen_at(R, t, b, p0, p1, d)
                if not close(u, want, 1e-9):
                    rec.bad(key, "slowness %r at %r, should be %r" % (
                        u, d, want))
                back = call(l.bullenDepthFor, u, R)
                if abs(back - d) > 1e-5:
                    rec.bad(key, "depth %r for the slowness at %r" % (
                        back, d))
                if p > min(u, p0, p1):
                    continue
                one = call(call(SlownessLayer, p0, t, u, d)
                           .bullenRadialSlowness, p, R)
                two = call(call(SlownessLayer, u, d, p1, b)
                           .bullenRadialSlowness, p, R)
                ab = 1e-5 if b - t < .1 else 1e-7
                if not (close(one.distRadian + two.distRadian, td.distRadian,
                              1e-6, ab) and
                        close(one.time + two.time, td.time, 1e-6, ab)):
                    rec.bad(key, "parts of the layer do not add up: "
                            "%r %r, %r %r" % (
                                one.time + two.time, td.time,
                                one.distRadian + two.distRadian,
                                td.distRadian))
        for u in (max(p0, p1) * 1.01, low * .99):
            r, e = attempt(l.bullenDepthFor, u, R)
            rec.case("%s/outside/%r" % (tag, u))
            if not isinstance(e, SlownessModelError):
                rec.bad(tag, "depth %r of a slowness not in the layer" % r)
        ends = (call(l.bullenDepthFor, p0, R), call(l.bullenDepthFor, p1, R),
                call(l.evaluateAtBullen, t, R),
                call(l.evaluateAtBullen, b, R))
        if ends != (t, b, p0, p1):
            rec.bad(tag, "ends: %r" % (ends,))
        if call(l.hasZeroThickness) or not call(l.validate):
            rec.bad(tag, "not a layer")
        z = call(SlownessLayer, p0, t, p1, t)
        td = call(z.bullenRadialSlowness, low * .5, R)
        if not call(z.hasZeroThickness) or td.time != 0 or td.distRadian != 0:
            rec.bad(tag, "layer of no thickness")
    for args in ((1., -1., 1., 2.), (1., 1., 1., -2.)):
        r, e = attempt(SlownessLayer, *args)
        if not isinstance(e, ValueError):
            rec.bad("negative", "accepted %r" % (args,))
    for args in ((1., 3., 1., 2.), (-1., 1., 1., 2.), (1., 1., -1., 2.),
                 (float("nan"), 1., 1., 2.), (1., 1., float("nan"), 2.)):
        r, e = attempt(lambda: SlownessLayer(*args).validate())
        rec.case("invalid/%r" % (args,))
        if not isinstance(e, SlownessModelError):
            rec.bad("invalid/%r" % (args,), "validated")


def whole(job, rec):
    """All rays through all layers of a model, and their sums."""
    from taupy.helper_classes import SlownessModelError
    m = planets.build(rec, job["planet"])
    s = m.sMod
    R = s.radiusOfEarth
    for isP, layers in ((True, s.PLayers), (False, s.SLayers)):
        w = "P" if isP else "S"
        lay = ref.Layers.of(R, layers)
        rays = list(m.rayParams) + [0.]
        rays = sorted(set(rays), reverse=True)
        X, T = lay.integrals(rays)
        for i, l in enumerate(layers):
            for j, p in enumerate(rays):
                key = "%s/%s%d/%r" % (job["planet"], w, i, p)
                if p > min(l.topP, l.botP):
                    if p != max(l.topP, l.botP):
                        r, e = attempt(s.layerTimeDist, p, i, isP)
                        rec.case(key, False)
                        if not isinstance(e, SlownessModelError):
                            rec.bad(key, "ray that cannot cross: %r" % r)
                    continue
                if l.topP == l.botP and p == l.topP and \
                        l.botDepth > l.topDepth:
                    continue
                td = call(s.layerTimeDist, p, i, isP)
                rec.case(key, p > 0)
                if p == 0 and l.botDepth < R:
                    if td.distRadian != 0:
                        rec.bad(key, "vertical ray moves")
                if not (close(td.distRadian, X[j, i], 1e-6, 1e-8)
                        and close(td.time, T[j, i], 1e-6, 1e-6)):
                    rec.bad(key, "%r %r, should be %r %r" % (
                        td.distRadian, td.time, X[j, i], T[j, i]))
        # The whole way down of a ray from the surface.
        low = float("inf")
        for i, l in enumerate(layers):
            if l.topP > l.botP and l.botP < low and l.topP <= low:
                j = [k for k, p in enumerate(rays) if p == l.botP]
                if j:
                    td = call(s.approxDistance, i, l.botP, isP)
                    key = "%s/%s/turn%d" % (job["planet"], w, i)
                    rec.case(key)
                    if not (close(td.distRadian, 2 * X[j[0], :i + 1].sum(),
                                  1e-6, 1e-6) and
                            close(td.time, 2 * T[j[0], :i + 1].sum())):
                        rec.bad(key, "turning ray %r %r" % (
                            td.distRadian, td.time))
            low = min(low, l.topP, l.botP)
