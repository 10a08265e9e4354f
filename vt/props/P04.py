"""Travel times against the velocity model itself."""
import math

import numpy as np

from vt import harness as H
from vt import phases, planets, ref
from vt.core import call

LEVEL = "exploration"
RULE = ("planets x source depths x phases x distances: the time of every "
        "arrival against the time of the ray with its slowness through "
        "layers of 1 km made directly from the velocity file, which for that "
        "distance differs in the second order only; non-trivial: the ray is "
        "not vertical")
DEPTHS = (0., 10., 35., 100., 410., 600.)
DISTANCES = (0., .5, 2., 6., 12., 17., 21., 24., 31., 45., 61., 77., 92., 99.,
             107., 119., 131., 142., 146., 153., 167., 179.,
             180.)
STEP = 1.
# Seconds allowed for each sampling, per crossing of the planet.
TOL = {"default": .15, "coarse": 2., "fine": .05}


def jobs(tier):
    out = []
    for i, n in enumerate(planets.every()):
        if tier == "thorough":
            for h in DEPTHS[i % 2::2]:
                out.append({"planet": n, "config": "default", "depth": h})
        elif i % 18 == 13 or n in planets.ODD[::4]:
            out.append({"planet": n, "config": "default",
                        "depth": DEPTHS[i // 18 % 6]})
    for n in ("iasp91", "ak135"):
        for h in (0., 33., 210., 700.)[:4 if tier == "thorough" else 1]:
            out.append({"planet": n, "config": "default", "depth": h})
    out.reverse()
    return out


def slices(segs, R, wave):
    td, bd, tp, bp = [], [], [], []
    for t, b, a0, a1, s0, s1 in segs:
        v0, v1 = (a0, a1) if wave == "P" or s0 == 0 else (s0, s1)
        n = max(1, int(math.ceil((b - t) / STEP)))
        z = np.linspace(t, b, n + 1)
        v = v0 + (v1 - v0) * (z - t) / (b - t)
        p = (R - z) / v
        td += list(z[:-1])
        bd += list(z[1:])
        tp += list(p[:-1])
        bp += list(p[1:])
    return ref.Layers(R, td, bd, tp, bp)


def exact(m, name, depth):
    """The planet in fine layers."""
    segs = planets.segs(name)
    R = segs[-1][1]
    s = m.sMod
    q = ref.Planet(R, slices(segs, R, "P").split(depth),
                   slices(segs, R, "S").split(depth), m.mohoDepth,
                   m.cmbDepth, m.iocbDepth,
                   fluids(segs), s.allowInnerCoreS)
    q.source = depth
    return q


def fluids(segs):
    out = []
    for t, b, a0, a1, s0, s1 in segs:
        if s0 == 0 == s1:
            if out and out[-1][1] == t:
                out[-1] = (out[-1][0], b)
            else:
                out.append((t, b))
    return out


def totals(planet, legs, ps):
    """(X, T, exists) of the rays ps along the legs."""
    ps = np.asarray(ps, float)
    X, T = np.zeros(len(ps)), np.zeros(len(ps))
    ok = np.ones(len(ps), bool)
    tables = {}
    for kind, w, a, b in legs:
        if kind == "along":
            continue
        lay = planet.prof[w]
        if w not in tables:
            tables[w] = lay.integrals(ps)
        tx, tt = tables[w]
        z = lay.zone(a, b)
        lo, hi = z[0], z[-1] + 1
        low = np.minimum(lay.tp[lo:hi], lay.bp[lo:hi])
        if kind != "turn":
            ok &= ps <= low.min() * (1 + 1e-12)
            X += tx[:, lo:hi].sum(1)
            T += tt[:, lo:hi].sum(1)
            continue
        up = np.concatenate([[np.inf], np.minimum.accumulate(low)[:-1]])
        reach = (ps[:, None] <= up[None, :]) & \
            (ps[:, None] <= lay.tp[None, lo:hi])
        reach = np.logical_and.accumulate(reach, axis=1)
        ok &= reach[:, 0]
        X += 2 * (tx[:, lo:hi] * reach).sum(1)
        T += 2 * (tt[:, lo:hi] * reach).sum(1)
    return X, T, ok


def run(job, rec):
    h = job["depth"]
    m = planets.build(rec, job["planet"], job["config"])
    planet = exact(m, job["planet"], h)
    discons = sorted(set(H.discontinuities(planets.segs(job["planet"]))))
    legs = {}
    for n in H.ALL:
        try:
            l = phases.legs(n, planet, discons)
        except phases.BadName:
            continue
        if isinstance(l, list):
            legs[n] = l
    for n in H.DIFFRACTED + H.HEAD:
        l = phases.head_legs(n, planet)
        if l is not None:
            legs[n] = l
    tag = "%s/%s/%r" % (job["planet"], job["config"], h)
    at = H.session(m, list(legs), h)
    todo = {}
    for d in DISTANCES:
        for a in at(d):
            todo.setdefault(a.name, []).append((d, a))
    sampled = np.array(call(m.depthCorrect, h).rayParams, float)
    for n, l in sorted(todo.items()):
        bent = n not in H.DIFFRACTED + H.HEAD
        for (d, a), X, T, ok in zip(l, *totals(planet, legs[n], [
                a.rayParam for d, a in l])):
            p = a.rayParam
            key = "%s/%s/%r/%d" % (tag, n, d, a.time)
            rec.case(key, p > 0)
            if not ok:
                rec.count("no such ray")
                rec.count("no such ray " + n)
                continue
            want = T + p * (a.dist - X)
            e = a.time - want
            # Where rays far apart are sampled the interpolation is coarse.
            gap = 0.
            if bent:
                i = np.searchsorted(-sampled, -p)
                near = sampled[max(0, i - 1):i + 2]
                gap = abs(a.dist - X) * (near[0] - near[-1]) / 2
            tol = TOL[job["config"]] * max(2., len(legs[n])) + 2. * gap
            rec.biggest("error", abs(e))
            rec.biggest("part of what is allowed", abs(e) / tol)
            rec.biggest("seconds for coarse sampling", gap)
            if not abs(e) <= tol:
                rec.bad(key, "%r s, should be %r (ends %r degrees off)" % (
                    a.time, want, math.degrees(a.dist - X)))
