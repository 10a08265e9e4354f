"""Checks of the tau branches of a model against plain sums over its layers."""
import numpy as np

from vt import ref
from vt.core import call


def lows(lay):
    """Smallest slowness above each layer."""
    m = np.minimum.accumulate(np.minimum(lay.tp, lay.bp))
    return np.concatenate([[np.inf], m[:-1]])


def check(rec, key, m, rays, extra_depths=()):
    """
    The branches of the model m: partition, rays, and the increments of all
    rays; rays is what the ray parameters should be (None: not checked).
    """
    s = m.sMod
    R = s.radiusOfEarth
    p = np.array(m.rayParams, float)
    if len(p) < 2 or (np.diff(p) >= 0).any():
        rec.bad(key, "ray parameters do not decrease")
        return
    def distinct(v):
        # Samples equal but for rounding count once.
        return [a for a, b in zip(v, list(v[1:]) + [-1.])
                if a - b > 1e-11 * a]

    if rays is not None:
        rays = distinct(rays)
        mine = np.array(distinct(list(p)))
    if rays is not None and (
            len(rays) != len(mine) or
            np.abs(np.array(rays) - mine).max() > 1e-7 * p[0]):
        odd = [x for x in p if min(abs(np.array(rays) - x)) > 1e-7 * p[0]]
        gone = [x for x in rays if min(abs(p - x)) > 1e-7 * p[0]]
        rec.bad(key, "rays that should not be there %r, missing %r" % (
            odd[:5], gone[:5]))
        return
    tb = m.tauBranches
    cuts = [b.topDepth for b in tb[0]] + [tb[0][-1].botDepth]
    if len(tb) != 2 or cuts != sorted(set(cuts)) or cuts[0] != 0 or \
            cuts[-1] != R or \
            [b.topDepth for b in tb[1]] + [tb[1][-1].botDepth] != cuts or \
            any(b.botDepth != c for w in tb for b, c in zip(w, cuts[1:])):
        rec.bad(key, "branches are no partition of the depths: %r" % cuts)
        return
    want = {c.depth for c in s.criticalDepths} | set(extra_depths)
    if set(cuts) != want:
        rec.bad(key, "branches at %r, should be %r" % (cuts, sorted(want)))
    for d in cuts + [(a + b) / 2 for a, b in zip(cuts[:-1], cuts[1:])]:
        i = max(k for k in range(len(cuts) - 1) if cuts[k] <= d)
        if call(m.findBranch, d) != i:
            rec.bad(key, "findBranch(%r)" % d)
    if call(m.getBranchDepths) != cuts[:-1]:
        rec.bad(key, "depths of the branches")
    total = {}
    for w, isP in ((0, True), (1, False)):
        layers = s.PLayers if isP else s.SLayers
        lay = ref.Layers.of(R, layers)
        X, T = lay.integrals(p)
        up = lows(lay)
        through = (p[:, None] <= up[None, :]) & \
            (p[:, None] <= np.minimum(lay.tp, lay.bp)[None, :])
        # Rays that cannot get through a layer do not get below it.
        through = np.logical_and.accumulate(through, axis=1)
        X, T = X * through, T * through
        tx = np.zeros(len(p))
        for i, b in enumerate(tb[w]):
            k = "%s/%s%d" % (key, "PS"[w], i)
            if b.isPWave != isP or call(m.getTauBranch, i, isP) is not b:
                rec.bad(k, "wave type")
            inside = (lay.td >= b.topDepth) & (lay.bd <= b.botDepth) & \
                (lay.bd > lay.td)
            x, t = X[:, inside].sum(1), T[:, inside].sum(1)
            rec.case(k, sample={"branch": [b.topDepth, b.botDepth]})
            rec.count("increments", len(p))
            if not len(b.dist) == len(b.time) == len(b.tau) == len(p):
                rec.bad(k, "number of increments")
                continue
            bx, bt, btau = (np.array(a, float)
                            for a in (b.dist, b.time, b.tau))
            # Differences of sums near zero are not zero.
            for name, got, exp, tol in (
                    ("distance", bx, x, 1e-7), ("time", bt, t, 1e-4),
                    ("tau", btau, t - p * x, 2e-4)):
                d = np.abs(got - exp)
                if not (d <= tol + 1e-7 * np.abs(exp)).all():
                    j = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
                    rec.bad(k, "%s of the ray %r is %r, should be %r" % (
                        name, p[j], got[j], exp[j]))
            tx = tx + bt
            first = int(np.where(inside)[0][0])
            # The largest ray that enters, the smallest that turns.
            low = min(up[first], lay.tp[0])
            if abs(b.maxRayParam - min(low, lay.tp[first])) > 1e-7 * p[0] \
                    and abs(b.maxRayParam - low) > 1e-7 * p[0]:
                rec.bad(k, "largest ray %r, should be %r" % (
                    b.maxRayParam, low))
        total[w] = tx
    for name, d, v in (("moho", m.mohoDepth, s.vMod.mohoDepth),
                       ("cmb", m.cmbDepth, s.vMod.cmbDepth),
                       ("iocb", m.iocbDepth, s.vMod.iocbDepth)):
        i = getattr(m, name + "Branch")
        if cuts[i] != d or (name != "iocb" and d != v and v in cuts[:-1]) or (
                name == "iocb" and v in cuts[:-1] and d != v):
            rec.bad(key, "%s branch %r at %r, should be at %r" % (
                name, i, d, v))
    return total


def snapshot(m):
    """Everything a query of the model depends on."""
    s = m.sMod
    out = [m.sourceDepth, m.sourceBranch, m.radiusOfEarth, m.mohoDepth,
           m.cmbDepth, m.iocbDepth, m.mohoBranch, m.cmbBranch, m.iocbBranch,
           tuple(m.noDisconDepths), tuple(m.rayParams), s.radiusOfEarth,
           s.allowInnerCoreS]
    for layers in (s.PLayers, s.SLayers):
        out.append(tuple((l.topP, l.topDepth, l.botP, l.botDepth)
                         for l in layers))
    out.append(tuple((c.depth, c.velLayerNum, c.pLayerNum, c.sLayerNum)
                     for c in s.criticalDepths))
    for z in (s.highSlownessLayerDepthsP, s.highSlownessLayerDepthsS,
              s.fluidLayerDepths):
        out.append(tuple((d.topDepth, d.botDepth, d.rayParam) for d in z))
    for w in m.tauBranches:
        for b in w:
            out.append((b.topDepth, b.botDepth, b.isPWave, b.maxRayParam,
                        b.minRayParam, b.minTurnRayParam, tuple(b.dist),
                        tuple(b.time), tuple(b.tau)))
    for l in s.vMod.layers:
        out.append((l.topDepth, l.botDepth, l.topPVelocity, l.botPVelocity,
                    l.topSVelocity, l.botSVelocity))
    return out
