"""Lookups within the sampled slowness, against plain searches."""
import math

from vt import planets, ref
from vt.core import attempt, call

LEVEL = "exploration"
RULE = ("planets x wave types x every sampled depth, the middle and both "
        "ends of each layer and the depths next to them; findDepth: every "
        "range of velocity layers with every slowness at or between their "
        "ends; non-trivial: the depth is on a boundary or in a zone of high "
        "slowness, or the slowness is found")


def jobs(tier):
    out = []
    for i, n in enumerate(planets.every()):
        if tier == "thorough" or i % 5 == 0 or n in planets.ODD:
            out.append({"planet": n, "config": "coarse"})
        if tier == "thorough":
            out.append({"planet": n, "config": "noics"})
    for n in ("iasp91", "ak135"):
        out.append({"planet": n, "config": "coarse"})
        if tier == "thorough":
            out.append({"planet": n, "config": "default"})
    return out


def lookups(rec, s, tag):
    R = s.radiusOfEarth
    from taupy.helper_classes import SlownessModelError
    for isP, layers in ((True, s.PLayers), (False, s.SLayers)):
        w = "P" if isP else "S"
        n = len(layers)
        td = [l.topDepth for l in layers]
        bd = [l.botDepth for l in layers]
        lay = ref.Layers.of(R, layers)
        zones = s.highSlownessLayerDepthsP if isP \
            else s.highSlownessLayerDepthsS
        if call(s.getNumLayers, isP) != n:
            rec.bad("%s/%s" % (tag, w), "number of layers")
        for i, l in enumerate(layers):
            if call(s.getSlownessLayer, i, isP) is not l:
                rec.bad("%s/%s/%d" % (tag, w, i), "not the layer")
        depths = set(td) | set(bd)
        depths |= {(a + b) / 2 for a, b in zip(td, bd)}
        depths |= {d + e for d in list(depths) for e in (-1e-3, 1e-3)}
        depths |= {0., R}
        low = [float("inf")]
        for l in layers:
            low.append(min(low[-1], l.topP, l.botP))
        for d in sorted(depths):
            if not 0 <= d <= R:
                continue
            key = "%s/%s/%r" % (tag, w, d)
            within = [i for i in range(n) if td[i] <= d <= bd[i]]
            zone = any(z.topDepth < d <= z.botDepth for z in zones)
            rec.case(key, len(within) > 1 or zone)
            got = (call(s.layerNumberAbove, d, isP),
                   call(s.layerNumberBelow, d, isP),
                   call(s.layerNumForDepth, d, isP) in within)
            if got != (within[0], within[-1], True):
                rec.bad(key, "layers %r, should be %r" % (
                    got, (within[0], within[-1], True)))
            if d == 0 or d == R:
                continue
            here = float(lay.above(d))
            i = within[0]
            want = min([here] + [low[i]] * zone)
            if zone and layers[i].topDepth != d:
                want = min(want, layers[i].topP)
            turn = call(s.getMinTurnRayParam, d, isP)
            if abs(turn - want) > 1e-7 * want:
                rec.bad(key, "smallest ray that turns %r, should be %r" % (
                    turn, want))
            want = min([want] + [layers[j].topP for j in within[1:]][-1:])
            any_ = call(s.getMinRayParam, d, isP)
            if abs(any_ - want) > 1e-7 * want:
                rec.bad(key, "smallest ray that turns or is reflected %r, "
                        "should be %r" % (any_, want))
        for d in (-1e-3, -100., R + 1e-3, 2 * R):
            for f in (s.layerNumberAbove, s.layerNumberBelow,
                      s.layerNumForDepth):
                rec.case("%s/%s/out/%r/%s" % (tag, w, d, f.__name__))
                r, e = attempt(f, d, isP)
                if not isinstance(e, SlownessModelError):
                    rec.bad("%s/%s/%r" % (tag, w, d), "outside: %r %r" % (
                        r, e))


def find_depths(rec, s, tag):
    """findDepth for all ranges of velocity layers."""
    from taupy.helper_classes import SlownessModelError
    R = s.radiusOfEarth
    L = s.vMod.layers
    n = len(L)
    for isP in (True, False):
        w = "P" if isP else "S"

        def ends(l):
            a, b = (l.topPVelocity, l.botPVelocity) if isP else (
                l.topSVelocity, l.botSVelocity)
            return a, b
        if n > 12:
            ranges = [(i, j) for i in range(n)
                      for j in (i, min(i + 1, n - 1), min(i + 5, n - 1))]
        else:
            ranges = [(i, j) for i in range(n) for j in range(i, n)]
        for a, b in ranges:
            if any(ends(L[k])[0] == 0 for k in range(a, b + 1)):
                continue
            segs = []
            for k in range(a, b + 1):
                v0, v1 = ends(L[k])
                segs.append((L[k].topDepth, L[k].botDepth, v0, v1))
            after = None
            if b + 1 < n:
                l = L[b + 1]
                v = ends(l)[0] or l.topPVelocity
                after = (R - l.topDepth) / v
            us = [(R - t) / v0 for t, _, v0, _ in segs] + \
                 [(R - q) / v1 for _, q, _, v1 in segs]
            if after is not None:
                us.append(after)
            us = sorted(set(us))
            ps = us + [(x + y) / 2 for x, y in zip(us[:-1], us[1:])] + \
                [us[-1] * 1.01, us[0] * .99]
            for p in ps:
                key = "%s/%s/%d-%d/%r" % (tag, w, a, b, p)
                want = None
                for k, (t, q, v0, v1) in enumerate(segs):
                    u0, u1 = (R - t) / v0, (R - q) / v1
                    if (u0 - p) * (p - u1) >= 0:
                        g = (v1 - v0) / (q - t)
                        want = (R - p * (v0 - g * t)) / (1 + p * g)
                        break
                    if k + 1 < len(segs):
                        nxt = (R - q) / segs[k + 1][2]
                    else:
                        nxt = after
                    if nxt is not None and u1 >= p >= nxt:
                        want = q
                        break
                got, e = attempt(s.findDepth, p, a, b, isP)
                rec.case(key, want is not None)
                if want is None:
                    if not isinstance(e, SlownessModelError):
                        rec.bad(key, "found %r, %r where there is none" % (
                            got, e))
                elif e is not None or abs(got - want) > 1e-5:
                    rec.bad(key, "depth %r %r, should be %r" % (
                        got, e, want))
                top, bot = L[a].topDepth, L[b].botDepth
                if a == b and want is not None:
                    got, e = attempt(s.findDepth, p, top, bot, isP)
                    if e is not None or abs(got - want) > 1e-5:
                        rec.bad(key, "by depths %r %r, should be %r" % (
                            got, e, want))


def run(job, rec):
    from taupy.SlownessModel import SlownessModel
    cfg = dict(min_delta_p=0.1, max_delta_p=11., max_depth_interval=115.,
               max_range_interval=2.5, max_interp_error=.05,
               allow_inner_core_s=True)
    cfg.update(planets.CONFIGS[job["config"]])
    vm = call(planets.velocity, rec, planets.text_of(job["planet"]))
    s = call(SlownessModel, vm, cfg["min_delta_p"], cfg["max_delta_p"],
             cfg["max_depth_interval"],
             cfg["max_range_interval"] * math.pi / 180,
             cfg["max_interp_error"], cfg["allow_inner_core_s"])
    tag = "%s/%s" % (job["planet"], job["config"])
    lookups(rec, s, tag)
    find_depths(rec, s, tag)
