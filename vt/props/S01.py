"""The sampling of the slowness."""
import math

from vt import planets, ref
from vt.core import call

LEVEL = "exploration"
RULE = ("every planet of the alphabet with every sampling configuration; "
        "every slowness layer of both wave types of each; non-trivial: a "
        "layer of non-zero thickness")


def jobs(tier):
    out = []
    for i, n in enumerate(planets.every()):
        configs = ["coarse"]
        if tier == "thorough":
            configs = ["coarse", "mid", "fine", "default", "noics"]
        elif i % 16 in (0, 5):
            configs = ["coarse", "mid", "noics"] + ["fine"] * (i % 16 == 5)
        out += [{"planet": n, "config": c} for c in configs]
    for i, n in enumerate(planets.stacks(3)):
        if tier == "thorough" or i % 5 == 0 or n in STUCK:
            out.append({"planet": n, "config": "coarse"})
    for n in ("iasp91", "ak135"):
        for c in ("default", "coarse", "noics"):
            out.append({"planet": n, "config": c})
    # One limit at a time.
    for i, n in enumerate(planets.names()):
        for j, c in enumerate(LIMITS):
            if tier == "thorough" or (i + j) % (
                    16 if c.startswith("depth") else 97) == 0:
                out.append({"planet": n, "config": c})
    return out


# The sampling of these once never ended.
STUCK = ["stack-" + k for k in
         "llF lDF lLF lUF lrF UlF UDF ULF".split()]

# A single limit that matters, the others are out of reach: depth, range (in
# degrees), interpolation error.
LIMITS = ["depth:%d" % d for d in (23, 47, 70, 110, 160, 240, 330, 420, 700,
                                   900)] + \
    ["range:%g" % r for r in (.8, 1.7, 4, 9, 20)] + \
    ["error:%g" % e for e in (.01, .03, .1, .4, 2)]


def sampling(config):
    cfg = dict(min_delta_p=0.1, max_delta_p=11., max_depth_interval=115.,
               max_range_interval=2.5, max_interp_error=.05,
               allow_inner_core_s=True)
    if ":" not in config:
        cfg.update(planets.CONFIGS[config])
        return cfg
    cfg.update(max_delta_p=1e9, max_depth_interval=1e9,
               max_range_interval=1e9, max_interp_error=1e9)
    kind, value = config.split(":")
    cfg[{"depth": "max_depth_interval", "range": "max_range_interval",
         "error": "max_interp_error"}[kind]] = float(value)
    return cfg


# Where the limit of the slowness step is checked as well: a recorded defect
# breaks it for most planets.
STEPS_OF = ("iasp91", "ak135", "n-n-n-n-n")


def profile(segs, wave, inner_s, iocb):
    """[(top, bottom, v top, v bottom)] the wave type sees."""
    out = []
    for t, b, a0, a1, s0, s1 in segs:
        p = wave == "P" or s0 == 0 or (not inner_s and t >= iocb)
        out.append((t, b, a0, a1) if p else (t, b, s0, s1))
    return out


def at(prof, depth, R, below):
    for t, b, v0, v1 in prof:
        if (t <= depth < b) if below else (t < depth <= b):
            return (R - depth) / (v0 + (v1 - v0) * (depth - t) / (b - t))
    return None


def run(job, rec):
    from taupy.SlownessModel import SlownessModel
    name, config = job["planet"], job["config"]
    cfg = sampling(config)
    segs = planets.segs(name)
    vm = call(planets.velocity, rec, planets.text_of(name))
    s = call(SlownessModel, vm, cfg["min_delta_p"], cfg["max_delta_p"],
             cfg["max_depth_interval"],
             cfg["max_range_interval"] * math.pi / 180,
             cfg["max_interp_error"], cfg["allow_inner_core_s"])
    R = segs[-1][1]
    tag = "%s/%s" % (name, config)
    if not call(s.validate) or s.radiusOfEarth != R:
        rec.bad(tag, "not valid")
    for wave, layers in (("P", s.PLayers), ("S", s.SLayers)):
        prof = profile(segs, wave, cfg["allow_inner_core_s"], vm.iocbDepth)
        step = 0.
        prev_d, prev_p = 0., None
        bounds = set()
        for i, l in enumerate(layers):
            key = "%s/%s%d" % (tag, wave, i)
            thick = l.botDepth > l.topDepth
            rec.case(key, thick, {"layer": [l.topDepth, l.botDepth, l.topP,
                                            l.botP]})
            bounds |= {l.topDepth, l.botDepth}
            if l.topDepth != prev_d or (prev_p is not None
                                        and l.topP != prev_p):
                rec.bad(key, "not continuous with the layer above")
            prev_d, prev_p = l.botDepth, l.botP
            if l.botDepth < l.topDepth or not l.topP >= 0 or not l.botP >= 0:
                rec.bad(key, "impossible layer")
            if thick:
                for d, p, below in ((l.topDepth, l.topP, True),
                                    (l.botDepth, l.botP, False)):
                    want = at(prof, d, R, below)
                    if want is None or abs(want - p) > 1e-6 + 1e-9 * p:
                        rec.bad(key, "slowness %r at %r, should be %r" % (
                            p, d, want))
            step = max(step, abs(l.topP - l.botP))
            if l.botDepth - l.topDepth > cfg["max_depth_interval"] * (
                    1 + 1e-9):
                rec.bad(key, "thickness %r" % (l.botDepth - l.topDepth))
        if name in STEPS_OF and config != "fine" and step > cfg["max_delta_p"] * (1 + 1e-9):
            rec.bad("step/%s/%s/%.1f" % (tag, wave, step),
                    "slowness step of %r" % step)
        if prev_d != R or layers[0].topDepth != 0:
            rec.bad(tag + "/" + wave, "does not reach from 0 to %r" % R)
        for t, b, v0, v1 in prof:
            if t not in bounds or b not in bounds:
                rec.bad(tag + "/" + wave, "no sample at %r or %r" % (t, b))
    # Distance between neighbouring turning rays, and the interpolation error
    # estimate, for rays from the surface.
    limit = math.radians(cfg["max_range_interval"])
    for wave, layers, zones in (
            ("P", s.PLayers, s.highSlownessLayerDepthsP),
            ("S", s.SLayers, s.highSlownessLayerDepthsS)):
        prof = profile(segs, wave, cfg["allow_inner_core_s"], vm.iocbDepth)
        lay = ref.Layers.of(R, layers)
        rays = sorted({float(x) for x in ref.record_lows(lay)}, reverse=True)
        rays = sorted(set(rays) | {(l.topP + l.botP) / 2 for l in layers},
                      reverse=True)
        X, T = lay.integrals(rays)
        mins = [float("inf")]
        for t, b in zip(lay.tp, lay.bp):
            mins.append(min(mins[-1], t, b))
        pos = {p: j for j, p in enumerate(rays)}
        for i, l in enumerate(layers):
            # Both ends of the layer are rays that turn, nothing above
            # reflects them.
            if not (l.topP > l.botP and l.topP <= mins[i]
                    and l.topP in pos and l.botP in pos):
                continue
            j, k = pos[l.topP], pos[l.botP]
            x0 = 2 * float(X[j, :i].sum())
            x1 = 2 * float(X[k, :i + 1].sum())
            rec.count("range steps")
            # Between samples of the other wave type added later, a distance
            # may go there and back.
            if abs(x1 - x0) > limit * 1.05 and \
                    l.topP - l.botP > 2 * cfg["min_delta_p"] * (1 + 1e-6):
                rec.bad("%s/%s%d" % (tag, wave, i),
                        "distance jumps by %.4f degrees" % math.degrees(
                            abs(x1 - x0)))
            # The error of linear interpolation, estimated at the middle.
            m = pos[(l.topP + l.botP) / 2]
            xm = 2 * float(X[m, :i + 1].sum())
            t0, tm, t1 = (2 * float(T[n, :e].sum()) for n, e in (
                (j, i), (m, i + 1), (k, i + 1)))
            if abs(xm - x0) < 1e-9:
                continue
            err = abs(t1 - t0 - (tm - t0) * (x1 - x0) / (xm - x0))
            rec.count("error estimates")
            # Samples added for P waves later come between those of S.
            if err > cfg["max_interp_error"] * (
                    1.0001 if wave == "P" else 4) + 1e-6:
                rec.bad("%s/%s%d" % (tag, wave, i),
                        "interpolation error of %.4f s" % err)
