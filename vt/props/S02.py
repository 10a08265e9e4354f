"""Critical depths, fluids and high slowness zones."""
from vt import planets
from vt.core import call
from vt.planets import FIRST, STEPS, stack
from vt.props.S01 import profile

LEVEL = "exploration"
RULE = ("every planet of the alphabet, and every stack of up to 5 (thorough: "
        "6) mantle layers below a crust, or of one less from the surface on, "
        "over an alphabet of velocity gradients and jumps; "
        "non-trivial: has a high slowness zone or a fluid")

def jobs(tier):
    n = 4 if tier == "quick" else 5
    out = [{"planet": p, "inner_s": i} for p in planets.every()
           for i in (True, False)]
    out += [{"stack": a + b, "n": n} for a in FIRST for b in STEPS]
    out += [{"stack": a + b, "n": n - 1, "crust": False}
            for a in FIRST for b in STEPS]
    return out


def slow(prof, R):
    return [(t, b, (R - t) / v0, (R - b) / v1) for t, b, v0, v1 in prof]


def zones(prof, R):
    """
    Zones that no ray from above turns in: the slowness is larger than
    somewhere above.  [(top, bottom, smallest slowness above)]
    """
    out, low, start = [], float("inf"), None
    lays = slow(prof, R)
    for (t, b, p0, p1), (_, _, v0, v1) in zip(lays, prof):
        if start is not None and p0 < low:
            out.append((start, t, low))
            start = None
        low = min(low, p0)
        if start is None and (p0 > low or p1 > p0):
            start = t
        if start is not None and p1 < low:
            # Leaves the zone within this layer.
            k = (v1 - v0) / (b - t)
            d = (R - low * (v0 - k * t)) / (1 + low * k)
            out.append((start, d, low))
            start = None
        low = min(low, p1)
    if start is not None:
        out.append((start, prof[-1][1], low))
    return out


def check(rec, key, vm, s, segs, inner_s):
    R = segs[-1][1]
    profs = {w: profile(segs, w, inner_s, vm.iocbDepth) for w in "PS"}
    lays = {w: slow(p, R) for w, p in profs.items()}
    want = {0., R}
    for w in "PS":
        for (t, b, p0, p1), (_, c, q0, q1) in zip(lays[w][:-1], lays[w][1:]):
            if p1 != q0 or (p0 - p1) * (q0 - q1) < 0:
                want.add(b)
    got = [c.depth for c in s.criticalDepths]
    fluids, start = [], None
    for t, b, _, _, s0, s1 in segs:
        if s0 == 0 and start is None:
            start = t
        if s0 != 0 and start is not None:
            fluids.append((start, t))
            start = None
    if start is not None:
        fluids.append((start, R))
    z = {w: zones(profs[w], R) for w in "PS"}
    rec.case(key, bool(z["P"] or z["S"] or fluids),
             {"critical": got, "zones": z, "fluids": fluids})
    if got != sorted(want):
        rec.bad(key, "critical depths %r, should be %r" % (got, sorted(want)))
    have = [(f.topDepth, f.botDepth) for f in s.fluidLayerDepths]
    if have != fluids:
        rec.bad(key, "fluids %r, should be %r" % (have, fluids))
    probes = sorted({d for t, b, *_ in segs for d in (
        t, (t + b) / 2, b, b - 1e-7)})
    for d in probes:
        if bool(call(s.depthInFluid, d)) != any(t <= d < b
                                                for t, b in fluids):
            rec.bad(key, "fluid at %r" % d)
    for w, zs in (("P", s.highSlownessLayerDepthsP),
                  ("S", s.highSlownessLayerDepthsS)):
        have = [(h.topDepth, h.botDepth, h.rayParam) for h in zs]
        if len(have) != len(z[w]) or any(
                abs(a - b) > 1e-6 for x, y in zip(have, z[w])
                for a, b in zip(x, y)):
            rec.bad(key, "%s zones %r, should be %r" % (w, have, z[w]))
            continue
        for t, b, low in z[w]:
            for d in probes + [t + (b - t) * f for f in (.2, .5, .9)]:
                if not t + 1e-6 < d < b - 1e-6:
                    continue
                for p, inside in ((low * 1.001, True), (low * .999, False)):
                    if bool(call(s.depthInHighSlowness, d, p, w == "P")) \
                            != inside:
                        rec.bad(key, "%s ray %r at %r in the zone %r" % (
                            w, p, d, (t, b, low)))


def run(job, rec):
    import itertools
    import math
    from taupy.SlownessModel import SlownessModel
    if "planet" in job:
        todo = [(job["planet"], planets.segs(job["planet"]),
                 job["inner_s"])]
    else:
        todo = []
        for n in range(job["n"] - 1):
            for tail in itertools.product(STEPS, repeat=n):
                kinds = job["stack"] + "".join(tail)
                if n == job["n"] - 2 and "F" in kinds and "L" in kinds:
                    continue
                crust = job.get("crust", True)
                todo.append((kinds if crust else "0" + kinds,
                             stack(kinds, crust), True))
    for key, segs, inner_s in todo:
        vm = call(planets.velocity, rec, planets.tvel_text(segs))
        s = call(SlownessModel, vm, .1, 400., 3000., 3., 1e9, inner_s)
        check(rec, "%s/%s" % (key, inner_s), vm, s, segs, inner_s)
