"""Velocities at any depth of a model."""
import itertools

from vt import planets
from vt.core import attempt, call

LEVEL = "exploration"
RULE = ("every planet of the alphabet, every layer boundary, depths next to "
        "it and within the layers, each property; single layers with all "
        "pairs of values at their ends; non-trivial: depth within the planet, "
        "values that differ")


THICK = ((0., 35.), (10., 10.5), (100., 100.0009), (5153.9, 6371.),
         (2889., 2889.0000001))
VALUES = (0., .5, 3.5, 3.6, 8.)


def layer(job, rec):
    """One layer with any values at its ends."""
    from taupy.VelocityLayer import VelocityLayer
    t, b = job["layer"]
    for v0, v1 in itertools.product(VALUES, VALUES):
        for j, props in ((0, "pP"), (1, "sS"), (2, "dDrR")):
            ends = [7., 7.5, 4., 4.2, 3., 3.3]
            ends[2 * j:2 * j + 2] = v0, v1
            l = call(VelocityLayer, 4, t, b, *ends)
            key = "%r/%r/%s" % (job["layer"], (v0, v1), props)
            rec.case(key, v0 != v1)
            for i, p in enumerate(("p", "s", "d")):
                a, c = ends[2 * i:2 * i + 2]
                for q in props if i == j else p:
                    if call(l.evaluateAtTop, q) != a or \
                            call(l.evaluateAtBottom, q) != c:
                        rec.bad(key, "values at the ends, %s" % q)
                    for f in (0., .001, .25, .5, .75, .999, 1.):
                        d = t + f * (b - t)
                        g = (d - t) / (b - t)
                        got = call(l.evaluateAt, d, q)
                        rec.evaluations += 1
                        if not abs(got - a - g * (c - a)) <= 1e-9:
                            rec.bad(key, "%s is %r at %r" % (q, got, d))


def jobs(tier):
    return [{"planet": n} for n in planets.names() + ["iasp91", "ak135"]
            ] + [{"layer": list(d)} for d in THICK]


def run(job, rec):
    if "layer" in job:
        return layer(job, rec)
    name = job["planet"]
    text = planets.text_of(name)
    rows = []
    for line in text.split("\n")[2:]:
        c = line.split("#")[0].split()
        if c:
            rows.append([float(x) for x in c])
    vm = call(planets.velocity, rec, text)
    lays = [(a, b) for a, b in zip(rows[:-1], rows[1:]) if a[0] != b[0]]
    R = rows[-1][0]
    depths = set()
    for a, b in lays:
        t, w = a[0], b[0] - a[0]
        depths |= {t, t + 1e-9, t + w / 3, t + w / 2, t + w * .999, b[0]}
        depths |= {t - 1e-9}
    depths |= {-1., R + 1e-6, R + 1000.}
    for d in sorted(depths):
        # The layers that contain the depth, the upper and the lower one.
        up = [i for i, (a, b) in enumerate(lays) if a[0] < d <= b[0]]
        lo = [i for i, (a, b) in enumerate(lays) if a[0] <= d < b[0]]
        for side, want, num, ev in (
                ("above", up, vm.layerNumberAbove, vm.evaluateAbove),
                ("below", lo, vm.layerNumberBelow, vm.evaluateBelow)):
            key = "%s/%r/%s" % (name, d, side)
            got, err = attempt(num, d)
            rec.case(key, bool(want), {"depth": d, "layer": got})
            if not want:
                if err is None:
                    rec.bad(key, "a layer outside the planet: %r" % got)
                continue
            if err is not None or got != want[0]:
                rec.bad(key, "layer %r, should be %r (%r)" % (
                    got, want[0], err))
                continue
            a, b = lays[want[0]]
            f = (d - a[0]) / (b[0] - a[0])
            for j, props in ((1, "pP"), (2, "sS"), (3, "dDr")):
                v = a[j] + f * (b[j] - a[j])
                for prop in props:
                    got, err = attempt(ev, d, prop)
                    rec.evaluations += 1
                    if err is not None or not abs(got - v) <= 1e-9 * (1 + v):
                        rec.bad(key + "/" + prop, "%r, should be %r (%r)" % (
                            got, v, err))
            got, err = attempt(ev, d, "x")
            if err is None:
                rec.bad(key + "/x", "unknown property has a value")
    for i, (a, b) in enumerate(lays):
        key = "%s/layer%d" % (name, i)
        rec.case(key)
        l = vm.layers[i]
        got = (call(vm.depthAtTop, i), call(vm.depthAtBottom, i),
               l.thickness)
        if got != (a[0], b[0], b[0] - a[0]):
            rec.bad(key, "depths %r" % (got,))
        for j, p in ((1, "p"), (2, "s"), (3, "d")):
            if call(l.evaluateAtTop, p) != a[j] or \
                    call(l.evaluateAtBottom, p.upper()) != b[j]:
                rec.bad(key + p, "values at the ends")
    want = [lays[0][0][0]]
    for (a, b), (c, d) in zip(lays[:-1], lays[1:]):
        if b[1] != c[1] or b[2] != c[2]:
            want.append(b[0])
    want.append(R)
    rec.case(name + "/discontinuities")
    if list(call(vm.getDisconDepths)) != want:
        rec.bad(name + "/discontinuities", "%r, should be %r" % (
            vm.getDisconDepths(), want))
