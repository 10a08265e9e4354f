"""Planets of other sizes and with other speeds."""

from vt import harness as H
from vt import planets
from vt.core import call

LEVEL = "exploration"
RULE = ("planets x factors for all lengths and all velocities (powers of 2) "
        "x source depths x distances: the same arrivals with times, "
        "slownesses and depths multiplied accordingly; non-trivial: there "
        "are arrivals")
FACTORS = [(2., 2.), (.5, .5), (1., 2.), (1., .5), (2., 1.), (.25, .5),
           (4., 1.), (1., 8.), (.125, .125)]
DEPTHS = (0., 10., 35., 100., 410., 660.)
DISTANCES = (0., .7, 8., 17., 33., 62., 95., 104., 121., 144., 157., 180.)
PHASES = [n for n in H.ALL if not any(c.isdigit() or c == "m" for c in n)] + \
    H.DIFFRACTED


def jobs(tier):
    out = []
    names = planets.names() + ["iasp91"]
    for i, n in enumerate(names):
        for j, f in enumerate(FACTORS):
            if tier == "quick" and (i + 18 * j) % 54 and not (
                    n == "iasp91" and j == 1):
                continue
            if tier == "thorough" and i % 3 != j % 3:
                continue
            out.append({"planet": n, "lengths": f[0], "speeds": f[1]})
    return out


def scaled(name, a, b):
    rows = planets.rows_of(planets.text_of(name))
    return "P\nS\n" + "".join(
        "%r %r %r 3.0\n" % (z * a, p * b, s * b) for z, p, s in rows)


def create(path, m0, a, config):
    from taupy.TauP_Create import TauP_Create
    c = TauP_Create(path, "/nonexistent", **config)
    v = c.loadVMod()
    # By themselves these are looked for at the depths of the Earth.
    for n in ("mohoDepth", "cmbDepth", "iocbDepth"):
        setattr(v, n, a * getattr(m0.sMod.vMod, n))
    return c.createTauModel(v)


def run(job, rec):
    a, b = job["lengths"], job["speeds"]
    t = a / b
    base = dict(min_delta_p=.1, max_delta_p=50, max_depth_interval=500,
                max_range_interval=10, max_interp_error=1.)
    text = planets.text_of(job["planet"])
    m0 = call(planets.create, planets.write(rec, text, "m0"), **base)
    other = dict(base, min_delta_p=.1 * t, max_delta_p=50 * t,
                 max_depth_interval=500 * a, max_interp_error=1. * t)
    m1 = call(create, planets.write(rec, scaled(
        job["planet"], a, b), "m1"), m0, a, other)
    tag = "%s/%r/%r" % (job["planet"], a, b)
    names = PHASES + H.HEAD
    for n in ("mohoDepth", "cmbDepth", "iocbDepth"):
        if not near([a * getattr(m0, n)], [getattr(m1, n)]):
            rec.bad(tag, "%s is %r, was %r" % (
                n, getattr(m1, n), getattr(m0, n)))
            return
    if not near([t * p for p in m0.rayParams], list(m1.rayParams)):
        rec.bad(tag, "other rays: %d and %d" % (
            len(m0.rayParams), len(m1.rayParams)))
        return
    for h in DEPTHS:
        s0 = H.session(m0, names, h)
        s1 = H.session(m1, names, h * a)
        for d in DISTANCES:
            key = "%s/%r/%r" % (tag, h, d)
            x, y = s0(d), s1(d)
            rec.case(key, bool(x))
            rec.count("arrivals", len(x))
            u = sorted((q.name, q.time * t, q.dist, q.rayParam * t,
                        float(q.takeoffAngle), float(q.incidentAngle),
                        q.sourceDepth * a) for q in x)
            v = sorted((q.name, q.time, q.dist, q.rayParam,
                        float(q.takeoffAngle), float(q.incidentAngle),
                        q.sourceDepth) for q in y)
            # At the very ends of phases rounding decides.
            ends = [n for n in set(q[0] for q in u + v) if len(
                [1 for q in u if q[0] == n]) != len(
                    [1 for q in v if q[0] == n])]
            for n in ends:
                if len([q for q in s0(d + 1e-7) if q.name == n]) == len(
                        [q for q in s0(d - 1e-7) if q.name == n]):
                    rec.bad(key, "%s: %r and %r" % (
                        n, [q for q in u if q[0] == n],
                        [q for q in v if q[0] == n]))
            for p, q in zip([p for p in u if p[0] not in ends],
                            [q for q in v if q[0] not in ends]):
                if p[0] != q[0] or not near(p[1:], q[1:]):
                    rec.bad(key, "%r, should be %r" % (q, p))
                    break


def near(x, y):
    return len(x) == len(y) and all(
        abs(p - q) <= 1e-8 * max(abs(p), abs(q)) + 1e-7
        for p, q in zip(x, y))
