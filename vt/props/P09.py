"""Phases and the same phases backwards."""
import itertools

from vt import harness as H
from vt import planets
from vt.core import attempt, call

LEVEL = "exploration"
RULE = ("planets with a fluid outer core, a source at the surface, every "
        "sequence of up to 5 (thorough: 6) tokens that ends as it begins "
        "with a wave in the mantle, and the reversed sequence: the same "
        "curve, and the same arrivals with the two angles exchanged; "
        "non-trivial: there is such a path and it is not its own reverse")
TOKENS = ["P", "S", "K", "I", "J", "i", "c", "^410", "v410", "vm", "^m",
          "v660"]
DISTANCES = (0., 12., 33., 58., 81., 107., 131., 152., 179.)
PLANETS = ["n-disc-n-n-n", "lvz-lvz-slow-n-n", "step-n-slowp-n-n",
           "n-lvzp-n-n-n", "step-lvzs-slows-n-n", "iasp91"]


def jobs(tier):
    n = 5 if tier == "quick" else 6
    out = [{"planet": p, "first": a + b, "n": n}
           for p in PLANETS for a in "PS" for b in TOKENS + [""]]
    if tier == "thorough":
        out += [{"planet": p, "first": a + b, "n": 4}
                for p in planets.names(oc=["n"], crust=["n", "step", "lvz"])
                for a in "PS" for b in TOKENS]
    return out


def curve(phase):
    return sorted((float(p), float(x), float(t)) for p, x, t in zip(
        phase.rayParams, phase.dist, phase.time))


def run(job, rec):
    from taupy.SeismicPhase import SeismicPhase
    m = planets.build(rec, job["planet"], "coarse")
    first = job["first"]
    head = (first[0], first[1:]) if first[1:] else (first,)
    lengths = range(0, job["n"] - len(head) + 1) if first[1:] else [0]
    for n in lengths:
        for tail in itertools.product(TOKENS, repeat=n):
            toks = head + tail
            if toks[-1] not in "PS" or toks > toks[::-1] or \
                    toks == toks[::-1] or not sane(toks):
                continue
            name, back = "".join(toks), "".join(toks[::-1])
            key = "%s/%s" % (job["planet"], name)
            (a, ea), (b, eb) = (attempt(SeismicPhase, x, m)
                                for x in (name, back))
            ca, cb = (curve(x) if x is not None else [] for x in (a, b))
            rec.case(key, bool(ca))
            # Single rays may or may not be there.
            if len(ca) < 3 and len(cb) < 3:
                continue
            if len(ca) != len(cb) or any(
                    not H.close(u, v, 1e-7, 1e-6)
                    for q, r in zip(ca, cb) for u, v in zip(q, r)):
                rec.bad(key, "%d rays, backwards %d: %r, %r" % (
                    len(ca), len(cb), ca[:2] + ca[-2:], cb[:2] + cb[-2:]))
                continue
            rec.count("reversible paths")
            for d in DISTANCES:
                x, y = (sorted((float(q.time), float(q.dist),
                                float(q.rayParam), s * float(
                                    q.takeoffAngle - q.incidentAngle))
                               for q in call(p.calcTime, d))
                        for p, s in ((a, 1), (b, -1)))
                if len(x) != len(y) or any(
                        not H.close(u, v, 1e-6, 1e-3)
                        for q, r in zip(x, y) for u, v in zip(q, r)):
                    rec.bad("%s/%r" % (key, d), "%r, backwards %r" % (x, y))


def sane(toks):
    """Reflections and conversions only between waves."""
    for a, b in zip(toks[:-1], toks[1:]):
        waves = a in "PSKIJ", b in "PSKIJ"
        if not any(waves):
            return False
        if a in "PS" and b in "IJ" or b in "PS" and a in "IJ":
            return False
        if a in "PS" and b == "i" or b in "PS" and a == "i":
            return False
    return True
