"""The language of phase names."""
import itertools

from vt import phases, planets, ref
from vt.core import attempt, call

LEVEL = "exploration"
RULE = ("every sequence of up to 4 (thorough: 5) tokens of the phase "
        "nomenclature, for planets and source depths; non-trivial: the "
        "reference gives a path for the name, or rejects it after its first "
        "two tokens")

TOKENS = ["P", "S", "p", "s", "K", "I", "J", "i", "c", "m", "410", "^410",
          "v410", "^m", "vm"]
LONG = ["P", "S", "p", "s", "K", "I", "J", "i", "c", "^410", "v410", "410"]
PLANETS = (("n-disc-n-n-n", (0., 100., 500.)),
           ("none-n-n-solid-n", (0., 100.)),
           ("step-lvz-slow-n-fluid", (60., 410.)))
JUNK = ["", " ", "X", "Px", "P ", " P", "P,S", "PP PP", "diff", "Pdif",
        "Pdiffx", "PdiffK", "kmps", "-1kmps", "0kmps", "nankmps", "infkmps",
        "1e400kmps", "akmps", "3kmpsP", "P3kmps", "v", "^", "Pv", "P^", "Pvx",
        "P^x", "P^..P", "P.P", "Pv1.2.3P", "P1e3P", "P^-5P", "Pv-1P", "v410P",
        "^410P", "410", "410P", "m", "mP", "c", "cP", "i", "iK", "K", "KP",
        "I", "J", "IKP", "Pc", "PK", "PKI", "PKi", "PKiI", "PKiP", "PIP",
        "PiP", "PJP", "PKc", "PKcKP", "PPc", "pc", "pcP", "pK", "pKP", "sI",
        "Pp", "Ps", "Sp", "Ss", "pp", "ss", "ps", "Pnx", "Pnc", "PnK",
        "Pgc", "PgK", "Pbv410P", "PdiffcP", "P\u00e9", "\u2202P", "P\n",
        "P\x00", "P^^410P", "Pvv410P", "P410", "Pm", "P^410", "Pv410",
        "PKP410", "PKv410P", "PK^410P", "PI", "PKIP", "PKIcP", "SKIS"]


def jobs(tier):
    out = []
    for name, depths in PLANETS:
        for h in depths:
            for a in "PSps":
                if tier == "quick":
                    out.append({"planet": name, "depth": h, "first": a,
                                "length": 4, "tokens": TOKENS})
                else:
                    out += [{"planet": name, "depth": h, "first": a,
                             "second": b, "length": n, "tokens": LONG}
                            for b in LONG for n in (5, 6)]
                    out.append({"planet": name, "depth": h, "first": a,
                                "length": 4, "tokens": TOKENS})
            out.append({"planet": name, "depth": h, "junk": True})
            out.append({"planet": name, "depth": h, "near": True})
    for name in (planets.every()[::(3 if tier == "thorough" else 40)]
                 + list(planets.ODD)):
        out.append({"planet": name, "depth": 77., "near": True})
    return out


def near(tops):
    """Names with depths just this side and that of where the next boundary
    is as far, and some that are written unusually."""
    for a, b in zip(tops[:-1], tops[1:]):
        for d in ("%.2f" % ((a + b) / 2 - .02), "%.2f" % ((a + b) / 2 + .02),
                  "%.1f" % b, "%08.3f" % b, "%d." % (b + .4)):
            if float(d) <= b / 2 and a == 0:
                # The surface.
                continue
            for name in ("P^%sP", "Pv%sP", "P%sS", "S^%sS", "p^%sS", "sv%sP",
                         "s%sP"):
                yield name % d


def compare(rec, key, phase, e, legs, planet):
    """The code's phase (or its refusal) against the path of the reference."""
    from taupy.helper_classes import TauModelError
    if e is not None and not isinstance(e, TauModelError):
        rec.bad(key, "raised %s(%s)" % (type(e).__name__, e))
        return
    pieces = ref.curve(planet, legs) if isinstance(legs, list) else []
    # Single rays have no range of distances.
    n = sum(len(q.p) for q in pieces)
    if phase is None:
        if n > 1 and max(q.X.max() - q.X.min() for q in pieces) > 1e-6:
            rec.bad(key, "refused, but is a path")
        return
    if not pieces:
        if len(phase.rayParams) and phase.maxRayParam >= 0 and \
                max(phase.dist) - min(phase.dist) > 1e-9:
            rec.bad(key, "accepted, but is no path: rays %r to %r" % (
                phase.rayParams[0], phase.rayParams[-1]))
        return
    if n < 2:
        return
    X = [float(x) for q in pieces for x in q.X]
    T = [float(x) for q in pieces for x in q.T]
    p = [float(x) for q in pieces for x in q.p]
    # A pair of equal samples may or may not be there.
    got = dedupe(zip(phase.rayParams, phase.dist, phase.time))
    want = dedupe(zip(p, X, T))
    if len(got) != len(want):
        rec.bad(key, "%d rays, should be %d: %r, %r" % (
            len(got), len(want), got[:2] + got[-1:], want[:2] + want[-1:]))
        return
    for a, b in zip(got, want):
        if abs(a[0] - b[0]) > 1e-7 * (1 + b[0]) or \
                abs(a[1] - b[1]) > 1e-6 or abs(a[2] - b[2]) > 1e-3:
            rec.bad(key, "ray %r, should be %r" % (a, b))
            return


def dedupe(rows):
    out = []
    for r in rows:
        if not out or any(abs(a - b) > 1e-7 * (1 + abs(b))
                          for a, b in zip(r, out[-1])):
            out.append(tuple(float(x) for x in r))
    return out


def run(job, rec):
    from taupy.SeismicPhase import SeismicPhase
    from taupy.helper_classes import TauModelError
    m = planets.build(rec, job["planet"])
    planet = ref.Planet.of(m).at_source(job["depth"])
    discons = [b.topDepth for b in m.tauBranches[0]]
    tm = call(m.depthCorrect, job["depth"])
    tag = "%s/%r" % (job["planet"], job["depth"])
    if job.get("junk"):
        for name in JUNK:
            phase, e = attempt(SeismicPhase, name, tm)
            key = "%s/%r" % (tag, name)
            rec.case(key)
            if phase is not None and not len(phase.rayParams):
                continue
            if not isinstance(e, TauModelError):
                rec.bad(key, "accepted or raised %r" % e)
        return
    if job.get("near"):
        for name in near([t for t in discons if t <= planet.cmb]):
            judge(rec, tag, name, planet, discons, tm, True)
        return
    head = (job["first"],) + ((job["second"],) if "second" in job else ())
    lengths = range(0, job["length"] - len(head) + 1) \
        if "second" not in job else [job["length"] - len(head)]
    for n in lengths:
        for tail in itertools.product(job["tokens"], repeat=n):
            name = "".join(head + tail)
            if "410410" in name:
                # One number, which is no depth.
                continue
            judge(rec, tag, name, planet, discons, tm, len(tail) > 1)


def judge(rec, tag, name, planet, discons, tm, deep):
    from taupy.SeismicPhase import SeismicPhase
    if planet.moho == 0 and "m" in name:
        # The surface.
        return
    key = "%s/%s" % (tag, name)
    try:
        legs = phases.legs(name, planet, discons)
    except phases.Unclear:
        return
    except phases.BadName:
        legs = None
    phase, e = attempt(SeismicPhase, name, tm)
    rec.case(key, legs is not None or (e is not None and deep))
    rec.count("paths" if isinstance(legs, list) else "no paths")
    compare(rec, key, phase, e, legs, planet)
