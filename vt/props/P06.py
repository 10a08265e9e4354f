"""Distances that are the same place."""
from vt import harness as H
from vt import planets
from vt.core import call

LEVEL = "exploration"
RULE = ("planets x source depths x distances x equivalent distances (the "
        "other direction, the long way round, whole laps more): the same "
        "arrivals; each arrival once, and at one of the distances the long "
        "or the short way; non-trivial: there are arrivals")
DEPTHS = (0., 20., 100., 600.)
DISTANCES = (0., 1., 14., 37.5, 60., 90., 104.25, 135., 150., 179., 180.)
PHASES = H.ALL + H.DIFFRACTED + H.HEAD + H.SURFACE + [
    "PKKKKP", "PKIIKP", "PKIIIIKP", "SKIIIKS", "PKPPKPPKP", "SSSSS",
    "PKIKPPKIKPPKIKP", "PcPPcPPcP", "ScSScSScSScS"]
SAME = [lambda d: -d, lambda d: 360. - d, lambda d: d - 360.,
        lambda d: d + 360., lambda d: 720. - d, lambda d: d + 720.,
        lambda d: -d - 360., lambda d: 1080. - d]


def jobs(tier):
    out = []
    for i, n in enumerate(planets.names()):
        if tier == "thorough" or i % 7 == 2:
            for h in DEPTHS if tier == "thorough" else (DEPTHS[i % 4],):
                out.append({"planet": n, "depth": h})
    for n in ("iasp91", "ak135"):
        for h in DEPTHS[:2 if tier == "quick" else 4]:
            out.append({"planet": n, "depth": h})
    return out


def run(job, rec):
    import math
    m = planets.build(rec, job["planet"], "coarse")
    at = H.session(m, PHASES, job["depth"])
    for d in DISTANCES:
        base = sorted(map(H.facts, at(d)))
        key = "%s/%r/%r" % (job["planet"], job["depth"], d)
        rec.count("arrivals", len(base))
        for a, b in zip(base[:-1], base[1:]):
            if a[:4] == b[:4]:
                rec.bad(key, "twice: %r" % (a,))
        for a in call(lambda: list(at(d))):
            x = math.degrees(a.dist) % 360.
            if min(abs(x - d), abs(360. - x - d), abs(x - 360. + d),
                   abs(x - 360. - d)) > 1e-9:
                rec.bad(key, "arrival at %r degrees" % math.degrees(a.dist))
            if abs(a.getModuloDistDeg() - d) > 1e-9:
                rec.bad(key, "modulo distance %r" % a.getModuloDistDeg())
            if abs(a.getDistDeg() - math.degrees(a.dist)) > 1e-9 or \
                    abs(a.purist_distance - math.degrees(a.dist)) > 1e-9 or \
                    abs(a.rayParam_sec_degree -
                        math.radians(a.rayParam)) > 1e-9:
                rec.bad(key, "units of %s" % a.name)
        for k, f in enumerate(SAME):
            got = sorted(map(H.facts, at(f(d))))
            rec.case("%s/%d" % (key, k), bool(base))
            if len(got) != len(base):
                rec.bad("%s/%r" % (key, f(d)), "%d arrivals, %d at %r: %r" % (
                    len(got), len(base), d,
                    sorted(set(map(repr, got)) ^ set(map(repr, base)))[:4]))
                continue
            for a, b in zip(got, base):
                if a[0] != b[0] or not all(
                        H.close(p, q, 1e-9, 1e-9)
                        for p, q in zip(a[1:6], b[1:6])):
                    rec.bad("%s/%r" % (key, f(d)), "%r, should be %r" % (a, b))
                    break
