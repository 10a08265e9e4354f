"""Diffracted waves, head waves and surface waves."""
import itertools
import math

from vt import harness as H
from vt import phases, planets, ref
from vt.core import attempt, call

LEVEL = "exploration"
RULE = ("planets, also with a slower layer above the core for one wave type "
        "only, x source depths x every name of up to 3 legs with a "
        "diffraction or refraction x distances: arrivals against the ray "
        "that grazes the boundary; surface waves with a set of velocities; "
        "non-trivial: there is an arrival, or there is none because of the "
        "other legs")
DEPTHS = (0., 10., 35., 100., 600.)
LEGS = ["P", "S", "PcP", "ScS", "PcS", "Pdiff", "Sdiff", "Pn", "Sn"]
PLANETS = ["n-n-n-n-n", "n-n-slowp-n-n", "n-n-slows-n-n", "n-n-slow-n-n",
           "n-lvz-grad0-n-n", "lvz-disc-n-solid-n", "step-const-slowp-n-fluid",
           "lvz-lvz-slows-n-n", "step-n-n-n-n", "iasp91", "ak135"]
DISTANCES = [0., 1.5, 4., 9., 15., 19., 23., 31., 45., 60., 80., 93., 101.,
             115., 130., 148., 165., 180.]
KMPS = ["1kmps", "2.5kmps", "0.3kmps", "10kmps", "1e1kmps", "007kmps",
        "3.kmps", ".5kmps"]
# Where the boundary of the alphabet is.
EDGE = 1e-7


def jobs(tier):
    out = []
    for i, n in enumerate(PLANETS):
        for h in DEPTHS if tier == "thorough" else (
                DEPTHS[i % 5], DEPTHS[(i + 2) % 5]):
            out.append({"planet": n, "depth": h, "tier": tier})
    for i, n in enumerate(planets.stacks(2)):
        if tier == "thorough":
            out += [{"planet": n, "depth": h, "tier": "quick"}
                    for h in DEPTHS[::2]]
        elif i % 6 == 0 or n in ("stack-U", "stack-nU"):
            out.append({"planet": n, "depth": DEPTHS[i % 3 * 2],
                        "tier": "quick"})
    if tier == "thorough":
        for i, n in enumerate(planets.names()):
            out.append({"planet": n, "depth": DEPTHS[i % 5], "tier": tier})
    return out


def names(tier):
    for n in (1, 2, 3):
        for ls in itertools.product(LEGS, repeat=n):
            if not any(l[1:] in ("diff", "n") for l in ls):
                continue
            if any(a[1:] not in ("diff", "n") and b[1:] == "diff"
                   for a, b in zip(ls[:-1], ls[1:])):
                # Not supported by the nomenclature.
                continue
            for pre in ("", "p", "s"):
                if n < 3 or pre == "" or tier == "thorough":
                    yield pre, ls


def grazing(planet, leg):
    """The ray along the boundary, None if there is none."""
    lay = planet.prof[leg[0]]
    d = planet.cmb if leg[1:] == "diff" else planet.moho
    if leg[1:] == "diff":
        i = max(lay.zone(0., d))
        p = float(lay.bp[i])
    else:
        i = min(lay.zone(d, lay.R))
        p = float(lay.tp[i])
    if p > lay.min_in(0., d) * (1 + 1e-12):
        return None
    return p


def reference(planet, pre, ls):
    """(ray, distance and time but for the part along, parts, limit)."""
    legs = []
    at = planet.source
    if pre:
        if at == 0:
            return None
        legs.append(("up", pre.upper(), 0., at))
        at = 0.
    ps, parts = set(), 0
    for l in ls:
        w = l[0]
        if l[1:] in ("diff", "n"):
            d = planet.cmb if l[1:] == "diff" else planet.moho
            p = grazing(planet, l)
            if p is None or at >= d:
                return None
            ps.add((p, l))
            parts += 1
            legs += [("down", w, at, d), ("up", w, 0., d)]
        elif "c" in l:
            if at >= planet.cmb:
                return None
            legs += [("down", w, at, planet.cmb),
                     ("up", l[2], 0., planet.cmb)]
        else:
            legs += [("turn", w, at, planet.cmb)]
            if at > 0:
                legs.append(("up", w, 0., at))
        at = 0.
    if len({p for p, l in ps}) != 1:
        return None
    p = ps.pop()[0]
    one = ref.Planet.__new__(ref.Planet)
    one.__dict__.update(planet.__dict__)
    one.rays = [p]
    one._int = {w: l.integrals([p]) for w, l in planet.prof.items()}
    # The slowness on both sides of a boundary may differ by rounding.
    pieces = ref.curve(one, legs)
    if not pieces:
        return None
    return p, float(pieces[-1].X[0]), float(pieces[-1].T[0]), parts


def targets(d):
    r = math.radians(d)
    out = []
    for n in range(4):
        out.append(2 * math.pi * n + r)
        if 0 < d < 180:
            out.append(2 * math.pi * (n + 1) - r)
    return sorted(set(out))


def run(job, rec):
    m = planets.build(rec, job["planet"], "coarse")
    planet = ref.Planet.of(m).at_source(job["depth"])
    tag = "%s/%r" % (job["planet"], job["depth"])
    want = {}
    for pre, ls in names(job["tier"]):
        name = pre + "".join(ls)
        if planet.moho == 0 and any(l[1:] == "n" for l in ls):
            continue
        kinds = {l for l in ls if l[1:] in ("diff", "n")}
        if len(kinds) > 1:
            # Two boundaries, or both wave types: no such ray, up to chance.
            want[name] = None
            continue
        want[name] = reference(planet, pre, ls)
    at = H.session(m, list(want) + KMPS, job["depth"])
    for d in DISTANCES:
        got = {}
        for a in at(d):
            got.setdefault(a.name, []).append(
                (float(a.dist), float(a.time), float(a.rayParam)))
        for name, w in want.items():
            key = "%s/%s/%r" % (tag, name, d)
            exp, unsure = [], []
            if w is not None:
                p, x0, t0, parts = w
                span = math.radians(20. if "n" in name else 60.)
                for x in targets(d):
                    if x0 - EDGE <= x <= x0 + span + EDGE:
                        q = (x, t0 + p * (x - x0), p)
                        (exp if x0 + EDGE < x < x0 + span - EDGE
                         else unsure).append(q)
            rec.case(key, bool(exp) or w is None)
            rec.count("arrivals", len(exp))
            left = got.get(name, [])[:]
            for q in exp + unsure:
                hit = [g for g in left if abs(g[0] - q[0]) < 1e-7 and
                       abs(g[1] - q[1]) < 1e-3 and
                       abs(g[2] - q[2]) < 1e-6 * q[2]]
                if hit:
                    left.remove(hit[0])
                elif q in exp:
                    rec.bad(key, "no arrival %r but %r" % (
                        q, got.get(name)))
            if left:
                rec.bad(key, "arrivals %r, should be %r" % (left, exp))
        for name in KMPS:
            v = float(name[:-4])
            key = "%s/%s/%r" % (tag, name, d)
            rec.case(key)
            exp = [(x, x * planet.R / v, planet.R / v) for x in targets(d)
                   if x < 2 * math.pi]
            if d == 0:
                exp = exp[:1]
            g = sorted(got.get(name, []))
            g = [q for q in g if q[0] < 2 * math.pi - 1e-9]
            if len(g) != len(exp) or any(
                    abs(a - b) > 1e-6 * (1 + abs(b))
                    for u, q in zip(g, exp) for a, b in zip(u, q)):
                rec.bad(key, "arrivals %r, should be %r" % (g, exp))
