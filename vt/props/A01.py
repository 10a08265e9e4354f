"""Coordinates of source and receiver instead of a distance."""
import itertools
import math

from vt import harness as H
from vt import planets
from vt.core import attempt, call

LEVEL = "exploration"
RULE = ("all pairs of points of a grid of latitudes and longitudes, with "
        "poles, the equator, the date line and points close together, "
        "also as numbers of other types: the angle between their vectors; "
        "queries with them against queries for that angle, and all ways to "
        "leave coordinates out; non-trivial: neither the same point nor "
        "opposite ones")
LATS = (-90., -89.99, -60., -33.3, -1e-6, 0., 12., 45., 45.001, 77.7, 90.)
LONS = (-360., -180., -179.99, -90., -0.001, 0., 33., 90., 150.5, 180.,
        180.01, 270., 359.)
FEW = [(0, 0), (0, 180), (90, 0), (-90, 77), (13, 14), (50, 200), (-33.3, -70),
       (13.0, 374), (0, 1e-3), (45, -135), (-45, 45), (60.5, 59.5)]
TOL = 3e-6
PHASES = ["P", "S", "PcP", "PKIKP", "PP", "Pdiff", "SKS", "SS", "PKKP",
          "2.5kmps", "Pn", "ScSScS"]


def jobs(tier):
    out = [{"grid": i} for i in range(len(LATS))]
    ps = ["n-n-n-n-n", "n-lvz-slow-n-n"] + (
        ["step-disc-grad0-n-n", "iasp91"] if tier == "thorough" else [])
    for p in ps:
        for i in range(0, len(FEW), 3 if tier == "quick" else 1):
            out.append({"planet": p, "from": i})
    return out


def vector(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def angle(a, b):
    """In degrees, accurate for all angles."""
    u, v = vector(*a), vector(*b)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
         u[0] * v[1] - u[1] * v[0])
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in c)),
                                   sum(x * y for x, y in zip(u, v))))


def grid(job, rec):
    from taupy.TauP_Time import TauP_Time
    m = planets.build(rec, "n-n-n-n-n", "coarse")
    lat = LATS[job["grid"]]
    for lon, lat2, lon2 in itertools.product(LONS, LATS, LONS):
        want = angle((lat, lon), (lat2, lon2))
        tt = TauP_Time(m, [], 0., None, [lat, lon, lat2, lon2])
        key = "%r,%r to %r,%r" % (lat, lon, lat2, lon2)
        rec.case(key, 1e-5 < want < 179.9999)
        call(tt.run)
        if not abs(tt.degrees - want) <= TOL:
            rec.bad(key, "%r degrees, should be %r" % (tt.degrees, want))


def values(arrivals):
    return sorted(H.facts(a) for a in arrivals)


def run(job, rec):
    if "grid" in job:
        grid(job, rec)
        return
    m = planets.build(rec, job["planet"], "coarse")
    model = H.interface(rec, m)
    a = FEW[job["from"]]
    asks = (model.get_travel_times, model.get_pierce_points,
            model.get_ray_paths)
    for b in FEW:
        d = angle(a, b)
        for depth in (0., 100.):
            if (depth == 0.) == bool(FEW.index(b) % 2):
                continue
            key = "%s/%r/%r to %r" % (job["planet"], depth, a, b)
            rec.case(key, 1e-5 < d < 179.9999)
            got = [call(f, depth, None, PHASES, [a[0], a[1], b[0], b[1]])
                   for f in asks]
            if any(values(g) != values(got[0]) for g in got):
                rec.bad(key, "the three queries differ")
            other = call(asks[0], depth, None, PHASES,
                         (float(a[0]), float(a[1]), float(b[0]), float(b[1])))
            back = call(asks[0], depth, None, PHASES, [*b, *a])
            for w in (call(asks[0], depth, d, PHASES), other, back):
                # The distance is known to some 1e-8 radians: compare what
                # is well away from the ends of the phases.
                left = [x for x in w if not [
                    y for y in got[0] if y.name == x.name and
                    abs(y.time - x.time) < 1e-3 + 1e-7 * x.rayParam and
                    abs(y.dist - x.dist) < 1e-7]]
                near = call(asks[0], depth, d + 1e-4, PHASES)
                far = call(asks[0], depth, max(d - 1e-4, 0), PHASES)

                def stable(n):
                    return len({len([x for x in l if x.name == n])
                                for l in (near, far, got[0], w)}) == 1
                left = [x.name for x in left if stable(x.name)]
                if left or any(
                        len([x for x in w if x.name == n]) !=
                        len([x for x in got[0] if x.name == n])
                        and len([x for x in near if x.name == n]) ==
                        len([x for x in far if x.name == n])
                        and 1e-4 < d < 179.999 for n in PHASES):
                    rec.bad(key, "%r for the coordinates, %r for the "
                            "distance" % (values(got[0]), values(w)))
            # A distance that is given counts, zero as well.
            for deg in (0., 31., 0):
                x = values(call(asks[0], depth, deg, PHASES,
                                [a[0], a[1], b[0], b[1]]))
                if x != values(call(asks[0], depth, deg, PHASES)):
                    rec.bad(key, "distance %r with coordinates" % deg)
    # Nothing can be calculated from less.
    full = [a[0], a[1], 20., 30.]
    for n in range(16):
        part = [None if n >> i & 1 else full[i] for i in range(4)]
        for f in asks:
            key = "%s/%r/%s" % (job["planet"], part, f.__name__)
            rec.case(key, n != 0)
            r, e = attempt(f, 10., None, PHASES, part)
            if (n == 0) != (e is None) or n and not isinstance(
                    e, ValueError):
                rec.bad(key, "accepted" if e is None else "raised %r" % e)
    for f in asks:
        r, e = attempt(f, 10., None, PHASES)
        if not isinstance(e, ValueError):
            rec.bad(job["planet"] + "/none", "neither is given: %r" % e)
