"""Pierce points at chosen depths; what is printed of points and paths."""
import itertools
import math
import re

from vt import harness as H
from vt import planets
from vt.core import call, limited, quiet
from vt.props import P07

LEVEL = "exploration"
RULE = ("planets x source depths x sets of added depths: all pierce points "
        "against the way of the ray; all combinations of the options that "
        "choose points, and of the limits of printed paths, against the "
        "points of the arrival; non-trivial: points are added or left out")
ADD = [[50.], [100., 1000.], [410.], [2800., 3000., 5500.], [1000., 100.],
       [300., 300.], [0.], [], [20., 2600., 2700.], [35., 36.]]
DISTANCES = (0., 8.3, 48., 101., 156., 180.)
PHASES = ["P", "S", "PP", "pP", "PcP", "PKIKP", "SKS", "Pdiff", "Pn", "PKP",
          "P^410P", "PKIKPPKIKP", "SS", "sS", "2kmps", "PKKP", "ScSScS"]
OPTIONS = ["onlyTurnPoints", "onlyRevPoints", "onlyUnderPoints",
           "onlyAddPoints"]
TIMES = [1e300, 5000., 700., 120., 1., 0.]
INCS = [1, 5., .5, 1000.]
ROW = re.compile(r"^\s*(-?[\d.]+)\s+(-?[\d.]+)(?:\s+(-?[\d.]+))?$")


def jobs(tier):
    out = []
    names = planets.every()
    for k, add in enumerate(ADD):
        for i, n in enumerate(names):
            if tier == "thorough" and i % 3 == k % 3 or i % 54 == 5 * k:
                out.append({"planet": n, "config": "coarse", "add": add,
                            "depth": P07.DEPTHS[(i + k) % 6]})
        for h in (0., 10.) if tier == "thorough" else (10. * (k % 2),):
            out.append({"planet": "iasp91", "config": "coarse", "add": add,
                        "depth": h})
    for i, n in enumerate(["iasp91", "n-lvz-slow-n-n", "step-disc-n-solid-n",
                           "n-n-n-n-fluid"] + (
                               names[::5] if tier == "thorough" else [])):
        out.append({"planet": n, "depth": (10., 0., 600.)[i % 3]})
    return out


def added(job, rec):
    from taupy.TauP_Pierce import TauP_Pierce
    m, planet, discons, legs = P07.known(job, rec)
    cuts = sorted(set(discons + job["add"] + [job["depth"], planet.R]))
    tag = "%s/%r/%r" % (job["planet"], job["add"], job["depth"])
    segs = planets.segs(job["planet"])
    sampled = [float(p) for p in planet.rays]
    for d in DISTANCES:
        tp = TauP_Pierce(m, list(legs) + H.SURFACE, job["depth"], d)
        tp.addDepth = list(job["add"])
        call(tp.run)
        if tp.addDepth != job["add"]:
            rec.bad(tag, "the depths were changed to %r" % tp.addDepth)
        P07.compare(rec, job, tag, tp.arrivals, d, planet, legs, cuts, segs,
                    sampled)
    # No interactions at the added depths, whatever phases ask for.
    names = [t % z for z in job["add"]
             for t in ("P^%gP", "S^%gS", "Pv%gP", "P%gS")]
    for d in DISTANCES[1:-1]:
        purist = []
        for adds in ([], list(job["add"])):
            tp = TauP_Pierce(m, names, job["depth"], d)
            tp.addDepth = adds
            call(tp.run)
            purist.append({a.name: a.puristName for a in tp.arrivals})
        rec.case("%s/%r/interactions" % (tag, d), bool(purist[0]))
        for name in sorted(set(purist[0]) & set(purist[1])):
            if purist[0][name] != purist[1][name]:
                rec.bad("%s/%r/%s" % (tag, d, name), "is %s, not %s" % (
                    purist[1][name], purist[0][name]))


def blocks(text):
    """[(comment line, [numbers of each row])]."""
    out = []
    for l in text.split("\n"):
        if l.startswith(">"):
            out.append((l, []))
        elif out and l.strip():
            mo = ROW.match(l)
            out[-1][1].append(
                tuple(float(x) for x in mo.groups() if x is not None)
                if mo else l)
    return out


def printed(f):
    with limited(), quiet() as out:
        f()
    return out.getvalue()


def heading(rec, key, line, a, model):
    name = a.name if a.name == a.puristName else "%s(%s)" % (
        a.name, a.puristName)
    nums = [float(x) for x in re.findall(
        r"(?<![\w.])-?\d+\.?\d*(?![\w.])", line.split(" at ", 1)[-1])]
    want = [(a.time, 2), (math.degrees(a.dist), 2), (a.sourceDepth, 9),
            (math.radians(a.rayParam), 3)]
    if not line.startswith("> " + name + " ") or model not in line or \
            len(nums) < 4 or not all(
                any(abs(n - v) <= .5000001 * 10. ** -k for n in nums)
                for v, k in want):
        rec.bad(key, "heading %r for %r" % (line, H.facts(a)))


def sign(a):
    return -1. if math.degrees(a.dist) % 360. > 180. else 1.


def pierce_table(rec, key, tp, on, text, model):
    out = blocks(text)
    if len(out) != len(tp.arrivals):
        rec.bad(key, "%d blocks for %d arrivals" % (len(out), len(
            tp.arrivals)))
        return
    for (line, rows), a in zip(out, tp.arrivals):
        k = "%s/%s/%d" % (key, a.name, a.time)
        heading(rec, k, line, a, model)
        pts = a.pierce
        need, may = [], []
        for j, q in enumerate(pts):
            row = (sign(a) * math.degrees(q.distRadian), q.depth, q.time)
            z = q.depth
            u = pts[j - 1].depth if j else None
            v = pts[j + 1].depth if j < len(pts) - 1 else None
            end = u is None or v is None
            up = not end and z <= u and z <= v
            turn = not end and z >= u and z >= v
            rev = not end and (u - z) * (z - v) < 0
            if not on or "onlyAddPoints" in on and z in tp.addDepth or \
                    "onlyTurnPoints" in on and turn or \
                    "onlyRevPoints" in on and rev or \
                    "onlyUnderPoints" in on and up:
                need.append(row)
                may.append(row)
            elif end and on:
                # Whether the ends are such points is not said.
                may.append(row)
        rec.case(k, len(need) < len(pts))

        def same(p, q):
            return len(p) == 3 and abs(p[0] - q[0]) <= .005001 and \
                abs(p[1] - q[1]) <= .05001 and abs(p[2] - q[2]) <= .05001

        if any(isinstance(r, str) for r in rows):
            rec.bad(k, "row %r" % [r for r in rows if isinstance(r, str)])
            continue
        left = list(may)
        for r in rows:
            while left and not same(r, left[0]):
                if left[0] in need:
                    break
                left.pop(0)
            if not left or not same(r, left[0]):
                rec.bad(k, "row %r, should be one of %r" % (r, left[:2]))
                break
            left.pop(0)
        else:
            if any(q in need for q in left):
                rec.bad(k, "rows missing: %r" % left[:3])


def path_table(rec, key, tp, text, model, R):
    out = blocks(text)
    if len(out) != len(tp.arrivals):
        rec.bad(key, "%d blocks for %d arrivals" % (len(out), len(
            tp.arrivals)))
        return
    for (line, rows), a in zip(out, tp.arrivals):
        k = "%s/%s/%d" % (key, a.name, a.time)
        heading(rec, k, line, a, model)
        if any(isinstance(r, str) for r in rows):
            rec.bad(k, "row %r" % [r for r in rows if isinstance(r, str)])
            continue
        s = sign(a)
        pts = [(s * math.degrees(q.distRadian), R - q.depth, q.time)
               for q in a.path]
        if a.time == 0:
            # The receiver is at the source, or above it for a surface
            # wave: there is no path to print, or one straight up.
            rec.case(k, False)
            if not all(abs(r[0]) <= .00501 and -.0501 <= R - r[1]
                       <= a.sourceDepth + .0501 for r in rows):
                rec.bad(k, "path of no length %r" % rows[:4])
            continue
        rec.case(k, pts[-1][2] > tp.maxPathTime or len(rows) != len(pts))
        cut = tp.maxPathTime
        kept = [p for p in pts if p[2] <= cut]
        if len(kept) < len(pts) and kept[-1][2] < cut:
            p, q = kept[-1], pts[len(kept)]
            f = (cut - p[2]) / (q[2] - p[2])
            kept.append((p[0] + f * (q[0] - p[0]), p[1] + f * (q[1] - p[1]),
                         cut))
            last = q
        else:
            last = None

        def same(p, q):
            return abs(p[0] - q[0]) <= .00501 and abs(p[1] - q[1]) <= .0501

        i = 0
        for j, p in enumerate(kept):
            between = []
            while i < len(rows) and not same(rows[i], p):
                between.append(rows[i])
                i += 1
            if i == len(rows):
                rec.bad(k, "point %r is missing, or others are there: %r" % (
                    p, between[:4]))
                break
            i += 1
            if j == 0:
                if between:
                    rec.bad(k, "before the first point: %r" % between)
                continue
            o = kept[j - 1]
            # The straight line to the next point, or to the end of it.
            chain = [o] + between + [p]
            gap = abs(p[0] - o[0])
            if between and gap <= tp.maxPathInc - .02 and not (
                    last and j == len(kept) - 1):
                rec.bad(k, "points %r inserted without need" % between[:3])
                break
            if a.rayParam != 0 and any(
                    abs(y[0] - x[0]) > tp.maxPathInc + .02
                    for x, y in zip(chain[:-1], chain[1:])):
                rec.bad(k, "steps too large: %r" % chain[:5])
                break
            bad = [r for r in between if gap > .02 and abs(
                o[1] + (p[1] - o[1]) * (r[0] - o[0]) / (p[0] - o[0]) - r[1])
                > .11 + .011 * abs(p[1] - o[1]) / gap]
            if bad:
                rec.bad(k, "%r are not between %r and %r" % (bad, o, p))
                break
        else:
            if not all(same(r, kept[-1]) for r in rows[i:]):
                # (A point just before the end may look like it.)
                rec.bad(k, "more points %r after the end %r" % (
                    rows[i:i + 3], kept[-1]))


def run(job, rec):
    if "add" in job:
        added(job, rec)
        return
    from taupy.TauP_Path import TauP_Path
    from taupy.TauP_Pierce import TauP_Pierce
    m = planets.build(rec, job["planet"], "coarse")
    name = "iasp91" if job["planet"] == "iasp91" else job["planet"]
    for d in DISTANCES:
        for add in ([], [50., 2000., 410.]):
            tp = TauP_Pierce(m, PHASES, job["depth"], d)
            tp.addDepth = add
            call(tp.run)
            for n in range(5):
                for on in itertools.combinations(OPTIONS, n):
                    for o in OPTIONS:
                        setattr(tp, o, o in on)
                    key = "%s/%r/%r/%r/%s" % (
                        job["planet"], job["depth"], d, add, "+".join(on))
                    pierce_table(rec, key, tp, on, printed(tp.printResult),
                                 name)
        tp = TauP_Path(m, PHASES, job["depth"], d)
        call(tp.run)
        for t in TIMES:
            for inc in INCS:
                tp.maxPathTime, tp.maxPathInc = t, inc
                key = "%s/%r/%r/%r/%r" % (
                    job["planet"], job["depth"], d, t, inc)
                path_table(rec, key, tp, printed(tp.printResult), name,
                           m.radiusOfEarth)
        # The same through the interface.
        model = H.interface(rec, m, job["planet"])
        key = "%s/%r/%r" % (job["planet"], job["depth"], d)
        tp = TauP_Pierce(m, PHASES, job["depth"], d)
        call(tp.run)
        pierce_table(rec, key, tp, (), printed(lambda: model.get_pierce_points(
            job["depth"], d, PHASES, None, True)), name)
        tp = TauP_Path(m, PHASES, job["depth"], d)
        call(tp.run)
        path_table(rec, key, tp, printed(lambda: model.get_ray_paths(
            job["depth"], d, PHASES, None, True)), name, m.radiusOfEarth)
