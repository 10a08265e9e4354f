"""Travel times, pierce points, paths and printed tables are the same."""
import math
import re

from vt import harness as H
from vt import phases, planets
from vt.core import call, limited, quiet

LEVEL = "exploration"
RULE = ("planets x source depths x distances x sets of phases: the arrivals "
        "of the three kinds of query, of pierce points and paths of one "
        "arrival at a time, of numbers given as other types, the printed "
        "table and the purist names; non-trivial: there are arrivals")
DEPTHS = (0., 10., 100., 410., 600.)
DISTANCES = (0., 3., 17.3, 33., 74.25, 101., 126., 155.5, 180., 200., 340.,
             -35., 361.)
SETS = {"all": None, "depths": H.DEPTHS, "few": ["P", "S", "PcP"],
        "head": H.HEAD + H.DIFFRACTED + H.SURFACE, "long": [
            "PKIKPPKIKP", "PKIKPPKIKPPKIKP", "P", "SKIKSSKIKS", "2.5kmps"]}
DEPTH = re.compile(r"(?<![\d.])(\^|v)?(\d+\.?\d*|[mci](?=[PSps]))")


def jobs(tier):
    out = []
    for i, n in enumerate(planets.names()):
        if tier == "thorough" or i % 17 == 5:
            for h in DEPTHS if tier == "thorough" else (DEPTHS[i // 17 % 5],):
                out.append({"planet": n, "depth": h})
    for n in ("iasp91", "ak135"):
        for h in DEPTHS if tier == "thorough" else (
                DEPTHS[2 if n == "ak135" else 1],):
            out.append({"planet": n, "depth": h})
    return [dict(j, set=s, tier=tier) for j in out for s in SETS]


def points(pts):
    return [(float(q.p), float(q.time), float(q.distRadian), float(q.depth))
            for q in pts]


def purist(name, got, planet, discons):
    """Is 'got' the name with the true depths?"""
    if name.endswith("kmps"):
        return name == got
    want = []
    for t in phases.tokens(name.replace("diff", "").replace("n", "")):
        d = t.lstrip("^v")
        if d in ("m", "c", "i") and t != d:
            t = t[0], {"m": planet.mohoDepth, "c": planet.cmbDepth,
                       "i": planet.iocbDepth}[d]
        elif d[0].isdigit():
            t = t[:-len(d)], min(discons, key=lambda x: (
                abs(x - float(d)), x))
        want.append(t)
    have = []
    for t in phases.tokens(got.replace("diff", "").replace("n", "")):
        d = t.lstrip("^v")
        have.append((t[:-len(d)], float(d)) if d[0].isdigit() else t)
    return want == have


def table(rec, key, text, arrivals, model, depth):
    """The lines of the table against the arrivals."""
    lines = [l for l in text.split("\n") if l.strip()]
    start = [i for i, l in enumerate(lines) if l.startswith("------")]
    if not start or not lines[0].endswith(model):
        # Messages about phases that do not exist come first.
        model_line = [l for l in lines if l.startswith("Model: ")]
        if len(start) != 1 or len(model_line) != 1 or \
                not model_line[0].endswith(model):
            rec.bad(key, "heading %r" % lines[:5])
            return
    rows = lines[start[0] + 1:]
    if len(rows) != len(arrivals):
        rec.bad(key, "%d rows for %d arrivals" % (len(rows), len(arrivals)))
        return
    for row, a in zip(rows, arrivals):
        c = row.split()
        deg = math.degrees(float(a.dist))
        mod = deg % 360.
        mod = 360. - mod if mod > 180. else mod
        want = [(0, mod, 2), (1, depth, 1), (3, a.time, 2),
                (4, math.radians(a.rayParam), 3), (5, a.takeoffAngle, 2),
                (6, a.incidentAngle, 2), (7, deg, 2)]
        # A tolerance of one unit of the last digit for rounding ties.
        ok = len(c) == 10 and all(
            abs(float(c[i]) - v) <= .5000001 * 10 ** -n for i, v, n in want)
        if not ok or c[2] != a.name or c[9] != a.puristName or \
                c[8] != ("=" if a.name == a.puristName else "*"):
            rec.bad(key, "row %r for %r" % (row, H.facts(a)))
            return


def headings(rec, key, text, arrivals, model):
    """The lines in front of the points of each arrival."""
    lines = [l for l in text.split("\n") if l.startswith(">")]
    if len(lines) != len(arrivals):
        rec.bad(key, "%d headings for %d arrivals" % (
            len(lines), len(arrivals)))
        return
    for line, a in zip(lines, arrivals):
        name = a.name
        if a.puristName != name:
            name += "(" + a.puristName + ")"
        c = line.split()
        want = [a.time, math.degrees(float(a.dist)), a.sourceDepth,
                math.radians(a.rayParam)]
        got = [float(c[i]) for i in (3, 6, 10, -2)]
        if c[:2] != [">", name] or model not in c or any(
                abs(x - y) > e for x, y, e in zip(
                    got, want, (.00501, .00501, 1e-9, .000501))):
            rec.bad(key, "heading %r for %r" % (line, H.facts(a)))
            return


def printed(f, *args):
    with limited(), quiet() as out:
        r = f(*args)
    return r, out.getvalue()


def run(job, rec):
    m = planets.build(rec, job["planet"], "coarse")
    model = H.interface(rec, m, job["planet"])
    h = job["depth"]
    discons = [b.topDepth for b in m.tauBranches[0]]
    for label, ph in [(job["set"], SETS[job["set"]])]:
        for k, d in enumerate(DISTANCES):
            if job["tier"] == "quick" and label == "all" and k % 4 != 3:
                continue
            key = "%s/%r/%s/%r" % (job["planet"], h, label, d)
            t = call(model.get_travel_times, h, d, ph)
            rec.case(key, len(t) > 0)
            rec.count("arrivals", len(t))
            tf = [H.facts(a) for a in t]
            kinds = {}
            for what, f in (("pierce points", model.get_pierce_points),
                            ("paths", model.get_ray_paths)):
                kinds[what] = call(f, h, d, ph)
                if sorted(map(H.facts, kinds[what])) != sorted(tf):
                    rec.bad(key, "%s of other arrivals" % what)
            if [f[1] for f in tf] != sorted(f[1] for f in tf):
                rec.bad(key, "not sorted by time")
            for a in t:
                if a.sourceDepth != h or not purist(
                        a.name, a.puristName, m, discons):
                    rec.bad(key, "purist name %r of %s" % (
                        a.puristName, a.name))
                if not call(str, a).startswith(a.name) or \
                        "%.3f" % a.time not in call(str, a):
                    rec.bad(key, "description %s" % a)
            text = call(str, t)
            if not text.startswith("%d arrivals" % len(t)) or any(
                    str(a) not in text for a in t) or \
                    call(repr, t).count("Arrival") < len(t):
                rec.bad(key, "description of the arrivals: %r" % text[:100])
            # One arrival at a time.
            for a in t:
                for what, get, attr in (
                        ("pierce points", a.getPierce, "pierce"),
                        ("paths", a.getPath, "path")):
                    mine = points(call(get))
                    if points(call(get)) != mine or \
                            points(getattr(a, attr)) != mine:
                        rec.bad(key, "%s change" % what)
                    all_ = [points(getattr(b, attr)) for b in kinds[what]
                            if H.facts(b) == H.facts(a)]
                    if mine not in all_:
                        rec.bad(key, "%s of %s alone differ" % (
                            what, a.name))
            for what in kinds:
                for a in kinds[what]:
                    if what == "paths" and not a.path or \
                            what != "paths" and not a.pierce:
                        rec.bad(key, "no %s of %s" % (what, a.name))
            # Tables.
            if label != "all" or k % 4 == 3:
                r, out = printed(model.get_travel_times, h, d, ph, None, True)
                if r is not None:
                    rec.bad(key, "printed and returned %r" % r)
                table(rec, key, out, t, job["planet"], h)
                for what, f in (("pierce points", model.get_pierce_points),
                                ("paths", model.get_ray_paths)):
                    r, out = printed(f, h, d, ph, None, True)
                    if r is not None:
                        rec.bad(key, "printed and returned %r" % r)
                    headings(rec, key + "/" + what, out, kinds[what],
                             job["planet"])
            # Other types of the same numbers.
            if label == "few" and (k % 4 == 3 or job["tier"] != "quick"):
                import numpy as np
                whole = d == int(d)
                for hh, dd, f in (
                        (int(h), d, model.get_travel_times),
                        (np.float64(h), d, model.get_ray_paths),
                        (np.int64(h), d, model.get_travel_times),
                        (h, np.float64(d), model.get_travel_times),
                        (h, int(d) if whole else d, model.get_ray_paths),
                        (h, np.int64(d) if whole else d,
                         model.get_travel_times)):
                    got = call(f, hh, dd, tuple(ph))
                    if sorted(map(H.facts, got)) != sorted(tf):
                        rec.bad(key, "differs for %r, %r" % (hh, dd))
