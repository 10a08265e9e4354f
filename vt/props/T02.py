"""Source depth corrections and splits of branches, in every order."""
import itertools

from vt import branches, planets, ref
from vt.core import attempt, call

LEVEL = "model_checking"
RULE = ("planets x source depths, and for some planets every sequence of up "
        "to 3 splits of branches followed by a depth correction; a state is "
        "the set of depths that are boundaries, a transition one split; "
        "every model reached is compared with sums over slowness layers; "
        "non-trivial: a branch is split")

DEPTHS = (0., 10., 20., 34.5, 60., 175., 410., 500., 659.9, 1200., 2650.,
          2750., 2880., 3500., 5000., 5800.,
          0.0005, 0.03, 34.96, 35.04, 659.9995, 659.97, 2888.95)
SPLITS = (10., 34., 34.97, 180., 180.5, 1500., 2750.)


def jobs(tier):
    out = []
    for i, n in enumerate(planets.every()):
        if tier == "thorough" or i % 4 == 1 or n in planets.ODD:
            out.append({"planet": n})
    for j, n in enumerate(("n-n-n-n-n", "lvz-lvz-slow-n-n",
                           "step-disc-grad0-solid-n",
                           "none-const-n-n-fluid")):
        if tier == "thorough" or j < 2:
            for d in SPLITS:
                out.append({"planet": n, "first": d,
                            "length": 3 if tier == "thorough" else 2})
    for n in ("iasp91", "ak135"):
        out.append({"planet": n})
    if tier == "thorough":
        out.append({"planet": "iasp91", "config": "default"})
    return out


def compare(rec, key, m, pl, depths, boundaries):
    branches.check(rec, key, m, pl.rays, set(depths) - set(boundaries))
    if list(m.noDisconDepths) != [d for d in dict.fromkeys(depths)
                                  if d not in boundaries]:
        rec.bad(key, "depths without conversions: %r" % m.noDisconDepths)
    rec.validated += 1


def run(job, rec):
    from taupy.helper_classes import TauModelError
    name = job["planet"]
    m = planets.build(rec, name, job.get("config", "coarse"))
    base = ref.Planet.of(m)
    before = branches.snapshot(m)
    cuts = [b.topDepth for b in m.tauBranches[0]] + [base.R]
    if "first" not in job:
        for h in DEPTHS:
            if h >= base.R:
                continue
            key = "%s/%r" % (name, h)
            out = call(m.depthCorrect, h)
            rec.state((name, (h,)))
            rec.transitions += 1
            rec.case(key, h not in cuts)
            if out.sourceDepth != h or \
                    out.tauBranches[0][out.sourceBranch].topDepth != h:
                rec.bad(key, "source branch %r" % out.sourceBranch)
            compare(rec, key, out, base.at_source(h), [h], cuts)
            if h in cuts and list(out.rayParams) != list(m.rayParams):
                rec.bad(key, "rays changed although the depth is a boundary")
            for b in out.tauBranches[0] + out.tauBranches[1]:
                for c in m.tauBranches[0] + m.tauBranches[1]:
                    if b is c or b.dist is c.dist or b.time is c.time:
                        rec.bad(key, "shares a branch with the model")
            again = call(m.depthCorrect, h)
            if branches.snapshot(again) != branches.snapshot(out):
                rec.bad(key, "second correction differs")
            if h != 0:
                r, e = attempt(out.depthCorrect, h + 1)
                if not isinstance(e, TauModelError):
                    rec.bad(key, "corrected twice: %r" % e)
            if branches.snapshot(m) != before:
                rec.bad(key, "the model was changed")
                return
        r, e = attempt(m.depthCorrect, base.R * 1.01)
        if not isinstance(e, TauModelError):
            rec.bad(name, "source below the centre: %r" % e)
        return
    for n in range(job["length"]):
        for tail in itertools.product(SPLITS, repeat=n):
            seq = (job["first"],) + tail
            key = "%s/%s" % (name, "/".join("%r" % d for d in seq))
            cur, pl = m, base
            steps = []
            for d in seq:
                cur = call(cur.splitBranch, d)
                pl = pl.at_source(d)
                rec.transitions += 1
                rec.state((name, tuple(sorted(set(steps + [d])))))
                steps.append(d)
            rec.case(key, True, {"splits": seq})
            compare(rec, key, cur, pl, seq, cuts)
            h = SPLITS[(SPLITS.index(seq[-1]) + 2) % len(SPLITS)]
            mid = branches.snapshot(cur)
            out = call(cur.depthCorrect, h)
            rec.transitions += 1
            rec.state((name, tuple(sorted(set(seq + (h,)))), "source", h))
            compare(rec, key + "/source", out, pl.at_source(h), seq + (h,),
                    cuts)
            if out.tauBranches[0][out.sourceBranch].topDepth != h:
                rec.bad(key, "source branch %r" % out.sourceBranch)
            if branches.snapshot(cur) != mid or \
                    branches.snapshot(m) != before:
                rec.bad(key, "a model was changed")
                return
