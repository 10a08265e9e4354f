"""The tau branches of a model for a surface source."""
from vt import branches, planets, ref
from vt.core import call
from vt.props.S01 import profile

LEVEL = "exploration"
RULE = ("planets x sampling configurations, every branch of both wave types "
        "with every sampled ray against sums over the slowness layers; "
        "non-trivial: all")


def jobs(tier):
    out = []
    for i, n in enumerate(planets.every()):
        cs = ["coarse"]
        if tier == "thorough":
            cs = ["coarse", "mid", "fine", "noics"]
        elif i % 16 == 3:
            cs = ["coarse", "noics"]
        out += [{"planet": n, "config": c} for c in cs]
    out += [{"planet": n, "config": "coarse"} for n in planets.stacks(
        2 if tier == "quick" else 3)]
    for n in ("iasp91", "ak135"):
        for c in ("coarse", "noics") + ("default", "fine") * (
                tier == "thorough"):
            out.append({"planet": n, "config": c})
    return out


def run(job, rec):
    m = planets.build(rec, job["planet"], job["config"])
    key = "%s/%s" % (job["planet"], job["config"])
    rays = ref.record_lows(ref.Layers.of(m.sMod.radiusOfEarth,
                                         m.sMod.SLayers))
    if m.sourceDepth != 0 or m.sourceBranch != 0 or m.noDisconDepths or \
            m.radiusOfEarth != planets.segs(job["planet"])[-1][1] or \
            not call(m.validate):
        rec.bad(key, "not a model of a surface source")
    branches.check(rec, key, m, rays)
    segs = planets.segs(job["planet"])
    inner = planets.CONFIGS[job["config"]].get("allow_inner_core_s", True)
    for w in "PS":
        for u in ends(profile(segs, w, inner, m.sMod.vMod.iocbDepth),
                      segs[-1][1]):
            near = min(abs(x - u) for x in m.rayParams)
            rec.case("%s/%s/%r" % (key, w, round(u, 6)), True)
            if near > 1e-9 * u:
                rec.bad("%s/%s/%r" % (key, w, round(u, 6)),
                        "%s rays of slowness %r are the last that turn on "
                        "one side of a discontinuity, but none is sampled"
                        % (w, u))


def ends(prof, R):
    """
    The slownesses between two of which all rays turn in one layer, or are
    all reflected at one discontinuity.
    """
    low = R / prof[0][2]
    out = {low}
    for (t, b, v0, v1), (_, _, w, _) in zip(prof[:-1], prof[1:]):
        if (R - b) / v1 < low:
            low = (R - b) / v1
            if v1 != w:
                out.add(low)
        if (R - b) / w < low:
            low = (R - b) / w
            out.add(low)
    return sorted(out)
