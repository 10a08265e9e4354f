"""Which discontinuities are the Moho, the CMB and the IOCB."""
import itertools

from vt import planets
from vt.core import call

LEVEL = "exploration"
RULE = ("every subset, up to a size, of the discontinuities of an alphabet "
        "of depths and kinds on planets of several radii; non-trivial: some "
        "discontinuity")
# Depth and kind of a discontinuity: P, S or both velocities jump, fluid
# begins, fluid ends.
DEPTHS = [3., 17., 34., 38., 90., 99.9, 101., 410., 1500., 2700., 2889., 2950.,
          5000., 5153.9, 5400., 6200.]
KINDS = "PSBFE"
RADII = [6371., 6300., 8000.]


def jobs(tier):
    n = 3 if tier == "quick" else 4
    out = []
    for R in RADII:
        out.append({"R": R, "n": 0, "first": -1})
        for i in range(len(DEPTHS)):
            out.append({"R": R, "n": n, "first": i})
    return out


def planet(R, discons):
    """Segments, or None if the kinds do not fit."""
    vp, vs, fluid, segs, top = 6., 3., False, [], 0.
    for d, k in list(discons) + [(R, None)]:
        s = 0. if fluid else vs
        segs.append((top, d, vp, vp + .5, s, s and s + .25))
        vp += .5
        vs += .25
        if k == "P":
            vp += 1.
        elif k == "S":
            if fluid:
                return None
            vs += .3
        elif k == "B":
            vp += .7
            vs += .2
        elif k == "F":
            if fluid:
                return None
            fluid = True
        elif k == "E":
            if not fluid:
                return None
            fluid = False
        top = d
    return segs


def expected(R, discons):
    def nearest(default, limit, cands, fallback):
        cands = [d for d in cands if abs(default - d) < limit]
        return min(cands, key=lambda d: abs(default - d)) if cands \
            else fallback
    every = [d for d, k in discons]
    solid = [d for d, k in discons if k == "E"]
    moho = nearest(35., 65., every, 0.)
    cmb = nearest(2889., R, every, R)
    iocb = nearest(5153.9, R - 100., solid, R)
    if iocb == cmb:
        iocb = R
    return moho, cmb, iocb


def run(job, rec):
    R = job["R"]
    sets = [()]
    if job["first"] >= 0:
        rest = range(job["first"] + 1, len(DEPTHS))
        sets = [(job["first"],) + c for m in range(job["n"])
                for c in itertools.combinations(rest, m)]
    for idx in sets:
        for kinds in itertools.product(KINDS, repeat=len(idx)):
            discons = [(DEPTHS[i], k) for i, k in zip(idx, kinds)]
            if discons and discons[-1][0] >= R:
                continue
            segs = planet(R, discons)
            if segs is None:
                continue
            want = expected(R, discons)
            key = "%g/%s" % (R, ",".join("%g%s" % d for d in discons))
            vm = call(planets.velocity, rec, planets.tvel_text(segs))
            got = (vm.mohoDepth, vm.cmbDepth, vm.iocbDepth)
            rec.case(key, bool(discons), {"discontinuities": discons,
                                          "boundaries": got})
            if got != want:
                rec.bad(key, "%r, should be %r" % (got, want))
