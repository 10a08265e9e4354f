"""
The alphabet of planets that models are built from, and their construction by
the code under test from the tree in /repo.

A planet is five regions, each with a few shapes: the product is enumerated.
A segment is (top depth, bottom depth, vp top, vp bottom, vs top, vs bottom).
"""
import itertools
import os
import pickle

from vt.core import REPO, call

K = 1 / 1.75

CRUST = {
    "n": [(0, 35, 6., 6.5)],
    "step": [(0, 20, 5.8, 5.8), (20, 35, 6.5, 6.5)],
    "lvz": [(0, 15, 6., 6.2), (15, 35, 5.5, 6.)],
    "none": [(0, 35, 8., 8.05)],
}
UM = {
    "n": [(35, 660, 8.05, 10.)],
    "const": [(35, 660, 8.05, 8.05)],
    "lvz": [(35, 100, 8.1, 8.1), (100, 250, 7.6, 7.8), (250, 660, 8.5, 10.)],
    "disc": [(35, 410, 8.05, 9.), (410, 660, 9.4, 10.2)],
}
LM = {
    "n": [(660, 2889, 10.7, 13.7)],
    "grad0": [(660, 2700, 10.7, 13.6), (2700, 2889, 13.6, 13.6)],
    "slow": [(660, 2700, 10.7, 13.6), (2700, 2889, 13.6, 13.0)],
}
OC = {
    "n": [(2889, 5153.9, 8., 10.3)],
    "solid": [(2889, 5153.9, 8., 10.3)],
}
IC = {
    "n": [(5153.9, 6371., 11., 11.3)],
    "fluid": [(5153.9, 6371., 10.4, 10.9)],
}
# Shapes that are no part of the product: P and S differ.
EXTRA = {
    "slowp": [(660, 2700, 10.7, 13.6), (2700, 2889, 13.6, 13.0, 7.78, 7.9)],
    "slows": [(660, 2700, 10.7, 13.6), (2700, 2889, 13.6, 13.8, 7.78, 7.3)],
    "lvzp": [(35, 200, 8.1, 8.2), (200, 350, 7.7, 7.9, 4.75, 4.9),
             (350, 660, 8.6, 10.)],
    "lvzs": [(35, 200, 8.1, 8.2), (200, 350, 8.3, 8.5, 4.4, 4.5),
             (350, 660, 8.6, 10.)],
    # A discontinuity near the core.
    "ddash": [(660, 2600, 10.7, 13.3), (2600, 2889, 13.75, 13.8)],
    "ddashs": [(660, 2600, 10.7, 13.3), (2600, 2889, 13.3, 13.8, 7.9, 7.95)],
    # A high slowness zone from the surface on; thin layers.
    "top": [(0, 15, 6., 5.5), (15, 35, 6.3, 6.5)],
    "topin": [(0, 10, 6., 5.8), (10, 35, 5.8, 6.5)],
    "tops": [(0, 10, 6., 6.1, 3.5, 3.3), (10, 35, 6.2, 6.5)],
    "sed": [(0, .5, 2.5, 3.), (.5, 1.25, 4.2, 3.5), (1.25, 1.3, 3.5, 5.5),
            (1.3, 20, 5.6, 6.), (20, 20.05, 6., 5.9), (20.05, 35, 5.9, 6.5)],
    # A fluid layer in the mantle (the planet is refused if it is on top).
    "lake": [(35, 100, 8.05, 8.2), (100, 140, 3., 3.1, 0., 0.),
             (140, 660, 8.6, 10.)],
    # A zone of each wave in the middle of the mantle.
    "zones": [(660, 1200, 10.7, 12.), (1200, 1500, 12., 12.2, 6.3, 6.4),
              (1500, 1900, 12.4, 12.6), (1900, 2200, 12.2, 12.4, 7.2, 7.25),
              (2200, 2889, 13., 13.7, 7.35, 7.7)],
    # Zones that begin where another one ends.
    "twins": [(35, 150, 8.1, 8.2), (150, 250, 7.7, 7.8),
              (250, 350, 8.6, 8.2), (350, 660, 8.6, 10.)],
    "twin": [(35, 150, 8.1, 8.2), (150, 250, 8.8, 7.8),
              (250, 350, 8.9, 8.4), (350, 660, 8.8, 10.)],
}
ODD = ("n-lvzp-zones-n-n", "lvz-lvz-zones-n-n", "lvz-lvzp-slows-n-n",
       "n-twins-zones-n-n", "n-n-ddash-n-n", "lvz-lvzp-ddashs-n-n",
       "lvz-twin-n-n-n", "none-lvzs-zones-n-fluid",
       "n-lvz-slowp-solid-n", "step-lvzp-zones-solid-n", "top-lake-zones-n-n",
       "top-n-n-n-n", "lvz-lake-slow-n-n",
       "topin-lvz-n-n-n", "tops-disc-slow-n-n", "sed-n-grad0-n-n")
# Mantle layers: velocity jump at the top, change of velocity within.
STEPS = {"n": (0., .3), "c": (0., 0.), "l": (0., -.9), "J": (.5, .2),
         "D": (-.6, .1), "L": (-.4, -.5), "h": (0., .9), "F": None, "U": (.6, -1.3),
         # Those of S differ.
         "s": (0., .3, 0., -.5), "r": (0., -.6, 0., -.1)}
FIRST = "ncJlhUsr"

# Planets of other radii; without an inner core; with a deep Moho.
WHOLE = {
    "mars": [(0, 50, 6., 6.3), (50, 1000, 7.7, 8.2), (1000, 1560, 8.9, 9.5),
             (1560, 3390, 5., 6.5, 0., 0.)],
    "moon": [(0, 1, 1., 1.2, .5, .6), (1, 38, 5.5, 6.8),
             (38, 300, 7.7, 7.6, 4.5, 4.4), (300, 1200, 7.7, 8.1),
             (1200, 1400, 7., 7.2, 3.2, 3.3), (1400, 1500, 4.1, 4.2, 0., 0.),
             (1500, 1737, 4.5, 4.6, 2.3, 2.4)],
    "super": [(0, 20, 7., 7.2), (20, 80, 7.8, 7.9), (80, 2800, 9.2, 16.5),
              (2800, 5200, 16.5, 21.), (5200, 8000, 12., 15.5, 0., 0.),
              (8000, 9700, 16., 16.6, 5.5, 5.8)],
}
ODD += tuple(WHOLE)
# Without any discontinuity.
WHOLE["ball"] = [(0, 3000, 6., 10.)]

REGIONS = (CRUST, UM, LM, OC, IC)

# Sampling of the slowness: maximum steps of slowness, depth, range and error.
CONFIGS = {
    "default": {},
    "coarse": dict(max_delta_p=50, max_depth_interval=500,
                   max_range_interval=10, max_interp_error=1.),
    "crude": dict(max_delta_p=200, max_depth_interval=3000,
                  max_range_interval=30, max_interp_error=20.),
    "mid": dict(max_delta_p=25, max_depth_interval=250,
                max_range_interval=5, max_interp_error=.2),
    "fine": dict(max_delta_p=6, max_depth_interval=60,
                 max_range_interval=1.5, max_interp_error=.02),
    "noics": dict(max_delta_p=50, max_depth_interval=500,
                  max_range_interval=10, max_interp_error=1.,
                  allow_inner_core_s=False),
}


def names(crust=None, um=None, lm=None, oc=None, ic=None):
    """All planets with the given shapes (default: all shapes)."""
    sets = [list(r) if s is None else s
            for r, s in zip(REGIONS, (crust, um, lm, oc, ic))]
    return ["-".join(c) for c in itertools.product(*sets)]


def every():
    return names() + list(ODD)


def stack(kinds, crust=True):
    """
    A mantle of layers of 60 km, below 40 km of crust or from the surface on,
    then a planet.
    """
    segs = [(0., 40., 6., 6.4, 6. / 1.75, 6.4 / 1.75)] * crust
    top, v, s = 40. * crust, 6.4, 6.4 / 1.75
    for k in kinds:
        bot = top + 60.
        if k == "F":
            v0, v1 = v, v + .2
            s0 = s1 = 0.
            s += .2 / 1.75
        else:
            c = STEPS[k]
            v0 = v + c[0]
            v1 = v0 + c[1]
            s0 = s + (c[2] if len(c) > 2 else c[0] / 1.75)
            s = s1 = s0 + (c[3] if len(c) > 2 else c[1] / 1.75)
        segs.append((top, bot, v0, v1, s0, s1))
        top, v = bot, v1
    segs += [(top, 2889., 10.5, 13.7, 6., 7.3),
             (2889., 5153.9, 8., 10.3, 0., 0.),
             (5153.9, 6371., 11., 11.3, 3.5, 3.7)]
    return segs


def stacks(n, crust=True):
    """Names of all stacks of up to n layers."""
    return ["%s-%s" % ("stack" if crust else "stack0", a + "".join(t))
            for k in range(n) for a in FIRST
            for t in itertools.product(STEPS, repeat=k)]


def segments(name):
    if name.startswith("stack"):
        w, kinds = name.split("-")
        return stack(kinds, w == "stack")
    if name in WHOLE:
        return [(float(t), float(b), v0, v1) + (tuple(s) or (
            v0 * K, v1 * K)) for t, b, v0, v1, *s in WHOLE[name]]
    shapes = name.split("-")
    out = []
    for i, (shape, region) in enumerate(zip(shapes, REGIONS)):
        fluid = (i == 3 and shape == "n") or (i == 4 and shape == "fluid")
        for t, b, v0, v1, *s in region.get(shape) or EXTRA[shape]:
            s0, s1 = s or (v0 * K, v1 * K)
            out.append((float(t), float(b), v0, v1,
                        0. if fluid else s0, 0. if fluid else s1))
    return out


def tvel_text(segs):
    lines = ["P", "S"]
    for t, b, a0, a1, s0, s1 in segs:
        lines.append("%r %r %r 3.0" % (t, a0, s0))
        lines.append("%r %r %r 3.0" % (b, a1, s1))
    return "\n".join(lines) + "\n"


def rows_of(text):
    """(depth, vp, vs) samples of a tvel file, read independently."""
    rows = []
    for line in text.split("\n")[2:]:
        c = line.split("#")[0].split()
        if c:
            rows.append(tuple(float(x) for x in c[:3]))
    return rows


def segs_of_rows(rows):
    return [(r0[0], r1[0], r0[1], r1[1], r0[2], r1[2])
            for r0, r1 in zip(rows[:-1], rows[1:]) if r0[0] != r1[0]]


def text_of(name):
    if name in ("iasp91", "ak135"):
        with open(os.path.join(REPO, "taupy", "data", name + ".tvel")) as f:
            return f.read()
    return tvel_text(segments(name))


def segs(name):
    return segs_of_rows(rows_of(text_of(name)))


def create(path, out="/nonexistent", **config):
    from taupy.TauP_Create import TauP_Create
    c = TauP_Create(path, out, **config)
    c.loadVMod()
    return c.createTauModel(c.vMod)


def write(rec, text, name="planet"):
    path = os.path.join(rec.tmp(), name + ".tvel")
    with open(path, "w") as f:
        f.write(text)
    return path


def build(rec, name, config="coarse"):
    """The tau model of a planet, built by the code under test."""
    key = name, config
    if key in BUILT:
        # Another job needed this one, which takes long, in this process.
        return pickle.loads(BUILT[key])
    path = write(rec, text_of(name), name)
    m = call(create, path, **CONFIGS[config])
    if name in ("iasp91", "ak135"):
        BUILT[key] = call(pickle.dumps, m, -1)
    return m


BUILT = {}


def velocity(rec, text, name="planet"):
    from taupy.VelocityModel import VelocityModel
    return VelocityModel.readVelocityFile(write(rec, text, name))
