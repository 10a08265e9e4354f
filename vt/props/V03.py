"""Inconsistent velocity models."""
import copy
import itertools
import math

from vt import planets
from vt.core import attempt, call

LEVEL = "fault_enumeration"
RULE = ("every single change, and for the validation alone every pair of "
        "changes, of every field of every layer and of the model to every "
        "value of a small set, on several planets; non-trivial: the change "
        "makes the model inconsistent")
BASES = ["n-n-n-n-n", "lvz-lvz-grad0-n-n", "step-disc-n-n-fluid",
         "n-n-n-solid-n"]
NAN = float("nan")
MODEL = {"radiusOfEarth": [0., -1., -6371.], "mohoDepth": [-1., 3000., 0.],
         "cmbDepth": [0., -5., 20., 6000.], "iocbDepth": [0., -1., 2000.],
         "minRadius": [-1., 7000., 6371., 100.], "maxRadius": [0., -6371.]}
LAYER = {"topDepth": ["+1", "-1", "+1e-6", "-1e-4", "bot", NAN],
         "botDepth": ["+1", "-1", "-1e-6", "+1e-4", "top", NAN],
         "topPVelocity": [0., -1., NAN], "botPVelocity": [0., -1., NAN],
         "topSVelocity": [0., -1., NAN, 1.], "botSVelocity": [0., -1., NAN,
                                                             1.]}


def jobs(tier):
    out = []
    for b in BASES:
        n = len(planets.segments(b))
        out.append({"planet": b, "part": "build"})
        for layer in ["model"] + list(range(n)):
            out.append({"planet": b, "part": "pairs", "with": layer})
    return out


def changes(n):
    out = []
    for f, vals in MODEL.items():
        out += [("model", f, v) for v in vals]
    for i in range(n):
        for f, vals in LAYER.items():
            out += [(i, f, v) for v in vals]
    return out


def apply(vm, change):
    where, field, value = change
    if where == "model":
        setattr(vm, field, value)
        return
    l = vm.layers[where]
    if value == "bot":
        value = l.botDepth
    elif value == "top":
        value = l.topDepth
    elif isinstance(value, str):
        value = getattr(l, field) + float(value)
    setattr(l, field, value)


def consistent(vm):
    """The conditions, apart from NaN and the order of the depths."""
    if not (vm.radiusOfEarth > 0 and vm.mohoDepth >= 0
            and vm.cmbDepth >= vm.mohoDepth and vm.cmbDepth > 0
            and vm.iocbDepth >= vm.cmbDepth and vm.iocbDepth > 0
            and vm.minRadius >= 0 and vm.maxRadius > 0
            and vm.maxRadius > vm.minRadius):
        return False
    for a, b in zip(vm.layers[:-1], vm.layers[1:]):
        if a.botDepth != b.topDepth:
            return False
    for l in vm.layers:
        if l.topDepth == l.botDepth or l.topPVelocity <= 0 or \
                l.botPVelocity <= 0 or l.topSVelocity < 0 or \
                l.botSVelocity < 0 or \
                (l.topSVelocity == 0) != (l.botSVelocity == 0):
            return False
    return True


def sound(vm):
    """Whether a travel time model can be made of it."""
    if not consistent(vm) or vm.layers[0].topDepth != 0 or \
            vm.layers[0].topSVelocity == 0:
        return False
    for l in vm.layers:
        if any(math.isnan(x) for x in (
                l.topDepth, l.botDepth, l.topPVelocity, l.botPVelocity,
                l.topSVelocity, l.botSVelocity)):
            return False
        if l.topDepth >= l.botDepth or l.botDepth > vm.radiusOfEarth:
            return False
    return vm.layers[-1].botDepth == vm.radiusOfEarth


def has_nan(c):
    return isinstance(c[2], float) and math.isnan(c[2])


def run(job, rec):
    from taupy.TauP_Create import TauP_Create
    name = job["planet"]
    base = call(planets.velocity, rec, planets.text_of(name))
    every = changes(len(base.layers))
    if job["part"] == "pairs":
        for c in every:
            if c[0] != job["with"] or has_nan(c):
                continue
            for d in [None] + every:
                if d is not None and (has_nan(d) or d[:2] == c[:2]):
                    continue
                vm = copy.deepcopy(base)
                apply(vm, c)
                if d is not None:
                    apply(vm, d)
                want = consistent(vm)
                got, err = attempt(vm.validate)
                key = "%s/%r/%r" % (name, c, d)
                rec.case(key, not want, {"changes": [c, d], "valid": want})
                if err is not None or bool(got) != want:
                    rec.bad(key, "valid: %r (%r), should be %r" % (
                        got, err, want))
        return
    for c in [None] + every:
        vm = copy.deepcopy(base)
        if c is not None:
            apply(vm, c)
        want = sound(vm)
        maker = TauP_Create("x.tvel", "x.taup", **planets.CONFIGS["coarse"])
        got, err = attempt(maker.createTauModel, vm)
        key = "build/%s/%r" % (name, c)
        rec.case(key, not want, {"change": c, "sound": want})
        if want and err is not None and (c is None):
            rec.bad(key, "the model cannot be built: %r" % err)
        if not want and err is None:
            rec.bad(key, "a travel time model of an inconsistent model")
    if job["planet"] == BASES[0]:
        flat = copy.deepcopy(base)
        flat.isSpherical = False
        for what, vm in (("flat", flat), ("none", None)):
            got, err = attempt(TauP_Create("x.tvel", "x.taup").createTauModel,
                               vm)
            rec.case("build/" + what)
            if err is None:
                rec.bad("build/" + what, "accepted")
