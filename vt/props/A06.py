"""Models in files."""
import os
import pickle
import resource
import signal

from vt import branches, forks, harness as H
from vt import planets
from vt.core import attempt, call, quiet
from vt.props.A02 import facts

LEVEL = "fault_enumeration"
RULE = ("planets x samplings x source depths: what is loaded is what was "
        "saved; a model file that ends at any byte, and writing that fails "
        "after any number of bytes (quick: every 97th), over an old file or "
        "none: such a file is never loaded as a model; all ways to name "
        "input and output; non-trivial: something fails or the model is not "
        "for the surface")
FEW = ["P", "S", "PcP", "PKIKP", "Pn", "Pdiff", "SKS", "pP", "P410s", "2kmps"]


def jobs(tier):
    out = []
    ps = planets.names()
    for i, p in enumerate(ps[::1 if tier == "thorough" else 10] + ["iasp91"]):
        out.append({"do": "trip", "planet": p, "config": (
            "coarse", "noics", "crude", "default")[
                i % (4 if tier == "thorough" else 3)]})
    n = 24
    for i in range(n):
        out.append({"do": "cut", "part": [i, n],
                    "config": "coarse" if tier == "thorough" else "crude"})
        out.append({"do": "fail", "part": [i, n],
                    "step": 13 if tier == "thorough" else 97})
    for i in range(len(MADE)):
        for o in WHERE:
            out.insert(0, {"do": "create", "name": i, "out": o})
    return out


MADE = [("alpha", "n-n-n-n-n"), ("beta.tvel", "none-lvz-slow-n-n"),
        ("g.x.tvel", "step-disc-n-n-n")]
WHERE = ["out", "new/deep", ".", "here", "wrong"]


def same(a, b):
    return repr(branches.snapshot(a)) == repr(branches.snapshot(b))


def trip(job, rec):
    from taupy.TauModelLoader import load
    m = planets.build(rec, job["planet"], job["config"])
    for depth in (0., 10., 410.):
        d = m if depth == 0. else call(m.depthCorrect, depth)
        key = "%s/%s/%r" % (job["planet"], job["config"], depth)
        rec.case(key, depth > 0)
        path = os.path.join(rec.tmp(), "vm_%r.taup" % depth)
        call(d.writeModel, path)
        e = call(load, path)
        if not same(d, e):
            rec.bad(key, "what is loaded is not what was saved")
        if depth == 0.:
            for h, deg in ((0., 33.), (100., 101.), (410., 150.)):
                if forks.difference(facts(H.times(e, FEW, h, deg)),
                                    facts(H.times(m, FEW, h, deg))):
                    rec.bad(key, "times for the depth %r" % h)
        # Saved again, over another model or as what it is.
        for again, what in ((path, "again"), (
                os.path.join(rec.tmp(), "vm_one.taup"), "over another")):
            call(e.writeModel, again)
            if not same(d, call(load, again)):
                rec.bad(key, "what is loaded is not what was saved " + what)


def cut(job, rec):
    from taupy.TauModelLoader import load
    m = planets.build(rec, "n-n-n-n-n", job["config"])
    path = os.path.join(rec.tmp(), "vm_whole.taup")
    call(m.writeModel, path)
    with open(path, "rb") as f:
        whole = f.read()
    i, k = job["part"]
    rec.biggest("bytes", len(whole))
    some = list(range(len(whole)))
    part = os.path.join(rec.tmp(), "vm_part.taup")
    for n in some[i::k]:
        with open(part, "wb") as f:
            f.write(whole[:n])
        rec.case("cut/%d" % n)
        r, e = attempt(load, part)
        if e is None:
            rec.bad("cut/%d" % n, "the first %d bytes of %d are loaded as "
                    "%r" % (n, len(whole), type(r)))


def limited_write(n, f):
    """Files cannot get larger than n bytes."""
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    try:
        with quiet():
            f()
        return None
    except Exception as e:
        return repr(e)


def fail(job, rec):
    from taupy.TauModelLoader import load
    from taupy.TauP_Create import TauP_Create
    m = planets.build(rec, "n-n-n-n-n", "crude")
    old = planets.build(rec, "none-lvz-slow-n-n", "crude")
    path = os.path.join(rec.tmp(), "vm_whole.taup")
    call(m.writeModel, path)
    size = os.path.getsize(path)
    i, k = job["part"]
    sizes = list(range(0, size, job["step"])) + [
        n for n in (1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536,
                    65537, size - 1) if n < size]
    creator = TauP_Create("x", path)
    for n in sorted(set(sizes))[i::k]:
        for over in (False, True):
            for way in ("writeModel", "run"):
                key = "fail/%d/%s/%s" % (n, "over" if over else "new", way)
                if os.path.exists(path):
                    os.remove(path)
                if over:
                    call(old.writeModel, path)

                def write():
                    if way == "writeModel":
                        m.writeModel(path)
                    else:
                        # As the program does it, with a model that was made
                        # before.
                        creator.createTauModel = lambda vMod: m
                        creator.vMod = None
                        creator.run()
                e = forks.child(lambda: limited_write(n, write))
                rec.case(key)
                if e is None and way == "writeModel":
                    rec.bad(key, "no error though only %d bytes of %d can "
                            "be written" % (n, size))
                r, e = attempt(load, path)
                if e is None and not (over and same(r, old)):
                    rec.bad(key, "a model that was not written completely "
                            "is loaded")
                if e is not None and not isinstance(e, Exception):
                    rec.bad(key, repr(e))


def create(job, rec):
    """create_taup_model and what it makes."""
    from taupy.tau import TauPyModel, create_taup_model
    base = rec.tmp()
    inp = os.path.join(base, "in")
    os.makedirs(inp)
    name, planet = MADE[job["name"]]
    stem = name[:-5] if name.endswith(".tvel") else name
    with open(os.path.join(inp, stem + ".tvel"), "w") as f:
        f.write(planets.text_of(planet))
    o = job["out"]
    if o == "wrong":
        wrong(rec, base, inp, planet)
        return
    m = planets.build(rec, planet, "default")
    key = "create/%s/%s" % (o, name)
    rec.case(key)
    if o == "here":
        # In the working directory.
        def here():
            os.chdir(inp)
            with quiet():
                create_taup_model(name, "", "")
                return same(TauPyModel(stem + ".taup").model, m)
        if not forks.child(here):
            rec.bad(key, "another model")
        return
    out = os.path.join(base, o)
    path = os.path.join(out, stem + ".taup")
    if o == "out":
        os.makedirs(out)
        with open(path, "wb") as f:
            f.write(b"something old" * 10 ** 6)
    call(create_taup_model, name, out, inp)
    if not os.path.exists(path):
        rec.bad(key, "there is no %s, but %r" % (
            path, os.listdir(out) if os.path.exists(out) else None))
        return
    t = call(TauPyModel, path)
    if not same(t.model, m):
        rec.bad(key, "another model")
    for h, deg in ((0., 33.), (100., 101.)):
        if forks.difference(facts(call(t.get_travel_times, h, deg, FEW)),
                            facts(H.times(m, FEW, h, deg))):
            rec.bad(key, "other times")


def wrong(rec, base, inp, planet):
    """Input that is no model."""
    from taupy.TauModelLoader import load
    from taupy.tau import create_taup_model
    with open(os.path.join(inp, "bad.tvel"), "w") as f:
        t = planets.text_of(planet)
        i = t.index("660")
        f.write(t[:i] + "abc" + t[i + 3:])
    out = os.path.join(base, "out")
    os.makedirs(out)
    for n in ("bad.taup", "in.taup"):
        with open(os.path.join(out, n), "wb") as f:
            f.write(b"kept")
    before = {n: os.path.getsize(os.path.join(out, n))
              for n in os.listdir(out)}
    for name in ("bad", "bad.tvel", "missing", "missing.tvel", "../in"):
        key = "create/%s/%s" % (planet, name)
        rec.case(key)
        r, e = attempt(create_taup_model, name, out, inp)
        if e is None:
            rec.bad(key, "no error for a file that is no model")
        now = {n: os.path.getsize(os.path.join(out, n))
               for n in os.listdir(out)}
        if now != before:
            rec.bad(key, "files changed: %r, were %r" % (now, before))
    for name in ("nonesuch", os.path.join(base, "nonesuch.taup"), base):
        key = "load/%s/%s" % (planet, os.path.basename(name))
        rec.case(key)
        r, e = attempt(load, name)
        if e is None:
            rec.bad(key, "loads %r" % r)


def run(job, rec):
    forks.load_code()
    {"trip": trip, "cut": cut, "fail": fail, "create": create}[job["do"]](
        job, rec)
