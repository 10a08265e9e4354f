"""Models that are built one after the other, and in other processes."""
import os
import subprocess
import sys

from vt import branches, forks, harness as H
from vt import planets
from vt.core import REPO, VERIF, attempt, quiet
from vt.props.A02 import facts

LEVEL = "model_checking"
RULE = ("all histories of up to 2 (thorough 3) constructions, failing ones "
        "among them, in one process: every model is the one that is built as "
        "the first of a process; and in processes with other seeds of hashes "
        "and other working directories; states are those of all modules; "
        "non-trivial: not the first construction")
OPS = [["n-n-n-n-n", "coarse"], ["n-lvz-slow-n-n", "coarse"],
       ["n-n-n-n-n", "noics"], ["step-disc-grad0-solid-fluid", "crude"],
       ["n-n-n-n-n", "crude"], ["none-const-n-n-n", "mid"],
       ["malformed", "coarse"], ["gap", "coarse"], ["empty", "coarse"],
       ["debug", "crude"], ["query", "coarse"],
       # One file, with other contents each time.
       ["over", "n-n-n-n-n"], ["over", "step-lvz-n-n-n"]]
FEW = ["P", "S", "PcP", "PKIKP", "Pdiff", "pP"]


def jobs(tier):
    out = [{"first": i, "n": 2 if tier == "quick" else 3}
           for i in range(len(OPS))]
    for p in (["n-lvz-slow-n-n"] if tier == "quick" else
              planets.names()[::15] + ["iasp91"]):
        out.append({"planet": p, "seeds": 3 if tier == "quick" else 8})
    return out


class World(object):
    def __init__(self, rec):
        self.rec, self.paths = rec, {}
        for name, config in OPS:
            base = name if "-" in name else "step-n-n-n-n"
            text = planets.text_of(base)
            if name == "over":
                continue
            if name == "malformed":
                text = text.replace("660", "x660", 1)
            elif name == "gap":
                # Depths that go back.
                text = text.replace("2889.0", "500.0", 1)
            elif name == "empty":
                text = "P\nS\n"
            self.paths[name] = planets.write(rec, text, "p_" + name)
        self.m = planets.build(rec, "none-n-n-n-n", "coarse")
        self.kept = []

    def do(self, op):
        name, config = op
        if name == "over":
            self.paths[name] = planets.write(
                self.rec, planets.text_of(config), "p_over")
            config = "coarse"
        c = dict(planets.CONFIGS[config])
        if name == "debug":
            c["verbose"] = True
        with quiet():
            if name == "query":
                return facts(H.times(self.m, FEW, 100., 60.))
            m, e = attempt(planets.create, self.paths[name], **c)
            if e is not None:
                return type(e).__name__
            self.kept.append((m, what(m)))
            return self.kept[-1][1]


def what(m):
    return repr(branches.snapshot(m))


def walk(world, history, ops, n, want):
    out = []
    for op in ops:
        def one():
            bad = None
            if world.do(op) != want[tuple(op)]:
                bad = "another model or another failure"
            elif any(what(m) != w for m, w in world.kept):
                bad = "a model that was built before changed"
            h = history + [op]
            recs = [(h, forks.state(), bad)]
            if len(h) < n and not bad:
                recs += walk(world, h, OPS, n, want)
            return recs
        out += forks.child(one)
    return out


def run(job, rec):
    if "seeds" in job:
        processes(job, rec)
        return
    forks.load_code()
    world = World(rec)
    want = {tuple(op): forks.child(lambda: world.do(op)) for op in OPS}
    for op in OPS:
        fails = op[0] in ("malformed", "gap", "empty")
        if fails != (isinstance(want[tuple(op)], str) and
                     len(want[tuple(op)]) < 60):
            rec.bad("%r" % op, "gives %.80r" % (want[tuple(op)],))
    rec.state(forks.state())
    for h, s, bad in walk(world, [], [OPS[job["first"]]], job["n"], want):
        key = " > ".join("/".join(o) for o in h)
        rec.case(key, len(h) > 1)
        rec.transitions += 1
        rec.validated += 1
        rec.state(s)
        if bad:
            rec.bad(key, bad)


PROGRAM = """
import sys
sys.path[:0] = [%r, %r]
from vt import branches, harness as H, planets
from vt.core import digest
m = planets.create(sys.argv[1], **planets.CONFIGS["coarse"])
out = [digest(repr(branches.snapshot(m))).hex()]
for h, d in ((0., 33.), (100., 60.), (410., 101.), (10., 150.)):
    for l in (["ttall"], ["P", "S", "P", "ttbasic", "2kmps"]):
        out.append(digest(repr([H.facts(a) for a in H.times(
            m, l, h, d)])).hex())
print("RESULT", *out)
"""


def processes(job, rec):
    path = planets.write(rec, planets.text_of(job["planet"]), "p")
    first = None
    for seed in range(job["seeds"]):
        for cwd in ("/", rec.tmp()):
            env = dict(os.environ, PYTHONHASHSEED=str(seed * 7919))
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            p = subprocess.run(
                [sys.executable, "-c", PROGRAM % (REPO, VERIF), path],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd,
                env=env, timeout=300, text=True)
            line = [l for l in p.stdout.split("\n")
                    if l.startswith("RESULT")]
            key = "%s/%d/%s" % (job["planet"], seed,
                                "/" if cwd == "/" else "tmp")
            rec.case(key, first is not None)
            rec.transitions += 1
            rec.validated += 1
            if p.returncode or not line:
                rec.bad(key, "fails: " + p.stdout[-500:])
                continue
            rec.state(line[0])
            if first is None:
                first = line[0]
            elif line[0] != first:
                rec.bad(key, "another result than in the first process")
