"""
Runs one property: enumerates its bounded space of cases completely, in
parallel, and reports what was covered.

A property is a module vt.props.<ID> with

  LEVEL           the level of the evidence (exploration, model_checking, ...)
  RULE            how cases are made and what makes one non-trivial
  jobs(tier)      list of JSON descriptors; each is explored completely by one
                  call of run(job, rec) in a worker process
  run(job, rec)   explores the job; reports through rec (see Rec)

A job that names one single case ('only') is what a replay file holds.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

KNOWN = os.path.join(VERIF, "known_findings.txt")
# A single call of the code under test that takes longer does not terminate:
# the slowest takes a few seconds.
CALL_LIMIT = 240
MAX_REPORT = 20


class Hang(BaseException):
    pass


class CodeError(Exception):
    """The code under test raised something it must not."""

    def __init__(self, text):
        Exception.__init__(self, text)


class Rec(object):
    """Collects what a job explored."""

    def __init__(self, job):
        self.job = job
        self.evaluations = 0
        self.nontrivial = set()
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.violations = []
        self.notes = {}
        self.scratch = None

    def case(self, key, nontrivial=True, sample=None):
        """One evaluated case; key identifies it."""
        self.evaluations += 1
        if nontrivial:
            self.nontrivial.add(digest(key))
        if sample is None and nontrivial and not self.samples:
            sample = str(key)
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def state(self, key):
        """True if the state is new."""
        k = digest(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def biggest(self, name, value):
        name = "max " + name
        self.notes[name] = max(self.notes.get(name, 0), float(value))

    def bad(self, key, what, **detail):
        """A violation; key is the stable identity of the failing case."""
        if len(self.violations) < 200:
            self.violations.append(
                {"key": str(key), "what": str(what)[:2000],
                 "job": self.job, "detail": detail})

    def tmp(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="vt_", dir=BASE[0])
        return self.scratch

    def result(self):
        return dict(evaluations=self.evaluations, nontrivial=self.nontrivial,
                    states=self.states, transitions=self.transitions,
                    validated=self.validated, samples=self.samples,
                    violations=self.violations, notes=self.notes)


BASE = [None]


def digest(key):
    if not isinstance(key, (bytes, str)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(key, digest_size=8).digest()


def _alarm(signum, frame):
    raise Hang()


@contextlib.contextmanager
def limited(seconds=CALL_LIMIT):
    """Ends calls of the code under test that do not return."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    """Swallows what the code under test prints."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


def call(f, *args, **kwargs):
    """
    Calls the code under test where it has to succeed: anything it raises is
    a CodeError, i.e. a violation.
    """
    try:
        with limited(), quiet():
            return f(*args, **kwargs)
    except Hang:
        raise CodeError("did not return within %d s" % CALL_LIMIT)
    except CodeError:
        raise
    except Exception as e:
        raise CodeError(where(e))


def attempt(f, *args, **kwargs):
    """(result, None) or (None, exception): where failing may be right."""
    try:
        with limited(), quiet():
            return f(*args, **kwargs), None
    except Hang:
        raise CodeError("did not return within %d s" % CALL_LIMIT)
    except Exception as e:
        return None, e


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    frames = [f for f in tb if "/taupy/" in f.filename] or list(tb)
    at = "%s:%s" % (os.path.basename(frames[-1].filename), frames[-1].name) \
        if frames else "?"
    return "raised %s(%s) in %s" % (type(e).__name__, str(e)[:200], at)


# What says more about the check or the machine than about the results.
NO_ANSWER = (AttributeError, NameError, ImportError, OSError, MemoryError)


def by_code(e):
    """
    Whether an exception that ends a job is the doing of the code under test:
    raised in it, or because what it gave cannot be used as the results of the
    code as it should be.
    """
    if hasattr(e, "by_code"):
        return e.by_code
    tb = traceback.extract_tb(e.__traceback__)
    if tb and "/taupy/" in tb[-1].filename and "/vt/" not in tb[-1].filename:
        return True
    return not isinstance(e, NO_ANSWER)


# Seconds after which a quick check that found violations does not go on.
ENOUGH = 240.


def _work(arg):
    pid, job = arg
    module = importlib.import_module("vt.props." + pid)
    rec = Rec(job)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        try:
            module.run(job, rec)
        except CodeError as e:
            rec.bad("job:" + json.dumps(job, sort_keys=True), str(e))
        except Exception as e:
            if by_code(e):
                rec.bad("job:" + json.dumps(job, sort_keys=True), where(e))
            else:
                return dict(rec.result(), job=job,
                            error=traceback.format_exc())
        except Hang:
            rec.bad("job:" + json.dumps(job, sort_keys=True), "hangs")
    finally:
        if rec.scratch:
            shutil.rmtree(rec.scratch, ignore_errors=True)
    return rec.result()


def _numbered(arg):
    return arg[0], _work(arg[1:])


def known_keys(pid):
    """Keys of the recorded genuine defects that were not repaired."""
    keys = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    rest = line.split(" key=", 1)[1]
                    key, _, what = rest.partition(" :: ")
                    keys[key.strip()] = what.strip()
    return keys


def main(argv):
    if len(argv) == 2 and argv[0] == "replay":
        return replay(argv[1])
    if len(argv) != 1:
        print("usage: check <property id> | check replay <file>")
        return 2
    return check(argv[0])


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = tempfile.mkdtemp(prefix="vt_%s_" % pid)
    BASE[0] = base
    try:
        try:
            module = importlib.import_module("vt.props." + pid)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if tb and "/taupy/" in tb[-1].filename:
                print("VIOLATION property=%s replay=-" % pid)
                print(where(e))
                return 1
            raise
        jobs = module.jobs(tier)
        results = []
        workers = min(int(os.environ.get("VT_WORKERS", "8")), len(jobs))
        if getattr(module, "SERIAL", False) or workers <= 1:
            for job in jobs:
                results.append(_work((pid, job)))
        else:
            ctx = multiprocessing.get_context("fork")
            with ctx.Pool(workers, maxtasksperchild=getattr(
                    module, "TASKS_PER_CHILD", None)) as pool:
                todo = pool.imap_unordered(
                    _numbered, [(i, pid, j) for i, j in enumerate(jobs)])
                known = known_keys(pid)
                bad, done = False, {}
                while len(done) < len(jobs):
                    try:
                        i, r = todo.next(timeout=5)
                        done[i] = r
                        bad = bad or any(v["key"] not in known
                                         for v in r["violations"])
                    except multiprocessing.TimeoutError:
                        pass
                    # Code that is wrong may be slow as well: enough is known.
                    if bad and tier == "quick" and time.time() - t0 > ENOUGH:
                        print("stopped after %d of %d jobs" % (
                            len(done), len(jobs)))
                        break
                results = [done[i] for i in sorted(done)]
        return report(pid, module, tier, seed, jobs, results, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def report(pid, module, tier, seed, jobs, results, t0):
    errors = [r for r in results if "error" in r]
    tot = Rec(None)
    for r in results:
        tot.evaluations += r["evaluations"]
        tot.nontrivial |= r["nontrivial"]
        tot.states |= r["states"]
        tot.transitions += r["transitions"]
        tot.validated += r["validated"]
        if len(tot.samples) < 6:
            tot.samples += r["samples"][:1]
        tot.violations += r["violations"]
        for k, v in r["notes"].items():
            if k.startswith("max "):
                tot.notes[k] = max(tot.notes.get(k, 0), v)
            else:
                tot.notes[k] = tot.notes.get(k, 0) + v
    if hasattr(module, "finish"):
        module.finish(tier, tot)
    known = known_keys(pid)
    seen_known = set()
    new = []
    for v in tot.violations:
        if v["key"] in known:
            seen_known.add(v["key"])
        else:
            new.append(v)
    for key in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[key], key))
    if errors:
        print("ERROR in the check of %s, job %s" % (pid, errors[0]["job"]))
        print(errors[0]["error"])
    if not new and (errors or tot.evaluations == 0):
        print("ERROR: not everything was explored")
        return 2
    coverage = {
        "evaluations": tot.evaluations,
        "distinct_nontrivial": len(tot.nontrivial),
        "rule": module.RULE,
        "samples": tot.samples or ["none"],
        "jobs": len(jobs),
        "exhaustive": len(results) == len(jobs),
    }
    if module.LEVEL == "model_checking":
        coverage["states"] = len(tot.states)
        coverage["transitions"] = tot.transitions
        coverage["traces_validated_against_impl"] = tot.validated
    if tot.notes:
        coverage["counts"] = tot.notes
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": module.LEVEL,
        "coverage": coverage, "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
        "assumptions": getattr(module, "ASSUMPTIONS", []),
    }
    path = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=str)
    os.replace(path + ".tmp", path)
    print("%s %s: %d cases, %d distinct non-trivial%s, %d jobs, %.1f s" % (
        pid, tier, tot.evaluations, len(tot.nontrivial),
        (", %d states, %d transitions" % (len(tot.states), tot.transitions)
         if module.LEVEL == "model_checking" else ""),
        len(jobs), time.time() - t0))
    for k in sorted(tot.notes):
        print("   %s: %s" % (k, tot.notes[k]))
    if not new:
        return 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(new[:MAX_REPORT]):
        name = "%s_%s.json" % (pid, digest(v["key"]).hex())
        rpath = os.path.join(rdir, name)
        with open(rpath, "w") as f:
            json.dump(dict(v, property=pid), f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (
            pid, os.path.relpath(rpath, VERIF)))
        print("   %s: %s" % (v["key"], v["what"]))
    if len(new) > MAX_REPORT:
        print("   ... and %d more" % (len(new) - MAX_REPORT))
    return 1


def replay(path):
    """Runs the job of a replay file again, reports the same violation."""
    with open(path) as f:
        v = json.load(f)
    pid = v["property"]
    base = tempfile.mkdtemp(prefix="vt_%s_" % pid)
    BASE[0] = base
    try:
        r = _work((pid, v["job"]))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    again = [w for w in r["violations"] if w["key"] == v["key"]]
    if "error" in r and not again:
        print(r["error"])
        return 2
    if again:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   %s: %s" % (again[0]["key"], again[0]["what"]))
        print(json.dumps(again[0]["detail"], default=str, indent=1)[:5000])
        return 1
    print("not reproduced: %s" % v["key"])
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
