"""Lists of phases: groups, unions, repetitions, names that do not exist."""
import itertools

from vt import harness as H
from vt import planets
from vt.core import call

LEVEL = "exploration"
RULE = ("every list of up to 3 (thorough 4) entries of phase names, groups "
        "and names that do not exist, and every spelling of the groups' "
        "names, against the union of what the names give one by one; "
        "non-trivial: there are arrivals of more than one phase")

P = ["p", "P", "Pn", "Pdiff", "PKP", "PKiKP", "PKIKP"]
S = ["s", "S", "Sn", "Sdiff", "SKS", "SKIKS"]
PPLUS = ["PcP", "pP", "pPdiff", "pPKP", "pPKIKP", "pPKiKP", "sP", "sPdiff",
         "sPKP", "sPKIKP", "sPKiKP"]
SPLUS = ["sS", "sSdiff", "sSKS", "sSKIKS", "ScS", "pS", "pSdiff", "pSKS",
         "pSKIKS"]
BASIC = P + S + PPLUS + SPLUS + [
    "ScP", "SKP", "SKIKP", "PKKP", "PKIKKIKP", "SKKP", "SKIKKIKP", "PP",
    "PKPPKP", "PKIKPPKIKP"]
ALL = BASIC + [
    "SKiKP", "PcS", "PKS", "PKIKS", "PKKS", "PKIKKIKS", "SKKS", "SKIKKIKS",
    "SKSSKS", "SKIKSSKIKS", "SS", "SP", "PS"]
GROUPS = {"ttp": P, "tts": S, "ttp+": P + PPLUS, "tts+": S + SPLUS,
          "ttbasic": BASIC, "ttall": ALL}
# For lists of three, in the quick check.
FEW = ["P", "Pdiff", "ttp", "PKI", "p"]
BAD = ["X", "PX", "PKI", "kmps", "tt", "ttx", "Pdif", "-1",
       "P^", "Pv", "Pnn", "diff", "2kmpsP", ""]
ENTRIES = ["P", "S", "p", "PKIKP", "Pdiff", "P^410P", "ttp", "ttall",
           "tts+", "PKI", "XX", "2kmps"]


def jobs(tier):
    out = []
    for n in ("iasp91", "lvz-disc-n-n-n", "n-n-n-solid-fluid"):
        for h in (0., 200.) if n == "iasp91" or tier == "thorough" else (
                33.,):
            for first in ENTRIES:
                out.append({"planet": n, "depth": h, "first": first,
                            "length": 4 if tier == "thorough" else
                            3 if n == "iasp91" and h and
                            first in FEW else 2 if h else 1})
            for g in GROUPS:
                out.append({"planet": n, "depth": h, "group": g,
                            "spellings": tier == "thorough"})
            out.append({"planet": n, "depth": h})
    return out


def expand(entries):
    out = []
    for e in entries:
        for n in GROUPS.get(e.lower(), [e]):
            if n not in out:
                out.append(n)
    return out


def run(job, rec):
    m = planets.build(rec, job["planet"], "coarse")
    model = H.interface(rec, m)
    h = job["depth"]
    tag = "%s/%r" % (job["planet"], h)
    single, sessions = {}, {}
    alone = H.session(m, ["P"], h)
    tt = alone.tt
    distances = (35., 110., 160.)

    def one(n, d):
        if n not in sessions:
            # The phase alone, for the same source.
            tt.phaseList = [n]
            call(tt.run)
            sessions[n] = tt.phases
        if (n, d) not in single:
            tt.phases = sessions[n]
            single[n, d] = [H.facts(a) for a in alone(d)]
            if any(f[0] != n for f in single[n, d]):
                rec.bad("%s/%s" % (tag, n), "arrivals of other phases: %r" %
                        single[n, d])
        return single[n, d]

    def compare(entries, d, what=None):
        given = list(entries)
        got = call(model.get_travel_times, h, d, entries)
        key = "%s/%r/%r" % (tag, what or given, d)
        if list(entries) != given:
            rec.bad(key, "the list was changed to %r" % entries)
        want = [f for n in expand(given) for f in one(n, d)]
        rec.case(key, len({f[0] for f in want}) > 1)
        ts = [a.time for a in got]
        if ts != sorted(ts):
            rec.bad(key, "not sorted by time: %r" % ts)
        mine = sorted(map(H.facts, got))
        if mine != sorted(want):
            rec.bad(key, "phases %r, should be %r" % (
                sorted(set(map(repr, mine)) - set(map(repr, want)))[:3],
                sorted(set(map(repr, want)) - set(map(repr, mine)))[:3])
                if len(mine) == len(set(mine)) else "arrivals repeated")

    if "group" in job:
        g = job["group"]
        letters = [(c.lower(), c.upper()) if c.isalpha() else (c,)
                   for c in g]
        for i, c in enumerate(itertools.product(*letters)):
            c = "".join(c)
            if job["spellings"] or sum(x.isupper() for x in c) in (1, len(
                    g.rstrip("+"))):
                compare([c], distances[i % 3])
        for d in (0., 12., 77., 99., 141., 180.):
            compare([g], d)
        return
    if "first" not in job:
        for n in BAD:
            for d in distances:
                if one(n, d):
                    rec.bad("%s/%s" % (tag, n), "arrivals of an invalid name")
                compare(["S", n, "P"], d)
        for d in distances if tag.startswith("iasp91") else (77.,):
            want = sorted(f for n in ALL for f in one(n, d))
            for empty in ([], None, ()):
                rec.case("%s/%r/%r" % (tag, empty, d))
                for f in (model.get_travel_times, model.get_pierce_points,
                          model.get_ray_paths):
                    got = sorted(map(H.facts, call(f, h, d, empty)))
                    if got != want:
                        rec.bad("%s/%r/%r" % (tag, empty, d),
                                "not the arrivals of all phases")
            if sorted(map(H.facts, call(model.get_travel_times, h, d))) != \
                    want:
                rec.bad("%s/-/%r" % (tag, d), "not those of all phases")
        return
    for n in range(job["length"]):
        for i, tail in enumerate(itertools.product(ENTRIES, repeat=n)):
            names = (job["first"],) + tail
            if n > 1 and ("ttall" in names or n > 2 and
                          sum(t.startswith("tt") for t in names) > 1):
                # Long lists take long; with ttall, pairs.
                continue
            if job["length"] < 4 and n == 2 and not set(names) <= set(FEW):
                continue
            compare([job["first"]] + list(tail), distances[i % 3])
