"""Calls of the code under test that several properties share."""
import math

from vt.core import call

# The phases of "ttall" and others, for which vt.phases has a path.
TURNING = ["p", "s", "P", "S", "PP", "SS", "PS", "SP", "PPP", "SSS", "PPS",
           "SPP", "PSP", "pP", "pS", "sP", "sS", "pPP", "sSS", "pSP"]
REFLECTED = ["PcP", "PcS", "ScP", "ScS", "pPcP", "sScS", "sPcP", "ScSScS",
             "PcPPcP", "PcSScP", "ScSP"]
CORE = ["PKP", "PKS", "SKP", "SKS", "PKKP", "SKKS", "PKKS", "SKKP",
        "PKiKP", "SKiKP", "PKiKS", "SKiKS", "PKIKP", "PKIKS", "SKIKP",
        "SKIKS", "PKIKKIKP", "SKIKKIKS", "PKIKKIKS", "SKIKKIKP", "PKIIKP",
        "PKPPKP", "SKSSKS", "PKIKPPKIKP", "SKIKSSKIKS", "pPKP", "sPKP",
        "pPKIKP", "sPKIKP", "pPKiKP", "sPKiKP", "pSKS", "sSKS", "pSKIKS",
        "sSKIKS", "PKKKP", "SKKKS", "PKJKP", "SKJKS", "PKPPcP", "PcPPKP"]
DEPTHS = ["P^410P", "P^660P", "S^410S", "P^410S", "PvmP", "PvmS", "Pv410P",
          "Pv660S", "Sv660P", "P410s", "P660s", "S660p", "P660S", "S410P",
          "P^mP", "S^660P", "p^410P", "s^410S", "pPcS", "Pcs", "Scp",
          "Pv660p", "Pms", "Smp", "PKPPvmP"]
DIFFRACTED = ["Pdiff", "Sdiff", "pPdiff", "sSdiff", "pSdiff", "sPdiff"]
HEAD = ["Pn", "Sn"]
SURFACE = ["2kmps", "3.5kmps"]
ALL = TURNING + REFLECTED + CORE + DEPTHS


def times(model, phases, depth, degrees):
    """The arrivals of a fresh query."""
    from taupy.TauP_Time import TauP_Time
    tt = TauP_Time(model, list(phases), depth, degrees)
    call(tt.run)
    return tt.arrivals


def session(model, phases, depth):
    """A function degrees -> arrivals, for many distances."""
    from taupy.TauP_Time import TauP_Time
    tt = TauP_Time(model, list(phases), depth, 0.)
    call(tt.run)

    def at(degrees):
        call(tt.calcTime, degrees)
        return list(tt.arrivals)
    at.tt = tt
    return at


def facts(a):
    """What a user sees of an arrival."""
    return (a.name, a.time, a.dist, a.rayParam, a.takeoffAngle,
            a.incidentAngle, a.puristName, a.sourceDepth)


def close(a, b, rel=1e-7, ab=1e-7):
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def discontinuities(segs):
    """Depths where either velocity jumps, and the surface."""
    out = [0.]
    for a, b in zip(segs[:-1], segs[1:]):
        if a[3] != b[2] or a[5] != b[4]:
            out.append(a[1])
    return out


def interface(rec, m, name="m"):
    """The high level interface for a model, loaded from a file."""
    import os
    from taupy.tau import TauPyModel
    path = os.path.join(rec.tmp(), "vm_%s.pickle" % name)
    call(m.writeModel, path)
    return call(TauPyModel, path)
