"""
Reference model of the phase nomenclature: what path a phase name describes.

A path is a list of legs (kind, wave, top, bottom) for vt.ref.curve, or None
if the name describes no path for this source depth.  The names understood
here are the well formed ones of the TauP documentation:

  source:  p s (up to the surface)   P S (down)
  mantle:  P S turn, PcS reflect off the core, P^410S reflect off the bottom
           side of a discontinuity, Pv410S off its top side, P410s convert
  core:    K (outer core), I J (inner core), i reflects off the inner core
"""
import re

TOKEN = re.compile(r"(\^|v)(?:[mci]|\d+\.?\d*)|\d+\.?\d*|[PSpsKIJimc]")


class BadName(Exception):
    pass


class Unclear(BadName):
    """The nomenclature does not say whether that is a path."""


def tokens(name):
    out = []
    i = 0
    while i < len(name):
        m = TOKEN.match(name, i)
        if not m:
            raise BadName(name)
        out.append(m.group(0))
        i = m.end()
    return out


def legs(name, planet, discons):
    """
    The legs of the phase. Raises BadName if it is not one of those
    understood here; returns None if there is no such path for the source.
    discons: depths that phases can be reflected or converted at.
    """
    toks = tokens(name)
    if not toks or toks[0] not in "PSps":
        raise BadName(name)
    z, cmb, iocb, R = planet.source, planet.cmb, planet.iocb, planet.R
    wave = {"P": "P", "p": "P", "K": "P", "I": "P",
            "S": "S", "s": "S", "J": "S"}
    out = []

    def depth_of(t):
        if t[0] in "^v":
            t = t[1:]
        if t in "mci":
            return {"m": planet.moho, "c": cmb, "i": iocb}[t]
        d = float(t)
        return min(discons, key=lambda x: (abs(x - d), x))

    # Position and direction of the ray.
    at, down = z, toks[0] in "PS"
    k = 0
    core = "P"      # the profile that is used within the outer core
    while k < len(toks):
        t = toks[k]
        nxt = toks[k + 1] if k + 1 < len(toks) else "END"
        if t in ("p", "s"):
            if down:
                raise BadName(name)
            if nxt == "END" or nxt in ("P", "S"):
                target = 0.
            elif nxt[0] == "^" or nxt[0].isdigit() or nxt == "m":
                target = depth_of(nxt)
            else:
                raise BadName(name)
            if target > at or at == 0 or (target == at and k == 0):
                return None
            if target == at:
                raise Unclear(name)
            out.append(("up", wave[t], target, at))
            at = target
            if nxt in ("P", "S"):
                down = True
            elif nxt == "END":
                pass
            elif nxt[0] == "^":
                down = True
                k += 1
                if k + 1 >= len(toks) or toks[k + 1] not in ("P", "S"):
                    raise BadName(name)
            else:
                # Goes on upwards, whether called p or P.
                k += 1
                if k + 1 >= len(toks) or toks[k + 1] not in (
                        "p", "s", "P", "S"):
                    raise BadName(name)
            k += 1
            continue
        if t in ("P", "S"):
            w = wave[t]
            if nxt == "END" or nxt in ("P", "S"):
                if down:
                    if at >= cmb:
                        return None
                    out.append(("turn", w, at, cmb))
                if at > 0:
                    out.append(("up", w, 0., at))
                at, down = 0., True
            elif nxt in ("c", "K"):
                if not down:
                    raise BadName(name)
                if at >= cmb:
                    return None
                out.append(("down", w, at, cmb))
                at = cmb
                if nxt == "c":
                    down = False
                    k += 1
                    if k + 1 >= len(toks) or toks[k + 1] not in (
                            "P", "S", "p", "s"):
                        raise BadName(name)
                else:
                    core = w
            elif nxt[0] == "v":
                target = depth_of(nxt)
                if not down or target > cmb:
                    raise BadName(name)
                if at >= target:
                    return None
                out.append(("down", w, at, target))
                at, down = target, False
                k += 1
                if k + 1 >= len(toks) or toks[k + 1] not in (
                        "P", "S", "p", "s"):
                    raise BadName(name)
            elif nxt[0] == "^":
                target = depth_of(nxt)
                if target >= cmb:
                    raise BadName(name)
                if down:
                    if at >= cmb:
                        return None
                    if k and (toks[k - 1] == "m" or toks[k - 1][0].isdigit()):
                        raise Unclear(name)
                    if target > at:
                        # Turns below the discontinuity, from above it.
                        out.append(("down", w, at, target))
                        out.append(("turn", w, target, cmb))
                    else:
                        out.append(("turn", w, at, cmb))
                elif target > at:
                    raise BadName(name)
                if target < at:
                    out.append(("up", w, target, at))
                elif not down:
                    raise BadName(name)
                at, down = target, True
                k += 1
                if k + 1 >= len(toks) or toks[k + 1] not in ("P", "S"):
                    raise BadName(name)
            elif nxt[0].isdigit() or nxt == "m":
                target = depth_of(nxt)
                if target >= cmb or k + 2 >= len(toks):
                    raise BadName(name)
                nn = toks[k + 2]
                if not down:
                    if nn not in ("p", "s", "P", "S") or target > at:
                        raise BadName(name)
                    if target == at:
                        raise Unclear(name)
                    out.append(("up", w, target, at))
                    at = target
                elif nn in ("p", "s"):
                    if at > target:
                        out.append(("turn", w, at, cmb))
                        out.append(("up", w, target, at))
                    elif at == target:
                        out.append(("turn", w, at, cmb))
                    else:
                        # Starts above the discontinuity: the turning leg
                        # is crossed by it.
                        out.append(("down", w, at, target))
                        out.append(("turn", w, target, cmb))
                    at, down = target, False
                elif nn in ("P", "S"):
                    if target <= at:
                        return None
                    out.append(("down", w, at, target))
                    at = target
                else:
                    raise BadName(name)
                k += 1
            else:
                raise BadName(name)
            k += 1
            continue
        if t == "K":
            if nxt in ("P", "S"):
                if down:
                    out.append(("turn", core, cmb, iocb))
                else:
                    out.append(("up", core, cmb, iocb))
                at, down = cmb, False
            elif nxt == "K":
                if down:
                    out.append(("turn", core, cmb, iocb))
                else:
                    out.append(("up", core, cmb, iocb))
                at, down = cmb, True
            elif nxt in ("I", "J", "i"):
                if not down:
                    raise BadName(name)
                out.append(("down", core, cmb, iocb))
                at = iocb
                if nxt == "i":
                    down = False
                    k += 1
                    if k + 1 >= len(toks) or toks[k + 1] != "K":
                        raise BadName(name)
            else:
                raise BadName(name)
            k += 1
            continue
        if t in ("I", "J"):
            if t == "J" and not planet.inner_s:
                raise BadName(name)
            if iocb >= R:
                return None
            if nxt in ("I", "J"):
                out.append(("turn", wave[t], iocb, R))
                at, down = iocb, True
            elif nxt == "K":
                out.append(("turn", wave[t], iocb, R))
                at, down = iocb, False
                # K keeps the wave type of the leg before.
                core = wave[t]
            else:
                raise BadName(name)
            k += 1
            continue
        raise BadName(name)
    if at != 0. and not (down and at == 0.):
        raise BadName(name)
    return out


def head_legs(name, planet):
    """
    The legs of a head or diffracted wave: 'along' is the part along the
    boundary. None if there is no such path for the source.
    """
    z = planet.source
    out = []
    rest = name
    if rest[0] in "ps":
        if z == 0:
            return None
        out.append(("up", rest[0].upper(), 0., z))
        rest = rest[1:]
        z = 0.
    w = rest[0]
    d = planet.cmb if rest[1:] == "diff" else planet.moho
    if z >= d or rest[1:] not in ("diff", "n"):
        return None
    return out + [("down", w, z, d), ("along", w, d, d), ("up", w, 0., d)]
