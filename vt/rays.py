"""The way of a single ray, layer by layer, from the legs of its phase."""
import numpy as np

from vt import ref


def crossings(planet, legs, ps, main=0):
    """
    What the rays ps collect in each layer on the way of the ray ps[main]:
    [(leg, from depth, to depth, X, T)] with X, T one value per ray. None if
    that ray does not exist.
    """
    ps = np.asarray(ps, float)
    out = []
    for n, (kind, w, a, b) in enumerate(legs):
        if kind == "along":
            out.append((n, a, a, np.full(len(ps), np.nan),
                        np.full(len(ps), np.nan)))
            continue
        lay = planet.prof[w]
        z = list(lay.zone(a, b))
        X, T = lay.integrals(ps)
        p = ps[main]
        if kind == "turn":
            low = np.inf
            down = []
            for i in z:
                # Ends where the ray cannot go on.
                if p > lay.tp[i] or p > low:
                    break
                bottom = lay.bd[i]
                if lay.bp[i] < p and lay.bd[i] > lay.td[i]:
                    bottom = ref.bullen_depth(
                        lay.R, lay.td[i], lay.bd[i], lay.tp[i], lay.bp[i], p)
                low = min(low, lay.tp[i], lay.bp[i])
                if lay.bd[i] > lay.td[i]:
                    down.append((i, lay.td[i], bottom))
                if lay.bp[i] < p:
                    break
            for i, t, d in down:
                out.append((n, t, d, X[:, i], T[:, i]))
            for i, t, d in reversed(down):
                out.append((n, d, t, X[:, i], T[:, i]))
            if not down:
                return None
            continue
        for i in (z if kind == "down" else reversed(z)):
            if p > min(lay.tp[i], lay.bp[i]) * (1 + 1e-12):
                return None
            if lay.bd[i] > lay.td[i]:
                t, d = lay.td[i], lay.bd[i]
                if kind == "up":
                    t, d = d, t
                out.append((n, t, d, X[:, i], T[:, i]))
    return out


def path(planet, legs, p, along=0.):
    """
    Points (time, distance, depth) of the ray, at every layer boundary;
    along: distance of each diffraction or refraction.
    """
    c = crossings(planet, legs, [p])
    if c is None:
        return None
    t = x = 0.
    out = [(0., 0., planet.source)]
    for n, a, b, X, T in c:
        if a == b and np.isnan(X[0]):
            x += along
            t += along * p
        else:
            x += float(X[0])
            t += float(T[0])
        out.append((t, x, float(b)))
    return out


def lay_zone(planet, w, a, b):
    if not hasattr(planet, "_zones"):
        planet._zones = {}
    k = (w, a, b)
    if k not in planet._zones:
        planet._zones[k] = planet.prof[w].zone(a, b)
    return planet._zones[k]


def turning_depth(segs, R, wave, top, bottom, p):
    """
    Where the velocity model turns the ray, between two depths it turns
    between according to the slowness samples.
    """
    mid = (top + bottom) / 2
    for t, b, a0, a1, s0, s1 in segs:
        if t <= mid < b:
            v0, v1 = (a0, a1) if wave == "P" or s0 == 0 else (s0, s1)
            g = (v1 - v0) / (b - t)
            d = (R - p * (v0 - g * t)) / (1 + p * g)
            return min(max(d, top), bottom)


def pierce(planet, legs, cuts, p, pa, pb, f, along=0., segs=None):
    """
    Points where the ray enters or leaves the zones between the cuts, or
    turns, as interpolated between the rays pa and pb.
    """
    ps = np.array([pa, pb], float)
    sums = {}
    t = x = 0.
    out = [(0., 0., planet.source)]
    cuts = sorted(cuts)
    zones = list(zip(cuts[:-1], cuts[1:]))

    def add(w, a, b, end):
        nonlocal t, x
        z = lay_zone(planet, w, a, b)
        if w not in sums:
            sums[w] = planet.prof[w].integrals(ps)
        X, T = (q[:, z[0]:z[-1] + 1].sum(1) for q in sums[w])
        x += float(X[0] + f * (X[1] - X[0]))
        t += float(T[0] + f * (T[1] - T[0]))
        out.append((t, x, float(end)))

    for kind, w, a, b in legs:
        lay = planet.prof[w]
        if kind == "along":
            x += along
            t += along * p
            out.append((t, x, float(b)))
            continue
        inside = [z for z in zones if a <= z[0] and z[1] <= b]
        if kind == "down":
            for u, v in inside:
                add(w, u, v, v)
        elif kind == "up":
            for u, v in reversed(inside):
                add(w, u, v, u)
        else:
            done = []
            for u, v in inside:
                z = lay_zone(planet, w, u, v)
                if u > a and pa > lay.min_in(a, u) and \
                        pb >= lay.min_in(a, u) - 1e-9:
                    break
                if u > a and pa > lay.min_in(a, u) or p > lay.tp[z[0]]:
                    # Only the second ray gets there: its share counts.
                    if pb >= lay.tp[z[0]]:
                        break
                done.append((u, v))
                end = u if p > lay.tp[z[0]] else v
                for i in z:
                    if lay.tp[i] >= p > lay.bp[i]:
                        end = turning_depth(segs, planet.R, w, lay.td[i],
                                            lay.bd[i], p)
                add(w, u, v, end)
            for u, v in reversed(done):
                add(w, u, v, u)
    return out
