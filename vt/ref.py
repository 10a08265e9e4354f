"""
Reference model of the travel time calculation: rays in a sphere whose
slowness is p = A r^B between given samples.

Written from the physics (Buland and Chapman 1983): Snell's law in a sphere,
the integrals of a Bullen layer, and the branches of a phase as legs through
depth zones.  It shares no code with the implementation and knows nothing of
its tau branches, critical depths or high slowness zones: whether a ray gets
somewhere is decided by looking at every layer on its way.
"""
import math

import numpy as np

INF = float("inf")


class Layers(object):
    """
    The slowness of one wave type: layers from the surface to the centre, in
    order, each with depth and slowness at its top and bottom.
    """

    def __init__(self, R, td, bd, tp, bp):
        self.R = R
        self.td = np.array(td, float)
        self.bd = np.array(bd, float)
        self.tp = np.array(tp, float)
        self.bp = np.array(bp, float)

    @classmethod
    def of(cls, R, layers):
        return cls(R, [l.topDepth for l in layers],
                   [l.botDepth for l in layers], [l.topP for l in layers],
                   [l.botP for l in layers])

    def at(self, i, depth):
        """Slowness at a depth within layer i."""
        return bullen_at(self.R, self.td[i], self.bd[i], self.tp[i],
                         self.bp[i], depth)

    def above(self, depth):
        """Slowness just above the depth."""
        for i in range(len(self.td)):
            if self.td[i] < depth <= self.bd[i]:
                return self.at(i, depth)
        return self.tp[0]

    def below(self, depth):
        """Slowness just below the depth."""
        for i in range(len(self.td)):
            if self.td[i] <= depth < self.bd[i]:
                return self.at(i, depth)
        return self.bp[-1]

    def split(self, depth):
        """With a boundary at the depth."""
        if depth <= 0 or depth >= self.R:
            return self
        near = (np.abs(self.td - depth) < 1e-6) & (self.td != depth)
        if near.any():
            # A sample at the depth but for rounding is moved there.
            return Layers(self.R, np.where(near, depth, self.td),
                          np.where(np.abs(self.bd - depth) < 1e-6, depth,
                                   self.bd), self.tp, self.bp)
        td, bd, tp, bp = [], [], [], []
        for i in range(len(self.td)):
            if self.td[i] < depth < self.bd[i]:
                u = self.at(i, depth)
                td += [self.td[i], depth]
                bd += [depth, self.bd[i]]
                tp += [self.tp[i], u]
                bp += [u, self.bp[i]]
            else:
                td.append(self.td[i])
                bd.append(self.bd[i])
                tp.append(self.tp[i])
                bp.append(self.bp[i])
        return Layers(self.R, td, bd, tp, bp)

    def zone(self, a, b):
        """Indices of the layers of the zone, outer boundaries excluded."""
        thick = np.where((self.td >= a) & (self.bd <= b)
                         & (self.bd > self.td))[0]
        if len(thick) == 0:
            return range(0)
        return range(thick[0], thick[-1] + 1)

    def min_in(self, a, b):
        if not hasattr(self, "_min"):
            self._min = {}
        if (a, b) not in self._min:
            z = self.zone(a, b)
            self._min[a, b] = min(min(self.tp[i], self.bp[i]) for i in z)
        return self._min[a, b]

    def max_in(self, a, b):
        z = self.zone(a, b)
        return max(max(self.tp[i], self.bp[i]) for i in z)

    def integrals(self, ps):
        """
        (X, T) of shape (rays, layers): distance and time of one crossing of
        each layer, or, where the ray turns within the layer, from its top to
        the turning point.
        """
        p = np.asarray(ps, float)[:, None]
        R = self.R
        with np.errstate(all="ignore"):
            rt, rb = R - self.td, R - self.bd
            B = np.log(self.tp / self.bp) / np.log(rt / rb)
            B = np.where(rb == 0, 1., B)
            ub = np.maximum(self.bp, np.minimum(p, self.tp))
            ct = np.sqrt(np.maximum(self.tp ** 2 - p ** 2, 0))
            cb = np.sqrt(np.maximum(ub ** 2 - p ** 2, 0))
            at = np.arctan2(ct, p)
            ab = np.arctan2(cb, p)
            X = (at - ab) / B
            T = (ct - cb) / B
            # Centre of the Earth.
            vert = (rb == 0) & (p == 0)
            X = np.where(vert, math.pi / 2, X)
            T = np.where(vert, self.tp + 0 * p, T)
            # Constant slowness.
            flat = (self.tp == self.bp) & (rb != 0)
            X = np.where(flat, p / ct * np.log(rt / rb), X)
            T = np.where(flat, self.tp ** 2 / ct * np.log(rt / rb), T)
        thin = (self.td == self.bd) | (p > self.tp)
        X = np.where(thin, 0., X)
        T = np.where(thin, 0., T)
        return X, T


def bullen_at(R, td, bd, tp, bp, depth):
    if depth == td:
        return tp
    if depth == bd or bp == tp or bd - td < 1e-9:
        return bp
    if bd == R:
        return tp * (R - depth) / (R - td)
    B = math.log(tp / bp) / math.log((R - td) / (R - bd))
    return tp * ((R - depth) / (R - td)) ** B


def bullen_depth(R, td, bd, tp, bp, p):
    """Depth in the layer where the slowness is p."""
    if p == tp:
        return td
    if p == bp:
        return bd
    if bd == R:
        return R - (R - td) * p / tp
    B = math.log(tp / bp) / math.log((R - td) / (R - bd))
    return R - (R - td) * (p / tp) ** (1 / B)


class Planet(object):
    """
    The two slowness profiles, the boundaries with names, and the rays that
    are sampled, for one source depth.
    """

    def __init__(self, R, P, S, moho, cmb, iocb, fluids, inner_s=True):
        self.R, self.moho, self.cmb, self.iocb = R, moho, cmb, iocb
        self.prof = {"P": P, "S": S}
        self.fluids = fluids
        self.inner_s = inner_s
        self.source = 0.
        self.rays = record_lows(S)

    @classmethod
    def of(cls, tMod):
        """From the slowness samples of a model for a surface source."""
        s = tMod.sMod
        R = s.radiusOfEarth
        return cls(R, Layers.of(R, s.PLayers), Layers.of(R, s.SLayers),
                   tMod.mohoDepth, tMod.cmbDepth, tMod.iocbDepth,
                   [(f.topDepth, f.botDepth) for f in s.fluidLayerDepths],
                   s.allowInnerCoreS)

    def at_source(self, depth):
        """For another source depth, where the slowness is sampled too."""
        out = Planet.__new__(Planet)
        out.__dict__.update(self.__dict__)
        out.source = float(depth)
        out.prof = {w: l.split(depth) for w, l in self.prof.items()}
        rays = list(self.rays)
        if depth > 0:
            for w in "PS":
                u = float(out.prof[w].above(depth))
                free = u <= out.prof[w].min_in(0, depth) and \
                    u <= self.rays[0]
                on_boundary = any(depth == d for d in self.prof[w].td)
                if free and not on_boundary and \
                        min(abs(u - r) for r in rays) > 1e-11 * u:
                    rays.append(u)
        out.rays = sorted(rays, reverse=True)
        out._int = {w: l.integrals(out.rays) for w, l in out.prof.items()}
        return out

    def tables(self):
        if not hasattr(self, "_int"):
            self._int = {w: l.integrals(self.rays)
                         for w, l in self.prof.items()}
        return self._int


def record_lows(S):
    """
    The ray parameters that turn (or are reflected) somewhere: slownesses
    smaller than any above.
    """
    out = [float(S.tp[0])]
    for t, b in zip(S.tp, S.bp):
        for u in (float(t), float(b)):
            if u < out[-1]:
                out.append(u)
    return out


class Piece(object):
    """A continuous part of the travel time curve."""

    def __init__(self, p, X, T):
        self.p, self.X, self.T = p, X, T


def curve(planet, legs):
    """
    The travel time curve of the rays that exist on the given legs, as
    pieces: [(kind, wave, top, bottom)], kind one of 'down', 'up' (crossing
    the zone) and 'turn' (from its top to the turning point and back).
    """
    rays = np.array(planet.rays)
    tables = planet.tables()
    ok = np.ones(len(rays), bool)
    X = np.zeros(len(rays))
    T = np.zeros(len(rays))
    # Where a turning leg jumps: ray -> its (X, T) when turning at the upper
    # depth.
    jumps = {}
    for kind, w, a, b in legs:
        lay = planet.prof[w]
        tx, tt = tables[w]
        z = list(lay.zone(a, b))
        if not z:
            return []
        lo, hi = z[0], z[-1] + 1
        if kind in ("down", "up"):
            m = np.minimum(lay.tp[lo:hi], lay.bp[lo:hi]).min()
            ok &= rays <= m
            X += tx[:, lo:hi].sum(1)
            T += tt[:, lo:hi].sum(1)
            continue
        m = np.minimum.accumulate(np.minimum(lay.tp[lo:hi], lay.bp[lo:hi]))
        # A layer is reached if the ray crosses all above.
        reach = np.ones((len(rays), hi - lo), bool)
        reach[:, 1:] = rays[:, None] <= m[None, :-1]
        # Total reflection by a slower boundary above the layer.
        reach &= rays[:, None] <= lay.tp[None, lo:hi]
        X += 2 * (tx[:, lo:hi] * reach).sum(1)
        T += 2 * (tt[:, lo:hi] * reach).sum(1)
        ok &= (rays <= lay.tp[lo]) & (rays >= m[-1])
        # A ray that just grazes the top of a high slowness zone turns there,
        # or crosses the zone and turns at the same slowness deeper.
        for k in range(1, hi - lo):
            u = m[k - 1]
            hit = np.where(rays == u)[0]
            if len(hit) == 0:
                continue
            j = hit[0]
            rises = lay.bp[lo + k] > lay.tp[lo + k] or (
                lay.tp[lo + k] > lay.bp[lo + k - 1])
            if rises and min(lay.tp[lo + k], lay.bp[lo + k]) >= u \
                    and lay.bp[lo + k - 1] == u:
                upper_x = 2 * tx[j, lo:lo + k].sum()
                upper_t = 2 * tt[j, lo:lo + k].sum()
                full_x = 2 * (tx[j, lo:hi] * reach[j]).sum()
                full_t = 2 * (tt[j, lo:hi] * reach[j]).sum()
                dx, dt = jumps.get(j, (0., 0.))
                jumps[j] = (dx + upper_x - full_x, dt + upper_t - full_t)
    sel = np.where(ok)[0]
    if len(sel) == 0:
        return []
    pieces = []
    start = sel[0]
    for j in sorted(jumps):
        if not (ok[j] and sel[0] < j):
            continue
        x, t = X[start:j + 1].copy(), T[start:j + 1].copy()
        x[-1] += jumps[j][0]
        t[-1] += jumps[j][1]
        pieces.append(Piece(rays[start:j + 1], x, t))
        if j == sel[-1]:
            # None turns below the zone.
            return pieces
        start = j
    e = sel[-1] + 1
    pieces.append(Piece(rays[start:e], X[start:e], T[start:e]))
    return pieces


def arrivals(pieces, degrees, near=1e-9):
    """
    [(distance, time, ray parameter, certain)] of all arrivals at the
    distance, any number of laps around the planet: linear interpolation of
    the curve.  Not certain: at a sample where the curve ends or turns back, it
    is up to rounding whether the ray arrives once, twice or not at all.  The
    vertical ray and the one of no length end exactly, though.
    """
    d = abs(math.radians(degrees)) % (2 * math.pi)
    if d > math.pi:
        d = 2 * math.pi - d
    top = max([float(q.X.max()) for q in pieces] or [0])
    targets = []
    n = 0
    while 2 * math.pi * n <= top + 1:
        targets.append(2 * math.pi * n + d)
        if 0 < d < math.pi:
            targets.append(2 * math.pi * (n + 1) - d)
        elif d == 0:
            targets.append(2 * math.pi * (n + 1))
        n += 1
    out = []
    for x in sorted(set(targets)):
        for q in pieces:
            last = len(q.X) - 1
            for i in range(last):
                x0, x1 = float(q.X[i]), float(q.X[i + 1])
                if not min(x0, x1) - near <= x <= max(x0, x1) + near:
                    continue
                certain = True
                if abs(x - x0) <= near:
                    if i and (float(q.X[i - 1]) - x) * (x1 - x) < 0 and abs(
                            float(q.X[i - 1]) - x) > near < abs(x1 - x):
                        # Goes through the sample: counted already.
                        continue
                    certain = not i and x == 0 == x0
                elif abs(x - x1) <= near:
                    if i + 1 < last:
                        y = float(q.X[i + 2]) - x
                        certain = y * (x0 - x) < 0 and abs(y) > near
                    else:
                        certain = q.p[last] == 0
                f = (x - x0) / (x1 - x0) if x1 != x0 else 0.
                f = min(1., max(0., f))
                out.append((x, float(q.T[i] + f * (q.T[i + 1] - q.T[i])),
                            float(q.p[i] + f * (q.p[i + 1] - q.p[i])),
                            bool(certain)))
    return out
