"""Reading of velocity model files."""
import itertools
import os

from vt.core import CodeError, attempt

LEVEL = "exploration"
RULE = ("every sequence of lines, up to a length, over an alphabet of sample, "
        "comment, blank and malformed lines, behind each of several headers; "
        "non-trivial: has a layer, or is malformed")

# Line kinds. Samples continue from the previous depth.
KINDS = "ADFTCBXSQGN"
HEADERS = ["P\nS\n", "# c\n\n", "0 1 0.5 2\n10 1 0.5 2\n", "a # b\r\n1 2\n"]
NAMES = ["planet", "a.b", "x-1_2"]


def jobs(tier):
    n = 5 if tier == "quick" else 6
    return [{"first": a + b, "n": n} for a in KINDS for b in KINDS] + \
        [{"first": "", "n": 1}, {"names": True}]


def render(kinds):
    """(text, samples, well formed) of a sequence of line kinds."""
    depth, v, lines, rows, ok = 0., 5., [], [], True
    for k in kinds:
        v += 0.25
        if k in "AFTN" and rows:
            depth += 12.5
        row = (depth, v, 0. if k == "F" else v / 2, 2. + v / 8)
        if k == "A":
            lines.append("%r %r %r %r" % row)
        elif k == "D":      # the same depth again: a discontinuity
            lines.append("\t%r\t%r   %r %r" % row)
        elif k == "F":      # fluid
            lines.append("  %g %r %r %r  " % row)
        elif k == "T":      # trailing comment
            lines.append("%r %r %r %r # 7 8 9" % row)
        elif k == "N":      # exponents, comment without a space
            lines.append("%e %e %.17e %e#x" % row)
        elif k == "C":
            lines.append("# 1 2 1 4")
        elif k == "B":
            lines.append("  ")
        else:
            ok = False
            if k == "X":
                lines.append("%r abc %r %r" % (depth, v / 2, v))
            elif k == "S":
                lines.append("%r %r %r" % row[:3])
            elif k == "Q":
                lines.append("%r %r %r %r 1.0" % row)
            elif k == "G":  # S faster than P
                lines.append("%r %r %r %r" % (depth, v, v + .1, v))
            rows.append(None)
        if k in "ADFTN":
            rows.append(row)
    return "\n".join(lines) + ("\n" if lines else ""), rows, ok


def check(rec, key, path, text, rows, ok, name):
    from taupy.VelocityModel import VelocityModel
    with open(path, "w", newline="") as f:
        f.write(text)
    vm, err = attempt(VelocityModel.readVelocityFile, path)
    rec.case(key, nontrivial=not ok or len(rows) > 1, sample=text)
    if not ok or not rows:
        if err is None:
            rec.bad(key, "a malformed file was accepted", text=text)
        return
    if err is not None:
        rec.bad(key, "a well formed file was rejected: %r" % err, text=text)
        return
    want = [(a, b) for a, b in zip(rows[:-1], rows[1:]) if a[0] != b[0]]
    got = [((l.topDepth, l.topPVelocity, l.topSVelocity, l.topDensity),
            (l.botDepth, l.botPVelocity, l.botSVelocity, l.botDensity))
           for l in vm.layers]

    def same(x, y):
        return all(abs(p - q) <= 1e-6 * (1 + abs(q)) for p, q in zip(x, y))
    if len(got) != len(want) or not all(
            same(g[0], w[0]) and same(g[1], w[1])
            for g, w in zip(got, want)):
        rec.bad(key, "layers differ from the samples", text=text,
                got=got, want=want)
    elif abs(vm.radiusOfEarth - rows[-1][0]) > 1e-9 or \
            abs(vm.maxRadius - rows[-1][0]) > 1e-9 or vm.minRadius != 0:
        rec.bad(key, "radius %r, deepest sample %r" % (
            vm.radiusOfEarth, rows[-1][0]), text=text)
    elif vm.modelName != name:
        rec.bad(key, "named %r" % vm.modelName, text=text)
    elif len(vm) != len(want) or vm.getNumLayers() != len(want) or \
            [l.layer_number for l in vm.layers] != list(range(len(want))):
        rec.bad(key, "number of layers", text=text)


def run(job, rec):
    from taupy.VelocityModel import VelocityModel
    if job.get("names"):
        text, rows, ok = render("ATDFA")
        for name in NAMES:
            check(rec, "name:" + name,
                  os.path.join(rec.tmp(), name + ".tvel"), HEADERS[0] + text,
                  rows, ok, name)
        for ext in ("", ".nd", ".txt", ".tvel.gz", ".tve"):
            path = os.path.join(rec.tmp(), "planet" + ext)
            with open(path, "w") as f:
                f.write(HEADERS[0] + text)
            vm, err = attempt(VelocityModel.readVelocityFile, path)
            rec.case("ext:" + ext)
            if err is None:
                rec.bad("ext:" + ext, "file of another type accepted")
        vm, err = attempt(VelocityModel.readVelocityFile,
                          os.path.join(rec.tmp(), "none.tvel"))
        rec.case("missing")
        if err is None:
            rec.bad("missing", "missing file accepted")
        for text in ("", "P", "P\nS", "P\nS\n"):
            check(rec, "short:%r" % text,
                  os.path.join(rec.tmp(), "short.tvel"), text, [], True,
                  "short")
        return
    path = os.path.join(rec.tmp(), "planet.tvel")
    rest = job["n"] - len(job["first"])
    for n in range(rest + 1):
        for tail in itertools.product(KINDS, repeat=n):
            kinds = job["first"] + "".join(tail)
            # Behind a malformed line nothing matters any more, except for
            # one more well formed sample.
            text, rows, ok = render(kinds)
            if not ok and sum(k in "XSQG" for k in kinds) > 1:
                continue
            heads = range(len(HEADERS)) if len(kinds) <= 3 else \
                [len(rows) % len(HEADERS)]
            for h in heads:
                check(rec, "%s/%d" % (kinds, h), path, HEADERS[h] + text,
                      rows, ok, "planet")
